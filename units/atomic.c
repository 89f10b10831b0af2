/* atomic operations; the operand is in the message.  -DOP=... selects the operation, -DBOOLS the BOOL type */
#include "tag_data.h"
static tag_handle g_h; static uint8_t *g_opnd; static uint64_t g_oldval; static int g_vsize;
static uint16_t g_op;
#ifdef VP_NATIVE
#define ret_tag_write(x) 0
#endif
#ifndef BOOLS
#define NBYTES(h) spec_datasize((h).type, (h).count)
#endif
/* the bits of a value of `size` bytes */
static uint64_t load(const uint8_t *p, int size) {
    uint64_t v = 0; int i;
    v = p[0];
    if(size >= 2) v |= (uint64_t)p[1] << 8;
    if(size >= 4) v |= (uint64_t)p[2] << 16 | (uint64_t)p[3] << 24;
    if(size >= 8) v |= (uint64_t)p[4] << 32 | (uint64_t)p[5] << 40 | (uint64_t)p[6] << 48 | (uint64_t)p[7] << 56;
    return v;
}
#define trunc(v, size) ((size) == 8 ? (v) : (v) & (((uint64_t)1 << ((size) * 8)) - 1))
#define is_incdec(op) ((op) == ATOMIC_OP_INC || (op) == ATOMIC_OP_DEC)
#define is_bitop(op) ((op) == ATOMIC_OP_NOT || (op) == ATOMIC_OP_OR || (op) == ATOMIC_OP_AND || (op) == ATOMIC_OP_NOR || (op) == ATOMIC_OP_NAND || (op) == ATOMIC_OP_XOR || (op) == ATOMIC_OP_XNOR)
#define is_real(t) ((t) == DAX_REAL || (t) == DAX_LREAL)
#define bitop(op, a, b) ((uint8_t)((op) == ATOMIC_OP_NOT ? ~(a) : (op) == ATOMIC_OP_OR ? (a) | (b) : (op) == ATOMIC_OP_AND ? (a) & (b) : \
   (op) == ATOMIC_OP_NOR ? ~((a) | (b)) : (op) == ATOMIC_OP_NAND ? ~((a) & (b)) : (op) == ATOMIC_OP_XOR ? (a) ^ (b) : ~((a) ^ (b))))
/* is the operation defined for this handle at all */
#define op_ok(h, op) (is_plain((h).index) && !(_db[(h).index].attr & TAG_ATTR_SPECIAL) && (h).count >= 1 && \
    (h).size <= (uint32_t)g_tagsize && (h).byte <= (uint32_t)g_tagsize - (h).size && \
    ((h).type == DAX_BOOL ? ((h).bit <= 7 && ((uint64_t)(h).bit + (h).count - 1) / 8 + 1 <= (h).size) : \
      (spec_is_base((h).type) && !((h).type & DAX_QUEUE) && (h).size == (uint64_t)g_vsize * (h).count)) && \
    (is_incdec(op) ? ((h).type != DAX_BOOL && (h).count == 1) : (is_bitop(op) && !is_real((h).type))))
/* position of bit g_bit of byte g_k in the BOOL array */
#define bpos(h) (((int64_t)g_k - (h).byte) * 8 + g_bit - (h).bit)
#define bin(h) (bpos(h) >= 0 && bpos(h) < (int64_t)(h).count)
#define kin(h) (g_k >= (int)(h).byte && g_k - (int)(h).byte < (int)(h).size)
#define tbit(k, b) ((_db[g_h.index].data[k] >> (b)) & 1)
#define obit(p) ((g_opnd[(p) / 8] >> ((p) % 8)) & 1)
#ifdef BOOLS
#define done(h, op) (bin(h) ? tbit(g_k, g_bit) == (bitop(op, (g_old >> g_bit) & 1, obit(bpos(h))) & 1) : tbit(g_k, g_bit) == ((g_old >> g_bit) & 1))
#elif defined(INCDEC)
/* the value modulo 2^n, every other byte stays */
#define done(h, op) (kin(h) ? (is_real((h).type) || load(&_db[(h).index].data[(h).byte], g_vsize) == \
     trunc((op) == ATOMIC_OP_INC ? g_oldval + load(g_opnd, g_vsize) : g_oldval - load(g_opnd, g_vsize), g_vsize)) : _db[(h).index].data[g_k] == g_old)
#else
#define done(h, op) (_db[(h).index].data[g_k] == (kin(h) ? bitop(op, g_old, g_opnd[g_k - (h).byte]) : g_old))
#endif
#define kept(h) (!is_plain((h).index) || _db[(h).index].data[g_k] == g_old)
#if defined(ANYOP) || defined(BADOP)
#define post_atomic(r, h, op) ((r) < 0 && kept(h) && g_evchk == 0)
#else
#define post_atomic(r, h, op) (op_ok(h, op) ? ((r) == 0 && done(h, op) && g_evchk == 1 && g_evchk_off == (int)(h).byte && \
        g_evchk_size >= 1 && g_evchk_size <= (int)(h).size && ((h).type == DAX_BOOL || g_evchk_size == (int)(h).size)) : \
        ((r) < 0 && kept(h) && g_evchk == 0))
#endif
VP_CONTRACT(
int vp_atomic(tag_handle h, void *data, uint16_t op)
__CPROVER_requires(h.index == g_idx)
__CPROVER_assigns(is_plain(g_idx): __CPROVER_object_whole(_db[g_idx].data))
__CPROVER_assigns(g_evchk, g_evchk_off, g_evchk_size, g_retained)
__CPROVER_ensures(post_atomic(__CPROVER_return_value, g_h, g_op));
)
VP_CONTRACT(
/* none of the operations may be reached */
int vp_never(tag_handle h, void *data)
__CPROVER_requires(0 == 1) __CPROVER_assigns() __CPROVER_ensures(1);
)
static void run_type(int idx, tag_type type, int vsize) {
    int r;
    vp_some_tag_at(idx);
    g_h.index = idx;
    g_h.byte = vp_u32(); g_h.count = vp_u32(); g_h.size = vp_u32(); g_h.bit = vp_u8();
    g_h.type = type;
    g_vsize = vsize;
    g_op = OP;
#ifdef BADOP
    g_op = vp_u16();
    VP_ASSUME(!is_incdec(g_op) && !is_bitop(g_op));
#endif
#ifdef ANYOP
    g_op = vp_u16();
#endif
    /* the operand is what is behind the header of the message, always `size` bytes */
    VP_ASSUME(g_h.size <= VP_BOUND(VP_N, MSG_DATA_SIZE - 21) || g_h.size > INT_MAX);
    g_opnd = vp_buf(g_h.size > INT_MAX ? 0 : g_h.size);
    g_bit = vp_range(0, 7);
    if(is_plain(idx)) g_w = kin(g_h) ? g_k - (int)g_h.byte : 0;
#ifdef INCDEC
    if(op_ok(g_h, g_op)) g_oldval = load(&_db[idx].data[g_h.byte], g_vsize);
#endif
    VP_ONLY_NATIVE(g_evchk = 1; g_evchk_off = g_h.byte; g_evchk_size = g_h.type == DAX_BOOL ? 1 : g_h.size; if(!op_ok(g_h, g_op)) g_evchk = 0;)
#if defined(ANYOP) || defined(BADOP)
    VP_ONLY_NATIVE(g_evchk = 0;)
#endif
    r = atomic_op(g_h, g_opnd, g_op);
    VP_CHECK(post_atomic(r, g_h, g_op), "an atomic operation computes its result in place and touches nothing else");
#if !defined(BADOP) && !defined(ANYOP)
    VP_REACH(r == 0 && g_h.byte > 2, "carried out");
#endif
    VP_REACH(r < 0 && is_plain(idx), "refused");
}
/* the type is a constant in each run, and which of them runs is arbitrary */
#define TY(t) case 0x##t: run_type(idx, 0x##t, VS); break;
static void run(int idx) {
#ifdef BOOLS
    run_type(idx, DAX_BOOL, 0);
#elif defined(VS)
    switch(vp_u32()) {
#if VS == 1
        TY(3) TY(13) TY(23)
#elif VS == 2
        TY(4) TY(14) TY(24)
#elif VS == 4
        TY(5) TY(15) TY(25) TY(35)
#else
        TY(6) TY(16) TY(26) TY(36) TY(46)
#endif
    }
#else
#ifdef VP_PROOF
    tag_type t = vp_u32();
#ifndef BADOP
    VP_ASSUME(!spec_is_base(t) || (t & DAX_QUEUE));
#endif
    run_type(idx, t, 0);
#elif defined(BADOP)
    if(vp_u8() & 1) run_type(idx, DAX_INT, 2); else run_type(idx, DAX_BOOL, 0);
#else
    switch(vp_u8() % 4) { case 0: run_type(idx, DAX_CUSTOM, 1); break; case 1: run_type(idx, DAX_QUEUE | DAX_DINT, 4); break; case 2: run_type(idx, 0x33, 1); break; default: run_type(idx, 0, 0); }
#endif
#endif
}
void h(void) { VP_AT(run); }
