/* event_add() takes exactly the events that make sense, and a refused one leaves nothing behind */
#include "tag_data.h"
static tag_handle g_h; static int g_type; static int g_isize; static dax_module g_mod; static _dax_event *g_head; static int g_cnt, g_next; static uint16_t g_attr;

/* what the documentation allows */
#define t_any(e) ((e) == EVENT_WRITE || (e) == EVENT_CHANGE || (e) == EVENT_DELETED)
#define t_ok(t, e) (t_any(e) || (((e) == EVENT_SET || (e) == EVENT_RESET) ? (t) == DAX_BOOL : \
    (e) == EVENT_EQUAL ? ((t) != DAX_REAL && (t) != DAX_LREAL && (t) != DAX_BOOL && (t) < DAX_CUSTOM) : \
    ((e) == EVENT_GREATER || (e) == EVENT_LESS || (e) == EVENT_DEADBAND) ? ((t) != DAX_BOOL && (t) < DAX_CUSTOM) : 0))
#define s_ok(h) ((h).count != 0 && ((h).type == DAX_BOOL ? ((h).bit <= 7 && (h).size >= ((uint64_t)(h).bit + (h).count - 1) / 8 + 1) : \
    (g_isize > 0 && !((h).type & DAX_QUEUE) && (h).size == (uint64_t)g_isize * (h).count)))
#define tagq(h) ((_db[(h).index].type & DAX_QUEUE) != 0)
#define tagv(h) ((_db[(h).index].attr & TAG_ATTR_VIRTUAL) != 0)
#define add_ok(h, e) (spec_valid_idx((h).index) && _db[(h).index].data != NULL && !(tagv(h) && !tagq(h)) && \
    (!tagq(h) || ((h).byte == 0 && (e) == EVENT_WRITE && (h).size == (uint32_t)g_tagsize)) && \
    (h).size >= 1 && (h).size <= (uint32_t)g_tagsize && (h).byte <= (uint32_t)g_tagsize - (h).size && t_ok((h).type, e) && \
    ((e) == EVENT_WRITE || (e) == EVENT_DELETED || s_ok(h)))
#define new_ok(h, e) (_db[(h).index].events != g_head && _db[(h).index].events->next == g_head && (_db[(h).index].attr & TAG_ATTR_EVENT) && \
    _db[(h).index].events->byte == (int)(h).byte && _db[(h).index].events->size == (h).size && _db[(h).index].events->bit == (h).bit && \
    _db[(h).index].events->count == (int)(h).count && _db[(h).index].events->datatype == (h).type && _db[(h).index].events->eventtype == (e) && \
    _db[(h).index].events->notify == &g_mod && _db[(h).index].events->options == 0)
#define same(h) (g_mod.event_count == g_cnt && (!spec_valid_idx((h).index) || _db[(h).index].events == g_head))
#define post_add(r, h, e) ((r) >= 0 && add_ok(h, e) ? ((r) == g_next && _db[(h).index].events->id == g_next && _db[(h).index].nextevent == g_next + 1 && new_ok(h, e) && g_mod.event_count == g_cnt + 1) : \
    (same(h) && (add_ok(h, e) ? (r) == ERR_ALLOC : (r) < 0)))
VP_CONTRACT(
int vp_event_add(tag_handle h, int event_type, void *data, dax_module *module)
__CPROVER_requires(module == &g_mod && h.index == g_idx)
__CPROVER_assigns(spec_valid_idx(g_idx): _db[g_idx].events, _db[g_idx].nextevent, _db[g_idx].attr)
__CPROVER_assigns(g_mod.event_count)
__CPROVER_ensures(post_add(__CPROVER_return_value, g_h, g_type));
int vp_set_data(_dax_event *event, tag_index index, void *data)
__CPROVER_requires(__CPROVER_rw_ok(event, sizeof(*event)))
__CPROVER_assigns(event->data, event->test)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == ERR_ALLOC);
)
static void run_type(int idx, tag_type type, int isize) {
    int r; uint8_t thr[8];
    vp_some_tag_at(idx);
    g_h.index = idx; g_h.byte = vp_u32(); g_h.count = vp_u32(); g_h.size = vp_u32(); g_h.bit = vp_u8(); g_h.type = type;
    g_type = vp_int();
    g_isize = isize;
    g_head = NULL;
    if(spec_valid_idx(idx)) {
#ifdef VP_PROOF
        _db[idx].type = vp_u32();         /* maybe a queue */
        _db[idx].attr = vp_u16();         /* maybe virtual */
#endif
        if(vp_u8() & 1) { g_head = malloc(sizeof(_dax_event)); VP_ASSUME(g_head != NULL); }
        _db[idx].events = g_head;
        _db[idx].nextevent = g_next = vp_range(1, 1000000);
        if(g_head) _db[idx].attr |= TAG_ATTR_EVENT;
    }
    g_mod.event_count = g_cnt = vp_range(0, 1000000); g_mod.fd = 5;
    for(int i = 0; i < 8; i++) thr[i] = 0;
    r = event_add(g_h, g_type, thr, &g_mod);
    VP_CHECK(post_add(r, g_h, g_type), "exactly the events that make sense are accepted");
    VP_REACH(r > 0 && (PART == 3 || g_type == EVENT_DEADBAND) && g_head, "accepted");
    VP_REACH(r < 0 && spec_valid_idx(idx), "refused");
}
static void run(int idx) {
    switch(vp_u8() % 16) {
#define TY(n, t, s) case n: run_type(idx, t, s); break;
#if PART == 4
        TY(0, 0x10, 0) TY(1, 0x23, 1) TY(2, 0x35, 4)
#elif PART == 5
        TY(0, 0x14, 2) TY(1, 0x26, 8) TY(2, 0x46, 8)
#elif PART == 1
        TY(0, 0x10, 0) TY(1, 0x03, 1) TY(2, 0x13, 1) TY(3, 0x23, 1) TY(4, 0x04, 2) TY(5, 0x14, 2) TY(6, 0x24, 2) TY(7, 0x05, 4)
#elif PART == 2
        TY(0, 0x15, 4) TY(1, 0x25, 4) TY(2, 0x35, 4) TY(3, 0x06, 8) TY(4, 0x16, 8) TY(5, 0x26, 8) TY(6, 0x36, 8) TY(7, 0x46, 8)
#else
        TY(0, 0x00, -1) TY(1, 0x33, -1) TY(2, DAX_CUSTOM | 7, -1) TY(3, DAX_QUEUE | DAX_INT, 2) TY(4, DAX_QUEUE | DAX_BOOL, 0) TY(5, 0x56, -1)
#endif
    }
}
void h(void) { VP_AT(run); }
