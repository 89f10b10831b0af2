/* When do events fire.  An event is registered with event_add(), then the tag is written a few times
 * (bytes change, event_check() is told the range) and each time it is compared with what the
 * documentation says.  -DEV=the event type, TYPES=list of RUN(type, count) */
#include "server.h"
#ifndef NB
#define NB 6
#endif
#define NB_                /* bytes of the tag */
#ifndef STEPS
#define STEPS 2
#endif
static dax_module g_mod;
static virt_functions g_dummy;
static uint8_t now[NB];
static int ibit(const uint8_t *p, int pos) { return (p[pos / 8] >> (pos % 8)) & 1; }
static int spec_cmp(tag_type t, const uint8_t *a, const uint8_t *b) {
#define C(T) { T x, y; memcpy(&x, a, sizeof(T)); memcpy(&y, b, sizeof(T)); return x < y ? -1 : x > y ? 1 : 0; }
    switch(t) {
        case DAX_BYTE: C(uint8_t) case DAX_SINT: C(int8_t) case DAX_CHAR: C(int8_t)
        case DAX_WORD: C(uint16_t) case DAX_UINT: C(uint16_t) case DAX_INT: C(int16_t)
        case DAX_DWORD: C(uint32_t) case DAX_UDINT: C(uint32_t) case DAX_DINT: C(int32_t) case DAX_REAL: C(float)
        case DAX_LWORD: C(uint64_t) case DAX_ULINT: C(uint64_t) case DAX_LINT: C(int64_t) case DAX_TIME: C(int64_t) case DAX_LREAL: C(double)
    }
    return 2;
}
/* |a - b| >= d, without an overflow */
static int spec_db(tag_type t, const uint8_t *a, const uint8_t *b, const uint8_t *d) {
#define D(T, W) { T x, y, z; memcpy(&x, a, sizeof(T)); memcpy(&y, b, sizeof(T)); memcpy(&z, d, sizeof(T)); \
    W u = x > y ? (W)x - (W)y : (W)y - (W)x; return z <= 0 || u >= (W)z; }
#define F(T) { T x, y, z; memcpy(&x, a, sizeof(T)); memcpy(&y, b, sizeof(T)); memcpy(&z, d, sizeof(T)); T u = x - y; return (u < 0 ? -u : u) >= z; }
    switch(t) {
        case DAX_BYTE: D(uint8_t, uint64_t) case DAX_SINT: D(int8_t, uint64_t) case DAX_CHAR: D(int8_t, uint64_t)
        case DAX_WORD: D(uint16_t, uint64_t) case DAX_UINT: D(uint16_t, uint64_t) case DAX_INT: D(int16_t, uint64_t)
        case DAX_DWORD: D(uint32_t, uint64_t) case DAX_UDINT: D(uint32_t, uint64_t) case DAX_DINT: D(int32_t, uint64_t) case DAX_REAL: F(float)
        case DAX_LWORD: D(uint64_t, uint64_t) case DAX_ULINT: D(uint64_t, uint64_t) case DAX_LINT: D(int64_t, uint64_t) case DAX_TIME: D(int64_t, uint64_t) case DAX_LREAL: F(double)
    }
    return 0;
}
#define MAXI 20
static void run(tag_type type, int isize, int count, int byte, int bit, int extra) {
    tag_handle hd;
    uint8_t thr[8], last[NB]; int flag[MAXI];
    int i, j, id, step, size, off, len, expect, opt;
    /* the tag */
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    _db[10].type = DAX_BYTE; _db[10].count = NB; _db[10].attr = 0; _db[10].name = vp_name; _db[10].nextevent = 5;
    _db[10].data = malloc(NB); VP_ASSUME(_db[10].data != NULL);
    for(i = 0; i < NB; i++) _db[10].data[i] = now[i] = vp_u8();
    g_mod.fd = vp_range(3, 90);
    g_sent = 0; g_sk = -1;
    /* the event */
    size = type == DAX_BOOL ? (bit + count - 1) / 8 + 1 + extra : isize * count;
    hd.index = 10; hd.type = type; hd.byte = byte; hd.bit = bit; hd.count = count; hd.size = size;
    for(i = 0; i < 8; i++) thr[i] = vp_u8();
    id = event_add(hd, EV, thr, &g_mod);
    VP_ASSUME(id != ERR_ALLOC);
    VP_CHECK(id >= 0, "a proper event is accepted");
    opt = 0;
    if(vp_u8() & 1) { opt = EVENT_OPT_SEND_DATA; VP_CHECK(event_opt(10, id, opt, &g_mod) == 0, "its owner may set the options"); }
    for(i = 0; i < NB; i++) last[i] = now[i];
    for(i = 0; i < count; i++) flag[i] = 0;
    for(step = 0; step < STEPS; step++) {
        off = vp_range(0, NB - 1); len = vp_range(1, NB);
        VP_ASSUME(off + len <= NB);
        for(i = 0; i < NB; i++) { uint8_t v = vp_u8(); if(i >= off && i < off + len) _db[10].data[i] = now[i] = v; }
        g_sent = 0;
        event_check(10, off, len);
        expect = 0;
        if(off < byte + size && off + len > byte) {
            if(EV == EVENT_WRITE) expect = 1;
            else if(type == DAX_BOOL) {
                for(i = 0; i < count; i++) {
                    int b = ibit(now + byte, bit + i);
                    if(EV == EVENT_CHANGE) { if(b != ibit(last + byte, bit + i)) expect = 1; }
                    else {
                        int c = EV == EVENT_SET ? b : !b;
                        if(c && !flag[i]) expect = 1;
                        flag[i] = c;
                    }
                }
            } else for(i = 0; i < count; i++) {
                int p = byte + i * isize;
                if(EV == EVENT_CHANGE) {
                    for(j = p; j < p + isize; j++) if(now[j] != last[j]) expect = 1;
                } else if(off < p + isize && off + len > p) {       /* the item was written */
                    if(EV == EVENT_DEADBAND) {
                        if(spec_db(type, now + p, last + p, thr)) { expect = 1; for(j = p; j < p + isize; j++) last[j] = now[j]; }
                    } else {
                        int c = spec_cmp(type, now + p, thr) == (EV == EVENT_EQUAL ? 0 : EV == EVENT_GREATER ? 1 : -1);
                        if(c && !flag[i]) expect = 1;
                        flag[i] = c;
                    }
                }
            }
        }
        if(EV == EVENT_CHANGE) for(i = 0; i < NB; i++) last[i] = now[i];
        VP_CHECK(g_sent <= 1, "at most one message for an event");
        VP_CHECK(!expect || g_sent == 1, "the event fires");
        VP_CHECK(expect || g_sent == 0, "the event does not fire");
        if(g_sent == 1) {
            VP_CHECK(g_sfd == g_mod.fd, "the module that asked for it is told");
            VP_CHECK((g_wbe(4) & ~(uint32_t)MSG_EVENT) == EV && (g_wbe(4) & MSG_EVENT), "it says which event it was");
            VP_CHECK(g_wbe(8) == 10 && g_wbe(12) == (uint32_t)id, "it names the tag and the event");
            VP_CHECK(g_wlen == (opt ? 16 + (size_t)size : 16), "the size of the message");
            if(opt) for(i = 0; i < size; i++) VP_CHECK(g_wb[16 + i] == now[byte + i], "it carries the data of the event");
        }
        VP_REACH(expect && step == STEPS - 1, "fires");
#if EV != EVENT_WRITE
        VP_REACH(!expect && step == STEPS - 1 && off < byte + size && off + len > byte, "does not fire");
#endif
    }
    for(i = 0; i < NB; i++) VP_CHECK(_db[10].data[i] == now[i], "looking for events changes no data");
}
void h(void) {
    int c = vp_u8(), k = 0;
#define RUN(t, s, ...) if(c == k) { run(t, s, __VA_ARGS__); VP_REACH(1, "case"); } k++;
    TYPES
}
