/* event_add() on concrete handles: accepted or refused, and a refused one leaves nothing behind.
 * ITEMS is a list of X(tag type, tag bytes, tag attributes, event, type, count, size, bit, accepted);
 * the position of the handle is arbitrary. */
#include "server.h"
static dax_module g_mod;
static virt_functions g_vf;
static void one(tag_type ttype, int nb, int attr, int ev, tag_type type, int count, int size, int bit, int good) {
    tag_handle hd; uint8_t thr[8]; int r, i, idx, cnt = 0;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    _db[10].type = ttype; _db[10].count = nb; _db[10].attr = attr; _db[10].name = vp_name; _db[10].nextevent = 5;
    _db[10].data = calloc(64, 1); VP_ASSUME(_db[10].data != NULL);
    if(ttype & DAX_QUEUE) { _db[10].count = 1; }
    if(vp_u8() & 1) { _db[10].data = NULL; good = 0; }       /* a deleted tag */
    hd.index = 10; hd.type = type; hd.byte = vp_u32(); hd.bit = bit; hd.count = count; hd.size = size;
    if(vp_u8() & 1) { hd.index = vp_range(-3, -1); good = 0; }
    if(vp_u8() & 1) { hd.index = vp_range(12, 14); good = 0; }
    if(hd.byte > (uint32_t)nb || hd.byte + size > nb) good = 0;
    if((ttype & DAX_QUEUE) && hd.byte) good = 0;
    for(i = 0; i < 8; i++) thr[i] = 1;
    g_mod.fd = 5; g_mod.event_count = 3;
    r = event_add(hd, ev, thr, &g_mod);
    VP_ASSUME(r != ERR_ALLOC);
    if(good) VP_CHECK(r == 5 && g_mod.event_count == 4 && _db[10].events && _db[10].events->id == 5 && _db[10].events->byte == (int)hd.byte && (_db[10].attr & TAG_ATTR_EVENT), "a sensible event is registered");
    else VP_CHECK(r < 0 && g_mod.event_count == 3 && !_db[10].events && !(_db[10].attr & TAG_ATTR_EVENT), "an event that makes no sense is refused and leaves nothing behind");
}
void h(void) {
    int c = vp_u8(), k = 0;
    g_sk = -1;
#define X(...) if(c == k) { one(__VA_ARGS__); VP_REACH(1, "case"); } k++;
    ITEMS
}
