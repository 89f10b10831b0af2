/* Data mappings.  HANDLES is a list of M(type, item size, count, source byte, source bit, dest byte, dest bit, dest size);
 * a mapping is added, its source is written a few times (any bytes, any range) and the destination is
 * compared with the specification after every step; then it is read back, deleted, and the destination stays. */
#include "server.h"
#ifndef NB
#define NB 5
#endif
static uint8_t want[NB];
static int ibit(const uint8_t *p, int pos) { return (p[pos / 8] >> (pos % 8)) & 1; }
static void mk(int i) {
    _db[i].type = DAX_BYTE; _db[i].count = NB; _db[i].attr = 0; _db[i].name = vp_name; _db[i].nextmap = 3; _db[i].nextevent = 1; _db[i].fd = -1;
    _db[i].data = malloc(NB); VP_ASSUME(_db[i].data != NULL);
    for(int n = 0; n < NB; n++) _db[i].data[n] = vp_u8();
}
static void run(tag_type type, int isize, int count, int sb, int sbit, int db, int dbit, int dsize) {
    tag_handle s, d, s2, d2; int n, id, off, len, step, dup;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    mk(10); mk(11);
    memset(&s, 0, sizeof(s)); memset(&d, 0, sizeof(d));
    s.index = 10; s.type = type; s.byte = sb; s.bit = sbit; s.count = count; s.size = type == DAX_BOOL ? (sbit + count - 1) / 8 + 1 : isize * count;
    d.index = 11; d.type = type; d.byte = db; d.bit = dbit; d.count = count; d.size = dsize;
    for(n = 0; n < NB; n++) want[n] = _db[11].data[n];
    id = map_add(s, d);
    VP_ASSUME(id != ERR_ALLOC);
    VP_CHECK(id >= 0, "a proper mapping is accepted");
    dup = map_add(s, d);
    VP_CHECK(dup == id, "the same mapping again is the same mapping");
    for(step = 0; step < 2; step++) {
        off = vp_range(0, NB - 1); len = vp_range(1, NB);
        VP_ASSUME(off + len <= NB);
        for(n = 0; n < NB; n++) { uint8_t v = vp_u8(); if(n >= off && n < off + len) _db[10].data[n] = v; }
        map_check(10, off, len);
        if(off < sb + (int)s.size && off + len > sb) {
            if(type == DAX_BOOL) {
                for(n = 0; n < count; n++) {
                    int p = db * 8 + dbit + n, v = ibit(_db[10].data, sb * 8 + sbit + n);
                    want[p / 8] = (want[p / 8] & ~(1 << (p % 8))) | (v << (p % 8));
                }
            } else for(n = 0; n < (int)s.size; n++) want[db + n] = _db[10].data[sb + n];
        }
        for(n = 0; n < NB; n++) VP_CHECK(_db[11].data[n] == want[n], "a write of the source puts exactly the mapped bits into the destination");
        VP_REACH(step == 1 && off < sb + (int)s.size && off + len > sb, "hit"); 
#ifdef PARTIAL
        VP_REACH(step == 1 && !(off < sb + (int)s.size && off + len > sb), "no hit");
#endif
    }
    VP_CHECK(map_get(&s2, &d2, 10, id) == 0, "the mapping is found");
    VP_CHECK(s2.index == 10 && s2.byte == s.byte && s2.bit == s.bit && s2.count == s.count && s2.size == s.size && s2.type == s.type, "its source");
    VP_CHECK(d2.index == 11 && d2.byte == d.byte && d2.bit == d.bit && d2.count == d.count && d2.size == d.size && d2.type == d.type, "its destination");
    n = vp_int();
    VP_CHECK(n == id || (map_get(&s2, &d2, 10, n) < 0 && map_del(10, n) < 0), "no other mapping");
    VP_CHECK(map_del(11, id) < 0 && map_del(-1, id) < 0 && map_del(12, id) < 0, "nor of another tag");
    VP_CHECK(_db[10].attr & TAG_ATTR_MAPPING, "the attribute says that there is a mapping");
    if(vp_u8() & 1) {
        VP_CHECK(map_del(10, id) == 0, "the mapping is deleted");
        for(n = 0; n < NB; n++) _db[10].data[n] = vp_u8();
        map_check(10, 0, NB);
        for(n = 0; n < NB; n++) VP_CHECK(_db[11].data[n] == want[n], "a deleted mapping moves nothing");
    } else {
        _db[11].data = NULL;                 /* what a deletion of the destination leaves */
        map_check(10, 0, NB);
    }
    VP_CHECK(_db[10].mappings == NULL && !(_db[10].attr & TAG_ATTR_MAPPING), "the mapping is gone");
}
/* given handles: accepted or refused */
static void given(int si, uint32_t ssize, int di, uint32_t dsize, int dattr, int sattr, tag_type type, int sbit, int dbit, int count, int good) {
    tag_handle s, d; int r;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    mk(10); mk(11);
    _db[10].attr = sattr; _db[11].attr = dattr;
    memset(&s, 0, sizeof(s)); memset(&d, 0, sizeof(d));
    s.index = si; s.type = type; s.byte = vp_u32(); s.bit = sbit; s.count = count; s.size = ssize;
    d.index = di; d.type = type; d.byte = vp_u32(); d.bit = dbit; d.count = count; d.size = dsize;
    if(s.byte > NB - ssize || ssize > NB || d.byte > NB - dsize || dsize > NB) good = 0;
    if(vp_u8() & 1) { _db[10].data = NULL; good = 0; }
    if(vp_u8() & 1) { _db[11].data = NULL; good = 0; }
    r = map_add(s, d);
    VP_ASSUME(r != ERR_ALLOC);
    VP_CHECK(good ? r >= 0 && _db[10].mappings != NULL : r < 0 && _db[10].mappings == NULL && _db[11].mappings == NULL && !(_db[10].attr & TAG_ATTR_MAPPING), "exactly the mappings that fit are accepted");
    VP_REACH(r < 0, "refused");
}
/* two mappings of the same source that differ in one field only, one of them is deleted again */
static int same(tag_handle a, tag_handle b) { return a.index == b.index && a.byte == b.byte && a.bit == b.bit && a.count == b.count && a.size == b.size && a.type == b.type; }
static void two(tag_type t1, int sb1, int sbit1, int c1, int ss1, int db1, int dbit1, int ds1, tag_type t2, int sb2, int sbit2, int c2, int ss2, int db2, int dbit2, int ds2, int first) {
    tag_handle s[2], d[2], s2, d2; int n, id[2], o = !first, pos;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    mk(10); mk(11);
    memset(s, 0, sizeof(s)); memset(d, 0, sizeof(d));
    s[0].index = s[1].index = 10; d[0].index = d[1].index = 11;
    s[0].type = d[0].type = t1; s[0].byte = sb1; s[0].bit = sbit1; s[0].count = d[0].count = c1; s[0].size = ss1; d[0].byte = db1; d[0].bit = dbit1; d[0].size = ds1;
    s[1].type = d[1].type = t2; s[1].byte = sb2; s[1].bit = sbit2; s[1].count = d[1].count = c2; s[1].size = ss2; d[1].byte = db2; d[1].bit = dbit2; d[1].size = ds2;
    for(n = 0; n < 2; n++) { id[n] = map_add(s[n], d[n]); VP_ASSUME(id[n] != ERR_ALLOC); VP_CHECK(id[n] >= 0, "a proper mapping is accepted"); }
    VP_CHECK(id[0] != id[1], "mappings that differ are two mappings");
    for(n = 0; n < 2; n++) VP_CHECK(map_get(&s2, &d2, 10, id[n]) == 0 && same(s2, s[n]) && same(d2, d[n]), "each is found as it was given");
    for(n = 0; n < 2; n++) VP_CHECK(map_add(s[n], d[n]) == id[n], "and is not added twice");
    VP_CHECK(map_del(10, id[first]) == 0 && map_get(&s2, &d2, 10, id[first]) < 0, "one is deleted");
    VP_CHECK(map_get(&s2, &d2, 10, id[o]) == 0 && same(s2, s[o]) && (_db[10].attr & TAG_ATTR_MAPPING), "and the other one stays");
    for(n = 0; n < NB; n++) { want[n] = _db[11].data[n]; _db[10].data[n] = vp_u8(); }
    map_check(10, 0, NB);
    if(s[o].type == DAX_BOOL) for(n = 0; n < (int)s[o].count; n++) { pos = d[o].byte * 8 + d[o].bit + n; want[pos / 8] = (want[pos / 8] & ~(1 << (pos % 8))) | (ibit(_db[10].data, s[o].byte * 8 + s[o].bit + n) << (pos % 8)); }
    else for(n = 0; n < (int)s[o].size; n++) want[d[o].byte + n] = _db[10].data[s[o].byte + n];
    for(n = 0; n < NB; n++) VP_CHECK(_db[11].data[n] == want[n], "the other one moves its data");
}
void h(void) {
    int c = vp_u8(), k = 0;
    g_sk = -1;
#define M(...) if(c == k) { run(__VA_ARGS__); VP_REACH(1, "case"); } k++;
#define G(...) if(c == k) { given(__VA_ARGS__); VP_REACH(1, "case"); } k++;
#define T(...) if(c == k) { two(__VA_ARGS__); VP_REACH(1, "case"); } k++;
    HANDLES
}
