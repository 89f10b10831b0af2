/* Tag groups.  -DRW: GROUPS is a list of R(index1, byte1, size1, index2, byte2, size2, read only 0/1/2);
 * -DREG: the table of groups of a module: adding and deleting. */
#include "server.h"
#define NB 6
#ifndef MAXC
#define MAXC 14
#endif
#ifdef RW
static dax_module g_mod;
static uint8_t want[2][NB];
static void mk(int i) {
    _db[i].type = DAX_BYTE; _db[i].count = NB; _db[i].attr = 0; _db[i].name = vp_name; _db[i].nextmap = 3; _db[i].nextevent = 1; _db[i].fd = -1;
    _db[i].data = malloc(NB); VP_ASSUME(_db[i].data != NULL);
    for(int n = 0; n < NB; n++) want[i - 10][n] = _db[i].data[n] = vp_u8();
}
static void put(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static int bad(uint32_t idx, uint32_t byte, uint32_t size) { return (idx != 10 && idx != 11) || byte > NB || size > NB - byte || size == 0; }
static void run(uint32_t i1, uint32_t b1, uint32_t s1, uint32_t i2, uint32_t b2, uint32_t s2, int ro) {
    uint8_t hd[42], buff[2 * NB], out[2 * NB]; int n, id, r, e1, e2;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    mk(10); mk(11);
    g_mod.fd = 7; g_mod.groups_size = 0; g_mod.tag_groups = NULL;
    if(ro) {             /* the second tag is read only, owned by somebody else / by this module */
        _db[11].attr |= TAG_ATTR_READONLY;
        if(ro == 2) { _db[11].attr |= TAG_ATTR_OWNED; _db[11].fd = 7; }
    }
    memset(hd, 0, sizeof(hd));
    put(hd, i1); put(hd + 4, b1); put(hd + 9, s1); put(hd + 13, s1); put(hd + 17, DAX_BYTE);
    put(hd + 21, i2); put(hd + 25, b2); put(hd + 30, s2); put(hd + 34, s2); put(hd + 38, DAX_BYTE);
    id = group_add(&g_mod, hd, 2);
    VP_ASSUME(id != ERR_ALLOC);
    VP_CHECK(id >= 0, "a group is added");
    for(n = 0; n < 2 * NB; n++) { buff[n] = vp_u8(); out[n] = 0x5A; }
    e1 = bad(i1, b1, s1) || (ro == 1 && i1 == 11);
    e2 = bad(i2, b2, s2) || (ro == 1 && i2 == 11);
    if(vp_u8() & 1) {
        r = group_write(&g_mod, id, buff);
        if(!e1) for(n = 0; n < (int)s1; n++) want[i1 - 10][b1 + n] = buff[n];
        if(!e1 && !e2) for(n = 0; n < (int)s2; n++) want[i2 - 10][b2 + n] = buff[s1 + n];
        VP_CHECK(e1 || e2 ? r < 0 : r == (int)(s1 + s2), "a group write fails exactly when a member may not be written");
    } else {
        e1 = bad(i1, b1, s1); e2 = bad(i2, b2, s2);
        r = group_read(&g_mod, id, out, 2 * NB);
        VP_CHECK(e1 || e2 ? r < 0 : r == (int)(s1 + s2), "a group read fails exactly when a member does not exist");
        if(r > 0) {
            for(n = 0; n < (int)s1; n++) VP_CHECK(out[n] == want[i1 - 10][b1 + n], "the first member is read");
            for(n = 0; n < (int)s2; n++) VP_CHECK(out[s1 + n] == want[i2 - 10][b2 + n], "the second member is read behind the first one");
            for(n = s1 + s2; n < 2 * NB; n++) VP_CHECK(out[n] == 0x5A, "nothing behind the members");
        }
    }
    for(n = 0; n < NB; n++) VP_CHECK(_db[10].data[n] == want[0][n] && _db[11].data[n] == want[1][n], "exactly the members are written, in their order, up to the first that fails");
    VP_CHECK(group_read(&g_mod, id + 1, out, 2 * NB) < 0 && group_read(&g_mod, 99, out, 2 * NB) < 0 && group_write(&g_mod, id + 1, buff) < 0 && group_write(&g_mod, -1, buff) < 0, "a group that does not exist cannot be used");
    VP_CHECK(group_del(&g_mod, id) == 0, "the group is deleted");
    VP_CHECK(group_read(&g_mod, id, out, 2 * NB) < 0 && group_write(&g_mod, id, buff) < 0, "a deleted group cannot be used");
    n = vp_int();
    VP_CHECK(group_del(&g_mod, n) < 0, "there is no group left");
}
/* many members of one byte */
static void many(int cnt) {
    static uint8_t hd[21 * MAXC], buff[MAXC], out[MAXC]; int n, id, r;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    mk(10); mk(11);
    g_mod.fd = 7; g_mod.groups_size = 0; g_mod.tag_groups = NULL;
    for(n = 0; n < cnt; n++) { put(hd + 21 * n, n & 1 ? 10 : 11); put(hd + 21 * n + 4, (n / 2) % NB); put(hd + 21 * n + 9, 1); put(hd + 21 * n + 13, 1); put(hd + 21 * n + 17, DAX_BYTE); }
    id = group_add(&g_mod, hd, cnt);
    VP_ASSUME(id != ERR_ALLOC);
    VP_CHECK(cnt <= TAG_GROUP_MAX_MEMBERS ? id >= 0 : id < 0, "a group may have up to 150 members");
    if(id < 0) return;
    r = group_read(&g_mod, id, out, MAXC);
    VP_CHECK(r == cnt, "every member is read");
    for(n = 0; n < cnt; n++) VP_CHECK(out[n] == want[n & 1 ? 0 : 1][(n / 2) % NB], "in the order in which they were given");
    for(n = 0; n < cnt; n++) want[n & 1 ? 0 : 1][(n / 2) % NB] = buff[n] = vp_u8();
    r = group_write(&g_mod, id, buff);
    VP_CHECK(r == cnt, "every member is written");
    for(n = 0; n < NB; n++) VP_CHECK(_db[10].data[n] == want[0][n] && _db[11].data[n] == want[1][n], "with its part of the data");
    VP_REACH(r == cnt, "written");
}
void h(void) {
    int c = vp_u8(), k = 0;
    g_sk = -1;
#define R(...) if(c == k) { run(__VA_ARGS__); VP_REACH(1, "case"); } k++;
#define MANY(n) if(c == k) { many(n); VP_REACH(1, "case"); } k++;
    GROUPS
}
#else
#define N TAG_GROUP_START_COUNT
static uint8_t live[N + 1];
void h(void) {
    dax_module *m = calloc(1, sizeof(dax_module)), *o = calloc(1, sizeof(dax_module)); uint8_t hd[21]; int n, id, k, full = 1;
    VP_ASSUME(m != NULL && o != NULL);
    memset(hd, 0, sizeof(hd));
    hd[9] = hd[13] = 1;
    /* any state of the table */
    m->groups_size = N;
    m->tag_groups = malloc(sizeof(tag_group) * N); VP_ASSUME(m->tag_groups != NULL);
    for(n = 0; n < N; n++) {
        live[n] = vp_u8() & 1;
        m->tag_groups[n].flags = live[n] ? GRP_FLAG_NOT_EMPTY : 0;
        m->tag_groups[n].members = NULL;
        if(live[n]) { m->tag_groups[n].members = malloc(sizeof(tag_handle)); VP_ASSUME(m->tag_groups[n].members != NULL); m->tag_groups[n].members[0].byte = n; }
        m->tag_groups[n].count = live[n]; m->tag_groups[n].size = live[n];
        if(!live[n]) full = 0;
    }
    hd[4] = 77;
    id = group_add(m, hd, 1);
    VP_ASSUME(id != ERR_ALLOC);
    VP_CHECK(id >= 0 && id <= N && !live[id] && (id < N || full) && (int)m->groups_size > id, "a new group gets an index that is not in use");
    VP_REACH(id == N, "grows"); VP_REACH(id == 3, "fills a gap");
    k = vp_range(0, N);
    if(k == id) VP_CHECK(m->tag_groups[k].count == 1 && m->tag_groups[k].size == 1 && m->tag_groups[k].members[0].byte == 77 && m->tag_groups[k].flags == GRP_FLAG_NOT_EMPTY, "the new group");
    else if(k < N) {
        if(live[k]) VP_CHECK(m->tag_groups[k].count == 1 && m->tag_groups[k].members[0].byte == (uint32_t)k && m->tag_groups[k].flags == GRP_FLAG_NOT_EMPTY, "the other groups stay as they are");
        else VP_CHECK(m->tag_groups[k].flags == 0, "an empty slot stays empty");
        n = group_del(m, k);
        VP_CHECK((n == 0) == live[k] && m->tag_groups[k].flags == 0, "a group that exists can be deleted");
        VP_CHECK(m->tag_groups[id].flags == GRP_FLAG_NOT_EMPTY && m->tag_groups[id].members[0].byte == 77, "and no other one goes with it");
    }
    VP_CHECK(group_del(o, k) < 0 && group_del(NULL, k) < 0 && group_del(m, -1) < 0 && group_del(m, 2 * N) < 0, "groups belong to their module");
    groups_cleanup(m);
    VP_CHECK(m->groups_size == 0 && m->tag_groups == NULL, "nothing is left after the module has gone");
}
#endif
