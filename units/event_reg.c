/* The registry of events: four events are registered by two modules on two tags, one operation is
 * carried out, and then both tags are written: exactly the events that have to be there report.  */
#include "server.h"
#define NE 4
static dax_module g_m[2];
static int e_tag[NE], e_mod[NE], e_id[NE], e_live[NE];
static void addone(int i, int tag, int mod) {
    tag_handle hd;
    hd.index = tag; hd.type = DAX_BYTE; hd.byte = 0; hd.bit = 0; hd.count = 4; hd.size = 4;
    e_tag[i] = tag; e_mod[i] = mod; e_live[i] = 1;
    e_id[i] = event_add(hd, EVENT_WRITE, NULL, &g_m[mod]);
    VP_ASSUME(e_id[i] != ERR_ALLOC);
    VP_CHECK(e_id[i] >= 0, "a proper event is accepted");
    for(int j = 0; j < i; j++) VP_CHECK(e_tag[j] != tag || e_id[j] != e_id[i], "no two events of a tag have the same id");
}
static void maketag(int i) {
    _db[i].type = DAX_BYTE; _db[i].count = 4; _db[i].name = vp_name; _db[i].nextevent = 1; _db[i].fd = -1;
    _db[i].data = calloc(4, 1); VP_ASSUME(_db[i].data != NULL);
}
static void expect(void) {
    int n[2] = {0, 0}, t[2] = {0, 0}, i, j;
    for(int tag = 10; tag <= 11; tag++) {
        g_sent = 0;
        event_check(tag, 1, 1);
        int total = 0;
        for(i = 0; i < NE; i++) {
            int hits = 0;
            for(j = 0; j < NE; j++) if(j < g_sent && g_cap[j][1] == (uint32_t)tag && g_cap[j][2] == (uint32_t)e_id[i] && g_capfd[j] == g_m[e_mod[i]].fd) hits++;
            if(e_tag[i] == tag) {
                VP_CHECK(hits == (e_live[i] ? 1 : 0), "every event that is registered reports once, a removed one never");
                total += e_live[i];
            }
        }
        VP_CHECK(g_sent == total, "nobody else is told");
        t[tag - 10] = total;
        VP_CHECK(((_db[tag].attr & TAG_ATTR_EVENT) != 0) == (total != 0), "the attribute says whether a tag has events");
    }
    for(i = 0; i < NE; i++) if(e_live[i]) n[e_mod[i]]++;
    for(i = 0; i < 2; i++) VP_CHECK(g_m[i].event_count == n[i], "the event count of a module");
}
static void ops(void) {
    int i, r, idx, id, who, hit = -1;
    idx = vp_int(); id = vp_int(); who = vp_u8() & 1;
    for(i = 0; i < NE; i++) if(e_tag[i] == idx && e_id[i] == id) hit = i;
#ifdef DELOP
    r = event_del(idx, id, &g_m[who]);
    if(hit >= 0 && e_mod[hit] == who) { VP_CHECK(r == 0, "the owner deletes its event"); e_live[hit] = 0; }
    else VP_CHECK(r < 0, "a deletion of something else is refused");
    VP_REACH(r == ERR_AUTH, "foreign"); VP_REACH(r == 0 && hit == 1, "deleted"); VP_REACH(r < 0 && idx == -1, "bad index");
#elif defined(OPTOP)
    r = event_opt(idx, id, vp_u32() & 3, &g_m[who]);
    VP_CHECK((r == 0) == (hit >= 0 && e_mod[hit] == who), "only the owner sets the options of an event");
    VP_REACH(r == ERR_AUTH, "foreign"); VP_REACH(r == 0, "set"); VP_REACH(r < 0 && idx == -1, "bad index");
#elif defined(CLEANOP)
    events_cleanup(&g_m[who]);
    for(i = 0; i < NE; i++) if(e_mod[i] == who) e_live[i] = 0;
    VP_REACH(g_m[0].event_count == 3 && g_m[1].event_count == 0, "the events of the other module stay");
#endif
}
void h(void) {
    int i;
    _dbsize = _tagnextindex = 12;
    _db = calloc(12, sizeof(_dax_tag_db)); VP_ASSUME(_db != NULL);
    maketag(10); maketag(11);
    for(i = 0; i < 2; i++) { g_m[i].fd = i ? 9 : 5; g_m[i].name = vp_name; g_m[i].event_count = 0; }
    g_sent = 0; g_sk = -1;
    addone(0, 10, 0); addone(1, 10, 1); addone(2, 11, 0); addone(3, 10, 0);
    ops();
    expect();
}
