/* Given sequences of messages of three modules about mappings, groups, events and atomic operations: the handlers take the
 * fields of the messages apart, act for the module that sent them and answer it.  Module A has descriptor 7, B 8, C 9; 5 is not registered. */
#include "server.h"
#define NB 6
static dax_message m; static dax_module mo[3];
#ifdef VP_NATIVE
#define ALLOC(n) calloc(n, 1)
#else
#define ALLOC(n) vp_palloc(n)
#endif
static uint8_t want[4][NB];
static void mk(int i, uint32_t type, int count) {
    _db[i].type = type; _db[i].count = count; _db[i].name = vp_name; _db[i].nextmap = 3; _db[i].nextevent = 1; _db[i].fd = -1;
    _db[i].attr = 0; _db[i].omask = _db[i].odata = NULL; _db[i].events = NULL; _db[i].mappings = NULL;
    _db[i].data = ALLOC(NB);
    for(int n = 0; n < NB; n++) want[i - 10][n] = _db[i].data[n] = vp_u8();
}
static void setup(void) {
    int i;
    _dbsize = 14; _tagnextindex = 14;
#ifdef VP_NATIVE
    _db = calloc(14, sizeof(_dax_tag_db));
#else
    _db = vp_dbs; vp_pooln = 0;
    for(i = 0; i < 10; i++) { _db[i].data = NULL; _db[i].type = 0; _db[i].count = 0; _db[i].attr = 0; _db[i].events = NULL; _db[i].mappings = NULL; }
#endif
    mk(10, DAX_BYTE, NB); mk(11, DAX_BYTE, NB); mk(12, DAX_UINT, 3); mk(13, DAX_BYTE, NB);
    _db[13].attr = TAG_ATTR_READONLY | TAG_ATTR_OWNED; _db[13].fd = 8;
    for(i = 0; i < 3; i++) { mo[i].fd = 7 + i; mo[i].name = vp_name; mo[i].next = &mo[(i + 1) % 3]; mo[i].prev = &mo[(i + 2) % 3]; mo[i].groups_size = 0; mo[i].tag_groups = NULL; mo[i].event_count = 0; mo[i].tagindex = -1; }
    _current_mod = &mo[0];
    g_sk = -1;
}
#define C(n, f) case n: f(&m); break;
#define CW C(MSG_TAG_WRITE, msg_tag_write) C(MSG_TAG_MWRITE, msg_tag_mask_write)
#ifdef MAPS
#define CALLS CW C(MSG_MAP_ADD, msg_map_add) C(MSG_MAP_DEL, msg_map_del) C(MSG_MAP_GET, msg_map_get)
#elif defined(GROUPS)
#define CALLS CW C(MSG_GRP_ADD, msg_group_add) C(MSG_GRP_DEL, msg_group_del) C(MSG_GRP_READ, msg_group_read) C(MSG_GRP_WRITE, msg_group_write)
#elif defined(EVENTS)
#define CALLS CW C(MSG_EVNT_ADD, msg_evnt_add) C(MSG_EVNT_DEL, msg_evnt_del) C(MSG_EVNT_OPT, msg_evnt_opt)
#else
#define CALLS CW C(MSG_MAP_ADD, msg_map_add) C(MSG_ATOMIC_OP, msg_atomic_op)
#endif
static int at;
static void begin(int fd, int cmd) { m.fd = fd; m.msg_type = cmd; at = 0; g_sent = 0; }
static void p8(int v) { m.data[at++] = v; }
static void p16(int v) { p8(v); p8(v >> 8); }
static void p32(uint32_t v) { p16(v); p16(v >> 16); }
static void hd(int idx, uint32_t byte, int bit, uint32_t count, uint32_t size, uint32_t type) { p32(idx); p32(byte); p8(bit); p32(count); p32(size); p32(type); }
static int ask(void) {      /* 1: answered, 0: an error */
    int i;
    m.size = at;
    for(i = 0; i < 24; i++) m.data[at + i] = 0;      /* the dispatcher clears the rest */
    switch(m.msg_type) { CALLS }
    VP_CHECK(g_sent >= 1 && g_sfd == m.fd && g_scmd == m.msg_type && (g_skind == RESPONSE || g_skind == ERROR), "a message is answered to its sender, at last");
    return g_skind == RESPONSE;
}
static void same(void) { for(int t = 0; t < 4; t++) for(int n = 0; n < NB; n++) VP_CHECK(_db[10 + t].data[n] == want[t][n], "the tags are what they should be"); }
static void wr(int fd, int idx, int off, int n) {      /* n arbitrary bytes */
    begin(fd, MSG_TAG_WRITE); p32(idx); p32(off);
    for(int i = 0; i < n; i++) { uint8_t v = vp_u8(); p8(v); want[idx - 10][off + i] = v; }
    VP_CHECK(ask(), "a write is accepted");
}
#ifdef MAPS
static void go(void) {
    int id, id2, i;
    begin(7, MSG_MAP_ADD); hd(10, 1, 0, 3, 3, DAX_BYTE); hd(11, 2, 0, 3, 3, DAX_BYTE);
    VP_CHECK(ask() && g_ssize == 4, "a mapping is added"); id = g_wle(8);
    begin(8, MSG_MAP_ADD); hd(10, 5, 2, 3, 1, DAX_BOOL); hd(12, 1, 4, 3, 1, DAX_BOOL);
    VP_CHECK(ask() && (id2 = (int)g_wle(8)) >= 0 && id2 != id, "a mapping of bits is added");
    begin(8, MSG_MAP_ADD); hd(10, 1, 0, 3, 3, DAX_BYTE); hd(13, 2, 0, 3, 3, DAX_BYTE);
    VP_CHECK(!ask() && (int)g_wle(8) == ERR_READONLY, "not onto a read-only tag");
    begin(8, MSG_MAP_ADD); hd(10, 4, 0, 3, 3, DAX_BYTE); hd(11, 2, 0, 3, 3, DAX_BYTE);
    VP_CHECK(!ask() && (int)g_wle(8) < 0, "not from outside of the tag");
    wr(9, 10, 0, 3); want[1][2] = want[0][1]; want[1][3] = want[0][2]; want[1][4] = want[0][3]; same();
    wr(9, 10, 5, 1); want[2][1] = (want[2][1] & 0x8F) | (((want[0][5] >> 2) & 7) << 4); same();
    begin(7, MSG_TAG_MWRITE); p32(10); p32(1); p8(0x5A); p8(0xF0); want[0][1] = (want[0][1] & 0x0F) | 0x50; want[1][2] = want[0][1];
    VP_CHECK(ask(), "a masked write is accepted"); same();
    begin(9, MSG_MAP_GET); p32(10); p32(id2);
    VP_CHECK(ask(), "a mapping is fetched");
    VP_CHECK(g_wle(8) == 10 && g_wle(12) == 5 && g_wb[16] == 2 && g_wle(17) == 3 && g_wle(21) == 1 && g_wle(25) == DAX_BOOL, "its source");
    VP_CHECK(g_wle(29) == 12 && g_wle(33) == 1 && g_wb[37] == 4 && g_wle(38) == 3 && g_wle(42) == 1 && g_wle(46) == DAX_BOOL, "its destination");
    begin(9, MSG_MAP_GET); p32(11); p32(id); VP_CHECK(!ask(), "not from another tag");
    begin(9, MSG_MAP_DEL); p32(10); p32(id + id2 + 1); VP_CHECK(!ask(), "a mapping that does not exist is not deleted");
    begin(9, MSG_MAP_DEL); p32(10); p32(id); VP_CHECK(ask(), "a mapping is deleted");
    begin(9, MSG_MAP_GET); p32(10); p32(id); VP_CHECK(!ask(), "and gone");
    wr(9, 10, 0, 6); want[2][1] = (want[2][1] & 0x8F) | (((want[0][5] >> 2) & 7) << 4); same();
}
#elif defined(GROUPS)
static void gadd(int fd, int i1, int b1, int s1, int i2, int b2, int s2) { begin(fd, MSG_GRP_ADD); p8(2); p8(0); hd(i1, b1, 0, s1, s1, DAX_BYTE); hd(i2, b2, 0, s2, s2, DAX_BYTE); }
static void go(void) {
    int a, b, i;
    gadd(7, 10, 1, 2, 12, 0, 3); VP_CHECK(ask(), "a group is added"); a = g_wle(8);
    gadd(7, 11, 0, 1, 10, 4, 2); VP_CHECK(ask() && (b = (int)g_wle(8)) != a, "another one");
    gadd(5, 10, 1, 2, 12, 0, 3); VP_CHECK(!ask(), "not by who is not registered");
    begin(7, MSG_GRP_READ); p32(a); VP_CHECK(ask() && g_ssize == 5 && g_wb[8] == want[0][1] && g_wb[9] == want[0][2] && g_wb[10] == want[2][0] && g_wb[11] == want[2][1] && g_wb[12] == want[2][2], "it is read");
    begin(7, MSG_GRP_READ); p32(b); VP_CHECK(ask() && g_ssize == 3 && g_wb[8] == want[1][0] && g_wb[9] == want[0][4] && g_wb[10] == want[0][5], "and so is the other one");
    begin(8, MSG_GRP_READ); p32(a); VP_CHECK(!ask(), "groups belong to their module");
    begin(5, MSG_GRP_READ); p32(a); VP_CHECK(!ask(), "which is registered");
    begin(8, MSG_GRP_WRITE); p32(b); p8(1); p8(2); p8(3); VP_CHECK(!ask(), "groups belong to their module"); same();
    begin(7, MSG_GRP_WRITE); p32(b); want[1][0] = vp_u8(); want[0][4] = vp_u8(); want[0][5] = vp_u8(); p8(want[1][0]); p8(want[0][4]); p8(want[0][5]);
    VP_CHECK(ask() && g_ssize == 0, "a group is written"); same();
    gadd(9, 13, 0, 2, 11, 0, 1); VP_CHECK(ask(), "a group with a read-only tag"); i = g_wle(8);
    begin(9, MSG_GRP_WRITE); p32(i); p8(1); p8(2); p8(3); VP_CHECK(!ask(), "which is not written"); same();
    begin(9, MSG_GRP_READ); p32(i); VP_CHECK(ask() && g_wb[8] == want[3][0], "but read");
    gadd(8, 13, 0, 2, 11, 0, 1); VP_CHECK(ask(), "a group of the owner"); i = g_wle(8);
    begin(8, MSG_GRP_WRITE); p32(i); want[3][0] = vp_u8(); want[3][1] = vp_u8(); want[1][0] = vp_u8(); p8(want[3][0]); p8(want[3][1]); p8(want[1][0]);
    VP_CHECK(ask(), "the owner writes it"); same();
    begin(8, MSG_GRP_DEL); p32(b); VP_CHECK(!ask() || b == i, "only the own group is deleted");
    begin(7, MSG_GRP_DEL); p32(a); VP_CHECK(ask(), "a group is deleted");
    begin(7, MSG_GRP_READ); p32(a); VP_CHECK(!ask(), "and gone");
    begin(7, MSG_GRP_READ); p32(b); VP_CHECK(ask() && g_wb[8] == want[1][0], "the other one is still there");
}
#elif defined(EVENTS)
static void eadd(int fd, int idx, int byte, int count, uint32_t type, int ev, int size, int bit) { begin(fd, MSG_EVNT_ADD); p32(idx); p32(byte); p32(count); p32(type); p32(ev); p32(size); p8(bit); }
static int told(int n, int fd, int idx, int id) { return g_capfd[n] == fd && (g_cap[n][0] & (MSG_RESPONSE | MSG_ERROR)) == 0 && g_cap[n][1] == (uint32_t)idx && g_cap[n][2] == (uint32_t)id; }
static void go(void) {
    int a, b;
    eadd(7, 10, 1, 2, DAX_BYTE, EVENT_WRITE, 2, 0); VP_CHECK(ask() && g_ssize == 4, "an event is added"); a = g_wle(8);
    eadd(8, 12, 2, 2, DAX_UINT, EVENT_LESS, 4, 0); p16(0x4000); VP_CHECK(ask(), "another one"); b = g_wle(8);
    eadd(5, 10, 1, 2, DAX_BYTE, EVENT_WRITE, 2, 0); VP_CHECK(!ask(), "not by who is not registered");
    eadd(7, 10, 5, 2, DAX_BYTE, EVENT_WRITE, 2, 0); VP_CHECK(!ask(), "not outside of the tag");
    wr(9, 10, 2, 1); VP_CHECK(g_sent == 2 && told(0, 7, 10, a), "its module is told"); same();
    wr(9, 10, 3, 2); VP_CHECK(g_sent == 1, "but not about other bytes"); same();
    begin(9, MSG_TAG_WRITE); p32(12); p32(4); p16(0x5000); VP_CHECK(ask() && g_sent == 1, "not less");
    begin(9, MSG_TAG_WRITE); p32(12); p32(4); p16(0x3FFF); VP_CHECK(ask() && g_sent == 2 && told(0, 8, 12, b), "less"); want[2][4] = 0xFF; want[2][5] = 0x3F;
    begin(8, MSG_EVNT_OPT); p32(10); p32(a); p32(EVENT_OPT_SEND_DATA); VP_CHECK(!ask(), "options are set by the owner");
    begin(7, MSG_EVNT_OPT); p32(10); p32(a); p32(EVENT_OPT_SEND_DATA); VP_CHECK(ask(), "options are set");
    begin(8, MSG_EVNT_DEL); p32(10); p32(a); VP_CHECK(!ask(), "events are deleted by the owner");
    begin(8, MSG_EVNT_DEL); p32(12); p32(b); VP_CHECK(ask(), "an event is deleted");
    wr(9, 10, 0, 2); VP_CHECK(g_sent == 2 && told(0, 7, 10, a), "the other one is still there"); same();
    begin(9, MSG_TAG_WRITE); p32(12); p32(4); p16(0x5000); VP_CHECK(ask() && g_sent == 1, "gone");
    begin(9, MSG_TAG_WRITE); p32(12); p32(4); p16(0x1000); VP_CHECK(ask() && g_sent == 1, "gone");
    begin(7, MSG_TAG_MWRITE); p32(10); p32(1); p8(0x5A); p8(0xF0); VP_CHECK(ask() && g_sent == 2 && told(0, 7, 10, a), "a masked write is a write");
}
#else
static void op(int fd, int idx, int byte, int count, uint32_t type, int bit, int o) { begin(fd, MSG_ATOMIC_OP); p32(idx); p32(byte); p32(count); p32(type); p8(bit); p16(o); p16(0); }
static void go(void) {
    int i, v, w; uint8_t x;
    begin(7, MSG_MAP_ADD); hd(12, 2, 0, 2, 2, DAX_BYTE); hd(11, 0, 0, 2, 2, DAX_BYTE); VP_CHECK(ask(), "a mapping");
    v = want[2][2] | want[2][3] << 8; w = vp_u32() & 0xFFFF;
    op(9, 12, 2, 1, DAX_UINT, 0, ATOMIC_OP_INC); p16(w); VP_CHECK(ask() && g_ssize == 0, "an operation is carried out");
    v += w; want[2][2] = want[1][0] = v; want[2][3] = want[1][1] = v >> 8; same();
    op(9, 10, 1, 3, DAX_BOOL, 6, ATOMIC_OP_XOR); p8(x = vp_u8() & 7); p8(0); VP_CHECK(ask(), "with bits");
    want[0][1] ^= x << 6; want[0][2] ^= x >> 2; same();
    op(9, 13, 0, 1, DAX_BYTE, 0, ATOMIC_OP_NOT); p8(0); VP_CHECK(!ask() && (int)g_wle(8) == ERR_READONLY, "not on a read-only tag"); same();
    op(5, 13, 0, 1, DAX_BYTE, 0, ATOMIC_OP_OR); p8(0xFF); VP_CHECK(!ask(), "by nobody else"); same();
    op(8, 13, 0, 1, DAX_BYTE, 0, ATOMIC_OP_NOT); p8(0); VP_CHECK(ask(), "but by its owner"); want[3][0] ^= 0xFF; same();
    op(9, 12, 4, 2, DAX_UINT, 0, ATOMIC_OP_INC); p16(1); p16(1); VP_CHECK(!ask(), "not outside of the tag"); same();
    op(9, 14, 0, 1, DAX_BYTE, 0, ATOMIC_OP_NOT); p8(0); VP_CHECK(!ask(), "nor on a tag that does not exist");
    op(9, -1, 0, 1, DAX_BYTE, 0, ATOMIC_OP_NOT); p8(0); VP_CHECK(!ask(), "nor on a tag that does not exist");
    op(9, 12, 0, 1, DAX_UINT, 0, 99); p16(0); VP_CHECK(!ask(), "nor an unknown operation"); same();
    op(9, 12, 0, 1, DAX_UINT, 0, ATOMIC_OP_INC); at -= 4; VP_CHECK(!ask(), "nor a message without an operand"); same();
}
#endif
void h(void) { setup(); go(); VP_REACH(1, "end"); }
