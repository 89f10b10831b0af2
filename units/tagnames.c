/* The names and indexes of tags.  ITEMS is a list of
 *  L(n, p, q): n names, the p-th in order is added last, the q-th is deleted and added again;
 *  N(len, pos): names of this length, with a few characters at pos;
 *  Y(type, count, size): a new tag of this type (size < 0: refused);
 *  W(type, count, new type, new count, attributes, owner, override, result): an existing tag is added again. */
#include "server.h"
static void setup(int size) {
    int i, n[] = {4, 4, 47, 47, 4, 8, 33, 4, 4};
    _dbsize = size; _tagnextindex = 10; _indexcount = 0; _tagcount = 10; VP_ONLY_CBMC(vp_pooln = 0;) _datatypes = NULL; _datatype_index = 0;
#ifdef VP_NATIVE
    _db = malloc(sizeof(_dax_tag_db) * size); _index = malloc(sizeof(_dax_tag_index) * size);
#define ALLOC(n) calloc(n, 1)
#else
    _db = vp_dbs; _index = vp_ixs;
#define ALLOC(n) vp_palloc(n)
#endif
    for(i = 0; i < size; i++) {
        _db[i].type = _db[i].count = _db[i].attr = _db[i].nextevent = _db[i].nextmap = _db[i].fd = 0;
        _db[i].name = NULL; _db[i].data = NULL; _db[i].omask = _db[i].odata = NULL; _db[i].events = NULL; _db[i].mappings = NULL;
        _index[i].name = NULL; _index[i].tag_idx = 0;
    }
    for(i = 0; i < 9; i++) {
        _db[i].type = DAX_BYTE; _db[i].count = n[i]; _db[i].attr = TAG_ATTR_READONLY; _db[i].name = vp_name; _db[i].nextmap = _db[i].nextevent = 1; _db[i].fd = -1;
        _db[i].data = ALLOC(n[i]); for(int j = 0; j < n[i]; j++) _db[i].data[j] = 0;
    }
}
static int sysint(int i) { return *(int *)_db[i].data; }
#define MAXT 9
#ifdef LONGN
#define P31 "abcdefghijklmnopqrstuvwxyz01234"
static const char *nm[] = {P31, P31 "0", P31 "1", P31 "A", P31 "_", P31 "a", P31 "b", "b" P31, "c" P31};
static const char *no[] = {P31 "2", "abc", "d" P31};
#else
static const char *nm[] = {"A", "A1", "AB", "A_", "Ab", "B", "Z9", "b", "bA"};
static const char *no[] = {"C", "", "A0", "A12", "ABC", "Aa", "_", "c", "AA", "a", "bAA"};
#endif
static int idx[MAXT];
static void look(int n, int gone) {
    dax_tag t; int i;
    for(i = 0; i < n; i++) {
        memset(&t, 0, sizeof(t));
        if(i == gone) { VP_CHECK(tag_get_name((char *)nm[i], &t) == ERR_NOTFOUND, "a deleted name is not found"); continue; }
        VP_CHECK(tag_get_name((char *)nm[i], &t) == 0 && t.idx == idx[i] && t.type == DAX_INT && t.count == (uint32_t)i + 1 && strcmp(t.name, nm[i]) == 0, "a name stands for the tag that was added under it");
        VP_CHECK(tag_get_index(idx[i], &t) == 0 && t.idx == idx[i] && t.count == (uint32_t)i + 1 && strcmp(t.name, nm[i]) == 0, "and so does its index");
    }
    for(; i < MAXT; i++) VP_CHECK(tag_get_name((char *)nm[i], &t) == ERR_NOTFOUND, "a name that was not added is not found");
    for(i = 0; i < (int)(sizeof(no) / sizeof(*no)); i++) VP_CHECK(tag_get_name((char *)no[i], &t) == ERR_NOTFOUND, "a name that was never added is not found");
}
static void add(int i) {
    idx[i] = tag_add(5, (char *)nm[i], DAX_INT, i + 1, 0);
    VP_CHECK(idx[i] >= 0, "a new name is accepted");
    VP_CHECK(sysint(INDEX_LASTINDEX) == idx[i] && sysint(INDEX_TAGCOUNT) == (int)_tagcount, "the system tags follow");
    VP_CHECK(*(int *)_db[INDEX_ADDED_TAG].data == idx[i] && *(uint32_t *)&_db[INDEX_ADDED_TAG].data[4] == DAX_INT && *(uint32_t *)&_db[INDEX_ADDED_TAG].data[8] == (uint32_t)i + 1 && strcmp((char *)&_db[INDEX_ADDED_TAG].data[14], nm[i]) == 0, "the new tag is announced");
}
static void life(int n, int p, int q) {
    int i, old; dax_tag t; uint8_t b[2];
    setup(10 + n);                    /* the last one makes the database grow */
    if(p & 1) { for(i = n - 1; i >= 0; i--) if(i != p) add(i); }
    else for(i = 0; i < n; i++) if(i != p) add(i);
    add(p);
    VP_CHECK(sysint(INDEX_TAGCOUNT) == 10 + n, "the number of tags");
    for(i = 0; i < n; i++) for(int j = 0; j < i; j++) VP_CHECK(idx[i] != idx[j], "the indexes differ");
    look(n, -1);
    VP_CHECK(tag_add(5, (char *)nm[p], DAX_INT, p + 1, 0) == idx[p] && tag_add(6, (char *)nm[q], DAX_INT, 1, 0) == idx[q], "the same tag again is the same tag");
    VP_CHECK(tag_add(5, (char *)nm[q], DAX_UINT, q + 1, 0) < 0, "a name cannot stand for two types");
    look(n, -1);
    old = idx[q];
    VP_CHECK(tag_del(old) == 0, "a tag is deleted");
    VP_CHECK(*(int *)_db[INDEX_DELETED_TAG].data == old && strcmp((char *)&_db[INDEX_DELETED_TAG].data[14], nm[q]) == 0, "the deletion is announced");
    VP_CHECK(sysint(INDEX_TAGCOUNT) == 10 + n - 1, "the number of tags");
    look(n, q);
    VP_CHECK(tag_del(old) < 0 && tag_del(-1) < 0 && tag_del(10 + n) < 0, "only an existing tag can be deleted");
    VP_CHECK(tag_get_index(old, &t) < 0 && tag_get_index(-1, &t) < 0 && tag_get_index(10 + n, &t) < 0 && tag_read(5, old, 0, b, 2) < 0 && tag_write(5, old, 0, b, 2) < 0, "a deleted index cannot be used");
    add(q);
    VP_CHECK(idx[q] == 10 + n, "the index of a deleted tag is not given to another one");
    look(n, -1);
    VP_CHECK(tag_get_index(old, &t) < 0 && tag_read(5, old, 0, b, 2) < 0, "even if its name comes back");
    VP_REACH(1, "life");
}
static int okc(int c, int first) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || (!first && c >= '0' && c <= '9'); }
static void one(int len, int pos, int c) {
    static char s[40]; int i, ok = len > 0 && len <= DAX_TAGNAME_SIZE && (pos < 0 || okc(c, pos == 0)), r; dax_tag t;
    setup(12);
    for(i = 0; i < len; i++) s[i] = 'a' + i % 20;
    s[len] = 0;
    if(pos >= 0) s[pos] = c;
    r = tag_add(5, s, DAX_INT, 1, 0);
    VP_CHECK(ok ? r == 10 : r < 0, "exactly the names of letters, digits and underscores are accepted");
    VP_CHECK(_tagnextindex == 10 + ok && _indexcount == ok && sysint(INDEX_TAGCOUNT) == (ok ? 11 : 0), "a refused name leaves nothing behind");
    if(ok) { VP_CHECK(tag_get_name(s, &t) == 0 && t.idx == 10 && tag_get_index(10, &t) == 0, "and the tag is found"); for(i = 0; i <= len; i++) VP_CHECK(t.name[i] == s[i], "its name"); }
}
static void name(int len, int pos) {
    if(pos < 0) one(len, -1, 0);
    else {
        static const char cs[] = {'/', '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', '_', ' ', -1};
        for(int i = 0; i < (int)sizeof(cs); i++) one(len, pos, cs[i]);
    }
    VP_REACH(1, "name");
}
static void type(uint32_t type, uint32_t count, int size) {
    int r, n;
    setup(12);
    r = tag_add(5, "t", type, count, 0);
    VP_ASSUME(r != ERR_ALLOC);
    VP_CHECK(size >= 0 ? r == 10 : r < 0, "exactly the types and sizes that exist are accepted");
    VP_CHECK(_tagnextindex == 10 + (size >= 0) && _indexcount == (size >= 0), "a refused tag leaves nothing behind");
    if(size >= 0) {
        VP_CHECK(_db[10].type == type && _db[10].count == count && (int)tag_get_size(10) == size && _db[10].fd == 5, "the tag is what was asked for");
        for(n = 0; n < size; n++) VP_CHECK(_db[10].data[n] == 0, "and starts with zeros");
        VP_CHECK(_db[10].events == NULL && _db[10].mappings == NULL && _db[10].omask == NULL && _db[10].odata == NULL && _db[10].attr == 0, "without events, mappings and overrides");
    }
    VP_REACH(1, "type");
}
static void again(uint32_t type, uint32_t count, uint32_t ntype, uint32_t ncount, int attr, int fd, int ovr, int good) {
    int r, n, os, ns; uint8_t was[40];
    setup(12);
    r = tag_add(5, "t", type, count, attr);
    VP_ASSUME(r == 10);
    VP_CHECK(tag_add(5, "u", DAX_BYTE, 1, 0) == 11, "another tag");
    os = tag_get_size(10);
    if(!(type & DAX_QUEUE)) for(n = 0; n < os; n++) was[n] = _db[10].data[n] = vp_u8();
    if(ovr) { uint8_t d = vp_u8(), m = 0xFF; VP_ASSUME(override_add(10, os - 1, &d, &m, 1) == 0); }
    r = tag_add(fd, "t", ntype, ncount, attr);
    VP_ASSUME(r != ERR_ALLOC);
    VP_CHECK(good ? r == 10 : r < 0, "a tag can be added again with its type, by those who may");
    ns = good && ncount > count ? ncount : count;
    VP_CHECK(_db[10].type == type && _db[10].count == (uint32_t)ns && _tagnextindex == 12, "it grows if it has to, and never shrinks");
    ns = tag_get_size(10);
    if(!(type & DAX_QUEUE)) for(n = 0; n < ns; n++) VP_CHECK(_db[10].data[n] == (n < os ? was[n] : 0), "its values stay, new ones are zero");
    if(ovr) {
        VP_CHECK(_db[10].omask != NULL && _db[10].odata != NULL, "its override stays");
        for(n = 0; n < ns; n++) VP_CHECK(_db[10].omask[n] == (n == os - 1 ? 0xFF : 0), "as it was");
    }
    if(type & DAX_QUEUE) VP_CHECK(_db[10].attr & TAG_ATTR_VIRTUAL, "a queue stays a queue");
    VP_CHECK(_db[10].fd == 5, "the owner stays");
    VP_REACH(1, "again");
}
#ifdef MSGS
static dax_message m;
static void put(int at, uint32_t v) { m.data[at] = v; m.data[at + 1] = v >> 8; m.data[at + 2] = v >> 16; m.data[at + 3] = v >> 24; }
static int answered(int cmd) { return g_sent == 1 && g_sfd == m.fd && g_scmd == cmd ? g_skind : -1; }
static void start(int cmd, int size) { g_sent = 0; m.msg_type = cmd; m.size = size; }
static int madd(const char *n, uint32_t type, uint32_t count, uint32_t attr) {
    int i = 0;
    put(0, type); put(4, count); put(8, attr);
    do m.data[12 + i] = n[i]; while(n[i++]);
    start(MSG_TAG_ADD, 12 + i);
    msg_tag_add(&m);
    VP_CHECK(answered(MSG_TAG_ADD) == RESPONSE || answered(MSG_TAG_ADD) == ERROR, "an add message is answered once");
    i = (int)g_wle(8);
    VP_CHECK(g_ssize == 4 && (i >= 0) == (g_skind == RESPONSE), "with the index or an error");
    return i;
}
static int mget(const char *n, int idx) {
    int i = 0;
    if(n) { m.data[0] = TAG_GET_NAME; do m.data[1 + i] = n[i]; while(n[i++]); }
    else { m.data[0] = TAG_GET_INDEX; put(1, idx); }
    start(MSG_TAG_GET, n ? 1 + i : 5);
    msg_tag_get(&m);
    VP_CHECK(answered(MSG_TAG_GET) == RESPONSE || answered(MSG_TAG_GET) == ERROR, "a get message is answered once");
    return g_skind == RESPONSE;
}
static int mdel(int idx) {
    put(0, idx); start(MSG_TAG_DEL, 4);
    msg_tag_del(&m);
    VP_CHECK(answered(MSG_TAG_DEL) == RESPONSE || answered(MSG_TAG_DEL) == ERROR, "a delete message is answered once");
    VP_CHECK(g_skind == RESPONSE ? (int)g_wle(8) == idx : (int)g_wle(8) < 0, "with the index or an error");
    return g_skind == RESPONSE;
}
static void is(int idx, uint32_t type, uint32_t count, const char *n) {
    int i;
    VP_CHECK((int)g_wle(8) == idx && g_wle(12) == type && g_wle(16) == count && g_ssize == 15 + (int)strlen(n), "the answer describes the tag");
    for(i = 0; i <= (int)strlen(n); i++) VP_CHECK(g_wb[22 + i] == (uint8_t)n[i], "and has its name");
}
static const char *longn = "a2345678901234567890123456789012";
void h(void) {
    g_sk = -1;
    setup(20);
    m.fd = 7;
    VP_CHECK(madd("one", DAX_INT, 3, 0) == 10, "a tag is added");
    VP_CHECK(madd(longn, DAX_BOOL, 9, 0) == 11, "another one with the longest name");
    VP_CHECK(madd("_two", DAX_INT, 1, 0) < 0 && madd("two", DAX_INT, 0, 0) < 0 && madd("two", 1, 1, 0) < 0 && madd("t-o", DAX_INT, 1, 0) < 0, "bad ones are refused");
    m.fd = 8;
    VP_CHECK(madd("two", DAX_LREAL, 2, 0) == 12 && madd("one", DAX_INT, 3, 0) == 10, "for everybody");
    VP_CHECK(_tagnextindex == 13 && _db[10].fd == 7 && _db[12].fd == 8, "and belong to those who added them");
    VP_CHECK(mget("one", 0), "found"); is(10, DAX_INT, 3, "one");
    VP_CHECK(mget(longn, 0), "found"); is(11, DAX_BOOL, 9, longn);
    VP_CHECK(mget(NULL, 12), "found"); is(12, DAX_LREAL, 2, "two");
    VP_CHECK(mget(NULL, 11), "found"); is(11, DAX_BOOL, 9, longn);
    VP_CHECK(!mget("tw", 0) && !mget("twoo", 0) && !mget("", 0) && !mget(NULL, 13) && !mget(NULL, -1), "not found");
    _tagnextindex = 14; _db[13].name = "_mod"; _db[13].type = DAX_INT; _db[13].count = 1; _db[13].data = ALLOC(4); _db[13].attr = 0;      /* a reserved tag */
    VP_CHECK(!mdel(13) && _db[13].data != NULL && !mdel(14) && !mdel(-1) && !mdel(0x7fffffff), "reserved tags and what does not exist cannot be deleted");
    VP_CHECK(mdel(10) && !mdel(10) && !mget("one", 0) && !mget(NULL, 10), "a tag is deleted");
    VP_CHECK(mget("two", 0), "found"); is(12, DAX_LREAL, 2, "two");
    VP_CHECK(mget(longn, 0), "found"); is(11, DAX_BOOL, 9, longn);
    VP_CHECK(madd("one", DAX_BYTE, 1, 0) == 14 && mget("one", 0), "its name is free again"); is(14, DAX_BYTE, 1, "one");
    VP_REACH(1, "end");
}
#elif defined(VAL)
void h(void) {
    static char s[37]; int i, len = 36, ok = 1;
    for(i = 0; i < 36; i++) { s[i] = vp_u8(); if(s[i] == 0 && len == 36) len = i; if(i < len && !okc((uint8_t)s[i], i == 0)) ok = 0; }
    if(len == 0 || len > DAX_TAGNAME_SIZE) ok = 0;
    VP_CHECK((_validate_name(s) == 0) == ok, "exactly the names of letters, digits and underscores are accepted");
    VP_REACH(ok && len == 32, "good"); VP_REACH(!ok && len == 36, "long"); VP_REACH(!ok && len == 5, "bad");
}
#else
void h(void) {
    int c = vp_int(), k = 0;
    g_sk = -1;
#define L(...) if(c == k) { life(__VA_ARGS__); return; } k++;
#define N(...) if(c == k) { name(__VA_ARGS__); return; } k++;
#define Y(...) if(c == k) { type(__VA_ARGS__); return; } k++;
#define W(...) if(c == k) { again(__VA_ARGS__); return; } k++;
    ITEMS
}
#endif
