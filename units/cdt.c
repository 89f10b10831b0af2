/* Custom datatypes.  ITEMS is a list of
 *  D(definition, size): a definition, and the size of the type (-1: it is refused);  they are made one after the other, and looked at after each;
 *  SIZE: the size of types with any number of items. */
#include "server.h"
static dax_message m; static dax_module mo[1];
static char *defs[16]; static int sizes[16], nd;
static void setup(void) {
    nd = 0; _datatype_index = 0; _datatype_size = DAX_DATATYPE_SIZE;
#ifdef VP_NATIVE
    _datatypes = calloc(DAX_DATATYPE_SIZE, sizeof(datatype));
#else
    _datatypes = vp_dts; vp_pooln = vp_cmn = 0;
#endif
    mo[0].fd = 7; mo[0].next = mo[0].prev = &mo[0]; _current_mod = &mo[0]; g_sk = -1;
}
static int is_prefix(const char *name, const char *def) { int i; for(i = 0; name[i] && name[i] == def[i]; i++); return name[i] == 0 && def[i] == ':'; }
static void look(void) {
    int i, r; char *s; dax_cdt *c;
    VP_CHECK((int)_datatype_index == nd, "there are as many types as were accepted");
    for(i = 0; i < nd; i++) {
        tag_type t = CDT_TO_TYPE(i);
        VP_CHECK(type_size(t) == sizes[i] && type_size(t | DAX_QUEUE) == sizes[i], "the size of a type is given by its members");
        VP_CHECK(cdt_get_name(t) != NULL && is_prefix(cdt_get_name(t), defs[i]) && cdt_get_type(cdt_get_name(t)) == t, "a name stands for one type");
        s = NULL; r = serialize_datatype(t, &s);
        VP_CHECK(r == (int)strlen(defs[i]) + 1 && strcmp(s, defs[i]) == 0, "the definition of a type is the one that was given");
        VP_ONLY_NATIVE(free(s);)
    }
    s = NULL;
    VP_CHECK(type_size(CDT_TO_TYPE(nd)) < 0 && serialize_datatype(CDT_TO_TYPE(nd), &s) < 0 && cdt_get_name(CDT_TO_TYPE(nd)) == NULL, "other types do not exist");
    VP_CHECK(serialize_datatype(DAX_INT, &s) < 0 && serialize_datatype(0, &s) < 0, "only custom types have a definition");
}
static void def(const char *d, int size) {
    int e = 77, i; tag_type t;
    for(i = 0; i < nd; i++) if(strcmp(defs[i], d) == 0) break;
    t = cdt_create((char *)d, &e);
    if(size < 0) { VP_CHECK(t == 0 && e < 0, "a bad definition is refused"); return; }
    VP_CHECK(t == (tag_type)CDT_TO_TYPE(i) && e == 0, "a new definition gets a new type and an old one its own");
    if(i == nd) { defs[nd] = (char *)d; sizes[nd++] = size; }
}
#define L look();
#ifdef SIZES
static const tag_type ty[] = {DAX_BOOL, DAX_BYTE, DAX_INT, DAX_UDINT, DAX_LREAL, CDT_TO_TYPE(0), CDT_TO_TYPE(1)};
static const int wd[] = {1, 8, 16, 32, 64, 3 * 8, 7 * 8};
static cdt_member cm[4];
static void one(int a, int b, int c) {
    int w[3] = {a, b, c}, i, r; uint64_t bits = 0;
    for(i = 0; i < 3; i++) {
        cm[i].name = "x"; cm[i].type = ty[w[i]]; cm[i].count = vp_u32(); cm[i].next = i < 2 ? &cm[i + 1] : NULL;
        VP_ASSUME(cm[i].count >= 1 && cm[i].count <= 0x7FFFFFFF);
        if(w[i] && bits % 8) bits += 8 - bits % 8;
        bits += (uint64_t)wd[w[i]] * cm[i].count;
    }
    _datatypes[2].name = "S"; _datatypes[2].members = cm; _datatype_index = 3;
    r = type_size(CDT_TO_TYPE(2));
    bits = (bits + 7) / 8;
    VP_CHECK(bits > 0x7FFFFFFF ? r < 0 : (bits == 0x7FFFFFFF && r < 0) || r == (int)bits, "the size of a type is given by its members");
    if(r == 100) VP_REACH(1, "fits");
    if(r < 0) VP_REACH(1, "too big");
}
static void go(void) {
    def("N:a,BOOL,3:b,INT,1", 3); def("M:n,N,2:z,BOOL,1", 7);
    ITEMS
}
#elif defined(MSGS)
static int at;
static void begin(int cmd) { m.fd = 7; m.msg_type = cmd; at = 0; g_sent = 0; }
static void str(const char *s) { int i; for(i = 0; s[i]; i++) m.data[at++] = s[i]; m.data[at++] = 0; }
static int ask(void) {
    m.size = at; for(int i = 0; i < 40; i++) m.data[at + i] = 0;
    if(m.msg_type == MSG_CDT_CREATE) msg_cdt_create(&m); else msg_cdt_get(&m);
    VP_CHECK(g_sent == 1 && g_sfd == 7 && g_scmd == m.msg_type && (g_skind == RESPONSE || g_skind == ERROR), "a message is answered once");
    return g_skind == RESPONSE;
}
static void isdef(const char *s, uint32_t t) {
    int i, n = strlen(s) + 1;
    VP_CHECK(g_ssize == n + 4 && g_wle(8) == t, "with the type");
    for(i = 0; i < n; i++) VP_CHECK(g_wb[12 + i] == (uint8_t)s[i], "and its definition");
}
static void go(void) {
    const char *A = "A:x,INT,1:y,BOOL,3", *B = "Bb:c,A,2:q,CHAR,12"; uint32_t a, b;
    begin(MSG_CDT_CREATE); str(A); VP_CHECK(ask() && g_ssize == 4, "a type is made"); a = g_wle(8);
    begin(MSG_CDT_CREATE); str(B); VP_CHECK(ask() && g_wle(8) != a, "another one"); b = g_wle(8);
    VP_CHECK(IS_CUSTOM(a) && IS_CUSTOM(b) && type_size(a) == 3 && type_size(b) == 18, "types with a size");
    begin(MSG_CDT_CREATE); str(A); VP_CHECK(ask() && g_wle(8) == a, "the same one again");
    begin(MSG_CDT_CREATE); str("A:x,INT,2:y,BOOL,3"); VP_CHECK(!ask(), "another one with the name");
    begin(MSG_CDT_CREATE); str("C:x,D,2"); VP_CHECK(!ask(), "with an unknown type");
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_NAME; str("A"); VP_CHECK(ask(), "found by name"); isdef(A, a);
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_NAME; str("Bb"); VP_CHECK(ask(), "found by name"); isdef(B, b);
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_TYPE; for(int i = 0; i < 4; i++) m.data[at++] = b >> (8 * i); VP_CHECK(ask(), "found by type"); isdef(B, b);
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_TYPE; for(int i = 0; i < 4; i++) m.data[at++] = a >> (8 * i); VP_CHECK(ask(), "found by type"); isdef(A, a);
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_NAME; str("C"); VP_CHECK(!ask(), "what was refused is not found");
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_NAME; str("B"); VP_CHECK(!ask(), "nor is a part of a name");
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_TYPE; b += 1; for(int i = 0; i < 4; i++) m.data[at++] = b >> (8 * i); VP_CHECK(!ask(), "nor is a type that does not exist");
    begin(MSG_CDT_GET); m.data[at++] = CDT_GET_TYPE; for(int i = 0; i < 4; i++) m.data[at++] = 0; VP_CHECK(!ask(), "nor nothing");
}
#else
#define D(d, s) def(d, s);
static void go(void) { ITEMS look(); VP_CHECK(nd > 0, "something was accepted"); }
#endif
void h(void) { setup(); go(); VP_REACH(1, "end"); }
