/* Specification vocabulary and state generation for the tag server. */
#ifndef STATE_H
#define STATE_H

#define DB_MAX VP_BOUND(12, 1 << 20)
#define TAG_BYTES_MAX VP_BOUND(VP_N, INT_MAX)
/* ---- specification functions, written from the documentation, not from the code ---- */
/* size in bytes of one item; BOOL is counted in bits and yields 0 */
static int spec_typesize(tag_type t) {
    t &= ~DAX_QUEUE;
    if(t & DAX_CUSTOM) return t == DAX_CUSTOM ? g_cdtsize : -1;
    switch(t) {
        case 0x0010: return 0;
        case 0x0003: case 0x0013: case 0x0023: return 1;
        case 0x0004: case 0x0014: case 0x0024: return 2;
        case 0x0005: case 0x0015: case 0x0025: case 0x0035: return 4;
        case 0x0006: case 0x0016: case 0x0026: case 0x0036: case 0x0046: return 8;
    }
    return -1;
}
static int spec_is_base(tag_type t) { return !(t & DAX_CUSTOM) && spec_typesize(t) >= 0; }
/* size in bytes of `count` items; the invariant of the tag database is that it fits an int */
static int spec_datasize(tag_type t, unsigned count) {
    t &= ~DAX_QUEUE;
    if(t == 0x0010) return (int)(count / 8 + 1);
    return (int)((unsigned)spec_typesize(t) * count);
}
static int spec_fits(tag_type t, unsigned count) {
    int s = spec_typesize(t);
    return s == 0 || count <= (unsigned)(TAG_BYTES_MAX / s);
}
/* the bytes [offset, offset+size) are all inside of a block of `total` bytes */
#define spec_inside(offset, size, total) ((offset) >= 0 && (size) >= 0 && (size) <= (total) && (offset) <= (total) - (size))
#define spec_valid_idx(idx) ((idx) >= 0 && (idx) < _tagnextindex)

/* ---- state generation ---- */

/* not string literals: havoc of a possible target must be supported */
static char vp_name[4] = "tag", vp_cdtname[4] = "cdt", vp_memname[4] = "mem";
static void vp_make_cdt(void);
static void vp_make_db(void) {
#ifdef VP_SMALLDB
    _dbsize = 12;
#else
    _dbsize = VP_BOUND(12, vp_range(12, DB_MAX));
#endif
    _tagnextindex = vp_range(0, _dbsize);
    _db = malloc(sizeof(_dax_tag_db) * _dbsize);
    VP_ASSUME(_db != NULL);
#ifndef VP_PROOF
    memset(_db, 0, sizeof(_dax_tag_db) * _dbsize);
#endif
    /* one custom datatype, a plain block of bytes */
    g_cdtsize = vp_range(1, VP_BOUND(3, 100000));
    vp_make_cdt();
}
static void vp_make_cdt(void) {
    _datatypes = malloc(sizeof(datatype));
    VP_ASSUME(_datatypes != NULL);
    _datatypes[0].name = vp_cdtname;
    _datatypes[0].flags = 0;
    _datatypes[0].refcount = 0;
    _datatypes[0].members = malloc(sizeof(cdt_member));
    VP_ASSUME(_datatypes[0].members != NULL);
    _datatypes[0].members->name = vp_memname;
    _datatypes[0].members->type = DAX_BYTE;
    _datatypes[0].members->count = g_cdtsize;
    _datatypes[0].members->next = NULL;
    _datatype_index = 1;
    _datatype_size = 1;
}

/* Fills the tag g_idx with a type, a count and g_tagsize bytes of data.  When tag_get_size() is
 * used by contract (ret == g_tagsize) the size needs no relation to the type in a proof. */
static void vp_make_tag(int i) {
    _dax_tag_db *t = &_db[i];
    t->type = vp_u32();
    VP_ASSUME(spec_typesize(t->type) >= 0 && !(t->type & DAX_QUEUE));
    t->count = vp_u32();
    VP_ASSUME(t->count >= 1);
#ifdef VP_PROOF
    g_tagsize = vp_range(1, INT_MAX);
#else
    VP_ASSUME(spec_fits(t->type, t->count));
    g_tagsize = spec_datasize(t->type, t->count);
    VP_ASSUME(g_tagsize <= VP_N);
#endif
    t->attr = 0;
    t->name = vp_name;
    t->fd = vp_int();
    t->nextevent = 1;
    t->nextmap = 1;
    t->events = NULL;
    t->mappings = NULL;
    t->omask = t->odata = NULL;
    t->data = vp_buf(g_tagsize);
}
static void vp_make_override(int i) {
    _db[i].odata = vp_buf(g_tagsize);
    _db[i].omask = vp_buf(g_tagsize);
    _db[i].attr |= TAG_ATTR_OVERRIDE;
}
#endif
