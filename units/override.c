/* overrides: -DADD -DDEL -DGET -DSET select the function */
#include "tag_data.h"
static int g_st_inst, g_st_set, g_nst;     /* what was written to the status tags */
static int g_pre_over, g_pre_set, g_pre_inst, g_pre_nset;
static uint8_t *g_sdata, *g_smask;
/* The status tags _overrides_installed and _overrides_set follow the counters; the tag that we look
 * at is none of the two. */
VP_CONTRACT(
int vp_status_write(int fd, tag_index idx, int offset, void *data, int size)
__CPROVER_requires(idx == INDEX_OVRD_INSTALLED || idx == INDEX_OVRD_SET)
__CPROVER_requires(offset == 0 && size == sizeof(tag_index) && __CPROVER_r_ok(data, sizeof(tag_index)))
__CPROVER_assigns(g_st_inst, g_st_set)
__CPROVER_ensures(idx == INDEX_OVRD_INSTALLED ? (g_st_inst == *(tag_index *)data && g_st_set == __CPROVER_old(g_st_set)) :
                                                (g_st_set == *(tag_index *)data && g_st_inst == __CPROVER_old(g_st_inst)));
)
#define OV(idx) (_db[idx].attr & TAG_ATTR_OVERRIDE)
#define OVS(idx) (_db[idx].attr & TAG_ATTR_OVR_SET)
#define has_status(i) (_db[i].data != NULL)
/* counters and their status tags: `di` and `ds` is how much they changed */
#define counted(di, ds) (_ovrdinstalled == g_pre_inst + (di) && _ovrdset == g_pre_nset + (ds) && \
    ((di) == 0 || !has_status(INDEX_OVRD_INSTALLED) || g_st_inst == _ovrdinstalled) && \
    ((ds) == 0 || !has_status(INDEX_OVRD_SET) || g_st_set == _ovrdset))
#define can_ovr(idx, offset, size) (is_plain(idx) && spec_inside(offset, size, g_tagsize))
#define unchanged(idx) (!is_plain(idx) || (_db[idx].data[g_k] == g_old && OV(idx) == g_pre_over && OVS(idx) == g_pre_set && \
    (!g_pre_over || (_db[idx].odata != NULL && _db[idx].omask != NULL && _db[idx].odata[g_k] == g_oldod && _db[idx].omask[g_k] == g_oldom))))
#define MB(k) (((uint8_t *)mask)[(k) - offset])
#define DB(k) (((uint8_t *)data)[(k) - offset])

/* installing adds exactly the masked bits; whether they are shown to readers does not change */
#define post_add(r, idx, offset, data, mask, size) (!can_ovr(idx, offset, size) ? ((r) < 0 && unchanged(idx) && counted(0, 0)) : \
    ((r) == ERR_ALLOC && !g_pre_over) ? (unchanged(idx) && counted(0, 0)) : \
    ((r) == 0 && _db[idx].data[g_k] == g_old && OV(idx) && OVS(idx) == g_pre_set && counted(g_pre_over ? 0 : 1, 0) && \
     _db[idx].odata != NULL && _db[idx].omask != NULL && \
     _db[idx].omask[g_k] == (in_win(g_k, offset, size) ? (uint8_t)(g_oldom | ((uint8_t *)(mask))[g_k - (offset)]) : g_oldom) && \
     (_db[idx].odata[g_k] & _db[idx].omask[g_k]) == (in_win(g_k, offset, size) ? \
       (uint8_t)((((uint8_t *)(data))[g_k - (offset)] & ((uint8_t *)(mask))[g_k - (offset)]) | (g_oldod & g_oldom & ~((uint8_t *)(mask))[g_k - (offset)])) : (g_oldod & g_oldom))))
/* removing takes out exactly the masked bits, and the whole override with the last one */
#define DELMASK(mask, offset, size) (in_win(g_k, offset, size) ? (uint8_t)(g_oldom & ~((uint8_t *)(mask))[g_k - (offset)]) : g_oldom)
#define post_del(r, idx, offset, mask, size) ((!can_ovr(idx, offset, size) || !g_pre_over) ? ((r) < 0 && unchanged(idx) && counted(0, 0)) : \
    ((r) == 0 && _db[idx].data[g_k] == g_old && \
     (OV(idx) ? (OVS(idx) == g_pre_set && counted(0, 0) && _db[idx].omask != NULL && _db[idx].odata != NULL && _db[idx].omask[g_k] == DELMASK(mask, offset, size) && \
                 (_db[idx].odata[g_k] & _db[idx].omask[g_k]) == (g_oldod & _db[idx].omask[g_k])) \
              : (!OVS(idx) && _db[idx].odata == NULL && _db[idx].omask == NULL && DELMASK(mask, offset, size) == 0 && counted(-1, g_pre_set ? -1 : 0)))))
#define post_get(r, idx, offset, size, data, mask) ((!can_ovr(idx, offset, size)) ? (r) < 0 : \
    ((r) == 0 && (!in_win(g_k, offset, size) || (((uint8_t *)(data))[g_k - (offset)] == g_old && ((uint8_t *)(mask))[g_k - (offset)] == (g_pre_over ? g_oldom : 0)))))
/* an override is shown to the readers when it is there and switched on */
#define post_set(r, idx, flag) ((!is_plain(idx) || ((flag) && !g_pre_over)) ? ((r) < 0 && unchanged(idx) && counted(0, 0)) : \
    ((r) == 0 && _db[idx].data[g_k] == g_old && OV(idx) == g_pre_over && (OVS(idx) != 0) == ((flag) != 0) && counted(0, ((flag) != 0) - (g_pre_set != 0)) && \
     (!g_pre_over || (_db[idx].odata[g_k] == g_oldod && _db[idx].omask[g_k] == g_oldom))))

VP_CONTRACT(
int override_add(tag_index idx, int offset, void *data, void *mask, int size)
__CPROVER_requires(idx == g_idx)
__CPROVER_assigns(g_st_inst, g_st_set, _ovrdinstalled)
__CPROVER_assigns(is_plain(idx): _db[idx].odata, _db[idx].omask, _db[idx].attr)
__CPROVER_assigns(is_plain(idx) && OV(idx): __CPROVER_object_whole(_db[idx].odata), __CPROVER_object_whole(_db[idx].omask))
__CPROVER_ensures(post_add(__CPROVER_return_value, idx, offset, data, mask, size));

int override_del(tag_index idx, int offset, void *mask, int size)
__CPROVER_requires(idx == g_idx)
__CPROVER_assigns(g_st_inst, g_st_set, _ovrdinstalled, _ovrdset)
__CPROVER_assigns(is_plain(idx): _db[idx].odata, _db[idx].omask, _db[idx].attr)
__CPROVER_assigns(is_plain(idx) && OV(idx): __CPROVER_object_whole(_db[idx].odata), __CPROVER_object_whole(_db[idx].omask))
__CPROVER_frees(g_sdata, g_smask)
__CPROVER_ensures(post_del(__CPROVER_return_value, idx, offset, mask, size));

int override_get(tag_index idx, int offset, int size, void *data, void *mask)
__CPROVER_requires(idx == g_idx)
__CPROVER_assigns(size > 0: __CPROVER_object_upto(data, size), __CPROVER_object_upto(mask, size))
__CPROVER_ensures(post_get(__CPROVER_return_value, idx, offset, size, data, mask));

int override_set(tag_index idx, uint8_t flag)
__CPROVER_requires(idx == g_idx)
__CPROVER_assigns(g_st_inst, g_st_set, _ovrdset)
__CPROVER_assigns(is_plain(idx): _db[idx].attr)
__CPROVER_ensures(post_set(__CPROVER_return_value, idx, flag));
)
static int vp_ovr_tag(int idx) {
    int i;
    vp_some_tag_at(idx);
#ifndef VP_PROOF
    /* the two status tags exist, as DINT (the real tag_write() is used) */
    static uint8_t st[2][4];
    VP_ASSUME(_tagnextindex > INDEX_OVRD_SET && idx != INDEX_OVRD_INSTALLED && idx != INDEX_OVRD_SET);
    for(i = 0; i < 2; i++) { _db[INDEX_OVRD_INSTALLED + i].type = DAX_DINT; _db[INDEX_OVRD_INSTALLED + i].count = 1; _db[INDEX_OVRD_INSTALLED + i].data = st[i]; }
    for(i = 0; i < 2; i++) _db[INDEX_OVRD_INSTALLED + i].name = vp_name;
#else
    (void)i;
    VP_ASSUME(idx != INDEX_OVRD_INSTALLED && idx != INDEX_OVRD_SET);
#endif
    _ovrdinstalled = g_pre_inst = vp_range(1, 1000);
    _ovrdset = g_pre_nset = vp_range(1, 1000);
    if(is_plain(idx)) {
        /* the invariant: flag and memory go together, only an installed override can be switched on */
        VP_ASSUME(!OVS(idx) || OV(idx));
        VP_ASSUME(!(_db[idx].attr & TAG_ATTR_SPECIAL));
        if(!OV(idx)) g_oldod = g_oldom = 0;
        g_pre_over = OV(idx); g_pre_set = OVS(idx);
        g_sdata = _db[idx].odata; g_smask = _db[idx].omask;
    }
    return idx;
}
#ifndef VP_PROOF
#define SYNC() do { g_st_inst = *(int *)_db[INDEX_OVRD_INSTALLED].data; g_st_set = *(int *)_db[INDEX_OVRD_SET].data; } while(0)
#else
#define SYNC()
#endif
static void run(int idx) {
    vp_ovr_tag(idx);
    int offset = vp_int(), size = vp_int();
    VP_ASSUME(size <= VP_BOUND(VP_N + 2, INT_MAX));
    uint8_t *data = vp_buf(size < 0 ? 0 : size), *mask = vp_buf(size < 0 ? 0 : size);
    int r;
#ifdef ADD
    r = override_add(idx, offset, data, mask, size);
    SYNC();
    VP_CHECK(post_add(r, idx, offset, data, mask, size), "an override is installed for exactly the masked bits");
    VP_REACH(r == 0 && !g_pre_over && size > 2, "first override");
    VP_REACH(r == 0 && g_pre_over && g_pre_set && size > 2, "more bits");
    VP_REACH(r < 0 && is_plain(idx), "refused");
#endif
#ifdef DEL
    r = override_del(idx, offset, mask, size);
    SYNC();
    VP_CHECK(post_del(r, idx, offset, mask, size), "exactly the masked bits are no longer overridden");
#ifndef VP_PROOF
    if(r == 0 && OV(idx)) { int n, some = 0; for(n = 0; n < g_tagsize; n++) some |= _db[idx].omask[n]; VP_CHECK(some, "the override is gone with its last bit"); }
#endif
    VP_REACH(r == 0 && !OV(idx), "last bits");
    VP_REACH(r == 0 && OV(idx), "some bits");
    VP_REACH(r < 0 && is_plain(idx) && g_pre_over, "refused");
#endif
#ifdef GET
    r = override_get(idx, offset, size, data, mask);
    VP_CHECK(post_get(r, idx, offset, size, data, mask), "raw value and mask are reported");
    VP_REACH(r == 0 && size > 2 && g_pre_over, "override read");
    VP_REACH(r == 0 && size > 2 && !g_pre_over, "no override");
#endif
#ifdef SET
    uint8_t flag = vp_u8();
    r = override_set(idx, flag);
    SYNC();
    VP_CHECK(post_set(r, idx, flag), "an override is switched on and off");
    VP_REACH(r == 0 && g_pre_set && !flag, "off");
    VP_REACH(r == 0 && !g_pre_set && flag, "on");
    VP_REACH(r < 0 && is_plain(idx), "refused");
#endif
}
void h(void) { VP_AT(run); }
