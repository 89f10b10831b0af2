#include "server.h"
#include "contracts.h"
/* one tag (index idx, maybe out of range) in an arbitrary state */
static int vp_some_tag_at(int idx) {
    vp_make_db();
    g_idx = idx;
    g_special = vp_range(-40, 0);
    g_evchk = g_retained = 0;
    if(idx >= 0 && idx < _tagnextindex) {
        vp_make_tag(idx);
#ifdef VP_PROOF
        _db[idx].attr = vp_u16();
        __CPROVER_assume(!(_db[idx].attr & TAG_ATTR_VIRTUAL));
#else
        _db[idx].attr = vp_u16() & (TAG_ATTR_READONLY | TAG_ATTR_OVR_SET | TAG_ATTR_OVERRIDE | TAG_ATTR_OWNED);
#endif
        if(_db[idx].attr & (TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET)) vp_make_override(idx);
        g_k = vp_int();
        VP_ASSUME(g_k >= 0 && g_k < g_tagsize);
        g_old = _db[idx].data[g_k];
        g_eff = g_old;
        if(_db[idx].attr & TAG_ATTR_OVR_SET)
            g_eff = (_db[idx].odata[g_k] & _db[idx].omask[g_k]) | (g_old & ~_db[idx].omask[g_k]);
        if(_db[idx].odata) { g_oldod = _db[idx].odata[g_k]; g_oldom = _db[idx].omask[g_k]; }
        if(vp_u8() & 1) { _db[idx].data = NULL; _db[idx].attr = 0; }   /* deleted */
    }
    return idx;
}
static int vp_some_tag(void) { return vp_some_tag_at(vp_int()); }
/* With VP_FIXIDX the tag sits at one place of the table (which is inside or outside of the used part of
 * the table), or the index is negative.  Everything else about it stays arbitrary. */
#ifdef VP_FIXIDX
#define VP_AT(run) do { if(vp_u8() & 1) run(10); else run(-1); } while(0)
#else
#define VP_AT(run) run(vp_int())
#endif
