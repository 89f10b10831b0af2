#include "tag_data.h"
/* the size that all bounds checks are made against, for every type and count */
VP_CONTRACT(
int vp_tag_get_size(tag_index idx)
__CPROVER_requires(spec_valid_idx(idx))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == g_tagsize);
)
void h(void) {
    /* the other entries of the table play no role, so it needs only one */
    static _dax_tag_db one[1];
    _db = one; _dbsize = _tagnextindex = 1;
    int idx = 0;
    g_cdtsize = vp_range(1, VP_BOUND(3, 100000));
    vp_make_cdt();
    _db[idx].type = vp_u32();
    VP_ASSUME(spec_typesize(_db[idx].type) >= 0);
    _db[idx].count = vp_u32();
    VP_ASSUME(_db[idx].count >= 1);
#ifndef VP_PROOF   /* no restriction needed, both sides are modulo 2^32 */
    VP_ASSUME(spec_fits(_db[idx].type, _db[idx].count));
#endif
    g_tagsize = spec_datasize(_db[idx].type, _db[idx].count);
    int r = tag_get_size(idx);
    VP_CHECK(r == g_tagsize, "size of the tag");
    VP_REACH(r > 1000, "big tag");
    VP_REACH(IS_CUSTOM(_db[idx].type), "custom type");
}
