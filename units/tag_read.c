#include "tag_data.h"
void h(void) {
    int idx = vp_some_tag();
    int fd = vp_int();
    int offset = vp_int();
    int size = vp_int();
    VP_ASSUME(size <= VP_BOUND(VP_N + 2, INT_MAX));
    void *data = vp_buf(size < 0 ? 0 : size);
    int r = tag_read(fd, idx, offset, data, size);
    VP_CHECK(post_tag_read(r, idx, offset, data, size), "tag_read returns exactly the addressed bytes");
    if(is_plain(idx)) VP_LEMMA(_db[idx].data[g_k] == g_old, "reading changes nothing");
    VP_REACH(r == 0 && size > 3 && offset > 3, "successful read");
    VP_REACH(r == 0 && size > 3 && g_eff != g_old, "overridden read");
    VP_REACH(r == ERR_2BIG, "refused read");
    VP_REACH(r == ERR_DELETED, "deleted tag");
}
