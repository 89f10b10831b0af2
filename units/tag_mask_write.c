#include "tag_data.h"
void h(void) {
    int idx = vp_some_tag();
    int fd = vp_int();
    int offset = vp_int();
    int size = vp_int();
    VP_ASSUME(size <= VP_BOUND(VP_N + 2, INT_MAX));
    void *data = vp_buf(size < 0 ? 0 : size);
    void *mask = vp_buf(size < 0 ? 0 : size);
    int r = tag_mask_write(fd, idx, offset, data, mask, size);
    VP_CHECK(post_tag_mask_write(r, idx, offset, data, mask, size), "tag_mask_write changes exactly the selected bits");
    VP_REACH(r == 0 && size > 3 && offset > 3, "successful write");
    VP_REACH(r == ERR_2BIG, "refused write");
    VP_REACH(r == ERR_DELETED, "deleted tag");
}
