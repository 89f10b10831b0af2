#include "msg_tag.h"
#define W_IDX(m) (*(int *)&(m)->data[0])
#define W_OFF(m) (*(int *)&(m)->data[4])
#define W_LEN(m) (((int)(m)->size - 8) / 2)
#define M_DATA(m, i) ((uint8_t)(m)->data[8 + (i)])
#define M_MASK(m, i) ((uint8_t)(m)->data[8 + W_LEN(m) + (i)])
#define post_msg_tag_mask_write(m) ( \
    !spec_valid_idx(W_IDX(m)) ? answered(m, MSG_TAG_MWRITE, 0) : \
    ((m)->size < 8 || !is_plain(W_IDX(m)) || (_db[W_IDX(m)].attr & TAG_ATTR_READONLY) || !spec_inside(W_OFF(m), W_LEN(m), g_tagsize) || \
      ((_db[W_IDX(m)].attr & TAG_ATTR_SPECIAL) && g_special != 0)) ? \
        (answered(m, MSG_TAG_MWRITE, 0) && (!is_plain(W_IDX(m)) || _db[W_IDX(m)].data[g_k] == g_old)) : \
    (answered(m, MSG_TAG_MWRITE, 1) && \
     _db[W_IDX(m)].data[g_k] == (in_win(g_k, W_OFF(m), W_LEN(m)) ? \
        (uint8_t)((M_DATA(m, g_k - W_OFF(m)) & M_MASK(m, g_k - W_OFF(m))) | (g_old & ~M_MASK(m, g_k - W_OFF(m)))) : g_old)))
VP_CONTRACT(
int msg_tag_mask_write(dax_message *msg)
__CPROVER_requires(msg == &vp_msg)
__CPROVER_assigns(g_sent, g_sfd, g_scmd, g_skind, g_ssize, g_sbyte, g_evchk, g_evchk_off, g_evchk_size, g_retained)
__CPROVER_assigns(is_plain(g_idx): __CPROVER_object_whole(_db[g_idx].data))
__CPROVER_ensures(post_msg_tag_mask_write(msg));
)
void h(void) {
    int idx = vp_some_tag();
    dax_message *m = vp_some_msg(MSG_TAG_MWRITE, 8 + VP_BOUND(VP_N, 0));
    W_IDX(m) = idx;
    int r = msg_tag_mask_write(m);
    VP_CHECK(post_msg_tag_mask_write(m), "a masked write message is carried out exactly or refused");
    VP_REACH(g_skind == RESPONSE && m->size > 11, "write accepted");
    VP_REACH(g_skind == ERROR && is_plain(idx) && m->size > 8, "write refused");
}
