#include "msg_tag.h"
#define W_IDX(m) (*(int *)&(m)->data[0])
#define W_OFF(m) (*(int *)&(m)->data[4])
#define W_LEN(m) ((int)(m)->size - 8)
/* the message is carried out exactly as sent, or it changes nothing and the sender is told */
#define post_msg_tag_write(m) ( \
    !spec_valid_idx(W_IDX(m)) ? answered(m, MSG_TAG_WRITE, 0) : \
    (W_LEN(m) < 0 || !is_plain(W_IDX(m)) || !may_write(m, W_IDX(m)) || !spec_inside(W_OFF(m), W_LEN(m), g_tagsize) || \
      ((_db[W_IDX(m)].attr & TAG_ATTR_SPECIAL) && g_special != 0)) ? \
        (answered(m, MSG_TAG_WRITE, 0) && (!is_plain(W_IDX(m)) || _db[W_IDX(m)].data[g_k] == g_old)) : \
    (answered(m, MSG_TAG_WRITE, 1) && \
     _db[W_IDX(m)].data[g_k] == (in_win(g_k, W_OFF(m), W_LEN(m)) ? (uint8_t)(m)->data[8 + g_k - W_OFF(m)] : g_old)))
VP_CONTRACT(
int msg_tag_write(dax_message *msg)
__CPROVER_requires(msg == &vp_msg)
__CPROVER_assigns(g_sent, g_sfd, g_scmd, g_skind, g_ssize, g_sbyte, g_evchk, g_evchk_off, g_evchk_size, g_retained)
__CPROVER_assigns(is_plain(g_idx): __CPROVER_object_whole(_db[g_idx].data))
__CPROVER_ensures(post_msg_tag_write(msg));
)
void h(void) {
    int idx = vp_some_tag();
    dax_message *m = vp_some_msg(MSG_TAG_WRITE, 8);
    W_IDX(m) = idx;
    int r = msg_tag_write(m);
    VP_CHECK(post_msg_tag_write(m), "a write message is carried out exactly or refused");
    VP_REACH(g_skind == RESPONSE && m->size > 10, "write accepted");
    VP_REACH(g_skind == ERROR && is_plain(idx) && m->size > 8, "write refused");
    VP_REACH(g_skind == RESPONSE && is_plain(idx) && (_db[idx].attr & TAG_ATTR_READONLY), "write by the owner");
}
