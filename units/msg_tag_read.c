#include "msg_tag.h"
#define R_IDX(m) (*(int *)&(m)->data[0])
#define R_OFF(m) (*(int *)&(m)->data[4])
#define R_LEN(m) (*(int *)&(m)->data[8])
/* the answer carries exactly the bytes that were asked for, or an error */
#define post_msg_tag_read(m) ( \
    (!is_plain(R_IDX(m)) || R_LEN(m) > (int)MSG_DATA_SIZE || !spec_inside(R_OFF(m), R_LEN(m), g_tagsize)) ? \
        answered(m, MSG_TAG_READ, 0) : \
    (answered(m, MSG_TAG_READ, 1) && g_ssize == R_LEN(m) && \
     (!(g_sk < R_LEN(m) && g_k - R_OFF(m) == g_sk) || g_sbyte == g_eff)))
VP_CONTRACT(
int msg_tag_read(dax_message *msg)
__CPROVER_requires(msg == &vp_msg)
__CPROVER_assigns(g_sent, g_sfd, g_scmd, g_skind, g_ssize, g_sbyte)
__CPROVER_ensures(post_msg_tag_read(msg));
)
void h(void) {
    int idx = vp_some_tag();
    dax_message *m = vp_some_msg(MSG_TAG_READ, 12);
    R_IDX(m) = idx;
    int r = msg_tag_read(m);
    VP_CHECK(post_msg_tag_read(m), "a read message is answered with exactly the bytes of the tag");
    if(is_plain(idx)) VP_LEMMA(_db[idx].data[g_k] == g_old, "reading changes nothing");
    VP_REACH(g_skind == RESPONSE && g_ssize > 10 && g_k - R_OFF(m) == g_sk, "read accepted");
    VP_REACH(g_skind == ERROR && is_plain(idx), "read refused");
}
