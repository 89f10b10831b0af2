#include "tag_data.h"
static dax_message vp_msg;
/* a message from module fd with an arbitrary payload of arbitrary size */
static dax_message *vp_some_msg(int cmd, int hdr) {
    vp_fill_first(vp_msg.data, sizeof(vp_msg.data), hdr + VP_N + 2);
    vp_msg.msg_type = cmd;
    vp_msg.fd = vp_int();
    vp_msg.size = vp_u32();
    VP_ASSUME(vp_msg.size <= VP_BOUND(hdr + VP_N + 2, MSG_DATA_SIZE));
    g_sent = 0;
    g_sk = vp_int();
    VP_ASSUME(g_sk >= 0 && g_sk < (int)MSG_DATA_SIZE);
    return &vp_msg;
}
#define may_write(msg, idx) (!(_db[idx].attr & TAG_ATTR_READONLY) || ((_db[idx].attr & TAG_ATTR_OWNED) && _db[idx].fd == (msg)->fd))
