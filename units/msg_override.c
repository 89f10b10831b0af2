/* the override messages: -DADD -DDEL -DGET -DSET */
#include "msg_tag.h"
static int g_ocalls, g_oidx, g_ooff, g_osize, g_oflag, g_ores;
static uint8_t g_od, g_om;    /* byte g_sk of data and mask as handed over / as returned */
#define V_IDX(m) (*(int *)&(m)->data[0])
#define V_OFF(m) (*(int *)&(m)->data[4])
VP_CONTRACT(
int override_add(tag_index idx, int offset, void *data, void *mask, int size)
__CPROVER_requires(size <= 0 || (__CPROVER_r_ok(data, size) && __CPROVER_r_ok(mask, size)))
__CPROVER_assigns(g_ocalls, g_oidx, g_ooff, g_osize, g_od, g_om)
__CPROVER_ensures(g_ocalls == __CPROVER_old(g_ocalls) + 1 && g_oidx == idx && g_ooff == offset && g_osize == size)
__CPROVER_ensures(!(g_sk < size) || (g_od == ((uint8_t *)data)[g_sk] && g_om == ((uint8_t *)mask)[g_sk]))
__CPROVER_ensures(size < 0 ? __CPROVER_return_value < 0 : __CPROVER_return_value == g_ores);
int override_del(tag_index idx, int offset, void *mask, int size)
__CPROVER_requires(size <= 0 || __CPROVER_r_ok(mask, size))
__CPROVER_assigns(g_ocalls, g_oidx, g_ooff, g_osize, g_om)
__CPROVER_ensures(g_ocalls == __CPROVER_old(g_ocalls) + 1 && g_oidx == idx && g_ooff == offset && g_osize == size)
__CPROVER_ensures(!(g_sk < size) || g_om == ((uint8_t *)mask)[g_sk])
__CPROVER_ensures(size < 0 ? __CPROVER_return_value < 0 : __CPROVER_return_value == g_ores);
int override_get(tag_index idx, int offset, int size, void *data, void *mask)
__CPROVER_requires(size <= 0 || (__CPROVER_w_ok(data, size) && __CPROVER_w_ok(mask, size)))
__CPROVER_assigns(g_ocalls, g_oidx, g_ooff, g_osize, g_od, g_om; size > 0: __CPROVER_object_upto(data, size), __CPROVER_object_upto(mask, size))
__CPROVER_ensures(g_ocalls == __CPROVER_old(g_ocalls) + 1 && g_oidx == idx && g_ooff == offset && g_osize == size)
__CPROVER_ensures(!(g_sk < size) || g_od == ((uint8_t *)data)[g_sk])
__CPROVER_ensures(!(g_sk >= size && g_sk - size < size) || g_om == ((uint8_t *)mask)[g_sk - size])
__CPROVER_ensures(size < 0 ? __CPROVER_return_value < 0 : __CPROVER_return_value == g_ores);
int override_set(tag_index idx, uint8_t flag)
__CPROVER_requires(1)
__CPROVER_assigns(g_ocalls, g_oidx, g_oflag)
__CPROVER_ensures(g_ocalls == __CPROVER_old(g_ocalls) + 1 && g_oidx == idx && g_oflag == flag && __CPROVER_return_value == g_ores);
)
/* the operation is carried out exactly as the message says, once, and its result is what is answered;
 * a message without a complete header changes nothing */
#define N_ADD(m) ((int)((m)->size - 12) / 2)
#define N_DEL(m) ((int)((m)->size - 8))
#define N_GET(m) (*(int *)&(m)->data[8])
#define once(m) (g_ocalls == 1 && g_oidx == V_IDX(m) && g_ooff == V_OFF(m))
#define post_madd(m) ((m)->size < 12 ? (answered(m, MSG_ADD_OVRD, 0) && (g_ocalls == 0 || g_osize < 0)) : \
    (once(m) && g_osize == N_ADD(m) && answered(m, MSG_ADD_OVRD, g_ores >= 0) && \
     (g_sk >= N_ADD(m) || (g_od == (uint8_t)(m)->data[12 + g_sk] && g_om == (uint8_t)(m)->data[12 + N_ADD(m) + g_sk]))))
#define post_mdel(m) ((m)->size < 8 ? (answered(m, MSG_DEL_OVRD, 0) && (g_ocalls == 0 || g_osize < 0)) : \
    (once(m) && g_osize == N_DEL(m) && answered(m, MSG_DEL_OVRD, g_ores >= 0) && \
     (g_sk >= N_DEL(m) || g_om == (uint8_t)(m)->data[8 + g_sk])))
#define post_mget(m) ((N_GET(m) < 0 || N_GET(m) > (int)(MSG_DATA_SIZE / 2)) ? (answered(m, MSG_GET_OVRD, 0)) : \
    (once(m) && g_osize == N_GET(m) && answered(m, MSG_GET_OVRD, g_ores >= 0) && \
     (g_ores < 0 || (g_ssize == 2 * N_GET(m) && (g_sk >= 2 * N_GET(m) || g_sbyte == (g_sk < N_GET(m) ? g_od : g_om))))))
#define post_mset(m) (g_ocalls == 1 && g_oidx == V_IDX(m) && g_oflag == (uint8_t)(m)->data[4] && answered(m, MSG_SET_OVRD, g_ores >= 0))
#define FRAME __CPROVER_requires(msg == &vp_msg) \
    __CPROVER_assigns(g_sent, g_sfd, g_scmd, g_skind, g_ssize, g_sbyte, g_ocalls, g_oidx, g_ooff, g_osize, g_od, g_om, g_oflag)
VP_CONTRACT(
int msg_add_override(dax_message *msg) FRAME __CPROVER_ensures(post_madd(msg));
int msg_del_override(dax_message *msg) FRAME __CPROVER_ensures(post_mdel(msg));
int msg_get_override(dax_message *msg) FRAME __CPROVER_ensures(post_mget(msg));
int msg_set_override(dax_message *msg) FRAME __CPROVER_ensures(post_mset(msg));
)
void h(void) {
    dax_message *m = vp_some_msg(0, 12);
    g_ocalls = 0;
    g_ores = vp_range(-40, 0);
#ifdef ADD
    msg_add_override(m);
    VP_ONLY_CBMC(VP_CHECK(post_madd(m), "an override message is carried out exactly");)
    VP_REACH(g_skind == RESPONSE && m->size > 14, "accepted");
    VP_REACH(m->size < 12, "short");
#endif
#ifdef DEL
    msg_del_override(m);
    VP_ONLY_CBMC(VP_CHECK(post_mdel(m), "a message that removes an override is carried out exactly");)
    VP_REACH(g_skind == RESPONSE && m->size > 14, "accepted");
    VP_REACH(m->size < 8, "short");
#endif
#ifdef GET
    msg_get_override(m);
    VP_ONLY_CBMC(VP_CHECK(post_mget(m), "the raw value and the mask are sent");)
    VP_REACH(g_skind == RESPONSE && N_GET(m) > 2, "accepted");
#endif
#ifdef SET
    msg_set_override(m);
    VP_ONLY_CBMC(VP_CHECK(post_mset(m), "the override is switched");)
    VP_REACH(g_skind == RESPONSE, "accepted");
#endif
}
