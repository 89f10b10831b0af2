/* The message stream.  -DFRAME: buff_read() cuts what arrives in arbitrary pieces on two sockets into the messages
 * that were sent.  -DXW: xwrite() writes every byte once, in order.  -DSEND: _message_send() puts one well formed
 * message on the wire.  -DDISP: msg_dispatcher() hands a message to its handler.  -DTABLE: the table of handlers. */
#ifdef FRAME
#include <unistd.h>
#include <stddef.h>
#define read(fd, b, n) vp_read(fd, b, n)
static ssize_t vp_read(int fd, void *b, size_t n);
#endif
#ifdef XW
#include <unistd.h>
#include <stddef.h>
#include <errno.h>
#define write(fd, b, n) vp_write(fd, b, n)
static ssize_t vp_write(int fd, const void *b, size_t n);
#undef errno
static int vp_errno;
#define errno vp_errno
static const unsigned char *g_base; static size_t g_total, g_wr; static int g_fail;
#endif
#ifdef TABLE
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <signal.h>
#define socket(...) 4
#define bind(...) 0
#define listen(...) 0
#define unlink(...) 0
#define kill(...) 0
#define inet_ntoa(...) "x"
#endif
#include "server.h"
#undef read
#undef write
#if !defined(VP_NATIVE) && (defined(FRAME) || defined(TABLE))
int opt_min_buffers(void) { return 2; }
char *opt_socketname(void) { return "/x"; }
#endif

#ifdef FRAME
#define MAXM 16
#ifdef CLOSE        /* given messages */
#define BYTE (0xA0 + 16 * p + j)
#define CMD (1 + i + 3 * p)
#else
#define BYTE vp_u8()
#define CMD vp_range(1, NUM_COMMANDS)
#endif
static uint8_t st[2][3 * MAXM]; static int len[2], pos[2];         /* what the two peers send */
static int start[2][3], msize[2][3];                                /* where their messages start */
static int got[2]; static int bad, nextread;
static ssize_t vp_read(int fd, void *b, size_t n) {
    int p = fd == 6, k = nextread, i; uint8_t *d = b;
    if(k > len[p] - pos[p]) k = len[p] - pos[p];
    if((size_t)k > n) k = n;
    for(i = 0; i < k; i++) d[i] = st[p][pos[p] + i];
    pos[p] += k;
    return k;
}
static int handler(dax_message *m) {
    int p, i, s, size;
    if(m->fd != 5 && m->fd != 6) { bad = 1; return 0; }
    p = m->fd == 6;
    if(got[p] >= 3) { bad = 1; return 0; }
    s = start[p][got[p]];
    size = msize[p][got[p]];
    if((int)m->size != size - 8 || m->msg_type != st[p][s + 7]) bad = 1;
    for(i = 0; i < size - 8; i++) if((uint8_t)m->data[i] != st[p][s + 8 + i]) bad = 1;
    got[p]++;
    return RET1;
}
static void rd(int p, int k) {
    int r, j, n = 0;
    nextread = k;
    if(k <= 0 || pos[p] >= len[p]) return;
    r = buff_read(p ? 6 : 5);
    VP_CHECK(r != ERR_NO_SOCKET, "a well formed stream does not end the connection");
    for(j = 0; j < 3; j++) if(start[p][j] + msize[p][j] <= pos[p]) n++;
    VP_CHECK(got[p] == n, "every message is handled as soon as it is complete, and only then");
    VP_CHECK(!bad, "the handler gets the message that was sent");
}
static void run(int k, int r) {
    int p, i;
    buff_initialize();
    for(i = 1; i <= NUM_COMMANDS; i++) cmd_arr[i] = handler;
    g_sk = -1;
    for(p = 0; p < 2; p++) {
        for(i = 0; i < 3; i++) {
            int n = p ? S3 : i == 1 ? S2 : S1;
            start[p][i] = len[p]; msize[p][i] = n;
            uint8_t *b = &st[p][len[p]];
            b[0] = b[1] = b[2] = 0; b[3] = n; b[4] = b[5] = b[6] = 0; b[7] = CMD;
            for(int j = 8; j < n; j++) b[j] = BYTE;
            len[p] += n;
        }
    }
    rd(0, k);            /* the beginning of a message */
    rd(1, 5);            /* the other socket in between ... */
#ifdef CLOSE
    buff_free(6);        /* ... is closed in the middle of a message, and comes back as another connection */
    pos[1] = 0; got[1] = 0;
    rd(1, r);
#endif
    buff_freeall();      /* what happens when nothing arrives for a while */
    rd(0, r);            /* the next bytes: they may end one or two messages and begin another one */
    rd(1, 16);
    for(i = 0; i < 4; i++) rd(0, 16);
    for(i = 0; i < 4; i++) rd(1, 16);
    VP_CHECK(got[0] == 3 && got[1] == 3, "everything is handled in the end");
    VP_REACH(r == 3, "end");
}
void h(void) {
    int c = vp_int(), k, r;
    for(k = KLO; k <= KHI; k++) for(r = 1; r <= 16 - k; r++) if(c == k * 32 + r) { run(k, r); return; }
}
#elif defined(XW)
#undef errno
#define errno vp_errno
#define wr_pre(b, n) ((const uint8_t *)(b) == g_base + g_wr && (n) <= g_total - g_wr && (n) > 0 && !g_fail)
#ifdef VP_NATIVE
static ssize_t vp_write(int fd, const void *b, size_t n) {
#else
static ssize_t vp_write(int fd, const void *b, size_t n)
__CPROVER_requires(wr_pre(b, n))
__CPROVER_assigns(g_wr, g_fail, vp_errno)
__CPROVER_ensures(__CPROVER_return_value <= (ssize_t)n && __CPROVER_return_value >= -1 && g_wr == __CPROVER_old(g_wr) + (__CPROVER_return_value > 0 ? (size_t)__CPROVER_return_value : 0))
__CPROVER_ensures((g_fail != 0) == (__CPROVER_return_value == 0 || (__CPROVER_return_value < 0 && errno != EINTR)))
{
#endif
    ssize_t r = vp_range(-1, 1000000);
    VP_ASSUME(r <= (ssize_t)n);
    VP_CHECK(wr_pre(b, n), "what is written is the next part of the buffer");
    if(r > 0) g_wr += r;
    else if(r < 0) errno = (vp_u8() & 1) ? EINTR : EPIPE;
    if(r == 0 || (r < 0 && errno != EINTR)) g_fail = 1;
    return r;
}
VP_CONTRACT(
ssize_t vp_xwrite(int fd, const void *buff, size_t nbyte)
__CPROVER_requires(buff == g_base && nbyte == g_total && g_wr == 0)
__CPROVER_assigns(g_wr, g_fail, vp_errno)
__CPROVER_ensures(__CPROVER_return_value >= 0 ? (g_wr == nbyte && __CPROVER_return_value == (ssize_t)nbyte) : g_fail);
)
void h(void) {
    ssize_t r;
    g_total = vp_range(1, VP_BOUND(6, 4096));
    g_base = malloc(g_total); VP_ASSUME(g_base != NULL);
    g_wr = 0; g_fail = 0;
    r = xwrite(vp_int(), g_base, g_total);
    VP_CHECK(r >= 0 ? (g_wr == g_total && r == (ssize_t)g_total) : g_fail, "everything is written unless the connection fails");
    VP_REACH(r >= 0, "written"); VP_REACH(r < 0 && g_wr > 0, "failed on the way");
}
#elif defined(SEND)
static int g_wcnt; static size_t g_wn; static uint32_t g_h0, g_h1; static uint8_t g_wbyte; static int g_wfd, g_wres;
#define be(p) ((uint32_t)(p)[0] << 24 | (uint32_t)(p)[1] << 16 | (uint32_t)(p)[2] << 8 | (p)[3])
#define U8(b) ((const uint8_t *)(b))
VP_CONTRACT(
ssize_t vp_xw(int fd, const void *buff, size_t nbyte)
__CPROVER_requires(nbyte >= 8 && __CPROVER_r_ok(buff, nbyte))
__CPROVER_assigns(g_wcnt, g_wn, g_h0, g_h1, g_wbyte, g_wfd)
__CPROVER_ensures(g_wcnt == __CPROVER_old(g_wcnt) + 1 && g_wn == nbyte && g_wfd == fd && g_h0 == be(U8(buff)) && g_h1 == be(U8(buff) + 4) && __CPROVER_return_value == g_wres)
__CPROVER_ensures(!(g_sk >= 0 && (size_t)g_sk < nbyte - 8) || g_wbyte == U8(buff)[8 + g_sk]);
int vp_send(int fd, int command, void *payload, size_t size, int response)
__CPROVER_requires(size > MSG_DATA_SIZE || size == 0 || __CPROVER_r_ok(payload, size))
__CPROVER_assigns(g_wcnt, g_wn, g_h0, g_h1, g_wbyte, g_wfd)
__CPROVER_ensures(size > MSG_DATA_SIZE ? (g_wcnt == 0 && __CPROVER_return_value < 0) :
    (g_wcnt == 1 && g_wfd == fd && g_wn == size + 8 && g_h0 == size && g_h1 == ((uint32_t)command | (response == RESPONSE ? 0x01000000u : response == ERROR ? 0x02000000u : 0)) &&
     (g_wres < 0) == (__CPROVER_return_value < 0)))
__CPROVER_ensures(size > MSG_DATA_SIZE || !(g_sk >= 0 && (size_t)g_sk < size) || g_wbyte == U8(payload)[g_sk]);
)
#ifdef VP_BMC
#define xwrite_check(c) 
#endif
void h(void) {
    int r, fd = vp_int(), cmd = vp_range(1, NUM_COMMANDS), resp = vp_range(0, 2); size_t size = vp_range(0, VP_BOUND(20, 5000));
    uint8_t *p = vp_buf(size < 4 ? 4 : size);
    g_sk = vp_int();
    g_wcnt = 0; g_wres = vp_range(-1, 1000000);
    r = _message_send(fd, cmd, p, size, resp);
#ifdef VP_BMC
    if(size <= MSG_DATA_SIZE) {
        VP_CHECK(g_wcnt == 1 && g_wfd == fd && g_wn == size + 8 && g_h0 == size && g_h1 == ((uint32_t)cmd | (resp == RESPONSE ? 0x01000000u : resp == ERROR ? 0x02000000u : 0)), "the message has the right header");
        VP_CHECK(!(g_sk >= 0 && (size_t)g_sk < size) || g_wbyte == p[g_sk], "and the right content");
    }
#endif
    VP_REACH(r == 0, "sent"); VP_REACH(r < 0 && size > MSG_DATA_SIZE, "too big");
}
#elif defined(DISP)
static int g_called, g_hfd, g_htype; static uint32_t g_hsize; static uint8_t g_hb;
static int handler(dax_message *m) {
    g_called++; g_hfd = m->fd; g_htype = m->msg_type; g_hsize = m->size;
    if(g_sk >= 0 && g_sk < (int)MSG_DATA_SIZE) g_hb = m->data[g_sk];
    return 17;
}
void h(void) {
    uint32_t size = vp_u32(), cmd = vp_u32(); int fd = vp_int(), r, i, ok; uint8_t *b; uint32_t n;
    g_sk = vp_int(); VP_ASSUME(g_sk >= 0 && g_sk < (int)MSG_DATA_SIZE);
    ok = size >= 8 && size <= DAX_MSGMAX && cmd >= 1 && cmd <= NUM_COMMANDS;
    n = size >= 8 && size <= DAX_MSGMAX ? size : 8;     /* the buffer holds the message and not more */
    b = vp_buf(n);
    b[0] = size >> 24; b[1] = size >> 16; b[2] = size >> 8; b[3] = size;
    b[4] = cmd >> 24; b[5] = cmd >> 16; b[6] = cmd >> 8; b[7] = cmd;
    for(i = 0; i <= NUM_COMMANDS; i++) cmd_arr[i] = handler;
    g_called = 0;
    r = msg_dispatcher(fd, b);
    VP_LEMMA(ok ? g_called == 1 && r == 17 : g_called == 0 && r < 0, "exactly the messages with a proper size and command reach a handler");
    VP_LEMMA(!ok || (g_hfd == fd && g_htype == (int)cmd && g_hsize == size - 8), "the handler knows the sender, the command and the size");
    VP_LEMMA(!ok || g_hb == ((uint32_t)g_sk < size - 8 ? b[8 + g_sk] : 0), "it sees what was sent, and zeros behind that");
    VP_REACH(ok && (uint32_t)g_sk < size - 8, "handled"); VP_REACH(!ok, "refused");
}
#else
void h(void) {
    int i;
    msg_setup();
    VP_REACH(1, "end");
    for(i = 1; i <= NUM_COMMANDS; i++) VP_CHECK(cmd_arr[i] != NULL, "every command has a handler");
    VP_CHECK(cmd_arr[MSG_MOD_REG] == msg_mod_register && cmd_arr[MSG_TAG_ADD] == msg_tag_add && cmd_arr[MSG_TAG_DEL] == msg_tag_del && cmd_arr[MSG_TAG_GET] == msg_tag_get && cmd_arr[MSG_TAG_LIST] == msg_tag_list &&
        cmd_arr[MSG_TAG_READ] == msg_tag_read && cmd_arr[MSG_TAG_WRITE] == msg_tag_write && cmd_arr[MSG_TAG_MWRITE] == msg_tag_mask_write && cmd_arr[MSG_EVNT_ADD] == msg_evnt_add && cmd_arr[MSG_EVNT_DEL] == msg_evnt_del &&
        cmd_arr[MSG_EVNT_OPT] == msg_evnt_opt && cmd_arr[MSG_CDT_CREATE] == msg_cdt_create && cmd_arr[MSG_CDT_GET] == msg_cdt_get && cmd_arr[MSG_MAP_ADD] == msg_map_add && cmd_arr[MSG_MAP_DEL] == msg_map_del && cmd_arr[MSG_MAP_GET] == msg_map_get &&
        cmd_arr[MSG_GRP_ADD] == msg_group_add && cmd_arr[MSG_GRP_DEL] == msg_group_del && cmd_arr[MSG_GRP_READ] == msg_group_read && cmd_arr[MSG_GRP_WRITE] == msg_group_write && cmd_arr[MSG_ATOMIC_OP] == msg_atomic_op &&
        cmd_arr[MSG_ADD_OVRD] == msg_add_override && cmd_arr[MSG_DEL_OVRD] == msg_del_override && cmd_arr[MSG_GET_OVRD] == msg_get_override && cmd_arr[MSG_SET_OVRD] == msg_set_override, "it is the right one");
}
#endif
