/* The server as one translation unit.  vp_unity.c is generated on every run: it
 * includes every .c file of src/server except server.c (main) and options.c
 * (command line and Lua), so the verified text is the text of the repository. */
#define _GNU_SOURCE
#include "vp.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <sys/time.h>
#include <sys/select.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <assert.h>
#include <ctype.h>
#include <limits.h>
#include "ghost.h"
#include <opendax.h>
#ifndef VP_NATIVE
#include <strings.h>
/* bzero() as a function with a contract: one arbitrary byte of the cleared memory is zero */
#ifdef VP_PROOF
static void vp_bzero(void *p, size_t n)
__CPROVER_requires(n == 0 || __CPROVER_w_ok(p, n))
__CPROVER_assigns(n > 0: __CPROVER_object_upto(p, n))
__CPROVER_ensures(!(g_k >= 0 && (size_t)g_k < n) || ((uint8_t *)p)[g_k] == 0)
{ memset(p, 0, n); }
#define bzero(p, n) vp_bzero(p, n)
#else
#define bzero(p, n) memset(p, 0, n)
#endif
#include <ctype.h>      /* character classes of the C locale */
#undef isalpha
#undef isdigit
#undef isalnum
static int vp_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
#define isalpha(c) vp_isalpha(c)
#define isdigit(c) vp_isdigit(c)
#define isalnum(c) (vp_isalpha(c) || vp_isdigit(c))
#define dax_log(...) ((void)0)     /* log calls are left out of the proofs */
#include <common.h>
#undef DF
#define DF(...) ((void)0)
#endif
#if defined(VP_NATIVE) || defined(VP_CAPTURE)
/* what the server would have sent is looked at */
static ssize_t vp_net_write(int fd, const void *buff, size_t n);
#define write(fd, b, n) vp_net_write(fd, b, n)
#endif
#if defined(VP_FIXMALLOC) && defined(VP_BMC)
/* allocations of one fixed size keep the search small */
static void *vp_fixmalloc(size_t n) { void *p; if(n > VP_FIXMALLOC) return NULL; p = malloc(VP_FIXMALLOC); __CPROVER_assume(p != NULL); return p; }
#define malloc(n) vp_fixmalloc(n)
#endif
#if defined(VP_POOL) && defined(VP_BMC)
/* allocations from static memory, which never fail: all pointers are constants */
#include <string.h>
#include "tagbase.h"
static uint8_t vp_pool[VP_POOL][64] __attribute__((aligned(8))); static int vp_pooln;
static _dax_tag_db vp_dbs[40], vp_dbs2[40]; static _dax_tag_index vp_ixs[40], vp_ixs2[40];
static _dax_datamap vp_mps[8]; static _dax_event vp_evs[8]; static tag_group vp_grs[3][TAG_GROUP_START_COUNT]; static int vp_mpn, vp_evn, vp_grn;
static datatype vp_dts[DAX_DATATYPE_SIZE], vp_dts2[2 * DAX_DATATYPE_SIZE]; static cdt_member vp_cms[32]; static int vp_cmn;
static void *vp_praw(size_t n) { __CPROVER_assume(n <= 64 && vp_pooln < VP_POOL); return vp_pool[vp_pooln++]; }
static void *vp_palloc(size_t n) {
    if(n == sizeof(*vp_cms)) { __CPROVER_assume(vp_cmn < 32); return &vp_cms[vp_cmn++]; }
    if(n == sizeof(*vp_mps)) { __CPROVER_assume(vp_mpn < 8); return &vp_mps[vp_mpn++]; }
    if(n == sizeof(*vp_evs)) { __CPROVER_assume(vp_evn < 8); return &vp_evs[vp_evn++]; }
    if(n == sizeof(*vp_grs)) { __CPROVER_assume(vp_grn < 3); return vp_grs[vp_grn++]; }
    return vp_praw(n);
}
static void *vp_prealloc(void *p, size_t n) {
    if(p == (void *)vp_dbs) { __CPROVER_assume(n <= sizeof(vp_dbs2)); for(int i = 0; i < 40; i++) vp_dbs2[i] = vp_dbs[i]; return vp_dbs2; }
    if(p == (void *)vp_ixs) { __CPROVER_assume(n <= sizeof(vp_ixs2)); for(int i = 0; i < 40; i++) vp_ixs2[i] = vp_ixs[i]; return vp_ixs2; }
    if(p == (void *)vp_dts) { __CPROVER_assume(n <= sizeof(vp_dts2)); for(int i = 0; i < DAX_DATATYPE_SIZE; i++) vp_dts2[i] = vp_dts[i]; return vp_dts2; }
    uint8_t *d = vp_palloc(n);
    for(int i = 0; i < 64; i++) if(i < (int)n) d[i] = ((uint8_t *)p)[i];
    return d;
}
static void *vp_pmemcpy(void *d, const void *s, size_t n) { return n ? memcpy(d, s, n) : d; }
static char *vp_pstrdup(const char *s) { char *d = vp_praw(64); int i; for(i = 0; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
#ifdef VP_CDT
/* the functions of the library that the definitions of types are taken apart with */
#include <stdio.h>
#include <stdlib.h>
static char *vp_strtok_r(char *s, const char *d, char **last) {      /* one delimiter */
    char *b;
    if(s == NULL) s = *last;
    while(*s == *d) s++;
    if(*s == 0) { *last = s; return NULL; }
    for(b = s; *s && *s != *d; s++);
    if(*s) *s++ = 0;
    *last = s;
    return b;
}
static long vp_strtol(const char *s, char **e, int base) {
    long v = 0; int neg = 0, i;
    if(*s == '-') { neg = 1; s++; }
    for(i = 0; i < 19 && s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + (s[i] - '0');
    return neg ? -v : v;
}
static int vp_snprintf(char *b, size_t n, const char *f, int v, ...) {      /* "%d" of a positive number */
    char t[12]; int i = 0, j = 0; unsigned u = v;
    do { t[i++] = '0' + u % 10; u /= 10; } while(u);
    while(i > 0) b[j++] = t[--i];
    b[j] = 0;
    return j;
}
#define strtok_r(s, d, l) vp_strtok_r(s, d, l)
#define strtol(s, e, b) vp_strtol(s, e, b)
#define snprintf(...) vp_snprintf(__VA_ARGS__)
#endif
#define malloc(n) vp_palloc(n)
#define realloc(p, n) vp_prealloc(p, n)
#define strdup(s) vp_pstrdup(s)
#define free(p) ((void)(p))
#define memcpy(d, s, n) vp_pmemcpy(d, s, n)      /* nothing may be copied from nowhere */
#endif
#if defined(VP_LOOPCPY) && defined(VP_BMC)
static void *vp_loopcpy(void *d, const void *s, size_t n) {
    __CPROVER_assume(n <= VP_LOOPCPY);
    for(size_t i = 0; i < VP_LOOPCPY; i++) if(i < n) ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
    return d;
}
static void vp_loopzero(void *d, size_t n) {
    __CPROVER_assume(n <= VP_LOOPCPY);
    for(size_t i = 0; i < VP_LOOPCPY; i++) if(i < n) ((uint8_t *)d)[i] = 0;
}
#define memcpy(d, s, n) vp_loopcpy(d, s, n)
#ifdef VP_LOOPMOVE      /* only where the destination is in front of the source */
#define memmove(d, s, n) vp_loopcpy(d, s, n)
#endif
#undef bzero
#define bzero(d, n) vp_loopzero(d, n)
#endif
#include "vp_unity_server.c"
#undef malloc
#undef realloc
#undef strdup
#undef free
#undef memcpy
#undef memmove
#if defined(VP_NATIVE) || defined(VP_CAPTURE)
#undef write
static int g_capfd[8]; static uint32_t g_cap[8][3];  /* the first messages: descriptor, command, first two words */
static uint8_t g_wb[64]; static size_t g_wlen;     /* the last message as it is on the wire */
static ssize_t vp_net_write(int fd, const void *buff, size_t n) {
    const uint8_t *b = buff;
    uint32_t cmd = (uint32_t)b[4] << 24 | (uint32_t)b[5] << 16 | (uint32_t)b[6] << 8 | b[7];
    g_sent++;
    g_sfd = fd;
    g_wlen = n;
    g_ssize = (int)((uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3]);
    if((size_t)g_ssize + MSG_HDR_SIZE != n) { VP_FAIL("the size in the header is not the size of the message"); }
    g_skind = (cmd & MSG_ERROR) ? ERROR : (cmd & MSG_RESPONSE) ? RESPONSE : ASYNC;
    g_scmd = cmd & 0xFFFF;
    if(g_sk >= 0 && g_sk < g_ssize) g_sbyte = b[MSG_HDR_SIZE + g_sk];
#define CP(i) if(n > i) g_wb[i] = b[i];
#define CP8(i) CP(i) CP(i+1) CP(i+2) CP(i+3) CP(i+4) CP(i+5) CP(i+6) CP(i+7)
    CP8(0) CP8(8) CP8(16) CP8(24) CP8(32) CP8(40) CP8(48) CP8(56)
    if(g_sent >= 1 && g_sent <= 8 && n >= 16) {
        g_capfd[g_sent - 1] = fd;
        g_cap[g_sent - 1][0] = cmd;
        g_cap[g_sent - 1][1] = (uint32_t)b[8] << 24 | (uint32_t)b[9] << 16 | (uint32_t)b[10] << 8 | b[11];
        g_cap[g_sent - 1][2] = (uint32_t)b[12] << 24 | (uint32_t)b[13] << 16 | (uint32_t)b[14] << 8 | b[15];
    }
    return n;
}
static uint32_t g_wbe(int i) { return (uint32_t)g_wb[i] << 24 | (uint32_t)g_wb[i+1] << 16 | (uint32_t)g_wb[i+2] << 8 | g_wb[i+3]; }
static uint32_t g_wle(int i) { return (uint32_t)g_wb[i+3] << 24 | (uint32_t)g_wb[i+2] << 16 | (uint32_t)g_wb[i+1] << 8 | g_wb[i]; }
#endif
#ifdef VP_NATIVE
/* the few things that the server takes from the library and from options.c */
char *opt_socketname(void) { return "/nonexistent"; }
struct in_addr opt_serverip(void) { struct in_addr a = {0}; return a; }
unsigned int opt_serverport(void) { return 0; }
int opt_min_buffers(void) { return 5; }
int opt_start_timeout(void) { return 3; }
char *opt_mod_tag_exclude(void) { return NULL; }
#endif
/* logging has no effect on what is verified here */
#ifdef VP_NATIVE
void dax_log(uint32_t topic, const char *format, ...) { }
#endif
const char *dax_errstr(int e) { return "error"; }
#include "state.h"
