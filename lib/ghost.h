/* ghost state; declared before the server's text because loop contracts use it */
#ifndef GHOST_H
#define GHOST_H
static int g_idx;                 /* the tag that we look at */
static int g_k;                   /* an arbitrary byte of that tag (witness) */
static uint8_t g_old;             /* its content before the call */
static uint8_t g_oldod, g_oldom;  /* override data and mask before the call */
static int g_cdtsize;             /* size of the custom datatype with index 0 */
static int g_tagsize;             /* size in bytes of the data of the tag g_idx */
static int g_special;             /* what the hook of a special tag answers (0 or an error) */
static uint8_t g_eff;             /* value of byte g_k that a reader has to see */
static int g_evchk, g_evchk_off, g_evchk_size;    /* event_check() calls for tag g_idx */
static int g_retained;            /* ret_tag_write() calls */
static int g_sent, g_sfd, g_scmd, g_skind, g_ssize;   /* the messages that were sent */
static int g_bit;                 /* an arbitrary bit of byte g_k */
static int g_w;                   /* an arbitrary byte of an operand */
static int g_sk;                  /* an arbitrary position of the payload (witness) */
static uint8_t g_sbyte;           /* payload[g_sk] of the last message */
#endif
