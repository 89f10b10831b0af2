/* queue tags.  -DSTEP: one operation on a queue in an arbitrary state, then the queue is emptied through
 * the interface and everything that comes out is compared.  -DNEW: a queue as tag_add() makes it.
 * -DREAD / -DWRITE: contracts of the two functions, with queues of any size. */
#ifdef WRITE
#include <stdlib.h>
static void *vp_norealloc(void) { return NULL; }
#define realloc(p, n) vp_norealloc()     /* not reached: growing is in the other units */
#endif
#include "server.h"
#include "contracts.h"
#define CAP 4
#define IT 3
static tag_queue g_q;
static virt_functions g_vf;
#if defined(STEP)
static uint8_t g_item[CAP + 1][IT]; static int g_n;
static void run(int cap, int size, int rd) {
    int i, j, r, off, op;
    uint8_t buf[IT + 2], out[IT + 2];
    g_q.type = DAX_BYTE; g_q.count = g_q.size = size;
    g_q.qsize = cap; g_q.qread = rd; g_q.qcount = g_n = vp_range(0, cap);
    g_q.queue = malloc(sizeof(void *) * cap);
    VP_ASSUME(g_q.queue != NULL);
    for(i = 0; i < cap; i++) {
        int pos = (i - g_q.qread + cap) % cap;
        uint8_t *slot = malloc(size);
        VP_ASSUME(slot != NULL);
        g_q.queue[i] = NULL;
        if(pos < g_n || (vp_u8() & 1)) {
            g_q.queue[i] = slot;
            for(j = 0; j < size; j++) { slot[j] = vp_u8(); if(pos < g_n) g_item[pos][j] = slot[j]; }
        }
    }
    /* one operation */
    int len = vp_range(-1, IT + 2), first = 0;
    op = vp_u8() & 1;
    off = vp_range(-1, 2);
    for(j = 0; j < IT + 2; j++) { buf[j] = vp_u8(); out[j] = 0; }
    if(op) {
        r = write_queue(3, 10, off, buf, len, &g_q);
        if(r == ERR_ALLOC) return;
        if(off == 0 && len == size) {
            VP_CHECK(r == 0, "a queue takes an item");
            for(j = 0; j < size; j++) g_item[g_n][j] = buf[j];
            g_n++;
        } else VP_CHECK(r < 0, "a partial item is refused");
        VP_REACH(r == 0 && g_n > cap, "growing");
        VP_REACH(r == 0 && g_n == 1, "first item");
    } else {
        r = read_queue(3, 10, off, buf, len, &g_q);
        if(off == 0 && len == size && g_n > 0) {
            VP_CHECK(r == 0, "the oldest item is read");
            for(j = 0; j < size; j++) VP_CHECK(buf[j] == g_item[0][j], "the oldest item is what is read");
            first = 1;
        } else VP_CHECK(r < 0, "nothing to read");
        VP_REACH(r == ERR_EMPTY, "empty");
        VP_REACH(r == 0 && g_n == 1, "read");
    }
    /* everything that is left comes out in order */
    for(i = first; i < g_n; i++) {
        r = read_queue(4, 10, 0, out, size, &g_q);
        VP_CHECK(r == 0, "no item is lost");
        for(j = 0; j < size; j++) VP_CHECK(out[j] == g_item[i][j], "items come out in order and unchanged");
    }
    r = read_queue(4, 10, 0, out, size, &g_q);
    VP_CHECK(r == ERR_EMPTY, "no item comes out twice");
}
#ifdef VP_NATIVE
void event_stub(void) { }
#endif
void h(void) {
    int c = vp_range(0, QCAP - 1);
    if(c == 0) run(QCAP, QSZ, 0);
#if QCAP > 1
    if(c == 1) run(QCAP, QSZ, 1);
#endif
#if QCAP > 2
    if(c == 2) run(QCAP, QSZ, 2);
    if(c == 3) run(QCAP, QSZ, 3);
#endif
}
#elif defined(NEW)
void h(void) {
    int r, idx = 10, j;
    vp_make_db();
    VP_ASSUME(_tagnextindex > idx);
    _db[idx].name = vp_name;
    _db[idx].type = (vp_u8() & 1 ? DAX_INT : DAX_BOOL) | DAX_QUEUE;
    _db[idx].count = vp_range(1, 3);
    _db[idx].attr = 0;
    _db[idx].data = NULL;
    int size = tag_get_size(idx);
    VP_CHECK(size == spec_datasize(_db[idx].type, _db[idx].count), "the size of an item");
    r = _queue_add(idx, _db[idx].type, _db[idx].count);
    if(r) return;
    VP_CHECK((_db[idx].attr & TAG_ATTR_VIRTUAL) && ((virt_functions *)_db[idx].data)->rf == read_queue && ((virt_functions *)_db[idx].data)->wf == write_queue, "reads and writes go to the queue");
    tag_queue *q = (tag_queue *)((virt_functions *)_db[idx].data)->userdata;
    VP_CHECK(q->size == size && q->qcount == 0 && q->qsize >= 1 && q->qread >= 0 && q->qread < q->qsize, "a new queue is empty");
    for(j = 0; j < q->qsize; j++) VP_CHECK(q->queue[j] == NULL, "no item is there");
    VP_REACH(1, "done");
}
#else
/* queues of any capacity: the slots are an array of g_q.qsize pointers, the one that the call has to use
 * (g_slotptr, maybe NULL) and one other one (position g_k) are looked at */
static int g_pos; static void *g_slotptr, *g_other; static int g_pre_count, g_pre_read;
static uint8_t *g_bufp;
#define q_ok(q) ((q)->qsize >= 1 && (q)->qcount >= 0 && (q)->qcount <= (q)->qsize && (q)->qread >= 0 && (q)->qread < (q)->qsize)
#define rd_fits(offset, sz) ((offset) == 0 && (sz) == (int)g_q.size)
#define post_read_queue(r, offset, data, sz) (q_ok(&g_q) && g_q.queue[g_pos] == g_other && \
    (!rd_fits(offset, sz) || g_pre_count == 0 ? ((r) < 0 && g_q.qcount == g_pre_count && g_q.qread == g_pre_read) : \
     ((r) == 0 && g_q.qcount == g_pre_count - 1 && g_q.qread == (g_pre_read + 1 == g_q.qsize ? 0 : g_pre_read + 1) && \
      ((uint8_t *)(data))[g_k] == g_old)))
#define wr_next ((int)(((long long)g_pre_read + g_pre_count) % g_q.qsize))
#define post_write_queue(r, offset, data, sz) (q_ok(&g_q) && g_q.qread == g_pre_read && \
    (!rd_fits(offset, sz) ? ((r) < 0 && g_q.qcount == g_pre_count && g_evchk == 0) : \
     (r) == ERR_ALLOC ? g_q.qcount == g_pre_count : \
     ((r) == 0 && g_q.qcount == g_pre_count + 1 && ((uint8_t *)g_q.queue[g_pos])[g_k] == ((uint8_t *)(data))[g_k] && g_evchk == 1)))
VP_CONTRACT(
int vp_read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userdata)
__CPROVER_requires(userdata == &g_q)
__CPROVER_assigns(g_q.qcount, g_q.qread; size > 0: __CPROVER_object_upto(data, size))
__CPROVER_ensures(post_read_queue(__CPROVER_return_value, offset, data, size));
int vp_write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userdata)
__CPROVER_requires(userdata == &g_q)
__CPROVER_assigns(g_q.qcount, g_evchk, g_evchk_off, g_evchk_size, g_q.queue[g_pos]; g_slotptr != NULL: __CPROVER_object_whole(g_slotptr))
__CPROVER_ensures(post_write_queue(__CPROVER_return_value, offset, data, size));
)
void h(void) {
    int r, offset = vp_int(), size = vp_int();
    vp_make_db();
    g_evchk = 0;
    g_idx = 10;
    g_q.size = vp_range(1, VP_BOUND(IT, INT_MAX));
    g_q.qsize = vp_range(1, VP_BOUND(4, 1 << 24));
    g_q.qcount = g_pre_count = vp_range(0, g_q.qsize);
    g_q.qread = g_pre_read = vp_range(0, g_q.qsize - 1);
    g_q.queue = malloc(sizeof(void *) * g_q.qsize);
    VP_ASSUME(g_q.queue != NULL);
    g_k = vp_range(0, (int)g_q.size - 1);
    VP_ASSUME(size <= VP_BOUND(IT + 1, INT_MAX));
    uint8_t *data = vp_buf(size < 0 ? 0 : size);
#ifdef READ
    g_bufp = vp_buf(g_q.size);
    g_old = g_bufp[g_k];
    g_pos = vp_range(0, g_q.qsize - 1);
    g_q.queue[g_pos] = g_other = (g_pos == g_q.qread) ? (void *)g_bufp : NULL;
    g_q.queue[g_q.qread] = g_bufp;
    r = read_queue(3, 10, offset, data, size, &g_q);
    VP_REACH(r == 0 && g_q.qread == 0 && g_q.size == 7, "wrapped");
    VP_REACH(r == ERR_EMPTY, "empty");
#else
    VP_ASSUME(g_q.qcount < g_q.qsize);      /* growing is in the other unit */
    g_pos = wr_next;
    g_slotptr = NULL;
    if(vp_u8() & 1) g_slotptr = vp_buf(g_q.size);
    g_q.queue[g_pos] = g_slotptr;
    r = write_queue(3, 10, offset, data, size, &g_q);
    VP_REACH(r == 0 && g_pos < g_q.qread, "wrapped");
    VP_REACH(r == 0 && g_slotptr == NULL, "new slot");
#endif
}
#endif
