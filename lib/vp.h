/* Harness interface.  One harness text is compiled in three modes:
 *   VP_PROOF   goto-cc + dfcc contracts + loop contracts, sizes unbounded (only
 *              limited by the data type), used to discharge the obligations
 *   VP_BMC     goto-cc + dfcc, loops unwound, sizes limited to VP_N; only used to
 *              look for a concrete counterexample
 *   VP_NATIVE  gcc + ASan, replays the drawn values of a counterexample
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifndef VP_N
#define VP_N 12
#endif

#ifdef VP_NATIVE
#include <unistd.h>
static long long *vp_vals; static int vp_nvals, vp_pos;
static long long vp_draw(void) {
    if(vp_pos < vp_nvals) return vp_vals[vp_pos++];
    vp_pos++;
    return 0;
}
#define VP_ASSUME(c) do { if(!(c)) { fprintf(stderr, "VPASSUME not met: %s\n", #c); fflush(NULL); _exit(77); } } while(0)
#define VP_FAIL(msg) do { fprintf(stderr, "VPCHECK failed: %s\n", msg); fflush(NULL); _exit(1); } while(0)
#define VP_CHECK(c, msg) do { if(!(c)) VP_FAIL(msg); } while(0)
#define VP_LEMMA(c, msg) VP_CHECK(c, msg)
#define VP_REACH(c, msg) do { } while(0)
#define VP_CONTRACT(...)
#define VP_ONLY_CBMC(...)
#define VP_ONLY_NATIVE(...) __VA_ARGS__
#else
long long vp_last;
long long nondet_vp_ll(void);
static long long vp_draw(void) { long long v = nondet_vp_ll(); __CPROVER_input("vp_in", v); vp_last = v; return v; }
#define VP_ASSUME(c) __CPROVER_assume(c)
#if defined(VP_PROOF) || defined(VP_DO_REACH)
#define VP_REACH(c, msg) __CPROVER_assert(!(c), "vpreach: " msg)
#else
#define VP_REACH(c, msg) do { } while(0)
#endif
#define VP_FAIL(msg) __CPROVER_assert(0, "vpcheck: " msg)
#define VP_LEMMA(c, msg) __CPROVER_assert((c), "vplemma: " msg)
#ifdef VP_PROOF
#define VP_CHECK(c, msg) do { } while(0)   /* the contract says it */
#else
#define VP_CHECK(c, msg) __CPROVER_assert((c), "vpcheck: " msg)
#endif
#define VP_CONTRACT(...) __VA_ARGS__
#define VP_ONLY_CBMC(...) __VA_ARGS__
#define VP_ONLY_NATIVE(...)
#endif

#ifdef VP_PROOF
#define VP_BOUND(small, big) (big)
#else
#define VP_BOUND(small, big) (small)
#endif

/* Draw with the whole range of the type */
static int      vp_int(void)  { return (int)vp_draw(); }
static unsigned vp_uint(void) { return (unsigned)vp_draw(); }
static uint8_t  vp_u8(void)   { return (uint8_t)vp_draw(); }
static uint16_t vp_u16(void)  { return (uint16_t)vp_draw(); }
static uint32_t vp_u32(void)  { return (uint32_t)vp_draw(); }
static uint64_t vp_u64(void)  { return (uint64_t)vp_draw(); }
static int      vp_range(int lo, int hi) { int v = (int)vp_draw(); VP_ASSUME(v >= lo && v <= hi); return v; }

/* A buffer of n bytes with arbitrary content */
static void *vp_buf(size_t n) {
    uint8_t *p = malloc(n);
    VP_ASSUME(p != NULL);
#ifndef VP_PROOF
    size_t i;
    for(i = 0; i < n; i++) p[i] = vp_u8();
#endif
    return p;
}
static void vp_fill(void *q, size_t n) {
#ifdef VP_PROOF
    __CPROVER_havoc_slice(q, n);
#else
    uint8_t *p = q;
    size_t i;
    for(i = 0; i < n; i++) p[i] = vp_u8();
#endif
}

/* arbitrary content in a proof; otherwise the first n bytes are drawn and the rest is zero */
static void vp_fill_first(void *q, size_t total, size_t n) {
#ifdef VP_PROOF
    __CPROVER_havoc_slice(q, total);
#else
    memset(q, 0, total);
    vp_fill(q, n);
#endif
}

#ifdef VP_NATIVE
void h(void);
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    long long v; int cap = 0;
    if(!f) return 99;
    while(fscanf(f, "%lld", &v) == 1) {
        if(vp_nvals == cap) vp_vals = realloc(vp_vals, sizeof(long long) * (cap = cap * 2 + 64));
        vp_vals[vp_nvals++] = v;
    }
    fclose(f);
    h();
    fprintf(stderr, "VPDONE\n");
    return 0;
}
#endif
#endif
