/* Contracts of the functions that compare values for events, for every value.  -DCMP / -DDB */
#include "server.h"
#define V(T, e) { T x = *(T *)a, y = *(T *)b, z = *(T *)d; return e; }
#define ORDER x < y ? -1 : x > y ? 1 : 0
/* |x - y| >= z without an overflow; the difference of two values of a signed type fits the unsigned one */
#define DIST z <= 0 || (x > y ? (uint64_t)x - (uint64_t)y : (uint64_t)y - (uint64_t)x) >= (uint64_t)z
#define FDIST (x - y < 0 ? -(x - y) : x - y) >= z
#ifdef CMP
#define E ORDER
#define FE ORDER
#else
#define E DIST
#define FE FDIST
#endif
static int spec(tag_type t, const uint8_t *a, const uint8_t *b, const uint8_t *d) {
    switch(t) {
        case 0x03: V(uint8_t, E)   case 0x13: case 0x23: V(int8_t, E)
        case 0x04: case 0x24: V(uint16_t, E)   case 0x14: V(int16_t, E)
        case 0x05: case 0x25: V(uint32_t, E)   case 0x15: V(int32_t, E)
        case 0x06: case 0x26: V(uint64_t, E)   case 0x16: case 0x36: V(int64_t, E)
        case 0x35: V(float, FE)   case 0x46: V(double, FE)
    }
    return 2;
}
static int g_want;
#ifdef CMP
VP_CONTRACT(
int vp_compare(tag_type datatype, void *data1, void *data2)
__CPROVER_requires(__CPROVER_r_ok(data1, 8) && __CPROVER_r_ok(data2, 8))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == g_want);
)
#else
VP_CONTRACT(
int vp_deadband(_dax_event *event, void *data1, void *data2)
__CPROVER_requires(__CPROVER_r_ok(event, sizeof(*event)) && __CPROVER_r_ok(data1, 8) && __CPROVER_r_ok(data2, 8))
__CPROVER_assigns()
__CPROVER_ensures((__CPROVER_return_value != 0) == (g_want != 0));
)
#endif
void h(void) {
    uint64_t a = vp_u64(), b = vp_u64(), d = vp_u64(); int r;
    tag_type t = 0;
    switch(vp_u8() % 15) {
#define T(n, v) case n: t = v; break;
#ifdef FP
        T(9, 0x35) T(13, 0x46)
#else
        T(0, 0x03) T(1, 0x13) T(2, 0x23) T(3, 0x04) T(4, 0x14) T(5, 0x24) T(6, 0x05) T(7, 0x15) T(8, 0x25)
        T(10, 0x06) T(11, 0x16) T(12, 0x26) T(14, 0x36)
#endif
        default: return;
    }
#if defined(FP) && defined(DB)
    /* the difference is exact for small integral values */
    int8_t i = vp_u8(), j = vp_u8(), k = vp_u8();
    if(t == 0x35) { float x = i, y = j, z = k; a = b = d = 0; *(float *)&a = x; *(float *)&b = y; *(float *)&d = z; }
    else { double x = i, y = j, z = k; *(double *)&a = x; *(double *)&b = y; *(double *)&d = z; }
    g_want = (i > j ? i - j : j - i) >= k;
#else
    g_want = spec(t, (void *)&a, (void *)&b, (void *)&d);
#endif
#ifdef CMP
    r = _generic_compare(t, &a, &b);
    VP_CHECK(r == g_want, "values are compared by the rules of their type");
    VP_REACH(r == -1, "below"); VP_REACH(r == 1, "above"); VP_REACH(r == 0, "equal");
#else
    _dax_event e;
    memset(&e, 0, sizeof(e));
    e.datatype = t; e.data = &d;
    r = _generic_deadband(&e, &a, &b);
    VP_CHECK((r != 0) == (g_want != 0), "the deadband is exceeded when the distance is at least the deadband");
    VP_REACH(r == 1, "outside"); VP_REACH(r == 0, "inside");
#endif
}
