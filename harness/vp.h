/* Common support of the harnesses.
 *
 * One harness source has two lives:
 *  - under goto-cc (CBMC) the vp_* input functions return solver variables;
 *  - under gcc with -DVP_REPLAY it is an ordinary program, which takes the
 *    values of a counterexample from the file named in VP_INPUTS and runs the
 *    real code on them, under ASan and UBSan. */
#ifndef VP_H
#define VP_H

#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <limits.h>

#ifndef VP_REPLAY

#define VP_DEF(T, name, NT) \
    T nondet_##name(void); \
    static inline T vp_##name(void) \
    { T v = nondet_##name(); __CPROVER_input("vp_" #name, v); return v; }

#define vp_assume(c) __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert((c), "VP: " msg)
#define vp_reach(msg) __CPROVER_assert(0, "VPREACH: " msg)

#else

#include <stdio.h>
#include <stdlib.h>

static uint64_t vp__next(const char *name)
{
    static FILE *f;
    unsigned long long v; char n[64];
    if (!f) f = fopen(getenv("VP_INPUTS"), "r");
    if (!f || fscanf(f, "%63s %llx", n, &v) != 2) {
        printf("VP-REPLAY-NO-INPUT %s\n", name); fflush(stdout); _Exit(78);
    }
    if (strcmp(n, name)) {
        printf("VP-REPLAY-MISMATCH %s %s\n", n, name); fflush(stdout); _Exit(79);
    }
    return v;
}

#define VP_DEF(T, name, NT) \
    static inline T vp_##name(void) \
    { union { T t; uint64_t u; } x; x.u = vp__next("vp_" #name); return x.t; }

#define vp_assume(c) do { if (!(c)) { \
    printf("VP-REPLAY-ASSUME %s\n", #c); fflush(stdout); _Exit(77); } } while (0)
#define vp_assert(c, msg) do { if (!(c)) { \
    printf("VP-ASSERT-FAILED %s\n", msg); fflush(stdout); _Exit(66); } } while (0)
#define vp_reach(msg) do { printf("VP-REACHED %s\n", msg); } while (0)

#endif

static inline int vp_isfinite(float x) {
    union { float f; uint32_t u; } v = { x };
    return (v.u & 0x7f800000u) != 0x7f800000u;
}

VP_DEF(uint8_t, u8, )
VP_DEF(int8_t, s8, )
VP_DEF(uint16_t, u16, )
VP_DEF(int16_t, s16, )
VP_DEF(uint32_t, u32, )
VP_DEF(int32_t, s32, )
VP_DEF(uint64_t, u64, )
VP_DEF(int64_t, s64, )
VP_DEF(float, f32, )

static inline bool vp_bool(void) { uint8_t b = vp_u8(); vp_assume(b <= 1); return b; }
static inline int vp_int(int lo, int hi)
{ int32_t v = vp_s32(); vp_assume(v >= lo && v <= hi); return v; }
static inline float vp_float(float lo, float hi)
{ float v = vp_f32(); vp_assume(v >= lo && v <= hi); return v; }
static inline void vp_bytes(void *p, int n)
{ for (int i = 0; i < n; i++) ((uint8_t *)p)[i] = vp_u8(); }

static inline uint32_t vp_fbits(float x) { union { float f; uint32_t u; } v = { x }; return v.u; }

#endif
