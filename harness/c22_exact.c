/* C22: exact scaling, on every operand, against double precision (exact here). */
#include "vp.h"
#include "fastmath.h"
VP_DEF(uint32_t, operand, u)
VP_DEF(int, power, i)

static double pow2(int e) {
    union { uint64_t u; double d; } p = { (uint64_t)(1023 + e) << 52 };
    return p.d;
}
static uint32_t bits(float x) { union { float f; uint32_t u; } v = { x }; return v.u; }

int main(void) {
    union { uint32_t u; float f; } v;
    v.u = vp_operand();
    int ex = (v.u >> 23) & 0xff;
    vp_assume(ex < 255);
#if WHICH == 0
    int e = vp_power();
    vp_assume(e >= -300 && e <= 300);
    vp_assume(!ex || ex + e < 255);                     /* finite result */
    float r = lc3_ldexpf(v.f, e);
    double x = (double)v.f * pow2(e);
    if (ex && ex + e > 0)
        vp_assert((double)r == x, "exact scaling");
    else if (ex)
        vp_assert((bits(r) & 0x7fffffff) == 0, "underflow to 0");
    else
        vp_assert((bits(r) & 0x7fffffff) == 0 || (double)r == x, "scaling of a subnormal number");
    vp_assert((bits(r) ^ v.u) >> 31 == 0, "sign kept");
#else
    vp_assume(ex > 0);
    int e = 12345;
    float m = lc3_frexpf(v.f, &e);
    vp_assert(e >= -126 && e <= 128, "exponent in the range");
    vp_assert((double)m * pow2(e < -126 || e > 128 ? 0 : e) == (double)v.f, "mantissa and exponent give the operand");
    vp_assert((m < 0 ? -m : m) >= 0.5f && (m < 0 ? -m : m) < 1, "normalized mantissa");
#endif
    vp_reach("end");
    return 0;
}
