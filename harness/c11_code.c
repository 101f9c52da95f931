/* C11: the code of the spectral shape parameters, put then got, and got from arbitrary bits. */
#include "tape_main.h"
#include "sns.h"
/* counts of pulse vectors: A: N = 10, K = 10; B: N = 6, K = 1; N = 16, K = 8; N = 16, K = 6; the sign of the
 * first pulse apart */
#define SIZE_A 2390004
#define SIZE_2 15158272
#define SIZE_3 774912
static int size(int shape) { return shape < 2 ? SIZE_A : shape == 2 ? SIZE_2 : SIZE_3; }
static int gains(int shape) { return shape == 0 ? 2 : shape == 1 ? 4 : shape == 2 ? 4 : 8; }
int main(void) {
    lc3_bits_t t; tape_new(&t);
    struct lc3_sns_data d, g;
#if ANY
    for (int i = 0; i < 38; i++) t.b[i] = vp_bool();
    t.nb = 38;
    /* the format: 5 and 5 bits of codebooks, 1 of shape, 1 or 2 of gain, 1 of sign, 25 or 24 of index */
    int msb = t.b[10];
    uint32_t code = 0;
    for (int i = 13 + msb; i < 38; i++) code |= (uint32_t)t.b[i] << (i - 13 - msb);
    bool valid = msb ? code < SIZE_2 + 2 * SIZE_3 : code < 14 * SIZE_A;
    int ret = lc3_sns_get_data(&t, &g);
    vp_assert(ret == (valid ? 0 : -1), "error exactly outside the codebook");
    vp_assert(t.rb == 38, "bits read");
    if (ret == 0) {
        vp_assert(g.lfcb >= 0 && g.lfcb < 32 && g.hfcb >= 0 && g.hfcb < 32, "codebooks");
        vp_assert(g.shape >= 0 && g.shape < 4, "shape");
        vp_assert(g.gain >= 0 && g.gain < gains(g.shape), "gain");
        vp_assert(g.idx_a >= 0 && g.idx_a < size(g.shape), "index of the pulse vector");
        vp_assert(g.shape != 0 || (g.idx_b >= 0 && g.idx_b < 6), "index of the second vector");
        /* no two codes have the same meaning: written again, they are the same bits */
        lc3_bits_t u; tape_new(&u);
        lc3_sns_put_data(&u, &g);
        int k = vp_int(0, 37);
        vp_assert(u.nb == 38 && u.b[k] == t.b[k], "same bits when written again");
        vp_reach("accepted");
    } else vp_reach("rejected");
#else
    d.lfcb = vp_int(0, 31); d.hfcb = vp_int(0, 31); d.shape = vp_int(0, 3);
    d.gain = vp_int(0, 7); vp_assume(d.gain < gains(d.shape));
    d.ls_a = vp_bool(); d.ls_b = vp_bool();
    d.idx_a = vp_s32(); vp_assume(d.idx_a >= 0 && d.idx_a < size(d.shape));
    d.idx_b = vp_int(0, 5);
    lc3_sns_put_data(&t, &d);
    vp_assert(t.nb == lc3_sns_get_nbits() && t.ns == 0, "accounted bits");
    int ret = lc3_sns_get_data(&t, &g);
    vp_assert(ret == 0, "accepted");
    vp_assert(g.lfcb == d.lfcb && g.hfcb == d.hfcb, "codebooks");
    vp_assert(g.shape == d.shape && g.gain == d.gain, "shape and gain");
    vp_assert(g.idx_a == d.idx_a && g.ls_a == d.ls_a, "pulse vector");
    vp_assert(g.shape != 0 || (g.idx_b == d.idx_b && g.ls_b == d.ls_b), "second pulse vector");
    vp_assert(tape_consumed(&t), "same bits");
    vp_reach("end");
#endif
    return 0;
}
