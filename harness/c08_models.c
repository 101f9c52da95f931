/* C08: the probability models and their cost tables.  TAB: 0 spectrum, 1 TNS coefficients, 2 TNS orders. */
#include "vp.h"
#include "bits.h"
#include "tables.h"
#include "vp_cost.h"

static const struct lc3_ac_model *model(int i) { return (TAB == 0 ? lc3_spectrum_models : TAB == 1 ? lc3_tns_coeffs_models : lc3_tns_order_models) + i; }
static int cost(int i, int s) { return TAB == 0 ? lc3_spectrum_bits[i][s] : TAB == 1 ? lc3_tns_coeffs_bits[i][s] : lc3_tns_order_bits[i][s]; }
#define NM (TAB == 0 ? 64 : TAB == 1 ? 8 : 2)
#define NS (TAB == 2 ? 8 : 17)           /* symbols the encoder emits */

int main(void) {
    int i = vp_int(0, NM - 1), s = vp_int(0, 16);
#ifndef RANGE
    const struct lc3_ac_model *m = model(i);
    vp_assert(m->s[0].low == 0, "the first interval starts at 0");
    vp_assert(s == 16 || m->s[s].low + m->s[s].range == m->s[s + 1].low, "contiguous");
    vp_assert(m->s[16].low + m->s[16].range == 1024, "the last interval ends the range");
    if (s < NS) {
        int r = m->s[s].range, c;
        vp_assert(r > 0, "every symbol has an interval");
        c = cost(i, s);
        vp_assert(c >= (int)vp_cost[r] - 1 && c <= (int)vp_cost[r] + 1, "cost is the self-information in 1/2048 bit");
    } else
        vp_assert(m->s[s].range == 0, "no interval for unused symbols");
    if (TAB == 0) {
        int a = vp_int(0, 1), b = vp_int(0, 1), c = vp_int(0, 255), d = vp_int(0, 3);
        vp_assert(lc3_spectrum_lookup[a][b][c][d] < NM, "context selects a model");
    }
#else
    /* the decoder's search over the real models */
    static uint8_t frame[8];
    vp_bytes(frame, 8);
    lc3_bits_t r; lc3_setup_bits(&r, LC3_BITS_MODE_READ, frame, 8);
    r.ac.range = ((unsigned)RANGE << 10) + vp_int(0, 1023);
    r.ac.low = vp_u32(); vp_assume(r.ac.low < ((unsigned)RANGE << 10));
    unsigned low = r.ac.low;
    s = lc3_get_symbol(&r, model(i));
    vp_assert(s >= 0 && s < NS, "a symbol the encoder can emit");
    struct lc3_ac_symbol y = model(i)->s[s];
    vp_assert(low >= RANGE * y.low && low < RANGE * (y.low + y.range), "the symbol of that position");
    vp_assert(!r.ac.error, "no error");
#endif
    vp_reach("end");
    return 0;
}
