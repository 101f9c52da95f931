/* C10: temporal noise shaping data.  DTI: duration (id), BW: bandwidth (id). */
#include "tape_main.h"
#include "tns.h"
#include "tables.h"
int main(void) {
    const enum lc3_dt dt = DTI; const enum lc3_bandwidth bw = BW;
#if MODE == 1
    const int nbytes = NBYTES;
#else
    int nbytes = vp_int(20, 625);
#endif
    struct lc3_tns_data d = { 0 }, g = { 0 };
    int nf = 1 + (dt >= LC3_DT_5M && bw >= LC3_BANDWIDTH_SWB);
    lc3_bits_t t; tape_new(&t);
    /* filters and weighting as the decoder resolves them; MODE 0: as the encoder does, on silence */
    t.nb = 2; t.b[0] = t.b[1] = 0;
    lc3_tns_get_data(&t, dt, bw, nbytes, &d);
    tape_new(&t);
    vp_assert(d.nfilters == nf, "count of filters");
#if MODE == 0
    static float x[960];
    lc3_tns_analyze(dt, bw, true, nbytes, &g, x);
    vp_assert(g.nfilters == nf, "encoder's count of filters");
    vp_assert(g.lpc_weighting == d.lpc_weighting, "the same weighting on both sides");
    for (int f = 0; f < nf; f++) vp_assert(g.rc_order[f] == 0, "no filter on silence");
    vp_assert(lc3_tns_get_nbits(&g) == nf, "accounted bits without filter");
    vp_reach("end");
    return 0;
#else
#if MODE == 2
    t.any = 1;
    for (int f = 0; f < 2; f++) { g.rc_order[f] = 99; for (int i = 0; i < 8; i++) g.rc[f][i] = 99; }
    int ret = lc3_tns_get_data(&t, dt, bw, nbytes, &g);
    vp_assert(ret == 0 || ret == -1, "result");
    vp_assert(g.nfilters == nf, "count of filters");
    vp_assert(g.lpc_weighting == d.lpc_weighting, "weighting");
    for (int f = 0; ret == 0 && f < nf; f++) {
        vp_assert(g.rc_order[f] >= 0 && g.rc_order[f] <= 8, "order");
        for (int i = 0; i < 8; i++)
            vp_assert(i >= g.rc_order[f] || (g.rc[f][i] >= -8 && g.rc[f][i] <= 8), "coefficient");
    }
    if (ret == 0) vp_reach("accepted");
#else
    const int mx = dt <= LC3_DT_5M ? 4 : 8;
    for (int o0 = 0; o0 <= mx; o0++) for (int o1 = 0; o1 <= (nf > 1 ? mx : 0); o1++) {
    if (!ALL && o1 != (o0 + 3) % (mx + 1)) continue;
    tape_new(&t);
    for (int f = 0; f < nf; f++) {
        d.rc_order[f] = f ? o1 : o0;
        for (int i = 0; i < 8; i++) d.rc[f][i] = vp_int(-8, 8);
    }
    int nbits = lc3_tns_get_nbits(&d);
    lc3_tns_put_data(&t, &d);
    /* per filter the symbols and one raw bit, each filter rounded up */
    vp_assert(t.nb == nf, "one presence bit per filter");
    /* what is put, in the order of the format; and its cost (C08 decides that the cost tables match the models) */
    int want = 0, k = 0;
    for (int f = 0; f < nf; f++) {
        int cost = 2048, o = f ? o1 : o0;
        vp_assert(t.b[f] == (o > 0), "presence bit");
        if (o > 0) {
            vp_assert(t.s[k] == o - 1 && t.m[k] == lc3_tns_order_models + d.lpc_weighting, "order put");
            cost += lc3_tns_order_bits[d.lpc_weighting][o - 1]; k++;
        }
        for (int i = 0; i < o; i++, k++) {
            vp_assert(t.s[k] == 8 + d.rc[f][i] && t.m[k] == lc3_tns_coeffs_models + i, "coefficient put");
            cost += lc3_tns_coeffs_bits[i][8 + d.rc[f][i]];
        }
        want += (cost + 2047) >> 11;
    }
    vp_assert(t.ns == k, "symbols put");
    vp_assert(nbits == want, "accounted bits are the coded data, rounded up");
    int ret = lc3_tns_get_data(&t, dt, bw, nbytes, &g);
    vp_assert(ret == 0, "valid data");
    vp_assert(g.nfilters == nf && g.lpc_weighting == d.lpc_weighting, "filters and weighting");
    for (int f = 0; f < nf; f++) {
        vp_assert(g.rc_order[f] == d.rc_order[f], "order");
        for (int i = 0; i < 8; i++) vp_assert(i >= d.rc_order[f] || g.rc[f][i] == d.rc[f][i], "coefficient");
    }
    vp_assert(tape_consumed(&t), "same bits");
    }
    vp_reach("end");
#endif
    return 0;
#endif
}
