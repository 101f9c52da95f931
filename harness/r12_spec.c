/* Replay of C12: dt sr bw nbytes nq lsb_mode g_idx left, then the levels. */
#include "tape_main.h"
#include "spec.h"
#include "tables.h"
int lc3_bwdet_get_nbits(enum lc3_srate sr) { return 0; }
int lc3_ltpf_get_nbits(bool p) { return 0; }
int lc3_sns_get_nbits(void) { return 0; }
int lc3_tns_get_nbits(const struct lc3_tns_data *t) { return 0; }
int main(void) {
    int dt, sr, bw, nbytes, nq, lsb, gi, left;
    if (scanf("%d %d %d %d %d %d %d %d", &dt, &sr, &bw, &nbytes, &nq, &lsb, &gi, &left) != 8) return 2;
    int ne = (const int []){ 20, 40, 60, 80, 100, 120, 240 }[sr] * (1 + dt);
    float *x = calloc(ne, sizeof(*x)), *y = malloc(ne * sizeof(*y));
    for (int i = 0; i < nq; i++) if (scanf("%f", x + i) != 1) return 2;
    memset(y, 0x7e, ne * sizeof(*y));
    static lc3_bits_t t; tape_new(&t); t.left = left;
    struct lc3_spec_side s = { .g_idx = gi, .nq = nq, .lsb_mode = lsb }, g = { 0 };
    lc3_spec_put_side(&t, dt, sr, &s);
    lc3_spec_encode(&t, dt, sr, bw, nbytes, &s, x);
    int ret = lc3_spec_get_side(&t, dt, sr, &g);
    printf("%d %d %d %d ", ret, g.g_idx, g.nq, g.lsb_mode);
    if (ret) return 0;
    ret = lc3_spec_decode(&t, dt, sr, bw, nbytes, &g, y);
    printf("%d %d\n", ret, tape_consumed(&t));
    for (int i = 0; i < ne; i++) printf("%.9g\n", y[i]);
    return 0;
}
