/* Replay of C24: reads  mode dt sr sr2 frames  and the samples, prints the outputs. */
#include <stdio.h>
#include <stdlib.h>
#include "mdct.h"
#include "tables.h"
int main(void) {
    int dt, sr, s2, n, fr;
    if (scanf("%d %d %d %d", &dt, &sr, &s2, &fr) != 4) return 2;
    n = lc3_ns(dt, sr); int nd = lc3_nd(dt, sr);
    float *d = calloc(nd, 4), *d2 = calloc(nd, 4);
    float *cs = malloc(4 * fr * n); int nc = 0;
    for (int f = 0; f < fr; f++) {
        float *x = malloc(4 * n), *y = calloc(n, 4), *o = malloc(4 * n);
        for (int i = 0; i < n; i++) if (scanf("%f", x + i) != 1) return 2;
        lc3_mdct_forward(dt, sr, s2, x, d, y);
        for (int i = 0; i < lc3_ns(dt, s2); i++) cs[nc++] = y[i];
        for (int i = lc3_ns(dt, s2); i < n; i++) y[i] = 0;
        lc3_mdct_inverse(dt, sr, s2, y, d2, o);
        for (int i = 0; i < n; i++) printf("%.9g\n", o[i]);
    }
    for (int i = 0; i < nc; i++) printf("%.9g\n", cs[i]);
    return 0;
}
