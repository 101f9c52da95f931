/* Replay of C32: reads  dt sr count, then for each frame  pos nbytes present active pitch_index; then the initial
 * ring and the samples of the frames.  Prints the samples of the frames after the filter. */
#include <stdio.h>
#include <stdlib.h>
#include "ltpf.h"
#include "tables.h"
int main(void) {
    int dt, sr, fr, a[8][5];
    if (scanf("%d %d %d", &dt, &sr, &fr) != 3 || fr > 8) return 2;
    for (int f = 0; f < fr; f++) for (int k = 0; k < 5; k++) if (scanf("%d", &a[f][k]) != 1) return 2;
    int ns = lc3_ns(dt, sr), nr = ns + lc3_nh(dt, sr);
    float *m = malloc(4 * nr);
    for (int i = 0; i < nr; i++) if (scanf("%f", m + i) != 1) return 2;
    lc3_ltpf_synthesis_t s = { 0 };
    for (int f = 0; f < fr; f++) {
        float *x = m + a[f][0];
        for (int i = 0; i < ns; i++) if (scanf("%f", x + i) != 1) return 2;
        lc3_ltpf_data_t d = { .active = a[f][3], .pitch_index = a[f][4] };
        lc3_ltpf_synthesize(dt, sr, a[f][1], &s, a[f][2] ? &d : NULL, m, x);
        for (int i = 0; i < ns; i++) printf("%.9g\n", x[i]);
    }
    return 0;
}
