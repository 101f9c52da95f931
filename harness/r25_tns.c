/* Replay of C25: reads  dt bw nbytes ne  and the coefficients, prints them after analysis and synthesis. */
#include <stdio.h>
#include <stdlib.h>
#include "tns.h"
int main(void) {
    int dt, bw, nb, ne;
    if (scanf("%d %d %d %d", &dt, &bw, &nb, &ne) != 4) return 2;
    float *x = malloc(4 * ne);
    for (int i = 0; i < ne; i++) if (scanf("%f", x + i) != 1) return 2;
    lc3_tns_data_t d;
    lc3_tns_analyze(dt, bw, false, nb, &d, x);
    lc3_tns_synthesize(dt, bw, &d, x);
    for (int i = 0; i < ne; i++) printf("%.9g\n", x[i]);
    return 0;
}
