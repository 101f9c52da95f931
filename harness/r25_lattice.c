/* Replay of C25: the filters of tns.c alone.  Reads  dt bw o0 o1 ne,  16 reflection coefficients and the coefficients. */
#include <stdio.h>
#include <stdlib.h>
#include "tns.c"
int main(void) {
    int dt, bw, od[2], ne; float rc[2][8];
    if (scanf("%d %d %d %d %d", &dt, &bw, od, od + 1, &ne) != 5) return 2;
    for (int i = 0; i < 16; i++) if (scanf("%f", &rc[i / 8][i % 8]) != 1) return 2;
    float *x = malloc(4 * ne);
    for (int i = 0; i < ne; i++) if (scanf("%f", x + i) != 1) return 2;
    forward_filtering(dt, bw, od, rc, x);
    inverse_filtering(dt, bw, od, rc, x);
    for (int i = 0; i < ne; i++) printf("%.9g\n", x[i]);
    return 0;
}
