/* Replay of C25: reads  dt sr att nb ne, the energies and the coefficients, prints them after analysis and synthesis. */
#include <stdio.h>
#include <stdlib.h>
#include "sns.h"
int main(void) {
    int dt, sr, att, nb, ne;
    if (scanf("%d %d %d %d %d", &dt, &sr, &att, &nb, &ne) != 5) return 2;
    float *e = malloc(4 * nb), *x = malloc(4 * ne), *y = malloc(4 * ne);
    for (int i = 0; i < nb; i++) if (scanf("%f", e + i) != 1) return 2;
    for (int i = 0; i < ne; i++) if (scanf("%f", x + i) != 1) return 2;
    lc3_sns_data_t d;
    lc3_sns_analyze(dt, sr, 40, e, att, &d, x, y);
    lc3_sns_synthesize(dt, sr, &d, y, x);
    for (int i = 0; i < ne; i++) printf("%.9g\n", x[i]);
    return 0;
}
