/* Replay of C21: reads  dt sr nb  and the energies, prints the bandwidth. */
#include <stdio.h>
#include <stdlib.h>
#include "bwdet.h"
int main(void) {
    int dt, sr, nb;
    if (scanf("%d %d %d", &dt, &sr, &nb) != 3) return 2;
    float *e = malloc(4 * nb);
    for (int i = 0; i < nb; i++) if (scanf("%f", e + i) != 1) return 2;
    printf("%d\n", lc3_bwdet_run(dt, sr, e));
    return 0;
}
