/* Wrappers for the executor, and replay of C22: reads  function bits [exp]  per line. */
#include "fastmath.h"
float vp_exp2f(float x) { return lc3_exp2f(x); }
float vp_log2f(float x) { return lc3_log2f(x); }
int32_t vp_db_q16(float x) { return lc3_db_q16(x); }
#ifdef VP_MAIN
#include <stdio.h>
#include <string.h>
int main(void) {
    char f[16]; uint32_t u;
    while (scanf("%15s %x", f, &u) == 2) {
        float x; memcpy(&x, &u, 4);
        if (!strcmp(f, "exp2")) printf("%.17g\n", lc3_exp2f(x));
        if (!strcmp(f, "log2")) printf("%.17g\n", lc3_log2f(x));
        if (!strcmp(f, "db")) printf("%d\n", lc3_db_q16(x));
    }
    return 0;
}
#endif
