/* Replay of C12: decoding of given bits and symbols.
 * dt sr bw nbytes nq lsb_mode g_idx left, bits, symbols; nq 0: the header. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "tape_ir.h"
#include "spec.h"
#include "tables.h"
static int nb, ns, rb, rs, left, over, b[4096], s[4096];
int lc3_bwdet_get_nbits(enum lc3_srate sr) { return 0; }
int lc3_ltpf_get_nbits(bool p) { return 0; }
int lc3_sns_get_nbits(void) { return 0; }
int lc3_tns_get_nbits(const struct lc3_tns_data *t) { return 0; }
void lc3_put_bits(lc3_bits_t *t, unsigned v, int n) { }
void lc3_put_bit(lc3_bits_t *t, int v) { }
void lc3_put_symbol(lc3_bits_t *t, const struct lc3_ac_model *m, unsigned v) { }
int lc3_get_bit(lc3_bits_t *t) { return rb < nb ? b[rb++] : (rb++, over = 1, 0); }
unsigned lc3_get_bits(lc3_bits_t *t, int n) { unsigned v = 0; for (int i = 0; i < n; i++) v |= (unsigned)lc3_get_bit(t) << i; return v; }
unsigned lc3_get_symbol(lc3_bits_t *t, const struct lc3_ac_model *m) {
    volatile unsigned touch = m->s[16].low; (void)touch;
    return rs < ns ? s[rs++] : (rs++, over = 1, 0);
}
int lc3_get_bits_left(const lc3_bits_t *t) { return left; }
int lc3_check_bits(const lc3_bits_t *t) { return 0; }
int main(void) {
    int dt, sr, bw, nbytes, nq, lsb, gi;
    if (scanf("%d %d %d %d %d %d %d %d", &dt, &sr, &bw, &nbytes, &nq, &lsb, &gi, &left) != 8) return 2;
    if (scanf("%d", &nb) != 1) return 2;
    for (int i = 0; i < nb; i++) if (scanf("%d", b + i) != 1) return 2;
    if (scanf("%d", &ns) != 1) return 2;
    for (int i = 0; i < ns; i++) if (scanf("%d", s + i) != 1) return 2;
    int ne = (const int []){ 20, 40, 60, 80, 100, 120, 240 }[sr] * (1 + dt);
    lc3_bits_t t = { 0 };
    struct lc3_spec_side g = { .g_idx = gi, .nq = nq, .lsb_mode = lsb };
    if (!nq) {
        int v = 0, n = 4 + (ne > 32) + (ne > 64) + (ne > 128) + (ne > 256) + (ne > 512);
        for (int i = 0; i < n; i++) v |= b[i] << i;
        int r = lc3_spec_get_side(&t, dt, sr, &g);
        return (r == 0) != (2 * (v + 1) <= ne) || (r == 0 && (g.g_idx < 0 || g.g_idx > 255 || g.nq < 2 || g.nq > ne || g.nq % 2));
    }
    float *y = malloc(ne * sizeof(*y)), *z = malloc(ne * sizeof(*y)), top = sr >= 5 ? 1 << 25 : 1 << 17;
    for (int i = 0; i < ne; i++) y[i] = NAN;
    if (lc3_spec_decode(&t, dt, sr, bw, nbytes, &g, y)) return 0;
    for (int i = 0; i < ne; i++) if (!(fabsf(y[i]) <= top)) return 1;
    (void)z;
    return 0;
}
