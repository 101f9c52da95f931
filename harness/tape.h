/* Stand-in of src/bits.h (pre-included, with its include guard): the frame as
 * two tapes, one of raw bits and one of arithmetic coded symbols.  C05 to C07
 * show that src/bits.[ch] transports both in order, whatever their
 * interleaving; here only what is put and got matters.
 *
 * Under VP_REPLAY also: the functions that use the tape are the real ones. */
#ifndef __LC3_BITS_H
#define __LC3_BITS_H
#include "common.h"
#include "vp.h"
#ifndef TAPE_BITS
#define TAPE_BITS 64
#endif
#ifndef TAPE_SYMS
#define TAPE_SYMS 24
#endif

enum lc3_bits_mode { LC3_BITS_MODE_READ, LC3_BITS_MODE_WRITE };
struct lc3_ac_symbol { uint16_t low : 16, range : 16; };
struct lc3_ac_model { struct lc3_ac_symbol s[17]; };
#define LC3_ACCU_BITS 32
#define LC3_AC_BITS 24

typedef struct lc3_bits {
    enum lc3_bits_mode mode;
    int any;                            /* reading arbitrary contents */
    int nb, rb;                         /* raw bits: written, read */
    uint8_t b[TAPE_BITS];
    int ns, rs;                         /* symbols: written, read */
    uint8_t s[TAPE_SYMS]; const struct lc3_ac_model *m[TAPE_SYMS];
    int left, bad;                      /* results of the status functions */
} lc3_bits_t;


static inline void tape_put_bits(struct lc3_bits *t, unsigned v, int n) {
    vp_assert(n >= 1 && n <= 32, "count of bits put");
    vp_assert(n == 32 || v < (1u << (n & 31)), "the value fits its field");
    for (int i = 0; i < n; i++) { vp_assert(t->nb < TAPE_BITS, "tape"); t->b[t->nb++] = (v >> i) & 1; }
}
static inline unsigned tape_get_bits(struct lc3_bits *t, int n) {
    vp_assert(n >= 1 && n <= 32, "count of bits got");
    unsigned v = 0;
    if (t->any) { v = vp_u32(); vp_assume(n == 32 || v < (1u << (n & 31))); t->rb += n; return v; }
    for (int i = 0; i < n; i++) { vp_assert(t->rb < t->nb, "no more bits got than put"); v |= (unsigned)t->b[t->rb++] << i; }
    return v;
}
static inline void tape_put_symbol(struct lc3_bits *t, const struct lc3_ac_model *m, unsigned s) {
    vp_assert(s <= 16, "symbol put"); vp_assert(m->s[s].range > 0, "the model holds the symbol");
    vp_assert(t->ns < TAPE_SYMS, "tape"); t->m[t->ns] = m; t->s[t->ns++] = s;
}
static inline unsigned tape_get_symbol(struct lc3_bits *t, const struct lc3_ac_model *m) {
    if (t->any) { t->rs++; unsigned s = vp_u8(); vp_assume(s <= 16); vp_assume(m->s[s].range > 0); return s; }
    vp_assert(t->rs < t->ns, "no more symbols got than put");
    vp_assert(t->m[t->rs] == m, "the same model on both sides");
    return t->s[t->rs++];
}

static inline void lc3_put_bits(lc3_bits_t *b, unsigned v, int n) { tape_put_bits(b, v, n); }
static inline void lc3_put_bit(lc3_bits_t *b, int v) { tape_put_bits(b, v, 1); }
static inline void lc3_put_symbol(lc3_bits_t *b, const struct lc3_ac_model *m, unsigned s) { tape_put_symbol(b, m, s); }
static inline unsigned lc3_get_bits(lc3_bits_t *b, int n) { return tape_get_bits(b, n); }
static inline int lc3_get_bit(lc3_bits_t *b) { return tape_get_bits(b, 1); }
static inline unsigned lc3_get_symbol(lc3_bits_t *b, const struct lc3_ac_model *m) { return tape_get_symbol(b, m); }
int lc3_get_bits_left(const lc3_bits_t *b);
int lc3_check_bits(const lc3_bits_t *b);
void lc3_setup_bits(lc3_bits_t *b, enum lc3_bits_mode mode, void *buffer, int len);
void lc3_flush_bits(lc3_bits_t *b);

#endif
