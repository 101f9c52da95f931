/* C05: one operation (OP) of the writer from an arbitrary consistent context,
 * buffer of LEN bytes between guards; or (SEQ) short sequences from setup. */
#include "bits_state.h"

#define G 8
static uint8_t mem[G + LEN + G], old[G + LEN + G];

static void guards(void) {
    for (int i = 0; i < G; i++) {
        vp_assert(mem[i] == old[i], "byte before the frame untouched");
        vp_assert(mem[G + LEN + i] == old[G + LEN + i], "byte after the frame untouched");
    }
}

static void put_any(lc3_bits_t *b, int op) {
    if (op == 0) {
        int n = vp_int(1, 32); unsigned v = vp_u32();
        vp_assume(n == 32 || v < (1u << n));
        lc3_put_bits(b, v, n);
    } else if (op == 1) {
        lc3_put_bit(b, vp_int(0, 1));
    } else {
        static struct lc3_ac_model m;
        any_model(&m);
        lc3_put_symbol(b, &m, vp_int(0, 16));
    }
}

int main(void) {
    lc3_bits_t b;
    vp_bytes(mem, sizeof mem);
    memcpy(old, mem, sizeof mem);
    uint8_t *buf = mem + G;

#ifdef SEQ
    lc3_setup_bits(&b, LC3_BITS_MODE_WRITE, buf, LEN);
    vp_assert(inv_writer(&b, buf, LEN, 0), "context after setup");
    vp_assert(lc3_check_bits(&b) == 0, "no error after setup");
    int left = lc3_get_bits_left(&b);
    vp_assert(left <= 8 * LEN && left >= 8 * LEN - 3, "whole frame left after setup");
    for (int k = 0; k < SEQ; k++)
        put_any(&b, vp_int(0, 1));
    lc3_flush_bits(&b);
    guards();
    vp_reach("sequence");
#else
    any_bits(&b, buf, LEN, LC3_BITS_MODE_WRITE, 3);
    bool err = lc3_check_bits(&b) < 0;
    int left = lc3_get_bits_left(&b);
    vp_assert(!err || left == 0, "nothing left once overrun");
  #if OP < 3
    int n = vp_int(1, 32); unsigned v = vp_u32();
    vp_assume(n == 32 || v < (1u << n));
    static struct lc3_ac_model m;
    unsigned s;
    if (OP == 0) lc3_put_bits(&b, v, n);
    if (OP == 1) lc3_put_bit(&b, v & (n = 1));
    if (OP == 2) { any_model(&m); s = vp_int(0, 16); lc3_put_symbol(&b, &m, s); }
    vp_assert(inv_writer(&b, buf, LEN, 5), "context stays consistent");
    bool err2 = lc3_check_bits(&b) < 0;
    int left2 = lc3_get_bits_left(&b);
    vp_assert(!err || err2, "an overrun stays reported");
    vp_assert(left2 <= left, "space left never grows");
    if (OP < 2 && !err2)
        vp_assert(left2 == left - n, "space left decreases by the bits written");
    if (OP < 2 && !err && n > left)
        vp_assert(err2, "writing more than what is left is reported");
    if (OP == 2 && !err2) {
        vp_assert(left - left2 <= 11, "a symbol takes at most 11 bits");
    }
    if (err2 && !err) vp_reach("overrun");
  #else
    lc3_flush_bits(&b);
  #endif
    guards();
    vp_reach("end");
#endif
    return 0;
}
