/* C07: one operation of the reader from an arbitrary consistent context on a
 * frame of LEN arbitrary bytes; or (SEQ) sequences from setup. */
#include "bits_state.h"
#include <stdlib.h>
#include "tables.h"

int main(void) {
    lc3_bits_t b;
#ifndef SEQ
    uint8_t *buf = malloc(LEN);         /* of its own: any outside access is seen */
    uint8_t old[LEN];
    for (int i = 0; i < LEN; i++) old[i] = buf[i] = vp_u8();
    any_bits(&b, buf, LEN, LC3_BITS_MODE_READ, 0);
    bool err = lc3_check_bits(&b) < 0;
    int left = lc3_get_bits_left(&b);
    vp_assert(!err || b.ac.error || left == 0, "nothing left once overrun");
    int n = vp_int(1, 31);
    if (OP == 0) {
        unsigned v = lc3_get_bits(&b, n);
        vp_assert(v < (1u << n), "value in the range of the field");
    }
    if (OP == 1) { n = 1; int v = lc3_get_bit(&b); vp_assert(v == 0 || v == 1, "bit value"); }
    if (OP == 2) {
        /* frames hold more than 3 bytes of fields, read before the coder can reach the end */
        vp_assume(b.buffer.p_bw <= buf + LEN - 7);
        err = lc3_check_bits(&b) < 0, left = lc3_get_bits_left(&b);
#ifndef MODEL
        /* any intervals, ordered or not */
        static struct lc3_ac_model m;
        for (int i = 0; i < 17; i++) {
            m.s[i].low = vp_u16(), m.s[i].range = vp_u16();
            vp_assume(m.s[i].low < 1024 && m.s[i].range >= 1 && m.s[i].range <= 1024);
        }
#else
        const struct lc3_ac_model m = lc3_spectrum_models[MODEL];
#endif
        bool e0 = b.ac.error; unsigned low = b.ac.low, r = b.ac.range >> 10;
        unsigned s = lc3_get_symbol(&b, &m);
        vp_assert(s <= 16, "symbol value");
#ifdef MATCH
        if (!b.ac.error)
            vp_assert(low >= r * m.s[s].low && low < r * (m.s[s].low + m.s[s].range),
                "the symbol returned is the one of the coder position");
#endif
        vp_assert(b.ac.error == (e0 || low >= r << 10), "a position outside of the model is an error");
    }
    vp_assert(inv_reader(&b, buf, LEN), "context stays consistent");
    bool err2 = lc3_check_bits(&b) < 0;
    int left2 = lc3_get_bits_left(&b);
    vp_assert(!err || err2, "an error stays reported");
    vp_assert(left2 <= left, "bits left never grow");
    if (OP < 2 && !err2) vp_assert(left2 == left - n, "bits left decrease by the bits read");
    if (OP < 2 && !err && n > left) vp_assert(err2, "reading more than what is left is reported");
    for (int i = 0; i < LEN; i++) vp_assert(buf[i] == old[i], "frame not modified");
    if (err2 && !err) vp_reach("over-read");
    vp_reach("end");
#else
    const int len = LEN;
    uint8_t *buf = malloc(len);
    uint8_t ref[LEN];
    for (int i = 0; i < len; i++) ref[i] = buf[i] = vp_u8();
    lc3_setup_bits(&b, LC3_BITS_MODE_READ, buf, len);
    vp_assert(len < 3 || inv_reader(&b, buf, len), "context after setup");
    vp_assert(len < 3 || lc3_check_bits(&b) == 0, "no error after setup");
    /* fields come from the end of the frame, least significant first */
    int pos = 0, left = lc3_get_bits_left(&b);
    vp_assert(len < 3 || (left <= 8 * len && left >= 8 * len - 3), "whole frame left after setup");
    for (int k = 0; k < SEQ; k++) {
        int n = vp_int(1, 25);
        unsigned v = lc3_get_bits(&b, n);
        for (int i = 0; i < 25; i++)
            if (i < n && pos + i < 8 * len)
                vp_assert(((v >> i) & 1) == ((ref[len - 1 - (pos + i) / 8] >> ((pos + i) % 8)) & 1),
                    "fields are read from the end of the frame");
        pos += n;
        if (len >= 3 && pos > 8 * len) vp_assert(lc3_check_bits(&b) < 0, "over-read is reported");
    }
    vp_reach("sequence");
#endif
    return 0;
}
