/* Arbitrary bitstream contexts, consistent with a buffer: the invariants that
 * every reachable context satisfies.  Harnesses assert them after setup and
 * after every operation, so one step from an arbitrary context covers
 * sequences of any length. */
#ifndef BITS_STATE_H
#define BITS_STATE_H
#include "vp.h"
#include "bits.h"

#define CCMAX 0x10000

static bool inv_writer(const lc3_bits_t *b, const uint8_t *buf, int len, int ccmax) {
    return b->mode == LC3_BITS_MODE_WRITE && b->buffer.start == buf && b->buffer.end == buf + len
        && b->buffer.p_fw - buf >= 0 && b->buffer.p_fw - buf <= len
        && b->buffer.p_bw - buf >= 0 && b->buffer.p_bw - buf <= len
        && b->accu.n >= 0 && b->accu.n <= 32 && (b->accu.n == 32 || b->accu.v < (1u << b->accu.n))
        && b->accu.nover == 0
        && b->ac.low < 0x1000000 && b->ac.range >= 0x10000 && b->ac.range < 0x1000000
        && b->ac.cache >= -1 && b->ac.cache < 256 && b->ac.carry >= 0 && b->ac.carry <= 1
        && b->ac.carry_count >= 0 && b->ac.carry_count <= ccmax
        && !b->ac.error;
}

static bool inv_reader(const lc3_bits_t *b, const uint8_t *buf, int len) {
    return b->mode == LC3_BITS_MODE_READ && b->buffer.start == buf && b->buffer.end == buf + len
        && b->buffer.p_fw - buf >= 3 && b->buffer.p_fw - buf <= len
        && b->buffer.p_bw - buf >= 0 && b->buffer.p_bw - buf <= len
        && b->accu.n >= 0 && b->accu.n <= 32
        && b->accu.nover >= 0 && b->accu.nover <= 32
        && (b->accu.nover == 0 || b->buffer.p_bw == buf)
        && b->ac.range >= 0x10000 && b->ac.range < 0x1000000
        && b->ac.cache == -1 && b->ac.carry == 0 && b->ac.carry_count == 0;
}

static void any_bits(lc3_bits_t *b, uint8_t *buf, int len, enum lc3_bits_mode mode, int ccmax) {
    memset(b, 0, sizeof *b);
    b->mode = mode;
    b->buffer.start = buf; b->buffer.end = buf + len;
    b->buffer.p_fw = buf + vp_int(0, len);
    b->buffer.p_bw = buf + vp_int(0, len);
    b->accu.v = vp_u32(); b->accu.n = vp_int(0, 32);
    b->ac.low = vp_u32(); b->ac.range = vp_u32();
    if (mode == LC3_BITS_MODE_WRITE) {
        b->ac.cache = vp_int(-1, 255); b->ac.carry = vp_int(0, 1);
        b->ac.carry_count = vp_int(0, ccmax);
        vp_assume(inv_writer(b, buf, len, ccmax));
    } else {
        b->ac.cache = -1;
        b->accu.nover = vp_int(0, 32);
        b->ac.error = vp_bool();
        vp_assume(inv_reader(b, buf, len));
    }
}

/* any well formed model (C08 shows that the codec's models are) */
static void any_model(struct lc3_ac_model *m) {
    int low = 0;
    for (int i = 0; i < 17; i++) {
        uint16_t r = vp_u16();
        vp_assume(r >= 1 && low + r <= 1024 - (16 - i));
        m->s[i].low = low; m->s[i].range = r;
        low += r;
    }
    vp_assume(low == 1024);
}
#endif
