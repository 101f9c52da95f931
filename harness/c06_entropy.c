/* C06: the entropy coder.  Unbounded argument by three step lemmas over
 * arbitrary contexts (PART 0 to 2), and bounded end to end round trips
 * (PART 3, 4).  A writer context stands for the number
 *   V = [cache] [0xff x carry_count] + carry, [low: 24 bits]     (base 256)
 * and the symbols still to come select a value inside [V, V + range).  */
#include "bits_state.h"
#include "tables.h"

#ifndef LEN
#define LEN 10
#endif

static uint64_t value(const lc3_bits_t *b) {
    uint64_t v = b->ac.cache >= 0 ? b->ac.cache : 0;
    for (int i = 0; i < CC + 2; i++) if (i < b->ac.carry_count) v = (v << 8) | 0xff;
    return ((v + b->ac.carry) << 24) + b->ac.low;
}

/* count of bytes in V */
static int width(const lc3_bits_t *b) {
    return (b->ac.cache >= 0) + b->ac.carry_count + 3;
}

static bool no_overflow(const lc3_bits_t *b) {
    uint64_t last = value(b) + b->ac.range - 1;
    return last >= value(b) && (width(b) >= 8 || last < (uint64_t)1 << (8 * width(b)))
        && (!b->ac.carry || b->ac.low + b->ac.range <= 0x1000000);
}

static uint64_t be(const uint8_t *p, int n) {
    uint64_t v = 0;
    for (int i = 0; i < 8; i++) if (i < n) v = (v << 8) | p[i];
    return v;
}

/* an interval of a model, as the writer and the reader see it */
static void any_interval(struct lc3_ac_model *m, int s) {
    for (int i = 0; i < 17; i++) m->s[i].low = m->s[i].range = 1;
    m->s[s].low = vp_int(0, 1023);
    m->s[s].range = vp_int(1, 1024);
    vp_assume(m->s[s].low + m->s[s].range <= 1024);
}

int main(void) {
    lc3_bits_t b;
    static uint8_t buf[LEN];

#if PART == 0
    /* termination: the bytes written select a value inside the interval,
     * and the fields written at the other end are intact */
    vp_bytes(buf, LEN);
    uint8_t old[LEN]; memcpy(old, buf, LEN);
    any_bits(&b, buf, LEN, LC3_BITS_MODE_WRITE, CC);
    vp_assume(no_overflow(&b));
    vp_assume(lc3_check_bits(&b) == 0);
    int fw = b.buffer.p_fw - buf, bw = b.buffer.p_bw - buf;
    uint64_t v = value(&b); int w = width(&b); unsigned range = b.ac.range;
    unsigned av = b.accu.v; int an = b.accu.n;
    lc3_flush_bits(&b);
    /* bytes past the end are read as 0 */
    uint8_t code[LEN + 8]; memset(code, 0, sizeof code); memcpy(code, buf, LEN);
    uint64_t d = be(code + fw, w) - v;
    vp_assert(d < range, "the termination selects the last interval");
    for (int i = 0; i < LEN; i++) {
        if (i < fw || i >= bw) vp_assert(buf[i] == old[i], "bytes already written are kept");
    }
    for (int k = 0; k < 32; k++) {
        if (k < an) {
            int p = bw - 1 - k / 8;
            vp_assert(p >= 0 && ((buf[p < 0 ? 0 : p] >> (k % 8)) & 1) == ((av >> k) & 1), "pending fields are written");
        }
    }
    if (b.ac.carry_count == 0 && an > 0) vp_reach("fields pending");
    vp_reach("end");

#elif PART == 1
    /* a symbol narrows the interval as the model says, exactly */
    any_bits(&b, buf, LEN, LC3_BITS_MODE_WRITE, CC);
    vp_assume(no_overflow(&b));
    int fw = b.buffer.p_fw - buf;
    vp_assume(fw + width(&b) + 2 <= LEN);
    uint64_t v = value(&b); int w = width(&b); unsigned r = b.ac.range >> 10, range = b.ac.range;
    static struct lc3_ac_model m;
    any_interval(&m, 7);
    unsigned step = r * m.s[7].low, nrange = r * m.s[7].range;
    vp_assume(step + nrange <= range);      /* r * (low + n) <= r * 1024 <= range */
    lc3_put_symbol(&b, &m, 7);
    int nput = (b.buffer.p_fw - buf) - fw, w2 = width(&b);
    int k = nput + w2 - w;                          /* bytes shifted */
    vp_assert(k >= 0 && k <= 2 && nput >= 0 && nput <= w, "shifted bytes");
    uint64_t r2 = (uint64_t)nrange << (8 * k);
    vp_assert(b.ac.range == r2, "new range");
    vp_assert(r2 >= 0x10000 && r2 < 0x1000000, "range normalized");
    uint64_t v2 = value(&b) + (be(buf + fw, nput) << (8 * (w2 < 8 ? w2 : 7)));
    vp_assert(v2 == (v + step) << (8 * k), "new value");
    vp_assert(no_overflow(&b), "no carry out of the number");
    vp_reach("end");

#elif PART == 2
    /* reading step: d is the distance of the code to V */
    vp_bytes(buf, LEN);
    any_bits(&b, buf, LEN, LC3_BITS_MODE_READ, 0);
    b.ac.error = false;
    b.ac.range = (RANGE << 10) | (b.ac.range & 1023);
    vp_assume(b.ac.low < b.ac.range && (b.buffer.p_fw - buf) + 2 <= LEN);
    static struct lc3_ac_model m;
    any_model(&m);
    int s = vp_int(0, 16);
    unsigned d = b.ac.low, r = RANGE;
    vp_assume(d >= r * m.s[s].low && d < r * (m.s[s].low + m.s[s].range));
    int fw = b.buffer.p_fw - buf;
    unsigned s2 = lc3_get_symbol(&b, &m);
    vp_assert(s2 == (unsigned)s, "the symbol of the position is returned");
    vp_assert(!b.ac.error, "no error");
    int k = (b.buffer.p_fw - buf) - fw;
    vp_assert(k >= 0 && k <= 2, "shifted bytes");
    vp_assert(b.ac.range == (r * m.s[s].range) << (8 * k), "same range as the writer");
    vp_assert(b.ac.low == ((d - r * m.s[s].low) << (8 * k)) + be(buf + fw, k), "same position");
    vp_assert(b.ac.low < b.ac.range, "inside the interval");
    vp_reach("end");

#elif PART == 3
    /* fields: round trip of N fields */
    unsigned v[N]; int n[N], tot = 0;
    vp_bytes(buf, LEN);
    lc3_setup_bits(&b, LC3_BITS_MODE_WRITE, buf, LEN);
    for (int i = 0; i < N; i++) {
        n[i] = vp_int(1, 25); v[i] = vp_u32(); vp_assume(v[i] < (1u << n[i])); tot += n[i];
        if (n[i] == 1) lc3_put_bit(&b, v[i]); else lc3_put_bits(&b, v[i], n[i]);
    }
    vp_assume(lc3_check_bits(&b) == 0);
    lc3_flush_bits(&b);
    lc3_setup_bits(&b, LC3_BITS_MODE_READ, buf, LEN);
    for (int i = 0; i < N; i++) {
        unsigned u = n[i] == 1 ? (unsigned)lc3_get_bit(&b) : lc3_get_bits(&b, n[i]);
        vp_assert(u == v[i], "field read back");
    }
    vp_assert(lc3_check_bits(&b) == 0, "no error on reading what was written");
    vp_reach("end");

#else
    /* symbols and fields interleaved, models with power of two intervals (long
     * carry chains are still reachable), kinds by the bits of PATTERN */
    static const struct { int low, range; } iv[17] = {
        { 0, 1 }, { 1, 1 }, { 2, 2 }, { 4, 4 }, { 8, 8 }, { 16, 16 }, { 32, 32 }, { 64, 64 },
        { 128, 128 }, { 256, 256 }, { 512, 256 }, { 768, 128 }, { 896, 64 }, { 960, 32 },
        { 992, 16 }, { 1008, 8 }, { 1016, 8 } };
    static struct lc3_ac_model m;
    for (int i = 0; i < 17; i++) m.s[i].low = iv[i].low, m.s[i].range = iv[i].range;
    unsigned v[N];
    vp_bytes(buf, LEN);
    lc3_setup_bits(&b, LC3_BITS_MODE_WRITE, buf, LEN);
    for (int i = 0; i < N; i++) {
        if ((PATTERN >> i) & 1) { v[i] = vp_int(0, 16); lc3_put_symbol(&b, &m, v[i]); }
        else { v[i] = vp_int(0, 7); lc3_put_bits(&b, v[i], 3); }
    }
    vp_assume(lc3_check_bits(&b) == 0);
    lc3_flush_bits(&b);
    lc3_setup_bits(&b, LC3_BITS_MODE_READ, buf, LEN);
    for (int i = 0; i < N; i++) {
        unsigned u;
        if ((PATTERN >> i) & 1) u = lc3_get_symbol(&b, &m);
        else u = lc3_get_bits(&b, 3);
        vp_assert(u == v[i], "value read back");
    }
    vp_assert(lc3_check_bits(&b) == 0, "no error on reading what was written");
    vp_reach("end");
#endif
    return 0;
}
