/* C20: attack detection.  MODE 0: arbitrary samples and state, no overflow; 1: where it is disabled; 2: silence and hold; 3: a burst after silence. */
#include "vp.h"
#include "attdet.h"
#include "tables.h"

static struct lc3_attdet_analysis any_state(void) {
    struct lc3_attdet_analysis s = { 0 };
    s.en1 = vp_int(0, 40 << 25); s.an1 = vp_int(0, 40 << 25); s.p_att = vp_int(0, 4);
    return s;
}
/* enabled, as documented: 7.5 and 10 ms, 32 and 48 kHz, sizes */
static bool enabled(int dt, int sr, int nb) {
    if (dt < 2 || (sr != LC3_SRATE_32K && sr != LC3_SRATE_48K)) return false;
    return dt == 3 ? nb >= (sr == LC3_SRATE_32K ? 81 : 100) : nb >= (sr == LC3_SRATE_32K ? 61 : 75) && nb < 150;
}
#define NS (40 * (SRI == LC3_SRATE_32K ? 2 : 3) * (DTI == 2 ? 3 : 4))
#define NBLK (DTI == 2 ? 3 : 4)

int main(void) {
    struct lc3_attdet_analysis s = any_state(), o = s;
#if MODE == 1
    static int16_t x[500];
    int nb = vp_int(20, 625); bool att = false;
#ifdef DTI
    vp_assume(!enabled(DTI, SRI, nb));
    att = lc3_attdet_run(DTI, SRI, nb, &s, x + 20);
#else
    for (int dt = 0; dt < 4; dt++) for (int sr = 0; sr < 7; sr++)
        if ((sr < 5 || dt != 2) && (dt < 2 || (sr != LC3_SRATE_32K && sr != LC3_SRATE_48K)))
            att |= lc3_attdet_run(dt, sr, nb, &s, x + 20);
#endif
    vp_assert(!att, "no attack where the detection is not defined");
    vp_assert(s.en1 == o.en1 && s.an1 == o.an1 && s.p_att == o.p_att, "state kept");
    vp_reach("end");
#else
    static int16_t m[6 + NS], *x = m + 6;
    int nb = vp_int(20, 400);
    vp_assume(enabled(DTI, SRI, nb));
#if MODE == 0
    for (int i = LO; i < HI; i++) m[i] = vp_s16();
    lc3_attdet_run(DTI, SRI, nb, &s, x);
    vp_assert(s.p_att >= 0 && s.p_att <= NBLK, "state");
    vp_assert(s.en1 >= 0 && s.an1 >= 0, "energies");
    vp_reach("end");
#elif MODE == 2
    bool att = lc3_attdet_run(DTI, SRI, nb, &s, x);
    vp_assert(att == (o.p_att >= 1 + NBLK / 2), "signalled again in the next frame, exactly for attacks of its last blocks");
    vp_assert(s.p_att == 0, "silence triggers no attack");
    bool a2 = lc3_attdet_run(DTI, SRI, nb, &s, x);
    vp_assert(!a2, "no attack in the second frame of silence");
    if (att) vp_reach("hold");
    vp_reach("end");
#else
    /* silence before, then a burst in one of the blocks */
    s.en1 = s.an1 = 0; s.p_att = 0;
    int n = NS / NBLK, w = SRI == LC3_SRATE_32K ? 2 : 3, k = vp_int(0, NBLK - 1), pol = vp_bool() ? 1 : -1;
    for (int b = 0; b < NBLK; b++) if (b == k) for (int i = 0; i < n; i++) x[b * n + i] = pol * (i / w % 2 ? 8000 : -8000);
    bool att = lc3_attdet_run(DTI, SRI, nb, &s, x);
    vp_assert(att, "attack detected");
    vp_assert(s.p_att == k + 1, "in its block");
    for (int i = 0; i < 6 + NS; i++) m[i] = 0;
    bool a2 = lc3_attdet_run(DTI, SRI, nb, &s, x);
    vp_assert(a2 == (k >= NBLK / 2), "held over the next frame when in the last blocks");
    bool a3 = lc3_attdet_run(DTI, SRI, nb, &s, x);
    vp_assert(!a3, "and no longer");
    vp_reach("end");
#endif
#endif
    return 0;
}
