/* C02: bitrate <-> size, all 32-bit integers.  DT_US, HR and SR are fixed per job. */
#include "vp.h"
#include <lc3.h>

/* limits, in bytes per channel: the documented maxima; the code accepts down to
 * half the documented HR minima (see DESIGN.md) */
static int lim(int hi) {
    if (!HR) return hi ? 400 : 20;
    int d = DT_US == 2500 ? 0 : DT_US == 5000 ? 1 : 2;
    static const int mn[2][3] = { { 27, 46, 78 }, { 31, 54, 93 } };
    static const int mx[2][3] = { { 210, 375, 625 }, { 210, 375, 625 } };
    return hi ? mx[SR == 96000][d] : mn[SR == 96000][d];
}

int main(void) {
    int lo = lim(0), hi = lim(1);

#if PART == 0
    int br = vp_s32(), nch = vp_s32();
    int n = lc3_hr_frame_block_bytes(HR, DT_US, SR, nch, br);
    if (nch < 1 || nch > 8 || br < 0) {
        vp_assert(n == -1, "unsupported parameters give -1");
        vp_reach("rejected");
    } else {
        int64_t b = br;
        /* n bytes per frame of DT_US: n * 8 bits / DT  <= bitrate  <=>  n * 8e6 <= br * us */
        int cl = n < nch * lo || n > nch * hi;
        vp_assert(!cl, "within the per channel limits");
        if (n > nch * lo)
            vp_assert((int64_t)n * 3200 <= b * (DT_US / 2500), "does not exceed the bitrate");
        if (n < nch * hi)
            vp_assert((int64_t)(n + 1) * 3200 > b * (DT_US / 2500), "is the largest such size");
        if (nch == 1)
            vp_assert(lc3_hr_frame_bytes(HR, DT_US, SR, br) == n, "frame size is the one channel block size");
        if (!HR) {
            vp_assert(lc3_frame_block_bytes(DT_US, nch, br) == n, "plain block size");
            if (nch == 1) vp_assert(lc3_frame_bytes(DT_US, br) == n, "plain frame size");
        }
        vp_reach("accepted");
    }
#elif PART == 1
    int nb = vp_s32();
    int r = lc3_hr_resolve_bitrate(HR, DT_US, SR, nb);
    if (!HR) vp_assert(lc3_resolve_bitrate(DT_US, nb) == r, "plain bitrate");
    if (nb < 0) { vp_assert(r == -1, "negative size gives -1"); vp_reach("rejected"); }
    else {
        /* smallest bitrate that yields nb bytes, saturated */
        int64_t n = (int64_t)nb * 3200;   /* 2500 us units: 8e6 / 2500 */
        vp_assert(r >= 0 && (nb == 0 || (int64_t)(r - 1) * (DT_US / 2500) < n), "not more than needed");
        vp_assert(r == INT_MAX || (int64_t)r * (DT_US / 2500) >= n, "enough for that size, or saturated");
        vp_reach("accepted");
    }
#elif PART == 2
    int nb = vp_int(lo, hi);
    int r = lc3_hr_resolve_bitrate(HR, DT_US, SR, nb);
    vp_assert(lc3_hr_frame_bytes(HR, DT_US, SR, r) == nb, "size -> bitrate -> size");
    vp_reach("roundtrip");
#endif
    return 0;
}
