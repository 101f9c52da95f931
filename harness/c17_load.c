/* C17: what the first stages of the encoder see, for two successive frames of
 * arbitrary samples, in a format (FMT) and stride. */
#include <stdint.h>
static int frame;
static void on_time(const int16_t *x);
static void on_spec(const float *x, float *d, float *y);
#define ON_ATTDET on_time(x);
#define ON_LTPF_ANALYSE on_time(x);
#define ON_MDCT_FORWARD on_spec(x, d, y);
#include "stages.h"
#include <stdlib.h>

#define ND  (NS / 2 + (US == 7500 ? SR / 500 : SR / 800))
#define NT  (SR / 800)

static int32_t v24[2][NS];       /* the signal, 24 bits */
static int times, specs;

/* the first, the last and two middle samples are arbitrary, the others differ from one another */
static bool arbitrary(int i) { return i == 0 || i == NS / 2 || i == NS - NT || i == NS - 1; }

static void on_time(const int16_t *x) {
    times++;
    for (int k = -NT; k < NS; k++) {
        int32_t v = k >= 0 ? v24[frame][k] : frame ? v24[0][NS + k] : 0;
        /* the float input rounds toward 0 */
        int32_t r = FMT == 3 && v < 0 ? -(-v >> 8) : v == 8388608 ? 32767 : v >> 8;
        if (k >= 0) vp_assert(x[k] == r || (FMT == 3 && v < 8388608 && x[k] == v >> 8), "samples of this frame, 16 bits");
        else vp_assert(x[k] == r || (FMT == 3 && v < 8388608 && x[k] == v >> 8), "history is the end of the previous frame");
    }
}

static void on_spec(const float *x, float *d, float *y) {
    specs++;
    for (int k = 0; k < NS; k++) vp_assert(x[k] * 256.f == (float)v24[frame][k], "samples of this frame");
    for (int i = 0; i < ND; i++) vp_assert(d[i] == (frame ? 5.f : 0.f), "overlap memory is kept");
    for (int j = 0; j < ND; j++) d[j] = 5.f;
    for (int j = 0; j < NS; j++) y[j] = 3.f;
}

int main(void) {
    ENC_MEM(mem);
    struct lc3_encoder *e = lc3_hr_setup_encoder(HR, US, SR, 0, &mem);
    uint8_t fr[MIN_BYTES];
    for (frame = 0; frame < 2; frame++) {
        const int n = (NS - 1) * STRIDE + 1;
        for (int i = 0; i < NS; i++) {
            v24[frame][i] = (i * 7919 + frame * 104729) % 65536 * 256 - 8388608 + (FMT ? 77 : 0);
            if (!arbitrary(i)) continue;
#if FMT == 0
            v24[frame][i] = vp_s16() * 256;
#else
            int32_t v = vp_s32(); vp_assume(v >= -8388608 && v <= 8388607 + (FMT == 3));
            v24[frame][i] = v;
#endif
        }
        /* the frame's samples exactly, up to the last one */
#if FMT == 0
        int16_t *p = malloc(n * 2);
        for (int i = 0; i < NS; i++) p[i * STRIDE] = v24[frame][i] >> 8;
#elif FMT == 1
        int32_t *p = malloc(n * 4);
        for (int i = 0; i < NS; i++) p[i * STRIDE] = v24[frame][i];
#elif FMT == 2
        uint8_t *p = malloc(n * 3);
        for (int i = 0; i < NS; i++) for (int b = 0; b < 3; b++) p[i * STRIDE * 3 + b] = v24[frame][i] >> (8 * b);
#else
        float *p = malloc(n * 4);
        for (int i = 0; i < NS; i++) p[i * STRIDE] = v24[frame][i] * (1.f / 8388608);
#endif
        vp_assert(lc3_encode(e, FMT, p, STRIDE, MIN_BYTES, fr) == 0, "encoded");
    }
    vp_assert(specs == 2 && times >= 2, "both frames analysed");
    vp_reach("end");
    return 0;
}
