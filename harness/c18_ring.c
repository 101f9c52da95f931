/* C18: the sample history over FRAMES frames, each good, refused by the parser, or missing.
 * Stand-ins write recognizable samples, and judge the positions and contents they are given. */
#include <stdint.h>
static void on_inverse(const float *x, float *d, float *y);
static void on_ltpf(const float *xr, float *x, const void *data);
#define ON_MDCT_INVERSE on_inverse(x, d, y);
#define ON_LTPF_SYNTH on_ltpf(xr, x, data);
#include "stages.h"

#define NS1 (PCM / 100 * US / 10000)
#define NHIST ((NH + NS1) / NS1)            /* frames in the ring */
static struct lc3_decoder *dec;
static int frame, inv, ltp;
static const float *x0; static float *cur;

static void on_inverse(const float *x, float *d, float *y) {
    inv++;
    const float *b = dec->x;
    vp_assert(d == b + NH + NS1, "overlap memory follows the ring, at a fixed place");
    vp_assert(y >= b && y + NS1 <= b + NH + NS1, "the frame is inside the ring");
    vp_assert(x == y || x == d + ND, "the spectrum is in place or in its own memory");
    vp_assert(d[0] == 500.f + frame && d[ND - 1] == 500.f + frame, "overlap memory kept from the previous frame");
    for (int i = 0; i < NS1; i++) y[i] = 0;
    y[0] = frame + 1; y[NS1 - 1] = -(frame + 1); y[NS1 / 2] = .25f;
    d[0] = d[ND - 1] = 501.f + frame;
    cur = y;
}

static void on_ltpf(const float *xr, float *x, const void *data) {
    ltp++;
    vp_assert(x == cur, "the filter is given the frame just synthesized");
    vp_assert(xr == dec->x, "and the base of the ring");
    int p = x - xr;
    /* the frames before, back from here, as they were output */
    for (int j = 1; j < NHIST; j++) {
        int q = p - j * NS1; if (q < 0) q += NH + NS1;
        float t = frame + 1 - j;
        vp_assert(xr[q] == (t > 0 ? t + .5f : 0) && xr[q + NS1 - 1] == (t > 0 ? -t - .5f : 0), "history holds the frames output before");
        vp_assert(xr[q + NS1 / 2] == (t > 0 ? .25f : 0), "and all of them");
    }
    x[0] += .5f; x[NS1 - 1] -= .5f;
}

int main(void) {
    DEC_MEM(mem);
    static float pcm[NS1];
    static uint8_t in[400];
    dec = lc3_hr_setup_decoder(HR, US, SR, PCM, &mem);
    vp_assert(NH >= 18 * (PCM / 1000) || PCM > 48000, "18 ms of history");
    dec->x[NH + NS1] = dec->x[NH + NS1 + ND - 1] = 500.f;
    bool lost = false, good = false;
    for (frame = 0; frame < FRAMES; frame++) {
        bool null = vp_bool();
        int ret = lc3_decode(dec, null ? NULL : in, MIN_BYTES > 20 ? MIN_BYTES : 40, LC3_PCM_FORMAT_FLOAT, pcm, 1);
        vp_assert(null ? ret == 1 : ret == 0 || ret == 1, "result");
        if (ret) lost = true; else good = true;
        vp_assert(inv == frame + 1 && ltp == (HR ? 0 : frame + 1), "one frame synthesized and filtered");
        float e = HR ? 0 : .5f;
        vp_assert(pcm[0] == (frame + 1 + e) / 32768 && pcm[NS1 - 1] == -(frame + 1 + e) / 32768 && pcm[NS1 / 2] == .25f / 32768, "the frame is output");
    }
    if (lost && good) vp_reach("mixed history");
    vp_reach("end");
    return 0;
}
