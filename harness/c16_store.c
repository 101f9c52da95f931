/* C16: the PCM output of lc3_decode.  The last synthesis stage leaves arbitrary
 * samples; what is written to the user's buffer is judged. */
#include <stdint.h>
static float sample[960];
#define ON_MDCT_INVERSE for (int i = 0; i < NS; i++) y[i] = sample[i];
#include "stages.h"
#include <stdlib.h>


#define SIZE (FMT == 0 ? 2 : FMT == 2 ? 3 : 4)

static long long get(const uint8_t *p, int fmt) {
    if (fmt == 0) return *(const int16_t *)p;
    if (fmt == 1) return *(const int32_t *)p;
    return (int32_t)(((uint32_t)p[0] << 8) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 24)) >> 8;
}

int main(void) {
    const int ns = lc3_hr_frame_samples(HR, US, SR);
    const int size = SIZE;
    DEC_MEM(mem);
    struct lc3_decoder *e = lc3_hr_setup_decoder(HR, US, SR, 0, &mem);
    /* first, last and middle samples: any finite value */
    const int at[4] = { 0, 1, ns / 2, ns - 1 };
    for (int k = 0; k < NSYM; k++) {
        float v = vp_f32();
        vp_assume(vp_isfinite(v));
        sample[at[NSYM == 1 ? WHICH : k]] = v;
    }
    const int stride = STRIDE;
    const int len = ((ns - 1) * stride + 1) * size;       /* exactly what may be written */
#if FMT == 0
    int16_t *o = malloc(len);
#elif FMT == 2
    uint8_t *o = malloc(len);
#elif FMT == 1
    int32_t *o = malloc(len);
#else
    float *o = malloc(len);
#endif
    const int cells = len / (FMT == 2 ? 1 : size), w = FMT == 2 ? 3 : 1;
    for (int i = 0; i < cells; i++) o[i] = 99;
    uint8_t fr[20] = { 0 };
    int ret = lc3_decode(e, vp_bool() ? fr : NULL, 20, FMT, o, stride);
    vp_assert(ret >= 0, "frame decoded or concealed");
    for (int k = 0; k < NSYM; k++) {
        const int i = at[NSYM == 1 ? WHICH : k], c = i * stride * w;
        double v = sample[i];
#if FMT == 3
        double s = v / 32768;
        s = s > 1 ? 1 : s < -1 ? -1 : s;
        double r = (double)o[c] - s;
        vp_assert(r >= -1e-37 && r <= 1e-37, "float output is the scaled and clamped value");
        vp_assert(!(o[c] > 1) && !(o[c] < -1) && o[c] == o[c], "float output in range");
#else
        double s = v * (FMT ? 256 : 1), max = FMT ? 8388607 : 32767, min = -max - 1;
#if FMT == 2
        int32_t got = (int32_t)(((uint32_t)o[c] << 8) | ((uint32_t)o[c + 1] << 16) | ((uint32_t)o[c + 2] << 24)) >> 8;
#else
        int32_t got = o[c];
#endif
        if (s >= max) vp_assert(got == (int32_t)max, "saturated to the largest value");
        else if (s <= min) vp_assert(got == (int32_t)min, "saturated to the lowest value");
        else {
            double r = (double)got - s;
            vp_assert(r >= -0.75 && r <= 0.75 && (s > -1048576 && s < 1048576 ? r >= -0.5626 && r <= 0.5626 : 1), "rounded to nearest");
        }
#endif
    }
    /* untouched between the samples; silent samples written */
    int j = vp_int(0, cells - 1), f = j / w;
    if (f % stride != 0) vp_assert(o[j] == 99, "nothing written between the samples");
    else if (f / stride != at[0] && f / stride != at[1] && f / stride != at[2] && f / stride != at[3])
        vp_assert(o[j] == 0, "every sample of the frame is written");
    vp_reach("end");
    return 0;
}
