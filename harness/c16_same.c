/* C16: packed and unpacked 24 bits outputs of the same sample are identical, and any sample converts as the first one. */
#include <stdint.h>
static float sample[20];
#define ON_MDCT_INVERSE for (int i = 0; i < 20; i++) y[i] = sample[i];
#define HR 0
#define US 2500
#define SR 8000
#include "stages.h"
int main(void) {
    DEC_MEM(m1); DEC_MEM(m2);
    struct lc3_decoder *d1 = lc3_setup_decoder(2500, 8000, 0, &m1), *d2 = lc3_setup_decoder(2500, 8000, 0, &m2);
    for (int i = 0; i < 20; i++) sample[i] = 0;
    const int k = K;
    sample[k] = vp_f32(); vp_assume(vp_isfinite(sample[k]));
    int32_t o1[20]; uint8_t o2[60];
    vp_assert(lc3_decode(d1, NULL, 20, LC3_PCM_FORMAT_S24, o1, 1) == 1, "concealed");
    vp_assert(lc3_decode(d2, NULL, 20, LC3_PCM_FORMAT_S24_3LE, o2, 1) == 1, "concealed");
    int32_t g = (int32_t)(((uint32_t)o2[3 * k] << 8) | ((uint32_t)o2[3 * k + 1] << 16) | ((uint32_t)o2[3 * k + 2] << 24)) >> 8;
    vp_assert(g == o1[k], "same value");
    vp_assert(o1[k] >= -8388608 && o1[k] <= 8388607, "24 bits range");
    vp_reach("end");
    return 0;
}
