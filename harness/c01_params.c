/* C01: every int duration and rate, every flag value: sentinels and sizes */
#include "vp.h"
#include <lc3.h>

static int exp_ns(bool hr, int us, int hz) {
    bool okdt = us == 2500 || us == 5000 || us == 10000 || (us == 7500 && !hr);
    bool oksr = hr ? (hz == 48000 || hz == 96000)
                   : (hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000);
    if (!okdt || !oksr) return -1;
    return (us / 500) * (hz / 1000) / 2;
}

int main(void) {
    bool hr = vp_bool();
    int us = vp_s32(), hz = vp_s32();
    int ns = exp_ns(hr, us, hz);

    vp_assert(lc3_hr_frame_samples(hr, us, hz) == ns, "frame samples = rate x duration, or -1");
    int d = lc3_hr_delay_samples(hr, us, hz);
    vp_assert(d == (ns < 0 ? -1 : us == 7500 ? 4 * (hz / 1000) : 5 * (hz / 1000) / 2),
              "delay is 2.5 ms (4 ms for 7.5 ms frames), or -1");
    unsigned es = lc3_hr_encoder_size(hr, us, hz), ds = lc3_hr_decoder_size(hr, us, hz);
    vp_assert((es == 0) == (ns < 0), "encoder size is 0 exactly for unsupported parameters");
    vp_assert((ds == 0) == (ns < 0), "decoder size is 0 exactly for unsupported parameters");
    vp_assert(es < 65536 && ds < 65536, "sizes are sane");
    if (!hr) {
        vp_assert(lc3_frame_samples(us, hz) == ns, "plain frame samples");
        vp_assert(lc3_delay_samples(us, hz) == d, "plain delay");
        vp_assert(lc3_encoder_size(us, hz) == es, "plain encoder size");
        vp_assert(lc3_decoder_size(us, hz) == ds, "plain decoder size");
    }
    if (!hr && ns > 0)
        vp_assert(LC3_CHECK_DT_US(us) && LC3_CHECK_SR_HZ(hz), "check macros accept supported parameters");
    if (!hr && ns < 0)
        vp_assert(!(LC3_CHECK_DT_US(us) && LC3_CHECK_SR_HZ(hz)), "check macros reject unsupported parameters");
    if (ns > 0)
        vp_assert(LC3_HR_CHECK_SR_HZ(hr, hz), "rate check macro");
    vp_reach("end");
    if (ns > 0) vp_reach("supported");
    return 0;
}
