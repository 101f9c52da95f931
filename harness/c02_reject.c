/* C02: unsupported configurations, all ints */
#include "vp.h"
#include <lc3.h>
int main(void) {
    bool hr = vp_bool();
    int us = vp_s32(), hz = vp_s32(), nch = vp_s32(), br = vp_s32();
    bool ok = (us == 2500 || us == 5000 || us == 10000 || (us == 7500 && !hr)) &&
        (hr ? (hz == 48000 || hz == 96000)
            : (hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000));
    if (!ok) {
        vp_assert(lc3_hr_frame_block_bytes(hr, us, hz, nch, br) == -1, "block size");
        vp_assert(lc3_hr_frame_bytes(hr, us, hz, br) == -1, "frame size");
        vp_assert(lc3_hr_resolve_bitrate(hr, us, hz, br) == -1, "bitrate");
        vp_reach("unsupported");
    }
    if (us != 2500 && us != 5000 && us != 7500 && us != 10000) {
        vp_assert(lc3_frame_block_bytes(us, nch, br) == -1, "plain block size");
        vp_assert(lc3_frame_bytes(us, br) == -1, "plain frame size");
        vp_assert(lc3_resolve_bitrate(us, br) == -1, "plain bitrate");
        vp_reach("unsupported duration");
    }
    return 0;
}
