/* C09: bandwidth and pitch data, put then got, and got from arbitrary bits. */
#include "tape_main.h"
#include "bwdet.h"
#include "ltpf.h"
int main(void) {
    lc3_bits_t t; tape_new(&t);
    enum lc3_srate sr = vp_int(0, LC3_NUM_SRATE - 1);
    bool hr = sr >= LC3_SRATE_48K_HR;
    /* the encoder's bandwidth: any up to the codec rate, full in high-resolution mode */
    enum lc3_bandwidth bw = hr ? (enum lc3_bandwidth)sr : vp_int(0, sr), got = 99;
    int nb = lc3_bwdet_get_nbits(sr);
#if ANY
    t.any = 1;
    int ret = lc3_bwdet_get_bw(&t, sr, &got);
    vp_assert(ret == 0 || ret == -1, "result");
    vp_assert(got <= (enum lc3_bandwidth)sr, "never above the codec rate");
    vp_assert(!hr || (ret == 0 && got == (enum lc3_bandwidth)sr), "full bandwidth in high-resolution mode");
    vp_assert(t.rb == nb && t.rs == 0, "bits read");
    if (ret == 0) vp_reach("accepted"); else vp_reach("rejected");
    struct lc3_ltpf_data d = { .pitch_index = 9999 };
    lc3_ltpf_get_data(&t, &d);
    vp_assert(d.pitch_index >= 0 && d.pitch_index <= 511, "pitch index range");
    vp_assert(t.rb == nb + 10 && t.rs == 0, "bits read");
#else
    lc3_bwdet_put_bw(&t, sr, bw);
    vp_assert(t.nb == nb && t.ns == 0, "accounted bits of the bandwidth");
    vp_assert(nb == (hr ? 0 : sr == 0 ? 0 : sr == 1 ? 1 : sr <= 3 ? 2 : 3), "size of the field");
    struct lc3_ltpf_data d, g;
    d.active = vp_bool(); d.pitch_index = vp_int(0, 511);
    lc3_ltpf_put_data(&t, &d);
    vp_assert(t.nb - nb + 1 == lc3_ltpf_get_nbits(true), "accounted bits of the pitch data, with the presence bit");
    vp_assert(lc3_ltpf_get_nbits(false) == 1, "only the presence bit without pitch");
    int ret = lc3_bwdet_get_bw(&t, sr, &got);
    vp_assert(ret == 0 && got == bw, "bandwidth");
    lc3_ltpf_get_data(&t, &g);
    vp_assert(g.active == d.active && g.pitch_index == d.pitch_index, "pitch data");
    vp_assert(tape_consumed(&t), "same bits");
    vp_reach("end");
#endif
    return 0;
}
