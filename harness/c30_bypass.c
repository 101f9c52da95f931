/* C30: the long-term filter disabled on one of two encoders, before a symbolic frame. */
#include <stdint.h>
#include <stdbool.h>
struct lc3_bits;
static void on_analyse(void *data); static void on_put(const void *data); static void on_flush(const void *bits);
static void on_attdet(void); static void on_bw_put(int bw);
static void on_sns(int nb, bool att); static void on_tns(int bw, bool nn, int nb); static void on_spec(int nb, bool pitch); static void on_enc(int bw, int nb); static void on_other(int k);
static bool a_att, a_nn, a_pitch; static int a_bw;
#define ON_ATTDET ret = a_att; on_other(0);
#define ON_LTPF_ANALYSE ret = a_pitch; on_analyse(data);
#define ON_MDCT_FORWARD on_other(1);
#define ON_ENERGY ret = a_nn; on_other(2);
#define ON_BWDET ret = (enum lc3_bandwidth)a_bw; on_other(3);
#define ON_SNS_ANALYZE on_sns(nbytes, att);
#define ON_TNS_ANALYZE on_tns(bw, nn_flag, nbytes);
#define ON_SPEC_ANALYZE on_spec(nbytes, pitch);
#define ON_BW_PUT on_bw_put(bw);
#define ON_SIDE_PUT on_other(4);
#define ON_TNS_PUT on_other(5);
#define ON_SNS_PUT on_other(6);
#define ON_LTPF_PUT on_put(data);
#define ON_SPEC_ENCODE on_enc(bw, nbytes);
#define ON_FLUSH on_flush(bits);
#include "stages.h"

static bool d_active; static int d_index;          /* result of the analysis */
static bool bypass;                                 /* expected mode of the encoder at work */
static int puts, calls, flushes, nb, others[7]; static bool s_active; static int s_index, s_pitch;

static void on_other(int k) { others[k]++; }
static void on_attdet(void) {}
static void on_analyse(void *p) { lc3_ltpf_data_t *d = p; d->active = d_active; d->pitch_index = d_index; }
static void on_put(const void *p) { const lc3_ltpf_data_t *d = p; puts++; s_active = d->active; s_index = d->pitch_index; }
static void on_sns(int n, bool att) { calls++; vp_assert(n == nb && att == a_att, "envelope analysis as usual"); }
static void on_tns(int bw, bool nn, int n) { calls++; vp_assert(n == nb && bw == a_bw && nn == a_nn, "noise shaping as usual"); }
static void on_spec(int n, bool pitch) { calls++; s_pitch = pitch; vp_assert(n == nb, "quantization as usual"); }
static void on_bw_put(int bw) { calls++; vp_assert(bw == a_bw, "bandwidth put"); }
static void on_enc(int bw, int n) { calls++; vp_assert(n == nb && bw == a_bw, "spectrum put"); }
static void on_flush(const void *p) {
    const lc3_bits_t *b = p; flushes++;
    bool pitch = b->accu.v & 1;
    vp_assert(b->accu.n == 1 && b->accu.v <= 1, "one raw bit besides the data of the stages");
    vp_assert(s_pitch == pitch, "the quantizer accounts for the data signalled");
    vp_assert(puts == pitch, "pitch data follows its bit");
    if (bypass) vp_assert(!pitch, "nothing signalled when disabled");
    else {
        vp_assert(pitch == a_pitch, "the analysis's verdict is signalled");
        if (pitch) vp_assert(s_index == d_index && s_active == (d_active && !a_nn), "and its data");
    }
}

static void encode(struct lc3_encoder *e, bool by) {
    static int16_t pcm[PCM / 100];
    static uint8_t out[MAX_BYTES];
    bypass = by; puts = calls = flushes = 0;
    for (int i = 0; i < 7; i++) others[i] = 0;
    vp_assert(lc3_encode(e, LC3_PCM_FORMAT_S16, pcm, 1, nb, out) == 0, "encoded");
    vp_assert(calls == 5 && flushes == 1, "every other stage runs");
    for (int i = 0; i < 7; i++) vp_assert(others[i] == 1, "every other stage runs once");
}

int main(void) {
    ENC_MEM(ma); ENC_MEM(mb);
    struct lc3_encoder *a = lc3_hr_setup_encoder(HR, US, SR, PCM, &ma), *b = lc3_hr_setup_encoder(HR, US, SR, PCM, &mb);
    int kd = vp_int(0, 3);
    for (int f = 0; f < 4; f++) {
        a_att = vp_bool(); a_nn = vp_bool(); a_pitch = vp_bool(); a_bw = vp_int(0, 4);
        d_active = vp_bool(); d_index = vp_int(0, 511);
        nb = vp_int(MIN_BYTES, MAX_BYTES);
        if (f == kd) lc3_encoder_disable_ltpf(a);
        encode(a, f >= kd);
        encode(b, false);
        if (f == 2) vp_reach("running");
    }
    a = lc3_hr_setup_encoder(HR, US, SR, PCM, &ma);
    a_pitch = true;
    encode(a, false);
    vp_reach("set up again");
    return 0;
}
