/* C04: what encode/decode accept, in one configuration, and that a refusal has no effect. */
#define ON_LTPF_SYNTH vp_assert(nbytes >= 0 && nbytes <= 625, "the size given to the stages is one of a frame, or 0");
#include "stages.h"
#include <stdlib.h>


int main(void) {
    const int ns = lc3_hr_frame_samples(HR, US, PCM);
    const int lo = MIN_BYTES, hi = MAX_BYTES;
    /* "any" format, for a frame of the largest sample size */
    int nbytes = vp_s32();
    #ifdef FMT
    const enum lc3_pcm_format fmt = FMT;
#else
    enum lc3_pcm_format fmt = vp_int(0, 3);
#endif
    uint8_t *pcm = malloc(ns * 4);
    uint8_t fr[MAX_BYTES];
#ifdef VP_REPLAY
    memset(pcm, 0x11, ns * 4); memset(fr, 0x55, sizeof fr);
#else
    memset(pcm, 0, ns * 4);
#endif
#if ENC
    ENC_MEM(mem);
    struct lc3_encoder *e = lc3_hr_setup_encoder(HR, US, SR, PCM, &mem);
    /* a history */
    e->attdet.en1 = vp_s32(); e->attdet.an1 = vp_s32(); e->attdet.p_att = vp_s32();
    e->ltpf.tc = vp_s32(); e->spec.nbits_spare = vp_s32();
    const int nx = LC3_ENCODER_BUFFER_COUNT(US, PCM);
    struct lc3_encoder old = *e;
#else
    DEC_MEM(mem);
    struct lc3_decoder *e = lc3_hr_setup_decoder(HR, US, SR, PCM, &mem);
    e->plc.count = vp_s32(); e->plc.seed = vp_u16(); e->ltpf.pitch = vp_s32();
    const int nx = LC3_DECODER_BUFFER_COUNT(US, PCM);
    struct lc3_decoder old = *e;
#endif
    float *x = e->x;
    x[0] = x[1] = x[ns / 2] = x[ns] = x[e->xs_off] = x[e->xs_off + ns - 1] = x[e->xd_off] = x[nx - 1] = 42.f;
    int kf = vp_int(0, hi - 1); fr[kf] = 0x5a;
    int kp = vp_int(0, ns * 4 - 1); pcm[kp] = 0x69;
#if REFUSE
    bool null = vp_bool(), nullin = vp_bool();
#if ENC
    vp_assume(null || nbytes < lo || nbytes > hi);
    int ret = null ? lc3_encode(NULL, fmt, pcm, 1, nbytes, fr) : lc3_encode(e, fmt, pcm, 1, nbytes, fr);
    vp_assert(e->attdet.en1 == old.attdet.en1 && e->attdet.an1 == old.attdet.an1
        && e->attdet.p_att == old.attdet.p_att && e->ltpf.tc == old.ltpf.tc
        && e->spec.nbits_spare == old.spec.nbits_spare && e->dt == DTID && e->sr == SRID && e->sr_pcm == PCMID
        && e->xt_off == old.xt_off && e->xs_off == old.xs_off
        && e->xd_off == old.xd_off && !e->ltpf_bypass, "encoder state kept");
#else
    vp_assume(null || (!nullin && (nbytes < 20 || nbytes > hi)));
    int ret = null ? lc3_decode(NULL, nullin ? NULL : fr, nbytes, fmt, pcm, 1) : lc3_decode(e, fr, nbytes, fmt, pcm, 1);
    vp_assert(e->plc.count == old.plc.count && e->plc.seed == old.plc.seed
        && e->plc.alpha == 1 && e->ltpf.pitch == old.ltpf.pitch && !e->ltpf.active
        && e->dt == DTID && e->sr == SRID && e->sr_pcm == PCMID
        && e->xs_off == old.xs_off && e->xh_off == old.xh_off
        && e->xd_off == old.xd_off && e->xg_off == old.xg_off, "decoder state kept");
#endif
    vp_assert(ret == -1, "refused with -1");
    vp_assert(stage_calls == 0, "no processing");
    int kx = vp_int(0, nx - 1);
    bool mark = kx <= 1 || kx == ns / 2 || kx == ns || kx == old.xs_off || kx == old.xs_off + ns - 1 || kx == old.xd_off || kx == nx - 1;
    vp_assert(x[kx] == (mark ? 42.f : 0.f), "samples kept");
    vp_assert(pcm[kp] == 0x69, "PCM kept");
    vp_assert(fr[kf] == 0x5a, "frame kept");
    vp_reach("refused");
#else
#if ENC
    vp_assume(nbytes >= lo && nbytes <= hi);
    int ret = lc3_encode(e, fmt, pcm, 1, nbytes, fr);
    vp_assert(ret == 0, "any size inside the limits is accepted");
    vp_assert(stage_calls > 0, "frame processed");
#else
    bool nullin = vp_bool();
    vp_assume(nullin || (nbytes >= lo && nbytes <= hi));
    int ret = lc3_decode(e, nullin ? NULL : fr, nbytes, fmt, pcm, 1);
    vp_assert(ret == 0 || ret == 1, "any size inside the limits is accepted");
    vp_assert(!nullin || ret == 1, "a missing input is concealed");
    if (ret == 0) vp_reach("decoded");
#endif
    vp_reach("accepted");
#endif
    return 0;
}
