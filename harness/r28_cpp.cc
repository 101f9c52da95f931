/* The C++ wrapper behind C functions, for the executor; with VP_MAIN a program
 * on recording stand-ins of the C functions (replay of C28). */
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <cstdint>
#include <memory>
#include <vector>
#include "lc3_cpp.h"

using E = lc3::Encoder;
using D = lc3::Decoder;
using F = lc3::PcmFormat;

extern "C" {
void *vp_enc_new(int dt, int sr, int pcm, size_t n, int hr) { return new E(dt, sr, pcm, n, hr != 0); }
void vp_enc_del(void *e) { delete (E *)e; }
void vp_enc_reset(void *e) { ((E *)e)->Reset(); }
void vp_enc_noltpf(void *e) { ((E *)e)->DisableLTPF(); }
int vp_enc_s16(void *e, const void *p, int n, uint8_t *o) { return ((E *)e)->Encode((const int16_t *)p, n, o); }
int vp_enc_s24(void *e, const void *p, int n, uint8_t *o) { return ((E *)e)->Encode((const int32_t *)p, n, o); }
int vp_enc_f32(void *e, const void *p, int n, uint8_t *o) { return ((E *)e)->Encode((const float *)p, n, o); }
int vp_enc_fmt(void *e, int f, const void *p, int n, uint8_t *o) { return ((E *)e)->Encode((F)f, p, n, o); }
int vp_enc_samples(void *e) { return ((E *)e)->GetFrameSamples(); }
int vp_enc_bytes(void *e, int b) { return ((E *)e)->GetFrameBytes(b); }
int vp_enc_rate(void *e, int b) { return ((E *)e)->ResolveBitrate(b); }
int vp_enc_delay(void *e) { return ((E *)e)->GetDelaySamples(); }
void *vp_dec_new(int dt, int sr, int pcm, size_t n, int hr) { return new D(dt, sr, pcm, n, hr != 0); }
void vp_dec_del(void *e) { delete (D *)e; }
void vp_dec_reset(void *e) { ((D *)e)->Reset(); }
int vp_dec_s16(void *e, const uint8_t *i, int n, void *p) { return ((D *)e)->Decode(i, n, (int16_t *)p); }
int vp_dec_s24(void *e, const uint8_t *i, int n, void *p) { return ((D *)e)->Decode(i, n, (int32_t *)p); }
int vp_dec_f32(void *e, const uint8_t *i, int n, void *p) { return ((D *)e)->Decode(i, n, (float *)p); }
int vp_dec_fmt(void *e, const uint8_t *i, int n, int f, void *p) { return ((D *)e)->Decode(i, n, (F)f, p); }
int vp_dec_samples(void *e) { return ((D *)e)->GetFrameSamples(); }
int vp_dec_bytes(void *e, int b) { return ((D *)e)->GetFrameBytes(b); }
int vp_dec_rate(void *e, int b) { return ((D *)e)->ResolveBitrate(b); }
int vp_dec_delay(void *e) { return ((D *)e)->GetDelaySamples(); }
}

#ifdef VP_MAIN
/* input: dec dt sr pcm n hr fail (a mask) op fmt size, then results of each channel */
static int cnt, nset, fail, res[64];
static char pcm[64], io[4096 * 8];
static void *st[64];
static int id(void *p) { for (int i = 0; i < nset; i++) if (st[i] == p) return i; return -1; }
extern "C" {
unsigned lc3_hr_encoder_size(bool hr, int dt, int sr) { printf("size %d %d %d\n", hr, dt, sr); return 64; }
unsigned lc3_hr_decoder_size(bool hr, int dt, int sr) { printf("size %d %d %d\n", hr, dt, sr); return 64; }
lc3_encoder_t lc3_hr_setup_encoder(bool hr, int dt, int sr, int srp, void *m) {
    int k = id(m);
    if (k < 0) {
        if (fail >> cnt++ & 1) return NULL;
        st[k = nset++] = m;
    }
    printf("setup %d %d %d %d %d\n", hr, dt, sr, srp, k);
    return (lc3_encoder_t)m;
}
lc3_decoder_t lc3_hr_setup_decoder(bool hr, int dt, int sr, int srp, void *m) { return (lc3_decoder_t)lc3_hr_setup_encoder(hr, dt, sr, srp, m); }
void lc3_encoder_disable_ltpf(lc3_encoder_t e) { printf("noltpf %d\n", id(e)); }
int lc3_encode(lc3_encoder_t e, enum lc3_pcm_format f, const void *p, int stride, int n, void *o) {
    printf("code %d %d %d %d %d %d\n", id(e), f, (int)((char *)p - pcm), stride, n, (int)((char *)o - io)); return res[cnt++]; }
int lc3_decode(lc3_decoder_t e, const void *o, int n, enum lc3_pcm_format f, void *p, int stride) {
    printf("code %d %d %d %d %d %d\n", id(e), f, (int)((char *)p - pcm), stride, n, (int)((char *)o - io)); return res[cnt++]; }
int lc3_hr_frame_samples(bool hr, int dt, int sr) { printf("samples %d %d %d\n", hr, dt, sr); return 77; }
int lc3_hr_frame_block_bytes(bool hr, int dt, int sr, int n, int b) { printf("bytes %d %d %d %d %d\n", hr, dt, sr, n, b); return 77; }
int lc3_hr_resolve_bitrate(bool hr, int dt, int sr, int b) { printf("rate %d %d %d %d\n", hr, dt, sr, b); return 77; }
int lc3_hr_delay_samples(bool hr, int dt, int sr) { printf("delay %d %d %d\n", hr, dt, sr); return 77; }
}
int main() {
    int dec, dt, sr, sp, n, hr, op, f, size;
    if (scanf("%d %d %d %d %d %d %d %d %d %d", &dec, &dt, &sr, &sp, &n, &hr, &fail, &op, &f, &size) != 10) return 2;
    for (int i = 0; i < n; i++) if (scanf("%d", res + i) != 1) return 2;
    void *c = dec ? vp_dec_new(dt, sr, sp, n, hr) : vp_enc_new(dt, sr, sp, n, hr);
    printf("new\n"); cnt = 0;
    uint8_t *o = (uint8_t *)io;
    int r = op == 5 ? (dec ? vp_dec_samples(c) : vp_enc_samples(c)) : op == 6 ? (dec ? vp_dec_bytes(c, size) : vp_enc_bytes(c, size)) :
        op == 7 ? (dec ? vp_dec_rate(c, size) : vp_enc_rate(c, size)) : op == 8 ? (dec ? vp_dec_delay(c) : vp_enc_delay(c)) :
        op == 9 ? (dec ? vp_dec_reset(c) : vp_enc_reset(c), 0) : op == 10 ? (vp_enc_noltpf(c), 0) :
        !dec ? (op == 0 ? vp_enc_s16(c, pcm, size, o) : op == 1 ? vp_enc_s24(c, pcm, size, o) : op == 3 ? vp_enc_f32(c, pcm, size, o) : vp_enc_fmt(c, f, pcm, size, o)) :
        (op == 0 ? vp_dec_s16(c, o, size, pcm) : op == 1 ? vp_dec_s24(c, o, size, pcm) : op == 3 ? vp_dec_f32(c, o, size, pcm) : vp_dec_fmt(c, o, size, f, pcm));
    printf("result %d\n", r);
    if (dec) vp_dec_del(c); else vp_enc_del(c);
    return 0;
}
#endif
