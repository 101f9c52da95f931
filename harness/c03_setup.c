/* C03: setup of encoder/decoder.  Everything symbolic, or CFG fixed to one configuration. */
#include "vp.h"
#include <lc3.h>
#include <lc3_private.h>

#define CAP (24 * 1024)

#ifdef REJECT
/* all ints: NULL exactly for unsupported parameters, nothing written */
int main(void) {
    static uint8_t mem[16];
    uint8_t b[16];
    vp_bytes(b, 16); memcpy(mem, b, 16);
    bool hr = vp_bool();
    int us = vp_s32(), hz = vp_s32(), pcm = vp_s32();
    bool null = vp_bool();
    int sp = pcm <= 0 ? hz : pcm;
    bool okdt = us == 2500 || us == 5000 || us == 10000 || (us == 7500 && !hr);
    bool ok1 = hr ? (hz == 48000 || hz == 96000)
                   : (hz == 8000 || hz == 16000 || hz == 24000 || hz == 32000 || hz == 48000);
    bool ok2 = hr ? (sp == 48000 || sp == 96000)
                   : (sp == 8000 || sp == 16000 || sp == 24000 || sp == 32000 || sp == 48000);
    vp_assume(!okdt || !ok1 || !ok2 || hz > sp || null);
    void *m = null ? NULL : mem;
    void *r = DEC ? (void *)lc3_hr_setup_decoder(hr, us, hz, pcm, m)
                  : (void *)lc3_hr_setup_encoder(hr, us, hz, pcm, m);
    vp_assert(r == NULL, "unsupported parameters or missing memory give NULL");
    if (!hr) {
        r = DEC ? (void *)lc3_setup_decoder(us, hz, pcm, m) : (void *)lc3_setup_encoder(us, hz, pcm, m);
        vp_assert(r == NULL, "plain setup: unsupported parameters give NULL");
    }
    for (int i = 0; i < 16; i++) vp_assert(mem[i] == b[i], "nothing written");
    vp_reach("end");
}
#else

/* one configuration, arbitrary previous contents and arbitrary guard position */
#if DEC
typedef struct lc3_decoder T;
#define SETUP lc3_hr_setup_decoder
#define SIZE  lc3_hr_decoder_size
#else
typedef struct lc3_encoder T;
#define SETUP lc3_hr_setup_encoder
#define SIZE  lc3_hr_encoder_size
#endif

#include <stdlib.h>
#include "regions.h"

int main(void) {
    unsigned size = SIZE(HR, US, PCM);
    vp_assert(size > sizeof(T) && size < CAP, "size");
    vp_assert(size % 4 == 0, "size granularity");

    /* exactly the advertised size, arbitrary contents: pointer checks guard the end */
    float *mem = malloc(size);
#ifdef VP_REPLAY
    memset(mem, 0xa5, size);
#endif

    int arg = vp_s32(); vp_assume(SR == PCM ? (arg <= 0 || arg == PCM) : arg == PCM);
    T *t = SETUP(HR, US, SR, arg, mem);

    vp_assert((void *)t == (void *)mem, "returns the given memory");

    int nx = (size - offsetof(T, x)) / sizeof(float);
    int ns = lc3_hr_frame_samples(HR, US, PCM);
    int nd = (lc3_hr_delay_samples(HR, US, PCM) + ns) / 2;
#if DEC
    regions_decoder(t, ns, nd, nx);
    vp_assert(t->plc.count >= 0 && t->plc.count <= 1, "no concealment pending");
    vp_assert(!t->ltpf.active, "long-term filter inactive");
    vp_assert(t->ltpf.pitch == 0, "no pitch history");
#else
    int nt = PCM / 800;
    regions_encoder(t, ns, nt, nd, nx);
    vp_assert(!t->ltpf_bypass, "long-term filter enabled");
    vp_assert(!t->ltpf.active && !t->ltpf.pitch && !t->ltpf.tc, "no pitch history");
    vp_assert(t->attdet.en1 == 0 && t->attdet.an1 == 0 && t->attdet.p_att == 0, "no attack history");
    int k12 = vp_int(0, 383), k6 = vp_int(0, 177);
    vp_assert(t->ltpf.x_12k8[k12] == 0 && t->ltpf.x_6k4[k6] == 0, "no pitch signal history");
    vp_assert(t->ltpf.hp50.s1 == 0 && t->ltpf.hp50.s2 == 0, "filter at rest");
#endif
    vp_assert(t->sr_pcm == PCMID && t->sr == SRID && t->dt == DTID, "configuration");
    /* silence: any word of the sample memory */
    int k = vp_int(0, nx - 1);
    vp_assert(t->x[k] == 0, "sample memory is silent");
    vp_reach("end");
    return 0;
}
#endif
