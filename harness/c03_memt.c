/* C03: the static memory types hold what setup needs (one configuration) */
#include "vp.h"
#include <lc3.h>
#include <lc3_private.h>
#include "regions.h"
int main(void) {
    static LC3_ENCODER_MEM_T(US, PCM) em;
    static LC3_DECODER_MEM_T(US, PCM) dm;
    int sr = vp_s32();
    unsigned es = lc3_hr_encoder_size(HR, US, PCM), ds = lc3_hr_decoder_size(HR, US, PCM);
    vp_assert(es > 0 && sizeof(em) >= es, "static encoder memory");
    vp_assert(ds > 0 && sizeof(dm) >= ds, "static decoder memory");
    if (!HR && PCM <= 16000)
        vp_assert(sizeof(lc3_encoder_mem_16k_t) >= es && sizeof(lc3_decoder_mem_16k_t) >= ds, "16k memory types");
    if (!HR)
        vp_assert(sizeof(lc3_encoder_mem_48k_t) >= es && sizeof(lc3_decoder_mem_48k_t) >= ds, "48k memory types");
    /* whatever the codec rate, setup stays inside (pointer checks) */
    lc3_encoder_t e = lc3_hr_setup_encoder(HR, US, sr, PCM, &em);
    lc3_decoder_t d = lc3_hr_setup_decoder(HR, US, sr, PCM, &dm);
    vp_assert((e != NULL) == (d != NULL), "both accept");
    int ns = lc3_hr_frame_samples(HR, US, PCM), nt = PCM / 800;
    int nd = (lc3_hr_delay_samples(HR, US, PCM) + ns) / 2;
    if (e) {
        int nx = (es - offsetof(struct lc3_encoder, x)) / sizeof(float);
        regions_encoder(e, ns, nt, nd, nx);
        vp_assert(!e->ltpf_bypass, "long-term filter enabled");
        nx = (ds - offsetof(struct lc3_decoder, x)) / sizeof(float);
        regions_decoder(d, ns, nd, nx);
        vp_assert(e->dt == DTID && d->dt == DTID && e->sr_pcm == SRID && d->sr_pcm == SRID, "configuration");
        vp_reach("setup");
    }
    vp_reach("end");
    return 0;
}
