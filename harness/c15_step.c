/* C15: a run of concealed frames from any seed, the good spectrum being a constant one. */
#include "vp.h"
#include "common.h"
#include "plc.h"
#include "tables.h"
#define NE (US / 2500 * NE2M5)
int main(void) {
    struct lc3_plc_state p;
    lc3_plc_reset(&p);
    p.seed = vp_u16();
    float x[NE], y[NE], gain = 1;
    for (int i = 0; i < NE; i++) x[i] = i % 5 == 0 ? 1024.f : i % 5 == 1 ? -64.f : i % 5 == 2 ? 0 : i % 5 == 3 ? 1.f : -32768.f;
    for (int f = 0; f < FRAMES; f++) {
        /* a good frame in the middle */
        if (f == FRAMES / 3 || f == FRAMES / 3 + 1) { lc3_plc_suspend(&p); gain = 2; }
        lc3_plc_synthesize(DTID, SRID, &p, x, y);
        float g = p.alpha;
        vp_assert(g <= gain && g <= 1, "the gain never grows, and is 1 at most");
        vp_assert(gain != 2 || g == 1, "a good frame ends the concealment");
        vp_assert(g > gain * .4f, "the sound fades slowly");
        for (int i = 0; i < NE; i++) {
            float e = g * x[i];
            vp_assert(y[i] == e || y[i] == -e, "one gain, only signs change");
            y[i] = 99;
        }
        gain = g;
    }
    vp_assert(gain < .5f, "a long run of losses fades out");
    vp_reach("end");
    return 0;
}
