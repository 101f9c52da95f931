/* C15: concealment over FRAMES frames: PATTERN < 0: each good, refused (after the parser spoiled the frame) or missing; else bit k set: frame k is good. */
#include <stdint.h>
#include <stdbool.h>
static void on_sns(float *y); static void on_inverse(const float *x);
#define NE (US / 2500 * NE2M5)
#ifndef PCM
#define PCM SR
#endif
#define NSP (PCM / 100 * US / 10000)
static float garbage;
#define ON_SPEC_DECODE x[0] = x[NE - 1] = garbage;
#define ON_SNS_SYNTH on_sns(y);
#define ON_MDCT_INVERSE on_inverse(x); y[0] = garbage; y[NSP - 1] = garbage;
#define ON_LTPF_SYNTH vp_assert(!lost || !data, "no pitch data on a concealed frame"); x[0] = x[NSP - 1] = garbage;
#define REAL_PLC
static bool lost;
/* a refused frame: one of the 6 stages of the parser refuses it */
static int force, which;
#define STAGE_ERROR (force == 2 && which-- == 0)
#include "stages.h"

static float good[NE];              /* the last good spectrum */
static float gain;                  /* gain of the previous frame of this run of losses */
static bool refused;
static int inv;
static bool marked(int i) { return i < 3 || i == NE / 2 || i >= NE - 2; }

/* position 0 holds a power of two, that tells the gain; the others powers of two as well, but for one symbolic value (PATTERN >= 0) */
static void on_sns(float *y) {
    for (int i = 0; i < NE; i++) {
        float v = !marked(i) ? 0 : i == 0 ? 1024.f : i == 1 ? -4096.f : i & 1 ? 16.f : -64.f;
#if PATTERN >= 0
        if (i == NE / 2) v = vp_int(-3, 3) * 1024.f;
#endif
        good[i] = y[i] = v;
    }
}
static void on_inverse(const float *x) {
    inv++;
    if (!lost) {
        for (int i = 0; i < NE; i++) vp_assert(x[i] == good[i], "a good frame is not concealed");
        return;
    }
    if (good[0] == 0) {
        for (int i = 0; i < NSP; i++) vp_assert(x[i] == 0, "silence before the first good frame");
        return;
    }
    float g = (x[0] < 0 ? -x[0] : x[0]) / 1024;
    vp_assert(g <= 1 && g <= gain, "the gain never grows, and is 1 at most");
    vp_assert(gain != 2.f || g == 1, "concealment starts afresh from the good spectrum");
    /* the same gain on the whole spectrum, only signs change */
    for (int i = 1; i < NE; i++) if (marked(i)) {
        float c = x[i] < 0 ? -x[i] : x[i], d = good[i] < 0 ? -good[i] : good[i];
        float e = c - g * d; if (e < 0) e = -e;
        vp_assert(e <= d * (1.f / 1048576), "one gain");
    } else vp_assert(x[i] == 0, "nothing added");
    for (int i = NE; i < NSP; i++) vp_assert(x[i] == 0, "nothing above the spectrum");
    gain = g;
}

int main(void) {
    DEC_MEM(mem);
    static float pcm[NSP];
    static uint8_t in[20];
    struct lc3_decoder *dec = lc3_hr_setup_decoder(HR, US, SR, PCM, &mem);
    garbage = 99;
    gain = 2;
    int run = 0;
    for (int f = 0; f < FRAMES; f++) {
#if PATTERN >= 0
        bool g = (PATTERN >> f) & 1, null = !g && (f & 1);
        lost = !g;
        force = g || null ? 1 : 2;
#else
        int v = vp_int(0, 2);           /* good, refused, missing */
        bool null = v == 2;
        lost = v != 0; force = v == 1 ? 2 : 1;
#endif
        which = force == 2 ? vp_int(0, 5) : 0;
        if (!lost) gain = 2;
        int ret = lc3_decode(dec, null ? NULL : in, 20, LC3_PCM_FORMAT_FLOAT, pcm, 1);
        vp_assert(ret == lost, "result tells the concealment");
        vp_assert(inv == f + 1, "every frame is synthesized");
        run = lost ? run + 1 : 0;
        if (lost && run == 2) vp_reach("run of losses");
    }
    vp_reach("end");
    return 0;
}
