/* The regions of the sample memory of a codec: inside the memory, and disjoint. */
#ifndef REGIONS_H
#define REGIONS_H
#define APART(a, na, b, nb) ((a) + (na) <= (b) || (b) + (nb) <= (a))
#define INSIDE(a, na, n) ((a) >= 0 && (a) + (na) <= (n))

static inline void regions_encoder(const struct lc3_encoder *e, int ns, int nt, int nd, int nx)
{   /* 16 bits samples, counted in halves; spectrum (and samples); overlap */
    vp_assert(e->xt_off >= nt, "room for the history of the 16 bits samples");
    vp_assert(INSIDE(e->xt_off - nt, nt + ns, 2 * nx), "16 bits samples inside the memory");
    vp_assert(INSIDE(e->xs_off, ns, nx), "spectrum inside the memory");
    vp_assert(INSIDE(e->xd_off, nd, nx), "overlap inside the memory");
    vp_assert(APART(e->xt_off - nt, nt + ns, 2 * e->xs_off, 2 * ns), "spectrum apart from the 16 bits samples");
    vp_assert(APART(e->xt_off - nt, nt + ns, 2 * e->xd_off, 2 * nd), "overlap apart from the 16 bits samples");
    vp_assert(APART(e->xs_off, ns, e->xd_off, nd), "overlap apart from the spectrum");
}

static inline void regions_decoder(const struct lc3_decoder *d, int ns, int nd, int nx)
{   /* history and frame, overlap, spectrum */
    vp_assert(d->xh_off >= 0 && d->xs_off >= d->xh_off, "history before the frame");
    int nf = d->xs_off + ns - d->xh_off;
    vp_assert(INSIDE(d->xh_off, nf, nx), "frame inside the memory");
    vp_assert(INSIDE(d->xd_off, nd, nx), "overlap inside the memory");
    vp_assert(INSIDE(d->xg_off, ns, nx), "spectrum inside the memory");
    vp_assert(APART(d->xh_off, nf, d->xd_off, nd), "overlap apart from the frame");
    vp_assert(APART(d->xh_off, nf, d->xg_off, ns), "spectrum apart from the frame");
    vp_assert(APART(d->xd_off, nd, d->xg_off, ns), "overlap apart from the spectrum");
}
#endif
