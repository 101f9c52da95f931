/* C26: the container, on a file of stand-in stdio functions. */
#include "vp.h"
#include "lc3bin.h"
#include "vfile.h"
VP_DEF(int, num, i)
VP_DEF(uint8_t, by, b)
VP_DEF(long, length, l)

static FILE *fp;

#if WHICH == 0
/* Written, then read back */
static unsigned char file[64];
static unsigned char vf_byte(long pos) { return file[pos]; }
static void vf_put(long pos, unsigned char b) { vp_assert(pos >= 0 && pos < 64, "small header"); file[pos] = b; if (pos >= vf_len) vf_len = pos + 1; }
static void vf_block(void *p, size_t n) { (void)p; (void)n; vp_assert(0, "size of a read"); }

int main(void) {
    static const int dts[] = { 2500, 5000, 7500, 10000 };
    static const int srs[] = { 8000, 16000, 24000, 32000, 48000, 96000 };
    int d = vp_num(), s = vp_num(), hr = vp_num(), br = vp_num(), nch = vp_num(), n = vp_num();
    vp_assume(d >= 0 && d < 4 && s >= 0 && s < 6 && (hr & ~1) == 0);
    vp_assume(br >= 0 && nch >= 1 && nch <= 65535 && n >= 0);
    lc3bin_write_header(fp, dts[d], srs[s], hr, br, nch, n);
    uint8_t b1[4], b2[3], r[LC3_HR_MAX_FRAME_BYTES];
    for (int i = 0; i < 4; i++) b1[i] = vp_by();
    for (int i = 0; i < 3; i++) b2[i] = vp_by();
    lc3bin_write_data(fp, b1, 4);
    lc3bin_write_data(fp, b2, 3);
    int fu = -1, sr = -1, nc = -1, ns = -1; bool h = !hr;
    vf_pos = 0;
    vp_assert(lc3bin_read_header(fp, &fu, &sr, &h, &nc, &ns) == 0, "own header accepted");
    vp_assert(fu == dts[d], "frame duration");
    vp_assert(sr == srs[s], "sample rate");
    vp_assert(h == hr, "high-resolution mode");
    vp_assert(nc == nch, "channels");
    vp_assert(ns == n, "count of samples");
    vp_assert(lc3bin_read_data(fp, nch, r) == 4, "size of the first block");
    for (int i = 0; i < 4; i++) vp_assert(r[i] == b1[i], "contents of the first block");
    vp_assert(lc3bin_read_data(fp, nch, r) == 3, "size of the second block");
    for (int i = 0; i < 3; i++) vp_assert(r[i] == b2[i], "contents of the second block");
    vp_assert(lc3bin_read_data(fp, nch, r) < 0, "end of the stream");
    vp_reach("end");
    return 0;
}

#elif WHICH == 1
/* Any contents */
static unsigned char file[32];
static unsigned char vf_byte(long pos) { return file[pos & 31]; }
static void vf_put(long pos, unsigned char b) { (void)pos; (void)b; vp_assert(0, "file written"); }
static void vf_block(void *p, size_t n) { (void)p; (void)n; vp_assert(0, "size of a read"); }
static unsigned u16(int p) { return file[p] | file[p + 1] << 8; }

int main(void) {
    for (int i = 0; i < 32; i++) file[i] = vp_by();
    vf_len = vp_length();
    vp_assume(vf_len >= 0 && vf_len <= 32);
    int fu = 1, sr = 2, nc = 3, ns = 4; bool h = 0;
    int res = lc3bin_read_header(fp, &fu, &sr, &h, &nc, &ns);
    vp_assert(res == 0 || res == -1, "result");
    unsigned hs = u16(2);
    int ext = hs >= 20;
    int ok = vf_len >= 18 && u16(0) == 0xcc1c && hs >= 18 && u16(12) == 0 && (!ext || vf_len >= 20);
    vp_assert((res == 0) == ok, "accepted exactly when well formed");
    if (!ok) { vp_reach("bad"); return 0; }
    vp_assert(sr == (int)u16(4) * 100, "sample rate");
    vp_assert(nc == (int)u16(8), "channels");
    vp_assert(fu == (int)u16(10) * 10, "frame duration");
    vp_assert((uint32_t)ns == (u16(14) | (uint32_t)u16(16) << 16), "count of samples");
    vp_assert(h == (ext && u16(18) != 0), "high-resolution mode");
    vp_assert(vf_pos == (long)hs, "positioned after the header");
    vp_reach("end");
    return 0;
}

#else
/* Blocks of any contents: NCH channels */
static unsigned char sz[2];
static uint8_t buffer[NCH * LC3_HR_MAX_FRAME_BYTES];
static int at;
static unsigned char vf_byte(long pos) { return pos >= at && pos < at + 2 ? sz[pos - at] : 0x5a; }
static void vf_put(long pos, unsigned char b) { (void)pos; (void)b; vp_assert(0, "file written"); }
static long got, got_at;
static void vf_block(void *p, size_t n) {
    vp_assert((uint8_t *)p >= buffer && (size_t)((uint8_t *)p - buffer) + n <= sizeof(buffer), "block inside the buffer");
    got = n; got_at = vf_pos;
    buffer[0] = 0x5a; ((uint8_t *)p)[n - 1] = 0x5a;
}

int main(void) {
    at = vp_num();
    vp_assume(at >= 0 && at <= 100000);
    sz[0] = vp_by(); sz[1] = vp_by();
    vf_pos = at;
    vf_len = vp_length();
    vp_assume(vf_len >= 0 && vf_len <= 400000);
    int n = sz[0] | sz[1] << 8;
    int res = lc3bin_read_data(fp, NCH, buffer);
    int ok = vf_len >= (long)at + 2 + n && n <= NCH * LC3_HR_MAX_FRAME_BYTES && n > 0;
    vp_assert(ok ? res == n : res < 0, "size of the block, or end of the stream");
    if (ok) {
        vp_assert(vf_pos == (long)at + 2 + n, "next block follows");
        vp_assert(buffer[0] == 0x5a && buffer[n - 1] == 0x5a, "contents of the block");
        if (n > VF_SMALL) vp_assert(got == n && got_at == (long)at + 2, "whole block read");
    }
    vp_reach("end");
    return 0;
}
#endif
