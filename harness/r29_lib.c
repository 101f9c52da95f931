/* Recording stand-in of the library under the Python wrapper (replay of C29). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
static int calls, made;
static int env(const char *n, int i) { char *s = getenv(n); while (i-- && s) { s = strchr(s, ','); if (s) s++; } return s ? atoi(s) : 0; }
static FILE *log_(void) { static FILE *f; if (!f) f = fopen(getenv("R29_LOG"), "w"); setvbuf(f, NULL, _IONBF, 0); return f; }
static const int elem[] = { 2, 4, 3, 4 };
static void *st[64];
static int id(void *p) { for (int i = 0; i < made; i++) if (st[i] == p) return i; return -1; }

int lc3_hr_frame_samples(bool hr, int dt, int sr) { return env("R29_FS", 0); }
int lc3_hr_frame_block_bytes(bool hr, int dt, int sr, int n, int b) { return 0; }
int lc3_hr_resolve_bitrate(bool hr, int dt, int sr, int n) { return 0; }
int lc3_hr_delay_samples(bool hr, int dt, int sr) { return 0; }
unsigned lc3_hr_encoder_size(bool hr, int dt, int sr) { return 64; }
unsigned lc3_hr_decoder_size(bool hr, int dt, int sr) { return 64; }
void *lc3_hr_setup_encoder(bool hr, int dt, int sr, int sp, void *m) {
    fprintf(log_(), "setup %d %d %d %d\n", hr, dt, sr, sp); memset(m, 1, 64); return st[made++] = m; }
void *lc3_hr_setup_decoder(bool hr, int dt, int sr, int sp, void *m) { return lc3_hr_setup_encoder(hr, dt, sr, sp, m); }
int lc3_encode(void *e, int fmt, const void *pcm, int stride, int n, void *out) {
    fprintf(log_(), "code %d %d %d %d ", id(e), fmt, stride, n);
    for (int i = 0; i < env("R29_FS", 0); i++)
        for (int b = 0; b < elem[fmt & 3]; b++) fprintf(log_(), "%02x", ((const uint8_t *)pcm)[i * stride * elem[fmt & 3] + b]);
    fprintf(log_(), "\n");
    memset(out, 1 + calls, n);
    return env("R29_RES", calls++);
}
int lc3_decode(void *e, const void *in, int n, int fmt, void *pcm, int stride) {
    fprintf(log_(), "code %d %d %d %d ", id(e), fmt, stride, n);
    for (int i = 0; i < n; i++) fprintf(log_(), "%02x", ((const uint8_t *)in)[i]);
    fprintf(log_(), "\n");
    for (int i = 0; i < env("R29_FS", 0); i++) memset((uint8_t *)pcm + i * stride * elem[fmt & 3], 1 + calls, elem[fmt & 3]);
    return env("R29_RES", calls++);
}
