From 43f64d78f239c3bc81ea0d76ca4cf46a47cfe816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:53 +0000
Subject: [PATCH 01/16] fix: frame block size of 5 or more channels limited at
 high bitrates

The bitrate was clipped to 8 x the high-resolution maximum before the
conversion, which is below the bitrate of 5 to 8 channels of 400 bytes at
2.5 ms: the maximum size was never returned, even for INT_MAX.
---
 src/lc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..fa52e35 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -115,9 +115,9 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
+    int64_t nbytes = ((int64_t)bitrate * (1 + dt)) / 3200;
 
-    return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
+    return LC3_CLIP(nbytes,
         nchannels * lc3_min_frame_bytes(dt, sr),
         nchannels * lc3_max_frame_bytes(dt, sr) );
 }
-- 
2.43.0


From d4233029127d6c20bcfc5c62160f1568eadf45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:59 +0000
Subject: [PATCH 02/16] fix: undefined shift by 32 on reading bits beyond the
 start of the frame

Once the frame is exhausted, accu_load() shifts the empty accumulator by its
whole width, an undefined operation reachable from any truncated or corrupted
frame.
---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 881258b..df2902a 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -327,7 +327,7 @@ static inline void accu_load(struct lc3_bits_accu *accu,
 
     if (accu->n >= 8) {
         accu->nover = LC3_MIN(accu->nover + accu->n, LC3_ACCU_BITS);
-        accu->v >>= accu->n;
+        accu->v = accu->n < LC3_ACCU_BITS ? accu->v >> accu->n : 0;
         accu->n = 0;
     }
 }
-- 
2.43.0


From 2c5ce85fda245a3781fe980f65e40fe446136094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:39 +0000
Subject: [PATCH 03/16] fix: no spurious byte on terminating the entropy coder
 without cached byte

---
 src/bits.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index df2902a..2b9c179 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -227,7 +227,8 @@ static void ac_terminate(struct lc3_bits_ac *ac,
     int end_val = ac->cache >> (8 - nbits);
 
     if (ac->carry_count) {
-        ac_put(buffer, ac->cache);
+        if (ac->cache >= 0)
+            ac_put(buffer, ac->cache);
         for ( ; ac->carry_count > 1; ac->carry_count--)
             ac_put(buffer, 0xff);
 
-- 
2.43.0


From e225ca8414e666c922fc95024bef5e9b91558901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:11 +0000
Subject: [PATCH 04/16] fix: underflow of lc3_ldexpf, full scale noise on float
 output after long losses

---
 src/fastmath.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..89b6596 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -39,14 +39,18 @@
 /**
  * Fast multiply floating-point number by integral power of 2
  * x               Operand, finite number
- * exp             Exponent such that 2^x is finite
- * return          2^exp
+ * exp             Exponent such that the result is finite
+ * return          x * 2^exp, flushed to 0 on underflow
  */
 static inline float lc3_ldexpf(float _x, int exp) {
     union { float f; int32_t s; } x = { .f = _x };
 
-    if (x.s & LC3_IEEE754_EXP_MASK)
-        x.s += exp << LC3_IEEE754_EXP_SHL;
+    int e = (x.s & LC3_IEEE754_EXP_MASK) >> LC3_IEEE754_EXP_SHL;
+
+    if (e && e + exp > 0)
+        x.s += exp * (1 << LC3_IEEE754_EXP_SHL);
+    else
+        x.s &= LC3_IEEE754_SIGN_MASK;
 
     return x.f;
 }
@@ -114,7 +118,7 @@ static inline float lc3_exp2f(float x)
 
     /* --- Add the exponent --- */
 
-    y.s += (k >> 3) << LC3_IEEE754_EXP_SHL;
+    y.s += (k >> 3) * (1 << LC3_IEEE754_EXP_SHL);
 
     return y.f;
 }
-- 
2.43.0


From 4150d80593d089620587f2b8b7a4d6408f10fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:39 +0000
Subject: [PATCH 05/16] fix: overflow of the float to integer conversion on PCM
 output

---
 src/lc3.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fa52e35..f292c8c 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,7 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
+        float x = LC3_CLIP(*xs, -32768.f, 32768.f);
+        int32_t s = x >= 0 ? (int)(x + 0.5f) : (int)(x - 0.5f);
         *pcm = LC3_SAT16(s);
     }
 }
@@ -506,8 +507,9 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = LC3_CLIP(*xs, -32768.f, 32768.f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
         *pcm = LC3_SAT24(s);
     }
 }
@@ -529,8 +531,9 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = LC3_CLIP(*xs, -32768.f, 32768.f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
 
         s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
-- 
2.43.0


From b2b7a196c6c56f5746025c0795f69a0e76d4a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:23:20 +0000
Subject: [PATCH 06/16] fix: undefined overflow of a signed product in
 lc3_exp2f

---
 src/fastmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 89b6596..0b7c7fe 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -118,7 +118,7 @@ static inline float lc3_exp2f(float x)
 
     /* --- Add the exponent --- */
 
-    y.s += (k >> 3) * (1 << LC3_IEEE754_EXP_SHL);
+    y.s += (int32_t)((uint32_t)(k >> 3) << LC3_IEEE754_EXP_SHL);
 
     return y.f;
 }
-- 
2.43.0


From 61b8556d40251a68992ebc9d9042e5ef782f40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:24:49 +0000
Subject: [PATCH 07/16] fix: overflow of the accumulated size on estimating the
 global gain

---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..96ec0e3 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
-- 
2.43.0


From 0450f8b74fdb65cf42892b585c89a09ca5ceaedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:24:49 +0000
Subject: [PATCH 08/16] fix: undefined shift of the sign mask

---
 src/fastmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 0b7c7fe..7cb882d 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -29,7 +29,7 @@
  */
 
 #define LC3_IEEE754_SIGN_SHL   (31)
-#define LC3_IEEE754_SIGN_MASK  (1 << LC3_IEEE754_SIGN_SHL)
+#define LC3_IEEE754_SIGN_MASK  (1u << LC3_IEEE754_SIGN_SHL)
 
 #define LC3_IEEE754_EXP_SHL    (23)
 #define LC3_IEEE754_EXP_MASK   (0xff << LC3_IEEE754_EXP_SHL)
-- 
2.43.0


From 229969a8e7a9f0e8054ecdca345fb067670d2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:25:32 +0000
Subject: [PATCH 09/16] fix: overflow of the high-pass filter in the pitch
 analysis on full scale signals

---
 src/ltpf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index 08cbae6..e13c837 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -179,7 +179,8 @@ static const int16_t h_96k_12k8_q15[2*120] = {
  * High-pass 50Hz filtering, at 12.8 KHz samplerate
  * hp50            Biquad filter state
  * xn              Input sample, in fixed Q30
- * return          Filtered sample, in fixed Q30
+ * return          Filtered sample, in fixed Q30, saturated such that
+ *                 it can be rounded to 16 bits
  */
 LC3_HOT static inline int32_t filter_hp50(
     struct lc3_ltpf_hp50_state *hp50, int32_t xn)
@@ -189,7 +190,9 @@ LC3_HOT static inline int32_t filter_hp50(
     const int32_t a1 = -2110217691, a2 = 1037111617;
     const int32_t b1 = -2110535566, b2 = 1055267782;
 
-    yn       = (hp50->s1 + (int64_t)xn * b2) >> 30;
+    const int64_t y = (hp50->s1 + (int64_t)xn * b2) >> 30;
+
+    yn       = LC3_CLIP(y, INT32_MIN, INT32_MAX - (1 << 15));
     hp50->s1 = (hp50->s2 + (int64_t)xn * b1 - (int64_t)yn * a1);
     hp50->s2 = (           (int64_t)xn * b2 - (int64_t)yn * a2);
 
-- 
2.43.0


From 5ee29abab597d857b7958bec91662490d1e65d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:26:15 +0000
Subject: [PATCH 10/16] fix: size not to be used on decoding without input
 (overflow in the long-term filter)

---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index f292c8c..17a2473 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -765,7 +765,7 @@ LC3_EXPORT int lc3_decode(struct lc3_decoder *decoder,
 
     int ret = !in || (decode(decoder, in, nbytes, &side) < 0);
 
-    synthesize(decoder, ret ? NULL : &side, nbytes);
+    synthesize(decoder, ret ? NULL : &side, in ? nbytes : 0);
 
     store[fmt](decoder, pcm, stride);
 
-- 
2.43.0


From 60c4f27f9d886da1579f7693685dd950afc481ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:33 +0000
Subject: [PATCH 11/16] fix: wave: skip the extension of the format chunk
 forward

The offset had the wrong sign: an 18 bytes format chunk moved back in
the file, and the file was rejected.
---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..35094a6 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -112,7 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    fseek(fp, 8 + (long)format.size - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
-- 
2.43.0


From f5a39cee80de74cec534e991746f8bac6cc1f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:33 +0000
Subject: [PATCH 12/16] fix: lc3bin: signed shift overflow on the count of
 samples of a header

---
 tools/lc3bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 97ae82b..79602c1 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -61,7 +61,7 @@ int lc3bin_read_header(FILE *fp,
     *nchannels = hdr.channels;
     *frame_us = hdr.frame_10us * 10;
     *srate_hz = hdr.srate_100hz * 100;
-    *nsamples = hdr.nsamples_low | (hdr.nsamples_high << 16);
+    *nsamples = hdr.nsamples_low | ((uint32_t)hdr.nsamples_high << 16);
     *hrmode = hdr_hrmode != 0;
 
     if (hdr.epmode)
-- 
2.43.0


From 2a0474db38dd202c867a70361aa23a9c371625cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:20:31 +0000
Subject: [PATCH 13/16] fix: wave: skip the pad byte of the chunks of odd size

RIFF chunks are aligned on 2 bytes: the chunks that follow one of odd
size, as text chunks often are, were not found and the file rejected.
---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 35094a6..95cb476 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -115,7 +115,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
     fseek(fp, 8 + (long)format.size - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, data.size, SEEK_CUR) );
+          ; fseek(fp, (long)data.size + (data.size & 1), SEEK_CUR) );
 
     if (feof(fp))
       return -1;
-- 
2.43.0


From e816099011faf6963fc37f8d3e1c900bf9b09927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:20:31 +0000
Subject: [PATCH 14/16] fix: wave: signed overflow on the size of a file over 2
 GB

---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 95cb476..03f77ee 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -150,7 +150,7 @@ void wave_write_header(FILE *fp, int bitdepth, int samplesize,
         struct wave_data data;
     } header;
 
-    long data_size = nchannels * nframes * samplesize;
+    long data_size = (long)nchannels * nframes * samplesize;
     long file_size = sizeof(header) + data_size;
 
     header.file = (struct wave_file){
-- 
2.43.0


From c2c86642ba60d4ce69470ac5cca404d68654dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:33:16 +0000
Subject: [PATCH 15/16] fix: decode to 32 bits words in the format of 32 bits
 words (C++ wrapper)

Decoder::Decode(const uint8_t *, int, int32_t *) selected the packed 3 bytes
format: with the stride of 32 bits words, samples were written at the wrong
places, 3 bytes each.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From b989f2f909a1f11b8f0a0823b01af7b08a7a196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:38:43 +0000
Subject: [PATCH 16/16] fix: pad short floating point input of the Python
 encoder

The padding was deduced from the number of samples of one channel, and not
from the length of the input: a short input raised ValueError.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..8b46a47 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -345,7 +345,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0

