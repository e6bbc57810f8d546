From c30f5365e814fd7b7462437baf3fd837d8aa81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 1/6] fix: keep the rendered D-STAR tone instead of overwriting
 it with comfort noise

A decoded AMBE 3600x2400 single tone was synthesized and then replaced by
comfort noise plus a full state reset in the same call.
---
 src/ambe/ambe3600x2400.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..4d93d00 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -603,6 +603,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
     int i, bad;
+    int tone_rendered = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -642,8 +643,11 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
     // If we have a plausible single-frequency tone and errors are within margin
     else if ((bad >= 7) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
+        cur_mp->repeat = 0;
+        cur_mp->repeatCount = 0;
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        tone_rendered = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -671,7 +675,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_rendered) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From 9b4d2be0d7940cfa92574ca9ea3b622940450f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 2/6] fix: do not read log2Ml[57] when the previous frame has
 56 harmonics

The magnitude prediction interpolates between bands k and k+1; with L(-1)=56
the top band read one element past the array.
---
 src/ambe/ambe3600x2400.c | 4 ++--
 src/ambe/ambe3600x2450.c | 4 ++--
 src/imbe/imbe7200x4400.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 4d93d00..584fb61 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -537,7 +537,7 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -557,7 +557,7 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..9a25c2f 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -556,7 +556,7 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -576,7 +576,7 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..b8dd374 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -505,7 +505,7 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 77
         Sum77 = Sum77
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]));
     }
     Sum77 = ((rho / (float)cur_mp->L) * Sum77);
 
@@ -516,7 +516,7 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 2
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = (rho * deltal[l] * prev_mp->log2Ml[(intkl[l] < 56) ? (intkl[l] + 1) : 56]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
         cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
 #ifdef IMBE_DEBUG
-- 
2.43.0


From 6459d3396b464ca3189f2e8f363e362d0ad5441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 3/6] fix: keep amplitudes finite when the enhancement weights
 are undefined

A repeat after an AMBE erasure (w0 = 0) and loud but valid frames (Rm0^2
overflows) made every enhanced amplitude, and so the whole PCM frame, NaN.
---
 src/core/mbelib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..cad1a8a 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -372,10 +372,14 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     R2m0 = (Rm0 * Rm0);
     R2m1 = (Rm1 * Rm1);
 
+    /* The weights are undefined for a zero pitch (AMBE erasure state) and for energies whose
+     * squares leave the float range; such frames keep their amplitudes. */
+    const int weights_defined = (cur_mp->w0 > 0.0f) && (Rm0 < 4.0e18f) && (R2m0 > R2m1);
+
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
     for (l = 1; l <= L; l++) {
-        if (cur_mp->Ml[l] != 0.0f) {
+        if (weights_defined && cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
             Wl[l] = sqrtf(cur_mp->Ml[l])
                     * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-- 
2.43.0


From 5e9fffb836234d6bd54230e82c2240568af4f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 4/6] fix: map NaN samples to zero in the soft clip and the
 int16 conversion

NaN passed the soft clip, converting it to short is undefined in the scalar
path, and the SSE2 path turned it into full-scale negative output.
---
 src/core/mbelib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index cad1a8a..0b6aff3 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -522,6 +522,9 @@ mbe_clipFloatSample(float sample) {
     if (sample < -MBE_AUDIO_SOFT_CLIP_FLOAT) {
         return -MBE_AUDIO_SOFT_CLIP_FLOAT;
     }
+    if (sample != sample) {
+        return 0.0f; /* NaN passes both comparisons above */
+    }
     return sample;
 }
 
@@ -1112,6 +1115,8 @@ mbe_floattoshort_scalar(const float* restrict float_buf, short* restrict aout_bu
             fprintf(stderr, "audio clip: %f\n", audio);
 #endif
             audio = -max_amplitude;
+        } else if (audio != audio) {
+            audio = 0.0f; /* NaN has no integer value */
         }
         aout_buf[i] = (short)(audio);
     }
@@ -1130,6 +1135,9 @@ mbe_floattoshort_sse2(const float* restrict float_buf, short* restrict aout_buf)
     for (int i = 0; i < 160; i += 8) {
         __m128 a = _mm_mul_ps(_mm_loadu_ps(float_buf + i), vscale);
         __m128 b = _mm_mul_ps(_mm_loadu_ps(float_buf + i + 4), vscale);
+        /* NaN has no integer value: zero it, as the scalar path does */
+        a = _mm_and_ps(a, _mm_cmpord_ps(a, a));
+        b = _mm_and_ps(b, _mm_cmpord_ps(b, b));
         a = _mm_min_ps(_mm_max_ps(a, vminv), vmaxv);
         b = _mm_min_ps(_mm_max_ps(b, vminv), vmaxv);
         __m128i ia = _mm_cvttps_epi32(a);
@@ -1249,6 +1257,8 @@ mbe_floattoshort(const float* restrict float_buf, short* restrict aout_buf) {
             fprintf(stderr, "audio clip: %f\n", audio);
 #endif
             audio = -max_amplitude;
+        } else if (audio != audio) {
+            audio = 0.0f; /* NaN has no integer value */
         }
         aout_buf[i] = (short)(audio);
     }
-- 
2.43.0


From b825cae10cd6923a4220ea526e002d4b9348bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 5/6] fix: stop the adaptive amplitude threshold from
 overflowing int

With a steady handful of errors per frame the threshold grows every frame;
after a few hours it overflowed, and the next frame was scaled to full clip.
---
 src/core/mbe_adaptive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..feab448 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -7,6 +7,7 @@
  */
 
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include <stdint.h>
 #include <string.h>
@@ -248,6 +249,9 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (prevThreshold <= 0) {
         prevThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     }
+    if (prevThreshold > INT_MAX - MBE_AMPLITUDE_BASE) {
+        prevThreshold = INT_MAX - MBE_AMPLITUDE_BASE;
+    }
 
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
-- 
2.43.0


From fd5c7038bc8af5de1cb8e38c8c355250d3cf3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 6/6] fix: return NULL from pffft_new_setup when allocation
 fails

Both allocations were used unchecked, although the caller handles NULL.
---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..b594aa3 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1370,6 +1370,9 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     }
     PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup));
     int k, m;
+    if (!s) {
+        return 0;
+    }
     /* unfortunately, the fft size must be a multiple of 16 for complex FFTs
      and 32 for real FFTs -- a lot of stuff would need to be rewritten to
      handle other cases (or maybe just switch to a scalar fft, I don't know..) */
@@ -1385,6 +1388,10 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0

