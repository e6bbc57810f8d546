/* The 256-point real transform used by unvoiced synthesis, as a linear map on symbolic inputs. */
#include "ai.h"
#include <math.h>
#include "pffft.h"
#define TP 6.28318530717958647692
static double cs(int k) { return __builtin_cos(TP * (double)(k & 255) / 256.0); }
static double sn(int k) { return __builtin_sin(TP * (double)(k & 255) / 256.0); }
int fft_parts(void) { return 16; }
void fft(int p) {
    int dir = p & 1, w = p >> 1;
    PFFFT_Setup* s = pffft_new_setup(256, PFFFT_REAL); __ai_assert(s != 0, "transform: no setup for 256 points"); if (!s) return;
    float* in = pffft_aligned_malloc(1024); float* out = pffft_aligned_malloc(1024); float* work = pffft_aligned_malloc(1024); float ref[256];
    if (!in || !out || !work) return;
    for (int i = 0; i < 256; i++) in[i] = __ai_float("x", -1e6f, 1e6f);
    __ai_uninit(out, 1024); __ai_uninit(work, 1024); __ai_freeze(in, 1024);
    pffft_transform_ordered(s, in, out, work, dir ? PFFFT_BACKWARD : PFFFT_FORWARD);
    for (int i = w * 32; i < w * 32 + 32; i++) {
        double r = 0;
        if (!dir) { int k = i == 0 ? 0 : i == 1 ? 128 : i / 2, im = i > 1 && (i & 1); for (int n = 0; n < 256; n++) r += (im ? -sn(k * n) : cs(k * n)) * in[n]; }
        else { r = in[0] + in[1] * cs(128 * i); for (int k = 1; k < 128; k++) r += 2.0 * (in[2 * k] * cs(k * i) - in[2 * k + 1] * sn(k * i)); }
        __ai_same_lin(out[i], (float)r, dir ? 2e-6f : 1e-6f, dir ? "transform: an output of the inverse is not the inverse DFT" : "transform: an output bin is not the DFT");
    }
    pffft_destroy_setup(s);
}
