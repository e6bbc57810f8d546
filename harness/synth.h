/* Reference speech synthesis (scalar). The 256-point transform is an uninterpreted function here; fft.c decides the transform itself. */
#ifndef SYNTH_H
#define SYNTH_H
#include "ref.h"
#include "smooth.h"
#include "tables.h"
#define PI_F 3.14159265358979323846f
#define CLIP ((32767.0f * 0.95f) / 7.0f)
static float uv_window(int i) { return i < 23 || i > 233 ? 0.0f : R_Wuv[i - 23]; } /* i: 0..255, centred at 128 */
static void ref_noise_frame(float* u, mbe_parms* m) {
    for (int i = 0; i < 256; i++) u[i] = 0.0f;
    if (m->noiseSeed < 0.0f) { for (int i = 0; i < 96; i++) m->noiseOverlap[i] = 0.0f; m->noiseSeed = 3147.0f; return; }
    unsigned s = (unsigned)m->noiseSeed;
    for (int i = 0; i < 256; i++) { if (i < 96) u[i] = m->noiseOverlap[i]; else { u[i] = (float)s; s = (171u * s + 11213u) % 53125u; } }
    m->noiseSeed = (float)s; for (int i = 0; i < 96; i++) m->noiseOverlap[i] = u[160 + i];
}
static void ref_voiced(float* o, mbe_parms* c, mbe_parms* v, const float* u) {
    int nuv = 0, L = c->L, top = c->L > v->L ? c->L : v->L; float cw = c->w0, pw = v->w0;
    for (int l = 0; l <= L; l++) nuv += c->Vl[l] == 0;
    for (int l = v->L + 1; l <= top; l++) { v->Ml[l] = 0.0f; v->Vl[l] = 1; }
    for (int l = c->L + 1; l <= top; l++) { c->Ml[l] = 0.0f; c->Vl[l] = 1; }
    for (int l = 1; l <= 56; l++) {
        float ps = __builtin_fmodf(v->PSIl[l], 2.0f * PI_F); if (ps < 0.0f) ps += 2.0f * PI_F; v->PSIl[l] = ps;
        c->PSIl[l] = ps + (pw + cw) * ((float)(l * 160) / 2.0f);
        c->PHIl[l] = l <= L / 4 ? c->PSIl[l] : c->PSIl[l] + ((float)nuv * ((2.0f * PI_F / 53125.0f) * u[l] - PI_F)) / (float)L;
    }
    for (int n = 0; n < 160; n++) o[n] = 0.0f;
    for (int l = 1; l <= top; l++) {
        if (c->Vl[l] != 1 && v->Vl[l] != 1) continue;
        if (l < 8 && c->Vl[l] == 1 && v->Vl[l] == 1 && __builtin_fabsf(cw - pw) < 0.1f * cw) {
            float dp = c->PHIl[l] - v->PHIl[l] - (pw + cw) * (float)(l * 160) / 2.0f;
            float dw = (1.0f / 160.0f) * (dp - 2.0f * PI_F * __builtin_floorf((dp + PI_F) / (2.0f * PI_F)));
            for (int n = 0; n < 160; n++) {
                float th = v->PHIl[l] + (pw * (float)l + dw) * (float)n + (cw - pw) * (float)(l * n * n) / 320.0f;
                o[n] += 2.0f * (v->Ml[l] + (float)n / 160.0f * (c->Ml[l] - v->Ml[l])) * __builtin_cosf(th);
            }
            continue;
        }
        if (v->Vl[l] == 1) {
            float cd = __builtin_cosf(pw * (float)l), sd = __builtin_sinf(pw * (float)l), x = __builtin_cosf(v->PHIl[l]), y = __builtin_sinf(v->PHIl[l]);
            for (int n = 0; n < 160; n++) { o[n] += 2.0f * R_Ws[n + 160] * v->Ml[l] * x; float t = x * cd - y * sd; y = y * cd + x * sd; x = t; }
        }
        if (c->Vl[l] == 1) {
            float st = c->PHIl[l] - cw * (float)l * 160.0f, cd = __builtin_cosf(cw * (float)l), sd = __builtin_sinf(cw * (float)l), x = __builtin_cosf(st), y = __builtin_sinf(st);
            for (int n = 0; n < 160; n++) { o[n] += 2.0f * R_Ws[n] * c->Ml[l] * x; float t = x * cd - y * sd; y = y * cd + x * sd; x = t; }
        }
    }
}
static void ref_clip(float* o) { for (int n = 0; n < 160; n++) o[n] = o[n] > CLIP ? CLIP : o[n] < -CLIP ? -CLIP : o[n] != o[n] ? 0.0f : o[n]; }
static float uf_fft(const char* k, int i, const float* in) { return __ai_uf_f(k, i, in, 1024, -1e9f, 1e9f); }
static void ref_unvoiced(float* o, mbe_parms* c, const mbe_parms* v, const float* u) {
    float x[256], X[256], y[256], g[129]; float m = (256.0f / (2.0f * PI_F)) * c->w0;
    for (int i = 0; i < 256; i++) x[i] = u[i] * uv_window(i);
    for (int i = 0; i < 256; i++) X[i] = uf_fft("fft", i, x);
    for (int b = 0; b <= 128; b++) g[b] = 0.0f;
    for (int l = 1; l <= c->L; l++) {
        if (c->Vl[l]) continue;
        int a = (int)__builtin_ceilf(((float)l - 0.5f) * m), b = (int)__builtin_ceilf(((float)l + 0.5f) * m); if (b > 128) b = 128; if (b <= a) continue;
        float e = 0.0f; for (int k = a; k < b; k++) e += k == 0 ? X[0] * X[0] : X[2 * k] * X[2 * k] + X[2 * k + 1] * X[2 * k + 1];
        if (e > 1e-10f) { float s = 146.17696f * c->Ml[l] / __builtin_sqrtf(e / (float)(b - a)); for (int k = a; k < b; k++) g[k] = s; }
    }
    X[0] *= g[0]; X[1] *= g[128]; for (int k = 1; k < 128; k++) { X[2 * k] *= g[k]; X[2 * k + 1] *= g[k]; }
    for (int i = 0; i < 256; i++) y[i] = uf_fft("ifft", i, X) / 256.0f;
    for (int n = 0; n < 160; n++) {
        float wp = n > 105 ? 0.0f : R_Wuv[n + 105], wc = n < 55 ? 0.0f : R_Wuv[n - 55], d = wp * wp + wc * wc;
        float p = n < 128 ? v->previousUw[n + 128] : 0.0f, q = n >= 32 ? y[n - 32] : 0.0f;
        if (d > 1e-10f) o[n] += (wp * p + wc * q) / d;
    }
    for (int i = 0; i < 256; i++) c->previousUw[i] = y[i];
}
#endif
