/* Spectral amplitude enhancement against the published weights, and the hand-off of its energy to adaptive smoothing. */
#include "ref.h"
#include "smooth.h"
#define PI_F 3.14159265358979323846f
static float ref_enhance(mbe_parms* m) {
    int L = m->L; float ct[57], c1 = __builtin_cosf(m->w0), s1 = __builtin_sinf(m->w0), c = 1.0f, s = 0.0f, R0 = 0.0f, R1 = 0.0f;
    for (int l = 1; l <= L; l++) { float cn = c * c1 - s * s1, sn = s * c1 + c * s1; c = cn; s = sn; ct[l] = c; R0 += m->Ml[l] * m->Ml[l]; R1 += m->Ml[l] * m->Ml[l] * c; }
    float a = R0 * R0, b = R1 * R1; int ok = m->w0 > 0.0f && R0 < 4.0e18f && a > b;
    for (int l = 1; l <= L; l++) {
        if (!ok || m->Ml[l] == 0.0f) continue;
        float W = __builtin_sqrtf(m->Ml[l]) * __builtin_sqrtf(__builtin_sqrtf((0.96f * PI_F * ((a + b) - (2.0f * R0 * R1 * ct[l]))) / (m->w0 * R0 * (a - b))));
        if (8 * l <= L) continue;
        m->Ml[l] = W > 1.2f ? 1.2f * m->Ml[l] : W < 0.5f ? 0.5f * m->Ml[l] : W * m->Ml[l];
    }
    float sum = 0.0f; for (int l = 1; l <= L; l++) sum += m->Ml[l] * m->Ml[l];
    float g = sum == 0.0f ? 1.0f : __builtin_sqrtf(R0 / sum);
    for (int l = 1; l <= L; l++) m->Ml[l] = g * m->Ml[l];
    return R0;
}
static void model(mbe_parms* m, int L, int cls) {
    havoc_parms(m, 1, 56); m->L = L; float top = cls == 1 ? 1e12f : 1e6f;
    for (int i = 0; i < 57; i++) m->Ml[i] = __ai_float("Ml", 0.0f, top);
    m->w0 = cls == 2 ? 0.0f : __ai_float("w0", 0.04f, 0.4f);
}
/* enhancement alone: 56 harmonic counts x (ordinary, very large amplitudes, zero pitch) */
int enh_parts(void) { return 56 * 3; }
void enh(int p) {
    mbe_parms m, r; model(&m, 1 + p % 56, p / 56); r = m; mbe_spectralAmpEnhance(&m); ref_enhance(&r);
    __ai_same_mem(m.Ml, r.Ml, sizeof m.Ml, "enhancement: spectral amplitudes"); __ai_same_mem(&m, &r, sizeof m, "enhancement: another field of the model changes");
}
/* hand-off: smoothing after enhancement uses the energy before enhancement, once, and only for that model */
int handoff_parts(void) { return 56 * 3; }
void handoff(int p) {
    mbe_parms m, v, o, r, q; int L = 1 + p % 56, k = p / 56; model(&m, L, 0); havoc_parms(&v, 1, 56); v.localEnergy = __ai_float("le", -1.0f, 1e12f);
    m.errorRate = __ai_float("er", 0.0f, 0.005f); m.errorCountTotal = 0; o = m; r = m;
    mbe_spectralAmpEnhance(&m); float R0 = ref_enhance(&r); r = m; /* the amplitudes themselves are enh()'s business */
    if (k == 0) { mbe_applyAdaptiveSmoothing(&m, &v); ref_smooth(&r, &v, 1, R0); }
    else if (k == 1) { q = o; mbe_applyAdaptiveSmoothing(&o, &v); ref_smooth(&q, &v, 0, 0); __ai_same_mem(&o, &q, sizeof o, "smoothing: energy taken from another model"); mbe_applyAdaptiveSmoothing(&m, &v); ref_smooth(&r, &v, 1, R0); }
    else { mbe_applyAdaptiveSmoothing(&m, &v); ref_smooth(&r, &v, 1, R0); mbe_applyAdaptiveSmoothing(&m, &v); ref_smooth(&r, &v, 0, 0); }
    __ai_same_f(m.localEnergy, r.localEnergy, "smoothing: local energy does not come from the amplitudes before enhancement"); __ai_same_mem(&m, &r, sizeof m, "smoothing after enhancement");
}
