/* Speech synthesis against the reference synthesizer. */
#include "synth.h"
#ifndef PL
#define PL 1
#endif
/* voicing patterns: 0..15 repeat every four harmonics, then voiced below a band, unvoiced below a band, one band different */
static int voicing(int pat, int i, int L) {
    switch (pat >> 4) {
        case 0: return (pat >> (i & 3)) & 1;
        case 1: return i <= (L * (pat & 15) + 15) / 16;
        case 2: return i > (L * (pat & 15)) / 16;
        case 3: return i != L - (pat & 15);
        default: return i == L - (pat & 15);
    }
}
static void prep(mbe_parms* m, int L, int pat) {
    havoc_parms(m, 1, 56); m->L = L;
    for (int i = 0; i < 57; i++) { m->Vl[i] = i ? voicing(pat, i, L) : 0; m->Ml[i] = __ai_float("Ml", 0.0f, 1e5f); m->PHIl[i] = __ai_float("PHI", -1e4f, 1e4f); m->PSIl[i] = __ai_float("PSI", -1e4f, 1e4f); }
    m->Vl[0] = __ai_int("V0", 0, 1);
    m->noiseSeed = (float)__ai_int("k", 0, 53124); for (int i = 0; i < 96; i++) m->noiseOverlap[i] = __ai_float("ov", 0, 53124);
    for (int i = 0; i < 256; i++) m->previousUw[i] = __ai_float("uw", -1e6f, 1e6f);
    m->errorRate = 0.0f; m->errorCountTotal = 0; m->errorCount4 = 0; m->repeatCount = 0; m->mutingThreshold = 0.096f;
    m->localEnergy = __ai_float("le", 0, 1e12f);
}
static void same(const float* o, const float* r, const mbe_parms* c, const mbe_parms* c2, const mbe_parms* v, const mbe_parms* v2) {
    for (int i = 1; i < 57; i++) { __ai_same_f(c->PSIl[i], c2->PSIl[i], "synthesis: advanced phase of a harmonic"); __ai_same_f(c->PHIl[i], c2->PHIl[i], "synthesis: output phase of a harmonic"); __ai_same_f(v->PSIl[i], v2->PSIl[i], "synthesis: wrapped phase of the previous model"); }
    __ai_same_mem(v, v2, sizeof *v, "synthesis: previous model");
    __ai_same_mem(c, c2, sizeof *c, "synthesis: current model");
    for (int i = 0; i < 160; i++) __ai_same_f(o[i], r[i], "synthesis: an output sample");
}
/* no transform plan available: harmonics, phases and noise state */
static const signed char dl[8] = {0, 3, -3, 1, -1, 9, -9, 30};
static const unsigned char cpat[4] = {0xa, 0x9, 0x5, 0x6}, ppat[4] = {0xc, 0x6, 0x3, 0xa};
static const unsigned char cvo[11] = {0xf, 0xa, 0x17, 0x0, 0x9, 0x30, 0x25, 0x5, 0x40, 0x6, 0x12}, pvo[13] = {0xc, 0xf, 0x6, 0x1a, 0x3, 0x0, 0x24, 0xa, 0x30, 0x5, 0x18, 0x9, 0x41};
int voiced_parts(void) { return 56 * PL * 3; }
void voiced(int p) {
    mbe_parms c, v, c2, v2; float o[160], r[160], u[256]; int k = p % 3, j = p / 3, L = 1 + j % 56; j = j / 56 * 3 + L; int pl = L + dl[j & 7];
    if (pl < 1 || pl > 56) pl = L;
    prep(&c, L, cvo[(p / 3 + k) % 11]); prep(&v, pl, pvo[(p / 3 + 5 * k) % 13]);
    if (k == 0) { c.w0 = __ai_float("cw", 0.1f, 0.104f); v.w0 = __ai_float("pw", 0.1f, 0.104f); }
    else if (k == 1) { c.w0 = __ai_float("cw", 0.04f, 0.1f); v.w0 = __ai_float("pw", 0.12f, 0.4f); }
    else { c.w0 = __ai_float("cw", 0.04f, 0.4f); v.w0 = __ai_float("pw", 0.0f, 0.4f); }
    c2 = c; v2 = v; __ai_malloc_fail(0);
    mbe_synthesizeSpeechf(o, &c, &v, 3);
    ref_smooth(&c2, &v2, 0, 0.0f); ref_noise_frame(u, &c2); ref_voiced(r, &c2, &v2, u); ref_clip(r);
    same(o, r, &c, &c2, &v, &v2);
}
#ifdef UNVOICED
void __stub_pffft_transform_ordered(void* s, const float* in, float* out, float* work, int dir) {
    float t[256]; (void)s; (void)work; memcpy(t, in, sizeof t);
    for (int i = 0; i < 256; i++) out[i] = uf_fft(dir == 0 ? "fft" : "ifft", i, t);
}
static float pitch(int p, int* L) {
    if (p < 120) { *L = (int)R_AmbeLtable[p]; return R_AmbeW0table[p] * (float)(2.0 * PI_D); }
    p -= 120; if (p < 208) { float w = (float)((4.0 * PI_D) / ((double)p + 39.5)); *L = (int)(0.9254 * (int)(PI_D / w + 0.25)); return w; }
    p -= 208; if (p < 126) { *L = p < 120 ? (int)R_AmbePlusLtable[p] : 14; float f = p < 120 ? __builtin_powf(2.0f, -4.311767578125f - 2.1336e-2f * ((float)p + 0.5f)) : 1.0f / 32.0f; return f * (float)(2.0 * PI_D); }
    *L = 9; return 0.0f;
}
int unvoiced_parts(void) { return 2 * (120 + 208 + 122 + 12); }
void unvoiced(int p) {
    mbe_parms c, v, c2, v2; float o[160], r[160], u[256]; int L, more = p >= 462, pl; if (more) p -= 462; float w = pitch(p < 448 ? p : p == 448 ? 454 : 448, &L);
    if (p >= 450) { static const signed char HL[12] = {56, 56, 56, 40, 31, 22, 15, 9, 8, 30, 56, 12}; L = HL[p - 450]; w = p & 1 ? 3.3f / (float)L : 3.14159274f / ((float)L + (p & 2 ? 0.0f : 0.4f)); if (p >= 460) w = p & 1 ? 0.4f : 0.35f; } /* bands beyond the Nyquist bin */
    pl = L + dl[p & 7]; if (!more || pl < 1 || pl > 56) pl = L; prep(&c, L, more ? cvo[p % 11] : p & 1 ? 0 : cpat[p & 3] & ppat[p >> 2 & 3]); prep(&v, pl, more ? pvo[p % 13] : 0); c.w0 = w; v.w0 = 0.3f * w; c.localEnergy = 100.0f;
    c2 = c; v2 = v;
    mbe_synthesizeSpeechf(o, &c, &v, 3);
    ref_smooth(&c2, &v2, 0, 0.0f); ref_noise_frame(u, &c2); ref_voiced(r, &c2, &v2, u); ref_unvoiced(r, &c2, &v2, u); ref_clip(r);
    same(o, r, &c, &c2, &v, &v2);
}
/* a failed allocation costs the unvoiced part of that frame and nothing else: no leak, and the next frame with memory is complete */
int nomem_parts(void) { return 10 * 6; }
void nomem(int p) {
    static const signed char LL[6] = {9, 15, 22, 31, 40, 56}; int k = p % 10, L = LL[p / 10]; if (k == 9) k = -2;
    mbe_parms c, v, c2, v2; float o[160], r[160], u[256];
    prep(&c, L, cpat[p & 3]); prep(&v, L, ppat[p & 3]); c.w0 = v.w0 = 2.9f / (float)L; c.localEnergy = v.localEnergy = 100.0f; for (int i = 0; i < 57; i++) c.Ml[i] = __ai_float("Ml", 0.0f, 1.0f);
    c2 = c; v2 = v; __ai_malloc_fail(k);
    mbe_synthesizeSpeechf(o, &c, &v, 3);
    int failed = k == -2 || __ai_malloc_count() > k;
    ref_smooth(&c2, &v2, 0, 0.0f); ref_noise_frame(u, &c2); ref_voiced(r, &c2, &v2, u); if (!failed) ref_unvoiced(r, &c2, &v2, u); ref_clip(r);
    same(o, r, &c, &c2, &v, &v2);
    if (failed) __ai_assert(__ai_live_heap() == 0, "a failed allocation leaks memory");
    __ai_malloc_fail(-1); int live = __ai_live_heap();
    mbe_parms d, d2; prep(&d, L, cpat[(p + 1) & 3]); d.w0 = c.w0; d.localEnergy = 100.0f; for (int i = 0; i < 57; i++) d.Ml[i] = __ai_float("Ml", 0.0f, 1.0f);
    prep(&v, L, ppat[(p + 2) & 3]); v.w0 = d.w0; d2 = d; v2 = v; mbe_synthesizeSpeechf(o, &d, &v, 3); ref_smooth(&d2, &v2, 0, 0.0f); ref_noise_frame(u, &d2); ref_voiced(r, &d2, &v2, u); ref_unvoiced(r, &d2, &v2, u); ref_clip(r);
    same(o, r, &d, &d2, &v, &v2);
    if (!failed) __ai_assert(__ai_live_heap() == live, "a frame leaks memory although the transform plan exists");
}
#endif
/* muting: too many repeats, or (IMBE thresholds only) an error rate above the model's threshold, give comfort noise and leave phases and noise state alone */
void mbe_setThreadRngSeed(unsigned);
int mute_parts(void) { return 6 * 8; }
void mute(int p) {
    static const signed char LL[8] = {1, 9, 15, 22, 31, 40, 48, 56};
    mbe_parms c, v, c2, v2; float o[160], r[160]; int k = p % 6, L = LL[p / 6]; prep(&c, L, cpat[p & 3]); prep(&v, LL[(p / 6 + 3) & 7], ppat[p & 3]); c.w0 = v.w0 = 0.2f; v.amplitudeThreshold = __ai_int("at", 0, 100000);
    c.errorCountTotal = 3; int m = 1; for (int i = 0; i < 57; i++) c.Ml[i] = __ai_float("Ml", 0.0f, 1.0f); /* too small to be smoothed */
    if (k == 0) { c.repeatCount = __ai_int("rc", 4, INT_MAX); c.mutingThreshold = 0.096f; }
    else if (k == 1) { c.repeatCount = __ai_int("rc", 4, INT_MAX); c.mutingThreshold = 0.0875f; }
    else if (k == 2) { c.repeatCount = __ai_int("rc", 0, 3); c.mutingThreshold = 0.0875f; c.errorRate = __ai_float("er", 0.08751f, 1.0f); }
    else if (k == 3) { c.repeatCount = __ai_int("rc", 0, 3); c.mutingThreshold = 0.0875f; c.errorRate = __ai_float("er", 0.0f, 0.0875f); m = 0; }
    else if (k == 4) { c.repeatCount = __ai_int("rc", 0, 3); c.mutingThreshold = 0.096f; c.errorRate = __ai_float("er", 0.0f, 1.0f); m = 0; }
    else { c.repeatCount = __ai_int("rc", 0, 3); c.mutingThreshold = __ai_float("mt", 0.01f, 0.09f); c.errorRate = __ai_float("er", 0.0901f, 1.0f); }
    c2 = c; v2 = v; __ai_malloc_fail(0); mbe_setThreadRngSeed(99);
    mbe_synthesizeSpeechf(o, &c, &v, 3); ref_smooth(&c2, &v2, 0, 0.0f);
    if (m) { mbe_setThreadRngSeed(99); mbe_synthesizeComfortNoisef(r); same(o, r, &c, &c2, &v, &v2); __ai_assert(c.errorRate == c2.errorRate, "muting: error rate"); }
    else { float s0 = c.PSIl[1]; (void)s0; float u[256]; ref_noise_frame(u, &c2); ref_voiced(r, &c2, &v2, u); ref_clip(r); same(o, r, &c, &c2, &v, &v2); }
}
