/* The seeded generators: comfort noise and the unvoiced-noise sequence carried in the model. */
#include "ref.h"
#include <stdint.h>
void mbe_setThreadRngSeed(uint32_t seed);
static uint64_t st; static const uint64_t MASK48 = ((uint64_t)1 << 48) - 1;
static void ref_comfort(float* o) { for (int i = 0; i < 160; i++) { st = (st * 0x5DEECE66DULL + 0xB) & MASK48; o[i] = ((float)(uint32_t)(st >> 24) / 16777216.0f * 2.0f - 1.0f) * ((0.003f * 32767.0f) / 7.0f); } }
int comfort_parts(void) { return 4; }
void comfort(int p) {
    float o[164], r[160];
    st = (0x12345678ULL ^ 0x5DEECE66DULL) & MASK48;
    if (p == 1) { mbe_setThreadRngSeed(0); st = (0x6d25357bULL ^ 0x5DEECE66DULL) & MASK48; }
    if (p >= 2) { uint32_t s = __ai_bits("seed", 32); if (p == 2) s |= 1; else s = s << 1 | 0x80000000u; mbe_setThreadRngSeed(s); st = ((uint64_t)s ^ 0x5DEECE66DULL) & MASK48; }
    for (int k = 0; k < 2; k++) {
        for (int i = 0; i < 164; i++) o[i] = __ai_float("stale", -9, 9);
        float g0 = o[0], g1 = o[1], g2 = o[162], g3 = o[163];
        mbe_synthesizeComfortNoisef(o + 2); ref_comfort(r);
        for (int i = 0; i < 160; i++) { __ai_same_f(o[i + 2], r[i], p == 0 ? "comfort noise: unseeded sequence differs from the published generator" : "comfort noise: seeded sequence differs from the published generator"); __ai_range_f(o[i + 2], -14.05f, 14.05f, "comfort noise: amplitude above 0.3% of full scale"); }
        __ai_assert(o[0] == g0 && o[1] == g1 && o[162] == g2 && o[163] == g3, "comfort noise: writes outside the 160 samples");
    }
}
/* reference for one frame of the unvoiced noise carried in the model */
static int ov; static unsigned ovs;
static void ref_noise(mbe_parms* m) {
    if (m->noiseSeed < 0.0f) { for (int i = 0; i < 96; i++) m->noiseOverlap[i] = 0.0f; m->noiseSeed = ov ? (float)ovs : 3147.0f; ov = 0; return; }
    unsigned s = (unsigned)m->noiseSeed;
    for (int i = 96; i < 256; i++) { if (i >= 160) m->noiseOverlap[i - 160] = (float)s; s = (171u * s + 11213u) % 53125u; }
    m->noiseSeed = (float)s;
}
static void cmp(const mbe_parms* a, const mbe_parms* b, const char* m) { __ai_same_f(a->noiseSeed, b->noiseSeed, m); for (int i = 0; i < 96; i++) __ai_same_f(a->noiseOverlap[i], b->noiseOverlap[i], m); }
int unvoiced_parts(void) { return 5; }
void unvoiced(int p) {
    mbe_parms c, v, r; float o[160];
    havoc_parms(&c, 9, 9); havoc_parms(&v, 9, 9); c.L = v.L = 9; c.repeatCount = 0; c.errorRate = 0.0f; c.errorCountTotal = 0; c.mutingThreshold = 0.096f;
    for (int i = 0; i < 57; i++) { c.Vl[i] = v.Vl[i] = 1; c.Ml[i] = __ai_float("Ml", 0, 1000); v.Ml[i] = __ai_float("Ml", 0, 1000); c.PSIl[i] = v.PSIl[i] = c.PHIl[i] = v.PHIl[i] = 0.5f; }
    c.w0 = v.w0 = 0.25f; c.localEnergy = v.localEnergy = 100.0f; v.amplitudeThreshold = 20480; for (int i = 0; i < 256; i++) v.previousUw[i] = 0.0f;
    ov = 0; __ai_malloc_fail(0);
    if (p == 1) { mbe_setThreadRngSeed(0); ov = 1; ovs = 0x6d25357bu % 53125u; }
    if (p == 2) { unsigned s = __ai_bits("seed", 32) | 1u; mbe_setThreadRngSeed(s); ov = 1; ovs = s % 53125u; }
    if (p < 3) { c.noiseSeed = -1.0f; for (int i = 0; i < 96; i++) c.noiseOverlap[i] = __ai_float("ov", 0, 53125); }
    else { unsigned k = (unsigned)__ai_int("k", 0, 53124); c.noiseSeed = (float)k; for (int i = 0; i < 96; i++) c.noiseOverlap[i] = __ai_float("ov", 0, 53125); }
    r = c;
    mbe_synthesizeSpeechf(o, &c, &v, 3); ref_noise(&r); cmp(&c, &r, p < 3 ? "unvoiced noise: cold start" : "unvoiced noise: sequence differs from the published generator");
    if (p == 4) return;
    v = c; mbe_synthesizeSpeechf(o, &c, &v, 3); ref_noise(&r); cmp(&c, &r, "unvoiced noise: the following frame does not continue the sequence");
    if (p < 3) { c.noiseSeed = r.noiseSeed = -1.0f; v = c; mbe_synthesizeSpeechf(o, &c, &v, 3); ref_noise(&r); cmp(&c, &r, "unvoiced noise: a later stream does not start from the default seed"); }
}
