/* Safety by induction over frames: from every state in the invariant, every entry point (everything real) raises no memory or
 * arithmetic error, writes exactly one frame inside the documented range and leaves all three models in the invariant. */
#include "common.h"
#include "tables.h"
#include "ref.h"
#ifndef PL
#define PL 1
#endif
/* every (fundamental, harmonic count) pair a model can hold: the codecs' codes, the initial models and the erasure model */
#define NPITCH (120 + 208 + 126 + 5)
static float pitch(int p, int* L) {
    if (p < 120) { *L = (int)R_AmbeLtable[p]; return R_AmbeW0table[p] * (float)(2.0 * PI_D); }
    p -= 120; if (p < 208) { float w = (float)((4.0 * PI_D) / ((double)p + 39.5)); *L = (int)(0.9254 * (int)(PI_D / w + 0.25)); return w; }
    p -= 208; if (p < 126) { *L = (int)R_AmbePlusLtable[p]; return __builtin_powf(2.0f, -4.311767578125f - 2.1336e-2f * ((float)p + 0.5f)) * (float)(2.0 * PI_D); }
    p -= 126; if (p == 4) { *L = 14; return (float)(2.0 * PI_D) / 32.0f; } if (p == 0) { *L = 9; return 0.0f; } if (p < 3) { *L = 16 - p; return (float)(PI_D / 32.0 * (2.0 * PI_D)); } *L = 30; return (float)(4.0 * PI_D / 173.5);
}
static void inv_in(mbe_parms* p, int pi, int cold) {
    int L; float w0 = pitch(pi % NPITCH, &L); havoc_parms(p, 1, 56); p->L = L; p->w0 = w0; p->K = __ai_int("K", 0, 12);
    p->repeat = p->repeatCount = pi / 3 % 5; p->mutingThreshold = pi % 5 == 0 ? 0.0875f : 0.096f;
    if (cold) { p->noiseSeed = -1.0f; for (int i = 0; i < 96; i++) p->noiseOverlap[i] = 0.0f; }
    else { p->noiseSeed = (float)__ai_int("seed", 0, 53124); for (int i = 0; i < 96; i++) p->noiseOverlap[i] = __ai_float("ov", 0.0f, 53124.0f); }
}
static void in_set(const mbe_parms* p) { /* (fundamental, harmonic count) is one a model can hold */
    int w0b; memcpy(&w0b, &p->w0, 4); if (!__ai_is_single(p->L) || !__ai_is_single(w0b)) return; /* two outcomes joined (tone bits decide between repeat and erasure): each is decided in another partition */
    int ok = 0;
    for (int i = 0; i < NPITCH && !ok; i++) { int L; float w = pitch(i, &L); float e = w - p->w0; ok = e <= 1e-6f && e >= -1e-6f && L == p->L; }

    __ai_assert(ok, "invariant: a pair of fundamental and harmonic count no codec transmits");
}
static void inv_out(const mbe_parms* p) {
    in_set(p);
    __ai_init(p, sizeof *p, "a model field is left unwritten");
    __ai_range_i(p->L, 9, 56, "invariant: harmonic count"); __ai_range_i(p->K, 0, 12, "invariant: band count"); __ai_range_f(p->w0, 0.0f, 0.62f, "invariant: fundamental");
    for (int i = 0; i < 57; i++) __ai_range_i(p->Vl[i], 0, 1, "invariant: voicing");
    __ai_range_i(p->repeat, 0, 4, "invariant: repeat"); __ai_same_i(p->repeat, p->repeatCount, "invariant: repeat counters differ");
    __ai_range_f(p->noiseSeed, -1.0f, 53124.0f, "invariant: noise state"); for (int i = 0; i < 96; i++) __ai_range_f(p->noiseOverlap[i], 0.0f, 53124.0f, "invariant: noise overlap");
}
static void out_ok(const float* o) { __ai_init(o, 160 * sizeof(float), "an output sample is never written"); for (int i = 0; i < 160; i++) __ai_range_f(o[i], -32767.0f * 0.95f / 7.0f, 32767.0f * 0.95f / 7.0f, "output sample outside the documented range"); }
typedef void (*entry)(float*, const int*, const int*, char*, const char*, mbe_parms*, mbe_parms*, mbe_parms*, int);
static void run(entry f, char* d, int nd, int p, int e) {
    mbe_parms s[3]; char es[80]; float out[160]; int errs = __ai_int("errs", 0, 24), errs2 = e;
    for (int i = 0; i < 3; i++) inv_in(&s[i], p * 7 + i * 151 + (p >> 3) * 17, (p >> 2 & 3) == 0);
    __ai_uninit(es, sizeof es); __ai_uninit(out, sizeof out); __ai_freeze(d, nd);
    f(out, &errs, &errs2, es, d, &s[0], &s[1], &s[2], 3);
    out_ok(out); for (int i = 0; i < 3; i++) inv_out(&s[i]);
}
static const signed char EC[4] = {0, 3, 5, 40};
int amb2450_parts(void) { return 128 * PL; }
void amb2450(int p) {
    char d[49]; int b0 = p & 127; sym_bits(d, 49, "d");
    d[0]=b0>>6&1; d[1]=b0>>5&1; d[2]=b0>>4&1; d[3]=b0>>3&1; d[37]=b0>>2&1; d[38]=b0>>1&1; d[39]=b0&1;
    run(mbe_processAmbe2450Dataf, d, 49, p, EC[(p + (p >> 2)) & 3]);
}
int amb2400_parts(void) { return 128 * PL; }
void amb2400(int p) {
    char d[49]; int b0 = p & 127; sym_bits(d, 49, "d");
    d[0]=b0>>6&1; d[1]=b0>>5&1; d[2]=b0>>4&1; d[3]=b0>>3&1; d[4]=b0>>2&1; d[5]=b0>>1&1; d[48]=b0&1;
    run(mbe_processAmbe2400Dataf, d, 49, p, EC[(p + (p >> 2)) & 3]);
}
int imbe_parts(void) { return 256 * PL; }
void imbe(int p) {
    char d[88]; int b0 = p & 255; sym_bits(d, 88, "d");
    for (int i = 0; i < 6; i++) d[i] = b0 >> (7 - i) & 1; d[85] = b0 >> 1 & 1; d[86] = b0 & 1;
    run(mbe_processImbe4400Dataf, d, 88, p, EC[(p + (p >> 2)) & 3]);
}

/* error correction and descrambling of arbitrary frame bits: bits out, counts bounded, no error */
static void bits_ok(const char* d, int n) { __ai_init(d, n, "a parameter bit is never written"); for (int i = 0; i < n; i++) __ai_range_i(d[i], 0, 1, "a parameter bit is not a bit"); }
int frames_parts(void) { return 4; }
void frames(int p) {
    char d[88]; __ai_uninit(d, sizeof d);
    if (p < 2) {
        char a[4][24]; sym_bits(&a[0][0], 96, "f"); int c0, e;
        if (p == 0) { c0 = mbe_eccAmbe3600x2450C0(a); mbe_demodulateAmbe3600x2450Data(a); e = mbe_eccAmbe3600x2450Data(a, d); }
        else { c0 = mbe_eccAmbe3600x2400C0(a); mbe_demodulateAmbe3600x2400Data(a); e = mbe_eccAmbe3600x2400Data(a, d); }
        bits_ok(d, 49); __ai_range_i(c0, 0, 12, "errors of the first block"); __ai_range_i(e, 0, 12, "errors of the other blocks"); bits_ok(&a[0][0], 96);
    } else if (p == 2) {
        char a[8][23]; sym_bits(&a[0][0], 184, "f"); int c0 = mbe_eccImbe7200x4400C0(a); mbe_demodulateImbe7200x4400Data(a); int e = mbe_eccImbe7200x4400Data(a, d);
        bits_ok(d, 88); __ai_range_i(c0, 0, 12, "errors of the first block"); __ai_range_i(e, 0, 48, "errors of the other blocks"); bits_ok(&a[0][0], 184);
    } else {
        char a[7][24]; sym_bits(&a[0][0], 168, "f"); int c0 = mbe_eccImbe7100x4400C0(a); mbe_demodulateImbe7100x4400Data(a); int e = mbe_eccImbe7100x4400Data(a, d);
        bits_ok(d, 88); __ai_range_i(c0, 0, 12, "errors of the first block"); __ai_range_i(e, 0, 48, "errors of the other blocks"); bits_ok(&a[0][0], 168);
    }
}
