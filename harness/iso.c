/* Independence between streams and between threads: with everything real, decoding stream A first must not change what the
 * library computes for stream B (from the same models), on the same thread or on another one. */
#include "common.h"
#include "tables.h"
#include "ref.h"
void mbe_setThreadRngSeed(unsigned);
static void model(mbe_parms* p, int L, float w0, int k) {
    havoc_parms(p, 1, 56); p->L = L; p->w0 = w0; p->repeat = p->repeatCount = k % 5; p->mutingThreshold = k % 3 ? 0.096f : 0.0875f;
    p->noiseSeed = k % 4 == 0 ? -1.0f : (float)__ai_int("seed", 0, 53124); for (int i = 0; i < 96; i++) p->noiseOverlap[i] = __ai_float("ov", 0.0f, 53124.0f);
    p->errorRate = 0.0f; /* concrete smoothing regime */
}
typedef struct { mbe_parms s[3]; float out[160]; char es[80]; int rc; } stream;
static void init(stream* x, int k) { static const signed char L[4] = {56, 15, 30, 9}; for (int i = 0; i < 3; i++) model(&x->s[i], L[(k + i) & 3], 2.95f / (float)(L[(k + i) & 3] + 1), k + i); memset(x->es, 0, sizeof x->es); for (int i = 0; i < 160; i++) x->out[i] = 0; }
static void frame(stream* x, int codec, int b0, int e, const char* bits) {
    char d[88]; int errs = 0; memcpy(d, bits, sizeof d);
    if (codec < 2 && b0 >= 120) for (int i = 0; i < 88; i++) d[i] = (char)((i * 7 + b0 * 3 + e + (i >> 2)) & 1); /* tone codings: what they are rendered as must be known */
    if (codec == 0 && b0 >= 126) { d[4] = d[5] = 1; for (int i = 45; i < 49; i++) d[i] = 0; for (int i = 12; i < 20; i++) d[i] = (b0 == 126 ? 0x05 : 0xf0) >> (19 - i) & 1; } /* a tone that exists, and one that does not (the voice model is rendered again) */
    if (codec == 0) { d[0]=b0>>6&1; d[1]=b0>>5&1; d[2]=b0>>4&1; d[3]=b0>>3&1; d[37]=b0>>2&1; d[38]=b0>>1&1; d[39]=b0&1; mbe_processAmbe2450Dataf(x->out, &errs, &e, x->es, d, &x->s[0], &x->s[1], &x->s[2], 3); }
    else if (codec == 1) { d[0]=b0>>6&1; d[1]=b0>>5&1; d[2]=b0>>4&1; d[3]=b0>>3&1; d[4]=b0>>2&1; d[5]=b0>>1&1; d[48]=b0&1; mbe_processAmbe2400Dataf(x->out, &errs, &e, x->es, d, &x->s[0], &x->s[1], &x->s[2], 3); }
    else { for (int i = 0; i < 6; i++) d[i] = b0 >> (7 - i) & 1; d[85] = b0 >> 1 & 1; d[86] = b0 & 1; mbe_processImbe4400Dataf(x->out, &errs, &e, x->es, d, &x->s[0], &x->s[1], &x->s[2], 3); }
}
static const unsigned char B[3][5] = {{3, 127, 119, 121, 126}, {3, 60, 119, 124, 126}, {3, 100, 207, 216, 150}};
#ifndef THREAD
#define THREAD 0
#endif
#ifndef PL
#define PL 1
#endif
#define NX 15
/* two frames of a stream; what each gives is kept */
typedef struct { stream x, mid; float direct[160]; mbe_parms dm[2]; } result;
static void two(result* r, int cb, int k, int v, int direct, const char* d3, const char* d4) {
    mbe_setThreadRngSeed(99);
    if (direct == 1) mbe_synthesizeSpeechf(r->direct, &r->x.s[0], &r->x.s[2], 3);
    if (direct == 2) mbe_applyAdaptiveSmoothing(&r->x.s[0], &r->x.s[2]);
    if (direct) { r->dm[0] = r->x.s[0]; r->dm[1] = r->x.s[2]; }
    frame(&r->x, cb, B[cb][(k * 2 + 1 + v) % 5], 0, d3); r->mid = r->x;
    frame(&r->x, cb, B[cb][(k + 3) % 5], k == 3 ? 12 : 0, d4);
}
int iso_parts(void) { return 45 * PL + NX; }
void iso(int p) {
    char d1[88], d2[88], d3[88], d4[88]; sym_bits(d1, 88, "d1"); sym_bits(d2, 88, "d2"); sym_bits(d3, 88, "d3"); sym_bits(d4, 88, "d4");
    stream a, b0; result b, c; int thread = THREAD, ca = p % 3, cb = p / 3 % 3, k = p / 9 % 5, v = p / 45, x = p - 45 * PL, ka = x >= 0 ? 0 : (k + 1 + 2 * v) % 5, direct = x < 9 ? 0 : x % 3;
    if (x >= 0) { cb = x < 9 ? 0 : ca; k = 0; }
    init(&a, k + v); memset(&b, 0, sizeof b); init(&b0, k * 3 + v + 1); 
    if (x >= 0) for (int i = 0; i < 3; i++) { /* the last frame before is muted, or enhanced and never synthesized */
        a.s[i].errorRate = x / 3 == 0 ? 0.2f : 0.0f; a.s[i].mutingThreshold = ca == 2 ? 0.0875f : 0.096f; a.s[i].repeatCount = a.s[i].repeat = x / 3 == 2 ? 3 : 0;
        b0.s[i].repeatCount = b0.s[i].repeat = 0; b0.s[i].mutingThreshold = cb == 2 ? 0.0875f : 0.096f;
    }
    b.x = b0;
    mbe_setThreadRngSeed(7); frame(&a, ca, B[ca][(k + v) % 5], k == 2 ? 12 : 0, d1); frame(&a, ca, B[ca][ka], x / 3 == 1 && x >= 0 ? 30 : 0, d2);
    if (x >= 9) { for (int i = 1; i <= 56; i++) a.s[0].Ml[i] = __ai_float("Ma", 1.0f, 1e4f); mbe_spectralAmpEnhance(&a.s[0]); }
    if (thread) __ai_new_thread();
    two(&b, cb, k, v, direct, d3, d4);
    c = b; memset(&b, 0, sizeof b); b.x = b0; /* the same addresses again, in a library as loaded */
    __ai_new_process();
    two(&b, cb, k, v, direct, d3, d4);
    const char* m = thread ? "work done on another thread changes a stream's result" : "another stream decoded before on this thread changes a stream's result";
    for (int i = 0; i < 160; i++) { __ai_same_f(b.x.out[i], c.x.out[i], m); __ai_same_f(b.mid.out[i], c.mid.out[i], m); __ai_same_f(b.direct[i], c.direct[i], m); }
    __ai_same_mem(&b, &c, sizeof b, m);
}
/* the same stream decoded twice from the same models: where the heap places blocks and where the models lie must not matter */
int det_parts(void) { return 15 * PL; }
void det(int p) {
    char d3[88], d4[88]; sym_bits(d3, 88, "d3"); sym_bits(d4, 88, "d4"); int cb = p % 3, k = p / 3 % 5, v = p / 15; stream b, b0, c; char pad[100]; (void)pad;
    init(&b0, k * 3 + v + 1); b = b0; __ai_malloc_residue(16 * (p & 3));
    mbe_setThreadRngSeed(99); frame(&b, cb, B[cb][(k * 2 + 1 + v) % 5], 0, d3); frame(&b, cb, B[cb][(k + 3) % 5], k == 3 ? 12 : 0, d4);
    c = b; b = b0; __ai_new_process(); __ai_malloc_residue(16 * (p & 3 ^ 3) + 8 * (p & 1));
    mbe_setThreadRngSeed(99); frame(&b, cb, B[cb][(k * 2 + 1 + v) % 5], 0, d3); frame(&b, cb, B[cb][(k + 3) % 5], k == 3 ? 12 : 0, d4);
    for (int i = 0; i < 160; i++) __ai_same_f(b.out[i], c.out[i], "the placement of heap blocks changes a result");
    __ai_same_mem(&b, &c, sizeof b, "the placement of heap blocks changes a result");
}
/* once a thread has synthesized a frame, no frame of any class allocates or frees anything */
int steady_parts(void) { return 45; }
void steady(int p) {
    char d1[88], d2[88]; sym_bits(d1, 88, "d1"); sym_bits(d2, 88, "d2"); int ca = p % 3, cb = p / 3 % 3, k = p / 9; stream a, b; init(&a, k + 1); init(&b, k * 3 + 1);
    for (int i = 0; i < 3; i++) { a.s[i].repeat = a.s[i].repeatCount = 0; a.s[i].mutingThreshold = ca == 2 ? 0.0875f : 0.096f; }
    if (p & 1) mbe_setThreadRngSeed(99);
    int z = __ai_malloc_count(); frame(&a, ca, 3, 0, d1); int n = __ai_malloc_count(), live = __ai_live_heap();
    __ai_assert(z == 0 && n > 0, "memory is only allocated by the first synthesized frame of a thread"); /* else this analysis says nothing */
    frame(&b, cb, B[cb][k], 0, d2); frame(&b, cb, B[cb][(k * 2 + 1) % 5], k == 3 ? 12 : 0, d1); frame(&a, ca, B[ca][(k + 3) % 5], k == 1 ? 12 : 30, d2); frame(&a, ca, B[ca][k], 0, d2);
    mbe_setThreadRngSeed(5); mbe_synthesizeComfortNoisef(a.out); mbe_synthesizeSilencef(a.out); mbe_spectralAmpEnhance(&a.s[0]); mbe_synthesizeSpeechf(a.out, &a.s[0], &a.s[2], 3);
    for (int i = 0; i < 49; i++) d1[i] = (char)(i * 5 + p & 1); mbe_synthesizeTonef(a.out, d1, &a.s[0]); mbe_synthesizeTonefdstar(a.out, d1, &a.s[0], 40 + p);
    a.s[0].repeatCount = 6; mbe_synthesizeSpeechf(a.out, &a.s[0], &a.s[2], 3); /* a muted frame, then one that is not */
    a.s[0].repeatCount = 0; a.s[0].mutingThreshold = k & 1 ? 0.0875f : 0.096f; a.s[0].errorRate = 0.5f; mbe_synthesizeSpeechf(a.out, &a.s[0], &a.s[2], 3);
    a.s[0].errorRate = 0.0f; mbe_synthesizeSpeechf(a.out, &a.s[0], &a.s[2], 3);
    mbe_initMbeParms(&a.s[0], &a.s[1], &a.s[2]);
    __ai_assert(__ai_malloc_count() == n && __ai_live_heap() == live, "a frame allocates or frees memory although its thread has synthesized one before");
}
/* What calls leave behind outside the models never reaches a later one: after every class of call has occurred on the thread, every byte
 * of static data and heap that another round of all of them changes is forgotten, and no later call may read any of it. */
#define NC 27
static void call(stream* x, int n, int k, const char* bits) {
    short sh[160];
    if (n < 15) { frame(x, n / 5, B[n / 5][n % 5], 0, bits); return; }
    if (n < 21) { frame(x, n % 3, B[n % 3][n / 18], n < 18 ? 12 : 30, bits); return; }
    if (n == 21) { for (int i = 0; i < 3; i++) x->s[i].mutingThreshold = 0.0875f; x->s[0].errorRate = 0.4f; frame(x, 2, B[2][1], 12, bits); return; }
    if (n == 22) { mbe_synthesizeSpeechf(x->out, &x->s[0], &x->s[2], 3); return; }
    if (n == 23) { for (int i = 0; i < 160; i++) x->out[i] = __ai_float("s", -1e5f, 1e5f); mbe_floattoshort(x->out, sh); mbe_synthesizeSilencef(x->out); return; }
    if (n == 24) { char fr[8][23], d[88]; memcpy(fr, bits, 88); memset((char*)fr + 88, k & 1, sizeof fr - 88); mbe_eccImbe7200x4400C0(fr); mbe_demodulateImbe7200x4400Data(fr); mbe_eccImbe7200x4400Data(fr, d); for (int i = 0; i < 88; i++) d[i] = (char)(i % 3 == k % 3); mbe_convertImbe7100to7200(d); return; }
    if (n == 25) { char fr[4][24], d[49]; memcpy(fr, bits, 88); memset((char*)fr + 88, k & 1, 8); mbe_eccAmbe3600x2450C0(fr); mbe_demodulateAmbe3600x2450Data(fr); mbe_eccAmbe3600x2450Data(fr, d); return; }
    mbe_initMbeParms(&x->s[0], &x->s[1], &x->s[2]); mbe_synthesizeComfortNoisef(x->out);
}
static void bounded_init(stream* x, int k) {
    init(x, k);
    for (int i = 0; i < 3; i++) { for (int l = 0; l < 57; l++) { x->s[i].log2Ml[l] = __ai_float("lg", -10.0f, 10.0f); x->s[i].Ml[l] = __ai_float("Ml", 0.0f, 1e4f); } x->s[i].gamma = __ai_float("g", -5.0f, 5.0f); x->s[i].repeat = x->s[i].repeatCount = 0; } /* energies are numbers, so that what enhancement hands to smoothing is consumed */
}
int carry_parts(void) { return NC * PL; }
void carry(int p) {
    char d1[88], d2[88]; sym_bits(d1, 88, "d1"); sym_bits(d2, 88, "d2"); int b = p % NC; stream x, y;
    for (int a = 0; a < NC; a++) { bounded_init(&x, a + p / NC); call(&x, a, 0, d1); }
    mbe_setThreadRngSeed(3); __ai_mark();
    for (int a = 0; a < NC; a++) { bounded_init(&x, a + 1); call(&x, (a * 5 + p) % NC, 1, d2); }
    int n = __ai_forget_changed(); mbe_setThreadRngSeed(99); __ai_assert(n > 0, "the generator of comfort noise does not change"); /* else this analysis says nothing */
    bounded_init(&y, b + 1); call(&y, b, 2, d1); if (b < 22) call(&y, b, 3, d2);
}
