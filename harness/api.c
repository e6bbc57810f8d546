/* Small public entry points: initialisation, copies, predicates, silence, version, 16-bit conversion, adaptive smoothing. */
#include "ref.h"
#include "smooth.h"
const char* mbe_versionString(void);
static float nxt(float x) { unsigned u; memcpy(&u, &x, 4); u++; memcpy(&x, &u, 4); return x; } /* next float above a positive x */

/* ---- state initialisation and copies (C18) ---- */
int state_parts(void) { return 4; }
void state(int p) {
    mbe_parms a, b, c, x, y, z;
    havoc_parms(&a, -100, 100); havoc_parms(&b, -100, 100); havoc_parms(&c, -100, 100); x = a; y = b; z = c;
    if (p == 0) {
        mbe_initMbeParms(&a, &b, &c); ref_init_imbe(&x, &y, &z);
        __ai_same_mem(&a, &x, sizeof a, "initMbeParms: current model"); __ai_same_mem(&b, &y, sizeof b, "initMbeParms: previous model"); __ai_same_mem(&c, &z, sizeof c, "initMbeParms: enhanced previous model");
    } else if (p == 1) {
        __ai_freeze(&a, sizeof a); mbe_moveMbeParms(&a, &b);
        __ai_same_mem(&b, &x, sizeof b, "moveMbeParms: destination is not a complete copy of the source"); __ai_same_mem(&a, &x, sizeof a, "moveMbeParms: source changed");
    } else if (p == 2) {
        __ai_freeze(&b, sizeof b); mbe_useLastMbeParms(&a, &b);
        __ai_same_mem(&a, &y, sizeof a, "useLastMbeParms: current model is not a complete copy of the previous one"); __ai_same_mem(&b, &y, sizeof b, "useLastMbeParms: previous model changed");
    } else {
        mbe_moveMbeParms(&a, &a); __ai_same_mem(&a, &x, sizeof a, "moveMbeParms: copying a model onto itself changes it");
    }
}
/* ---- quality predicates (C38) ---- */
int predicates_parts(void) { return 12; }
void predicates(int p) {
    mbe_parms m, s; havoc_parms(&m, 1, 56);
    m.errorCountTotal = __ai_int("et", INT_MIN, INT_MAX); m.repeatCount = __ai_int("rc", INT_MIN, INT_MAX);
    if (p == 0) {
        __ai_assert(mbe_requiresMuting(NULL) == 0, "requiresMuting(NULL) is not 0"); __ai_assert(mbe_isMaxFrameRepeat(NULL) == 0, "isMaxFrameRepeat(NULL) is not 0"); __ai_assert(mbe_requiresAdaptiveSmoothing(NULL) == 0, "requiresAdaptiveSmoothing(NULL) is not 0");
        return;
    }
    int r, want;
    if (p <= 2) { if (p == 1) m.repeatCount = __ai_int("rc", INT_MIN, 3); else m.repeatCount = __ai_int("rc", 4, INT_MAX); s = m; __ai_freeze(&m, sizeof m); r = mbe_isMaxFrameRepeat(&m) != 0; want = p == 2; }
    else if (p <= 6) {
        float e = nxt(0.0125f);
        if (p == 3) { m.errorRate = __ai_float("er", -INFF, 0.0125f); m.errorCountTotal = __ai_int("et", INT_MIN, 4); want = 0; }
        else if (p == 4) { m.errorRate = __ai_float("er", e, INFF); want = 1; }
        else if (p == 5) { m.errorCountTotal = __ai_int("et", 5, INT_MAX); want = 1; }
        else { m.errorRate = __builtin_nanf(""); m.errorCountTotal = __ai_int("et", INT_MIN, 4); want = 0; }
        s = m; __ai_freeze(&m, sizeof m); r = mbe_requiresAdaptiveSmoothing(&m) != 0;
    } else {
        static const float th[2] = {0.0875f, 0.096f};
        float t = th[p & 1]; m.mutingThreshold = t;
        if (p < 9) { m.errorRate = __ai_float("er", -INFF, t); want = 0; }
        else if (p < 11) { m.errorRate = __ai_float("er", nxt(t), INFF); want = 1; }
        else { m.errorRate = __builtin_nanf(""); want = 0; }
        s = m; __ai_freeze(&m, sizeof m); r = mbe_requiresMuting(&m) != 0;
    }
    __ai_assert(r == want, p <= 2 ? "isMaxFrameRepeat: wrong answer" : p <= 6 ? "requiresAdaptiveSmoothing: wrong answer" : "requiresMuting: wrong answer");
    __ai_thaw(); __ai_same_mem(&m, &s, sizeof m, "a predicate modified the model");
}
/* ---- silence (C39) ---- */
int silence_parts(void) { return 2; }
void silence(int p) {
    float f[164]; short h[164];
    for (int i = 0; i < 164; i++) { f[i] = __ai_float("stale", -9, 9); h[i] = (short)__ai_int("stale", -9, 9); }
    float f0[164]; short h0[164]; memcpy(f0, f, sizeof f); memcpy(h0, h, sizeof h);
    for (int i = 2; i < 162; i++) { f0[i] = 0.0f; h0[i] = 0; }
    if (p == 0) mbe_synthesizeSilencef(f + 2); else mbe_synthesizeSilence(h + 2);
    if (p == 0) __ai_same_mem(f, f0, sizeof f, "silence (float): not exactly 160 zero samples"); else __ai_same_mem(h, h0, sizeof h, "silence (16-bit): not exactly 160 zero samples");
}
/* ---- version (C32) ---- */
void version(void) {
    char b[40], v[40]; const char* e = VERSION_STRING; int i;
    for (i = 0; i < 40; i++) { b[i] = v[i] = (char)__ai_int("stale", -128, 127); }
    for (i = 0; e[i]; i++) v[i] = e[i]; v[i] = 0;
    const char* s = mbe_versionString(); for (i = 0; e[i] && s[i] == e[i]; i++) {} __ai_assert(!e[i] && !s[i], "versionString is not the version declared by the build");
    const char* h = MBELIB_VERSION; for (i = 0; e[i] && h[i] == e[i]; i++) {} __ai_assert(!e[i] && !h[i], "MBELIB_VERSION is not the version declared by the build");
    mbe_printVersion(b); __ai_same_mem(b, v, sizeof b, "printVersion: buffer does not hold exactly the version and its terminator");
    mbe_printVersion(NULL);
}
/* ---- float to 16-bit conversion (C23) ---- */
/* partitions: a window of lanes in each of the classes below */
int pcm_parts(void) { return 40 * 8; }
void pcm(int p) {
    float in[160]; short out[164]; int cls = p & 7, base = (p >> 3) * 4;
    const float top = 32767.0f * 0.95f; float M = top / 7.0f;
    QUIET();
    for (int i = 0; i < 164; i++) out[i] = (short)__ai_int("stale", -32768, 32767);
    short g0 = out[0], g1 = out[1], g2 = out[162], g3 = out[163];
    for (int i = 0; i < 160; i++) in[i] = __ai_float_nan("x", -INFF, INFF);
    for (int i = base; i < base + 4; i++) {
        if (cls == 0) in[i] = __ai_float("in", -4446.0f, 4446.0f);
        else if (cls == 1) in[i] = __ai_float("hi", 4447.5f, FLT_MAX);
        else if (cls == 2) in[i] = __ai_float("lo", -FLT_MAX, -4447.5f);
        else if (cls == 3) in[i] = __builtin_nanf("");
        else if (cls == 4) in[i] = INFF;
        else if (cls == 5) in[i] = -INFF;
        else if (cls == 6) in[i] = __ai_float("edge", 4446.0f, 4447.5f);
        else in[i] = __ai_float("edge", -4447.5f, -4446.0f);
    }
    (void)M;
    __ai_freeze(in, sizeof in);
    mbe_floattoshort(in, out + 2);
    for (int i = base; i < base + 4; i++) {
        int y = out[2 + i];
        if (cls == 0) { float t = in[i] * 7.0f; short s = (short)t; __ai_same_i(y, s, "conversion: an in-range sample is not truncated after the gain of 7"); }
        else if (cls == 1 || cls == 4) __ai_assert(y == 31128, "conversion: a sample above the limit does not saturate at 31128");
        else if (cls == 2 || cls == 5) __ai_assert(y == -31128, "conversion: a sample below the limit does not saturate at -31128");
        else if (cls == 3) __ai_assert(y == 0, "conversion: NaN is not converted to 0");
        else if (cls == 6) __ai_range_i(y, 31122, 31128, "conversion: sample near the upper limit");
        else __ai_range_i(y, -31128, -31122, "conversion: sample near the lower limit");
    }
    __ai_assert(out[0] == g0 && out[1] == g1 && out[162] == g2 && out[163] == g3, "conversion: writes outside the 160 output samples");
    __ai_init(out + 2, 320, "conversion: output sample not written");
}
/* ---- adaptive smoothing (C19) ---- */
static const int sm_et[8] = {0, 4, 5, 6, 7, 12, 20, 60};
int smooth_parts(void) { return 56 * 2 + 3 * 8 * 2; }
void smooth(int p) {
    mbe_parms c, v, c2; int L, k, et, e4, own = 0;
    if (p < 112) { L = 1 + p % 56; k = p % 3; et = sm_et[(p / 3 + p / 56) % 8]; e4 = p & 1; }
    else { p -= 112; L = 9 + p; k = p % 3; et = sm_et[p / 3 % 8]; e4 = p / 24; own = 0; }
    havoc_parms(&c, 1, 56); havoc_parms(&v, 1, 56); c.L = L;
    for (int i = 0; i < 57; i++) c.Ml[i] = __ai_float("Ml", 0.0f, 1e9f);
    c.errorRate = k == 0 ? __ai_float("er", 0.0f, 0.005f) : k == 1 ? __ai_float("er", nxt(0.005f), 0.0125f) : __ai_float("er", nxt(0.0125f), 1.0f);
    c.errorCountTotal = et; c.errorCount4 = e4 ? __ai_int("e4", 1, 9) : 0;
    v.localEnergy = __ai_float("le", -1.0f, 1e12f);
    c2 = c; __ai_freeze(&v, sizeof v);
    mbe_applyAdaptiveSmoothing(&c, &v);
    ref_smooth(&c2, &v, own, 0.0f);
    __ai_same_f(c.localEnergy, c2.localEnergy, "smoothing: local energy"); __ai_same_i(c.amplitudeThreshold, c2.amplitudeThreshold, "smoothing: amplitude threshold");
    __ai_same_mem(c.Vl, c2.Vl, sizeof c.Vl, "smoothing: voicing decisions"); __ai_same_mem(c.Ml, c2.Ml, sizeof c.Ml, "smoothing: spectral amplitudes");
    __ai_same_mem(&c, &c2, sizeof c, "smoothing: another field of the current model changes");
}
/* ---- diagnostic dumps (C30) ---- */
int dump_parts(void) { return 10; }
void dump(int p) {
    char d[88], f[8][23], g[7][24], d0[88], f0[8][23], g0[7][24], want[192], buf[1024]; int len = 0, n = 0, twice = p >= 5; p %= 5;
    for (int i = 0; i < 88; i++) d[i] = d0[i] = (char)__ai_bits("d", 1);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 23; j++) f[i][j] = f0[i][j] = (char)__ai_bits("f", 1);
    for (int i = 0; i < 7; i++) for (int j = 0; j < 24; j++) g[i][j] = g0[i][j] = (char)__ai_bits("g", 1);
    if (p < 3) for (; n < 88; n++) want[n] = d[n];
    else if (p == 3) { static const int w[8] = {23, 23, 23, 23, 15, 15, 15, 7}; for (int i = 0; i < 8; i++) for (int j = w[i] - 1; j >= 0; j--) want[n++] = f[i][j]; }
    else { static const int w[7] = {19, 24, 23, 23, 15, 15, 23}; for (int i = 0; i < 7; i++) for (int j = w[i] - 1; j >= 0; j--) want[n++] = g[i][j]; }
    /* what the caller has not got: bits outside the frame format are never read */
    if (p == 3) { for (int i = 4; i < 7; i++) __ai_uninit(&f[i][15], 8); __ai_uninit(&f[7][7], 16); }
    if (p == 4) { __ai_uninit(&g[0][19], 5); for (int i = 2; i < 4; i++) __ai_uninit(&g[i][23], 1); for (int i = 4; i < 6; i++) __ai_uninit(&g[i][15], 9); __ai_uninit(&g[6][23], 1); }
    __ai_freeze(d, sizeof d); __ai_freeze(f, sizeof f); __ai_freeze(g, sizeof g);
    __ai_print_log(buf, 1024, &len);
    for (int k = 0; k <= twice; k++) {
        len = 0;
        if (p == 0) mbe_dumpImbe4400Data(d);
        else if (p == 1) mbe_dumpImbe7200x4400Data(d);
        else if (p == 2) mbe_dumpImbe7100x4400Data(d);
        else if (p == 3) mbe_dumpImbe7200x4400Frame((const char(*)[23])f);
        else mbe_dumpImbe7100x4400Frame((const char(*)[24])g);
    }
    int m = 0;
    for (int i = 0; i < len; i++) {
        if (__ai_is_single(buf[i]) && (buf[i] == ' ' || buf[i] == '\n' || buf[i] == '\t')) continue; /* the layout is free */
        if (m < n) __ai_same_i(buf[i], '0' + want[m], "dump: a printed digit is not the next bit of the frame");
        m++;
    }
    __ai_assert(m == n, "dump: the number of printed digits is not the number of bits");
}
/* ---- calls that accept NULL (C21) ---- */
int nulls_parts(void) { return 8; }
void nulls(int p) {
    mbe_parms a, x; float o[160], q[160]; unsigned sd = __ai_bits("seed", 32);
    havoc_parms(&a, -100, 100); x = a;
    mbe_setThreadRngSeed(sd);
    if (p == 0) mbe_applyAdaptiveSmoothing(&a, 0);
    else if (p == 1) mbe_applyAdaptiveSmoothing(0, &a);
    else if (p == 2) mbe_applyAdaptiveSmoothing(0, 0);
    else if (p == 3) mbe_synthesizeComfortNoisef(0);
    else if (p == 4) mbe_synthesizeComfortNoise(0);
    else if (p == 5) { mbe_synthesizeSilencef(0); mbe_synthesizeSilence(0); }
    else if (p == 6) mbe_printVersion(0);
    else __ai_assert(!mbe_requiresMuting(0) && !mbe_isMaxFrameRepeat(0) && !mbe_requiresAdaptiveSmoothing(0), "null: a predicate holds without a model");
    __ai_same_mem(&a, &x, sizeof a, "null: the call with a NULL argument changes the model");
    /* the noise that follows is what it is without the call */
    mbe_synthesizeComfortNoisef(o); mbe_setThreadRngSeed(sd); mbe_synthesizeComfortNoisef(q);
    __ai_same_mem(o, q, sizeof o, "null: the call with a NULL argument changes the noise that follows");
}
