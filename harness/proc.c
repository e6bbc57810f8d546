/* The frame state machine: every processing entry against a reference orchestration. The sound generators are replaced,
 * on both sides, by uninterpreted functions of exactly the state they read, so equal outputs mean equal calls in equal order. */
#include "ref.h"
#include "codes.h"

/* ---------------- uninterpreted components ---------------- */
static int W;                 /* state of the thread's noise generator */
static const mbe_parms* Hown; /* model whose pre-enhancement energy is pending */
static int Hval;
typedef struct { float w0; int L; float Ml[57]; } enh_in;
void __stub_mbe_spectralAmpEnhance(mbe_parms* p) {
    enh_in e; e.w0 = p->w0; e.L = p->L; for (int i = 0; i < 57; i++) e.Ml[i] = p->Ml[i];
    for (int i = 0; i < 57; i++) p->Ml[i] = __ai_uf_f("enhanced", i, &e, sizeof e, 0.0f, 1e20f);
    Hown = p; Hval = __ai_uf_i("rm0", 0, &e, sizeof e, 0, 1 << 20);
}
typedef struct { float w0; int L; int Vl[57]; float Ml[57], PHIl[57], PSIl[57]; float err; int errs, errs4, rep; float mute, seed, ov[96], uw[256], pw0; int pL, pVl[57]; float pMl[57], pPHI[57], pPSI[57], pLE; int pAT; float puw[256]; int h, w, uvq; } syn_in;
void __stub_mbe_synthesizeSpeechf(float* out, mbe_parms* c, mbe_parms* p, int uvq) {
    syn_in s; (void)uvq; s.uvq = 0;
    s.w0 = c->w0; s.L = c->L; s.err = c->errorRate; s.errs = c->errorCountTotal; s.errs4 = c->errorCount4; s.rep = c->repeatCount; s.mute = c->mutingThreshold; s.seed = c->noiseSeed; s.pw0 = p->w0; s.pL = p->L; s.pLE = p->localEnergy; s.pAT = p->amplitudeThreshold;
    for (int i = 0; i < 57; i++) { s.Vl[i] = c->Vl[i]; s.Ml[i] = c->Ml[i]; s.PHIl[i] = c->PHIl[i]; s.PSIl[i] = c->PSIl[i]; s.pVl[i] = p->Vl[i]; s.pMl[i] = p->Ml[i]; s.pPHI[i] = p->PHIl[i]; s.pPSI[i] = p->PSIl[i]; }
    for (int i = 0; i < 96; i++) s.ov[i] = c->noiseOverlap[i];
    for (int i = 0; i < 256; i++) { s.uw[i] = c->previousUw[i]; s.puw[i] = p->previousUw[i]; }
    if (Hown == c) { s.h = Hval; Hown = 0; } else s.h = -1;
    s.w = W;
    for (int i = 0; i < 160; i++) out[i] = __ai_uf_f("speech", i, &s, sizeof s, -4446.0f, 4446.0f);
    for (int i = 0; i < 57; i++) {
        c->Vl[i] = __ai_uf_i("s.Vl", i, &s, sizeof s, 0, 1); c->Ml[i] = __ai_uf_f("s.Ml", i, &s, sizeof s, 0.0f, 1e20f);
        c->PHIl[i] = __ai_uf_f("s.PHI", i, &s, sizeof s, -1e20f, 1e20f); c->PSIl[i] = __ai_uf_f("s.PSI", i, &s, sizeof s, -1e20f, 1e20f);
        p->Vl[i] = __ai_uf_i("s.pVl", i, &s, sizeof s, 0, 1); p->Ml[i] = __ai_uf_f("s.pMl", i, &s, sizeof s, 0.0f, 1e20f); p->PSIl[i] = __ai_uf_f("s.pPSI", i, &s, sizeof s, -1e20f, 1e20f);
    }
    c->localEnergy = __ai_uf_f("s.LE", 0, &s, sizeof s, 10000.0f, 1e20f); c->amplitudeThreshold = __ai_uf_i("s.AT", 0, &s, sizeof s, -100000, INT_MAX);
    c->noiseSeed = __ai_uf_f("s.seed", 0, &s, sizeof s, 0.0f, 53124.0f);
    for (int i = 0; i < 96; i++) c->noiseOverlap[i] = __ai_uf_f("s.ov", i, &s, sizeof s, 0.0f, 53124.0f);
    for (int i = 0; i < 256; i++) c->previousUw[i] = __ai_uf_f("s.uw", i, &s, sizeof s, -1e20f, 1e20f);
    W = __ai_uf_i("s.W", 0, &s, sizeof s, 0, 1 << 20);
}
void __stub_mbe_synthesizeComfortNoisef(float* out) {
    for (int i = 0; i < 160; i++) out[i] = __ai_uf_f("noise", i, &W, sizeof W, -14.1f, 14.1f);
    W = __ai_uf_i("n.W", 0, &W, sizeof W, 0, 1 << 20);
}
typedef struct { char d[52]; int id, a, b; } tone_in;
static void tone(const char* k, float* out, const char* d, mbe_parms* c, int id) {
    tone_in t; for (int i = 0; i < 52; i++) t.d[i] = d && i < 49 ? d[i] : 0; t.id = id; t.a = c->swn; t.b = c->un;
    for (int i = 0; i < 160; i++) out[i] = __ai_uf_f("tone", i, &t, sizeof t, -4446.0f, 4446.0f);
    c->swn = __ai_uf_i("tone.p1", 0, &t, sizeof t, INT_MIN, INT_MAX); c->un = __ai_uf_i("tone.p2", 0, &t, sizeof t, INT_MIN, INT_MAX);
    (void)k;
}
void __stub_mbe_synthesizeTonef(float* out, const char* d, mbe_parms* c) { tone("t", out, d, c, 0); }
void __stub_mbe_synthesizeTonefdstar(float* out, const char* d, mbe_parms* c, int id) { (void)d; tone("d", out, 0, c, id); }
void __stub_mbe_floattoshort(const float* f, short* s) { for (int i = 0; i < 160; i++) s[i] = (short)__ai_uf_i("pcm", 0, &f[i], sizeof(float), -32760, 32760); }

/* ---------------- reference orchestrations ---------------- */
static void marks(char* es, int errs2, const char* tail) { int n = 0; for (int i = 0; i < errs2; i++) es[n++] = '='; for (int i = 0; tail[i]; i++) es[n++] = tail[i]; es[n] = 0; }
static int b0_2450(const char* d) { return d[0] << 6 | d[1] << 5 | d[2] << 4 | d[3] << 3 | d[37] << 2 | d[38] << 1 | d[39]; }
/* code: class of the frame (concrete in every partition) */
enum { VOICE, ERASE, TONE_OK, TONE_BAD };
static void voice_step(float* out, char* es, int errs2, int rep, mbe_parms* cur, mbe_parms* prev, mbe_parms* enh) {
    if (rep) { *cur = *prev; cur->repeat++; cur->repeatCount++; } else { cur->repeat = 0; cur->repeatCount = 0; }
    if (cur->repeat <= 3) {
        marks(es, errs2, rep ? "R" : "");
        *prev = *cur; __stub_mbe_spectralAmpEnhance(cur); __stub_mbe_synthesizeSpeechf(out, cur, enh, 0); *enh = *cur;
    } else { marks(es, errs2, rep ? "RM" : "M"); __stub_mbe_synthesizeComfortNoisef(out); ref_init_ambe(cur, prev, enh); }
}
static void erase_step(float* out, char* es, int errs2, mbe_parms* cur, mbe_parms* prev, mbe_parms* enh) {
    marks(es, errs2, "E"); cur->repeat = 0; cur->repeatCount = 0; ref_erasure(cur, prev); __stub_mbe_synthesizeComfortNoisef(out); *prev = *cur; *enh = *cur;
}
static void ambe_head(int errs2, mbe_parms* cur, mbe_parms* prev, mbe_parms* enh) {
    if (__builtin_fabsf(prev->mutingThreshold - 0.096f) > 1e-6f) ref_init_ambe(cur, prev, enh);
    cur->mutingThreshold = 0.096f; cur->errorCountTotal = errs2; cur->errorCount4 = 0; cur->errorRate = 0.95f * prev->errorRate + 0.001064f * (float)errs2;
}
static void ref_2450(float* out, int errs2, char* es, const char* d, mbe_parms* cur, mbe_parms* prev, mbe_parms* enh, int rep, int cls) {
    ambe_head(errs2, cur, prev, enh);
    char dd[49]; for (int i = 0; i < 49; i++) dd[i] = d[i];
    if (cls == VOICE && b0_2450(d) >= 124) { dd[48] = 1; dd[20] = 0; dd[12] = 1; } /* same pitch index, certainly not a tone: the model of a repeated frame is discarded anyway */
    if (cls == VOICE && !(b0_2450(d) >= 124 && rep)) for (int i = 0; i < 49; i++) dd[i] = d[i];
    int code = mbe_decodeAmbe2450Parms(dd, cur, prev);
    if (cls == VOICE) { __ai_assert(code == 0, "AMBE 2450: a voice frame is classified as something else"); voice_step(out, es, errs2, rep, cur, prev, enh); }
    else if (cls == ERASE) erase_step(out, es, errs2, cur, prev, enh);
    else {
        marks(es, errs2, "T"); cur->repeat = 0; cur->repeatCount = 0;
        if (cls == TONE_OK) __stub_mbe_synthesizeTonef(out, d, cur);
        else if (prev->repeatCount < 4) { mbe_parms m = *enh; __stub_mbe_synthesizeSpeechf(out, &m, enh, 0); *enh = m; }
        else { __stub_mbe_synthesizeComfortNoisef(out); ref_init_ambe(cur, prev, enh); }
    }
}
static void ref_2400(float* out, int errs, int errs2, char* es, const char* d, mbe_parms* cur, mbe_parms* prev, mbe_parms* enh) {
    ambe_head(errs2, cur, prev, enh);
    int code = mbe_decodeAmbe2400Parms(d, cur, prev);
    if (code == 0) { voice_step(out, es, errs2, errs2 > 3, cur, prev, enh); return; }
    if (code == 2) { erase_step(out, es, errs2, cur, prev, enh); return; }
    if (code == 3) { marks(es, errs2, "T"); __stub_mbe_synthesizeComfortNoisef(out); ref_init_ambe(cur, prev, enh); return; }
    if (code >= 7 && code <= 122 && errs < 2 && errs2 < 3) {
        marks(es, errs2, ""); cur->repeat = 0; cur->repeatCount = 0; __stub_mbe_synthesizeTonefdstar(out, d, cur, code); *prev = *cur; return;
    }
    marks(es, errs2, errs2 > 3 ? "R" : ""); __stub_mbe_synthesizeComfortNoisef(out); ref_init_ambe(cur, prev, enh);
}
static void ref_imbe(float* out, int errs2, char* es, const char* d, mbe_parms* cur, mbe_parms* prev, mbe_parms* enh, int c0, int errs4) {
    cur->mutingThreshold = 0.0875f; cur->errorCountTotal = errs2; cur->errorCount4 = errs4; cur->errorRate = 0.95f * prev->errorRate + 0.000365f * (float)errs2;
    int bad = mbe_decodeImbe4400Parms(d, cur, prev), rep;
    if (bad) rep = 1; else if (c0 >= 0) rep = c0 >= 2 && (float)errs2 >= 10.0f + 40.0f * cur->errorRate; else rep = errs2 > 5;
    if (rep) {
        if (prev->repeatCount >= 4) {
            float w0 = (float)((4.0 * PI_D) / (134.0 + 39.5));
            cur->swn = 0; cur->un = 0; cur->w0 = w0; cur->L = (int)(0.9254 * (int)((PI_D / w0) + 0.25)); cur->K = 12; cur->gamma = 0.0f;
            for (int l = 0; l < 57; l++) { cur->Vl[l] = 0; cur->Ml[l] = 1.0f; cur->log2Ml[l] = 0.0f; }
            cur->repeat = 0; cur->repeatCount = 0; cur->localEnergy = 75000.0f; cur->amplitudeThreshold = 20480; cur->mutingThreshold = 0.0875f;
        } else { *cur = *prev; cur->repeat++; cur->repeatCount++; }
    } else { cur->repeat = 0; cur->repeatCount = 0; }
    int mute = cur->repeatCount >= 4 || cur->errorRate > cur->mutingThreshold;
    if (rep) { if (mute) marks(es, errs2, "RM"); else marks(es, errs2, "R"); } else { if (mute) marks(es, errs2, "M"); else marks(es, errs2, ""); }
    *prev = *cur; __stub_mbe_spectralAmpEnhance(cur); __stub_mbe_synthesizeSpeechf(out, cur, enh, 0); *enh = *cur;
}

/* ---------------- frame classes, so that one property can be decided on the frames it speaks about ---------------- */
#ifndef SEL
#define SEL 0
#endif
enum { S_ALL, S_GOOD, S_REPEAT, S_ERASE, S_TONE };
static int skip(int voice, int erase, int tone, int mayrep, int mustrep) {
    if (SEL == S_GOOD) return !voice || mustrep;
    if (SEL == S_REPEAT) return !voice || !mayrep;
    if (SEL == S_ERASE) return !erase;
    if (SEL == S_TONE) return !tone;
    return 0;
}
/* ---------------- comparison frame ---------------- */
typedef struct { mbe_parms cur, prev, enh; float out[160]; short pcm[160]; char es[72]; int W; } world;
static world A, B;
static void setup(int cap) {
    havoc_parms(&A.cur, 1, 56); havoc_parms(&A.prev, 1, 56); havoc_parms(&A.enh, 1, 56);
    for (int i = 0; i < 72; i++) A.es[i] = (char)__ai_int("es", -128, 127);
    A.W = __ai_int("W", 0, 1 << 20); W = A.W; Hown = 0;
    for (int i = 0; i < 160; i++) { A.out[i] = __ai_float("stale", -1e6f, 1e6f); A.pcm[i] = (short)__ai_int("stale", -32768, 32767); }
    B = A; (void)cap;
}
static void between(void) { A.W = W; W = B.W; Hown = 0; }
#define CMP_STATE(who) do { B.W = W; \
    __ai_nodep(A.out, sizeof A.out, "uvq", who ": samples depend on the ignored quality argument"); __ai_nodep(A.pcm, sizeof A.pcm, "uvq", who ": 16-bit samples depend on the ignored quality argument"); \
    __ai_nodep(&A.cur, 3 * sizeof A.cur, "uvq", who ": state depends on the ignored quality argument"); \
    __ai_same_f(A.cur.errorRate, B.cur.errorRate, who ": metric errorRate"); __ai_same_i(A.cur.errorCountTotal, B.cur.errorCountTotal, who ": metric errorCountTotal"); \
    __ai_same_i(A.cur.errorCount4, B.cur.errorCount4, who ": metric errorCount4"); __ai_same_f(A.cur.mutingThreshold, B.cur.mutingThreshold, who ": metric mutingThreshold"); \
    __ai_same_f(A.prev.errorRate, B.prev.errorRate, who ": metric errorRate of the previous model"); __ai_same_i(A.cur.repeatCount, B.cur.repeatCount, who ": metric repeatCount"); \
    __ai_same_mem(A.out, B.out, sizeof A.out, who ": output samples are not those of the documented frame handling"); \
    __ai_same_mem(A.es, B.es, sizeof A.es, who ": status string is not the documented one"); \
    __ai_same_mem(&A.cur, &B.cur, sizeof A.cur, who ": current model after the frame"); \
    __ai_same_mem(&A.prev, &B.prev, sizeof A.prev, who ": previous model after the frame"); \
    __ai_same_mem(&A.enh, &B.enh, sizeof A.enh, who ": enhanced previous model after the frame"); \
    __ai_same_i(A.W, B.W, who ": noise generator use"); } while (0)

/* ---------------- AMBE 3600x2450 parameter entries ---------------- */
static const int sweep[] = {0, 3, 4, 5, 6, -1, 1, 2, 7, 8, 33};
#define NSW 11
static int set_b0_2450(char* d, int b0) { d[0] = b0 >> 6 & 1; d[1] = b0 >> 5 & 1; d[2] = b0 >> 4 & 1; d[3] = b0 >> 3 & 1; d[37] = b0 >> 2 & 1; d[38] = b0 >> 1 & 1; d[39] = b0 & 1; return b0; }
static int cls_2450(char* d, int b0, int kind, int id, int errs2) {
    /* kind 0: not a verified tone; kind 1..3: verified tone with the given identifier */
    set_b0_2450(d, b0);
    if (b0 >= 120) {
        if (kind == 0) { d[4] = 0; }
        else if (kind == 4) { d[4] = 1; d[5] = 1; d[48] = 1; d[12] = 1; d[20] = 0; }   /* no nibble check passes */
        else {
            d[4] = 1; d[5] = 1; for (int i = 0; i < 8; i++) d[12 + i] = id >> (7 - i) & 1;
            if (kind == 1) { d[45] = d[46] = d[47] = d[48] = 0; d[20] = 0; d[12] = id >> 7 & 1; }
            else { d[48] = 1; for (int i = 0; i < 4; i++) d[20 + i] = d[12 + i]; }
            if (errs2 < 6) return ((id >= 5 && id <= 122) || (id >= 128 && id <= 163)) ? TONE_OK : TONE_BAD;
        }
        return b0 == 124 || b0 == 125 ? VOICE : ERASE;
    }
    return VOICE;
}
/* partitions: 0..127 every pitch index, no errors and many errors; then tones; then the error-count sweep */
static int dec_2450(int p, int* b0, int* kind, int* id, int* errs2) {
    *kind = 0; *id = 0;
    if (p < 128) { *b0 = p; *errs2 = p % 3 ? 0 : 5; return 1; }
    p -= 128; if (p < 256) { *b0 = 120 + p % 8; *kind = 1 + (p & 1); *id = p; *errs2 = p % 7; return 1; }
    p -= 256; if (p < 8 * NSW) { static const int bs[8] = {17, 119, 120, 123, 124, 125, 126, 127}; *b0 = bs[p % 8]; *errs2 = sweep[p / 8]; return 1; }
    p -= 8 * NSW; if (p < 4 * NSW) { *b0 = 120 + (p & 1 ? 4 : 7); *kind = p & 2 ? 1 : 2; *id = p & 1 ? 6 : 255; *errs2 = sweep[p / 4]; return 1; }
    p -= 4 * NSW; if (p < 8) { *b0 = 120 + p; *kind = 4; *errs2 = p & 1; return 1; }
    return 0;
}
int p2450_parts(void) { return 128 + 256 + 12 * NSW + 8; }
void p2450(int p) {
    int b0, kind, id, errs2, ea = __ai_int("errs", -4, 40); char d[49];
    dec_2450(p, &b0, &kind, &id, &errs2); sym_bits(d, 49, "d");
    int cls = cls_2450(d, b0, kind, id, errs2);
    if (skip(cls == VOICE, cls == ERASE, cls >= TONE_OK, errs2 > 3, errs2 > 3)) return;
    setup(0); __ai_freeze(d, 49); __ai_freeze(&errs2, sizeof errs2); __ai_freeze(&ea, sizeof ea);
    if (p & 1) { mbe_processAmbe2450Data(A.pcm, &ea, &errs2, A.es, d, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99)); }
    else mbe_processAmbe2450Dataf(A.out, &ea, &errs2, A.es, d, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    ref_2450(B.out, errs2, B.es, d, &B.cur, &B.prev, &B.enh, errs2 > 3, cls);
    if (p & 1) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "AMBE 2450: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("AMBE 2450");
}
/* ---------------- AMBE 3600x2400 parameter entries ---------------- */
/* partitions: every pitch index; every tone code; error-count sweep */
static void bits_2400(char* d, int b0) { for (int i = 0; i < 6; i++) d[i] = (char)(b0 >> (6 - i) & 1); d[48] = (char)(b0 & 1); }
static void tone_2400(char* d, int t) { static const int pos[8] = {6, 7, 8, 9, 42, 43, 10, 11}; for (int i = 0; i < 8; i++) d[pos[i]] = (char)(t >> (7 - i) & 1); }
static int dec_2400(int p, int* b0, int* t, int* errs2) {
    *t = -1;
    if (p < 128) { *b0 = p; *errs2 = p % 3 ? 0 : 4; if (p >= 126) *t = 77; return 1; }
    p -= 128; if (p < 256) { *b0 = 126 + (p & 1); *t = p; *errs2 = p % 5; return 1; }
    p -= 256; if (p < 256) { *b0 = 126 + (p >> 1 & 1); *t = p; *errs2 = 0; return 1; }
    p -= 256; if (p < 6 * NSW) { static const int bs[6] = {5, 125, 126, 126, 127, 127}, ts[6] = {-1, -1, 0, 0x25, 0x2a, 0xff}; *b0 = bs[p % 6]; *t = ts[p % 6]; *errs2 = sweep[p / 6]; return 1; }
    return 0;
}
int p2400_parts(void) { return 128 + 512 + 6 * NSW; }
void p2400(int p) {
    int b0, t, errs2, ea = __ai_int("errs", -4, 40); char d[49];
    dec_2400(p, &b0, &t, &errs2); sym_bits(d, 49, "d"); bits_2400(d, b0); if (t >= 0) tone_2400(d, t);
    if (skip((b0 & 0x7e) != 0x7e, 0, (b0 & 0x7e) == 0x7e, errs2 > 3, errs2 > 3)) return;
    setup(0); __ai_freeze(d, 49); __ai_freeze(&errs2, sizeof errs2); __ai_freeze(&ea, sizeof ea);
    if (p & 1) mbe_processAmbe2400Data(A.pcm, &ea, &errs2, A.es, d, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    else mbe_processAmbe2400Dataf(A.out, &ea, &errs2, A.es, d, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    ref_2400(B.out, ea, errs2, B.es, d, &B.cur, &B.prev, &B.enh);
    if (p & 1) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "AMBE 2400: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("AMBE 2400");
}
/* ---------------- IMBE 4400 parameter entries ---------------- */
static const int isweep[] = {0, 4, 5, 6, 7, -1, 1, 2, 3, 9, 10, 11, 12, 13, 14, 15, 33};
#define NIS 17
static void bits_imbe(char* d, int b0) { for (int i = 0; i < 6; i++) d[i] = (char)(b0 >> (7 - i) & 1); d[85] = (char)(b0 >> 1 & 1); d[86] = (char)(b0 & 1); }
int pimbe_parts(void) { return 256 + 3 * NIS; }
void pimbe(int p) {
    int b0, errs2, ea = __ai_int("errs", -4, 40); char d[88];
    static const int bs[3] = {40, 207, 208};
    if (p < 256) { b0 = p; errs2 = p % 3 ? 0 : 6; } else { b0 = bs[(p - 256) % 3]; errs2 = isweep[(p - 256) / 3]; }
    if (skip(1, 0, 0, errs2 > 5 || b0 > 207, errs2 > 5 || b0 > 207)) return;
    sym_bits(d, 88, "d"); bits_imbe(d, b0);
    setup(0); __ai_freeze(d, 88); __ai_freeze(&errs2, sizeof errs2); __ai_freeze(&ea, sizeof ea);
    if (p & 1) mbe_processImbe4400Data(A.pcm, &ea, &errs2, A.es, d, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    else mbe_processImbe4400Dataf(A.out, &ea, &errs2, A.es, d, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    ref_imbe(B.out, errs2, B.es, d, &B.cur, &B.prev, &B.enh, -1, 0);
    if (p & 1) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "IMBE 4400: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("IMBE 4400");
}
/* ---------------- whole frames: reference transmitter, channel errors within the code capacity, decoder under analysis ---------------- */
static unsigned ks(unsigned x) { return (173u * x + 13849u) & 0xffffu; }
/* codeword of d (12 bits, high bit first in d[]) with `bad` wrong data bits and `chk` wrong check bits */
static void tx_golay(const char* d, char* tx, int n, int bad, int chk, int rot) {
    char m[12], cw[23]; int dn = n - 11;
    for (int i = 0; i < 12; i++) m[i] = i < dn ? d[dn - 1 - i] : 0;
    ref_golay_encode(m, cw);
    for (int i = 0; i < bad; i++) cw[11 + (rot + i * 5) % dn] ^= 1;
    for (int i = 0; i < chk; i++) cw[(rot + i * 4) % 11] ^= 1;
    memcpy(tx, cw, (size_t)n);
}
static void tx_ham(const unsigned* H, const char* d, char* tx, int e, int rot) {
    char m[11]; for (int i = 0; i < 11; i++) m[i] = d[10 - i];
    ref_ham_encode(H, m, tx); if (e) tx[rot % 15] ^= 1;
}
static int wt(int nd, int rot) { int c = rot % 4; return nd + c > 3 ? 3 - nd : c; }
static void tx_ambe(const char d[49], char fr[4][24], int e0, int e1, int rot, int* c0) {
    int k0 = wt(e0, rot), flip = rot >> 2 & 1; char par = 0;
    sym_bits(&fr[0][0], 96, "spare");
    char clean[23]; tx_golay(d, clean, 23, 0, 0, 0); for (int i = 0; i < 23; i++) par ^= clean[i];
    tx_golay(d, &fr[0][1], 23, e0, k0, rot); fr[0][0] = par ^ (char)flip;
    *c0 = e0 ? e0 : flip ^ (k0 & 1);
    tx_golay(d + 12, &fr[1][0], 23, e1, wt(e1, rot / 8), rot + 3);
    unsigned seed = 0; for (int i = 0; i < 12; i++) seed = seed << 1 | (unsigned)d[i];
    unsigned x = ks(16u * seed); for (int j = 22; j >= 0; j--, x = ks(x)) fr[1][j] ^= (char)(x >> 15);
    for (int j = 0; j < 11; j++) fr[2][10 - j] = d[24 + j];
    for (int j = 0; j < 14; j++) fr[3][13 - j] = d[35 + j];
}
int f2450_parts(void) { return 16 * 9 * 2; }
void f2450(int p) {
    int c0, errs = 77, errs2 = 77, e0 = p & 3, e1 = p >> 2 & 3, q = p >> 4, kind = 0, id = 0; char d[49], out[49], fr[4][24];
    static const int bs[9] = {17, 96, 119, 120, 124, 126, 125, 127, 122};
    sym_bits(d, 49, "d"); for (int i = 0; i < 12; i++) d[i] = (char)((0x5a3 + 7 * p) >> i & 1);
    if (q % 9 >= 6) { kind = 1 + (q & 1); id = q == 6 ? 130 : q == 7 ? 3 : q == 8 ? 60 : 7 * q; }
    int cls = cls_2450(d, bs[q % 9], kind, id, 0);
    if (q % 9 < 6 && bs[q % 9] >= 120) cls = cls_2450(d, bs[q % 9], 0, 0, 0);
    tx_ambe(d, fr, e0, e1, p * 5 + q, &c0);
    int tot = c0 + e1; if (cls >= TONE_OK && tot >= 6) cls = cls_2450(d, bs[q % 9], kind, id, tot);
    int rp = c0 >= 4 || (c0 >= 2 && tot >= 6); if (skip(cls == VOICE, cls == ERASE, cls >= TONE_OK, rp, rp)) return;
    __ai_uninit(out, 49); setup(0);
    if (p & 1) mbe_processAmbe3600x2450Frame(A.pcm, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    else mbe_processAmbe3600x2450Framef(A.out, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    __ai_same_i(errs, c0, "AMBE 2450 frame: *errs is not the first block's correction count"); __ai_same_i(errs2, tot, "AMBE 2450 frame: *errs2 is not the total correction count");
    __ai_same_mem(out, d, 49, "AMBE 2450 frame: parameter bits are not the transmitted ones");
    ref_2450(B.out, tot, B.es, d, &B.cur, &B.prev, &B.enh, c0 >= 4 || (c0 >= 2 && tot >= 6), cls);
    if (p & 1) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "AMBE 2450 frame: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("AMBE 2450 frame");
}
int f2400_parts(void) { return 16 * 8 * 2; }
void f2400(int p) {
    int c0, errs = 77, errs2 = 77, e0 = p & 3, e1 = p >> 2 & 3, q = p >> 4; char d[49], out[49], fr[4][24];
    sym_bits(d, 49, "d"); for (int i = 0; i < 12; i++) d[i] = (char)((0x5a3 + 7 * p) >> i & 1);
    if (q < 8) bits_2400(d, 15 * q + 3); else { bits_2400(d, 126 + (q & 1)); tone_2400(d, 37 * p); }
    tx_ambe(d, fr, e0, e1, p * 5 + q, &c0);
    int tot = c0 + e1;
    if (skip(q < 8, 0, q >= 8, tot > 3, tot > 3)) return;
    __ai_uninit(out, 49); setup(0);
    if (p & 1) mbe_processAmbe3600x2400Frame(A.pcm, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    else mbe_processAmbe3600x2400Framef(A.out, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    __ai_same_i(errs, c0, "AMBE 2400 frame: *errs is not the first block's correction count"); __ai_same_i(errs2, tot, "AMBE 2400 frame: *errs2 is not the total correction count");
    __ai_same_mem(out, d, 49, "AMBE 2400 frame: parameter bits are not the transmitted ones");
    ref_2400(B.out, c0, tot, B.es, d, &B.cur, &B.prev, &B.enh);
    if (p & 1) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "AMBE 2400 frame: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("AMBE 2400 frame");
}
/* error split: total s in 0..15 with c0 wrong bits in block 0 and h4 in the first Hamming block; returns the actual total */
static int split(int s, int c0, int h4, int nh, int g[3], int h[3]) {
    int left = s - c0 - h4; if (left < 0) left = 0;
    h[0] = h4; for (int i = 1; i < nh; i++) { h[i] = left > 9 - 3 * (i > 1) ? 1 : 0; if (h[i]) left--; }
    for (int i = 0; i < 3; i++) { g[i] = left > 3 ? 3 : left; left -= g[i]; }
    int t = c0; for (int i = 0; i < nh; i++) t += h[i]; for (int i = 0; i < 3; i++) t += g[i]; return t;
}
int f7200_parts(void) { return 4 * 2 * 16 * 2; }
void f7200(int p) {
    int e0 = p & 3, h4 = p >> 2 & 1, s = p >> 3 & 15, q = p >> 7, errs = 77, errs2 = 77, g[3], h[3]; char d[88], out[88], fr[8][23];
    int tot = split(s, e0, h4, 3, g, h);
    sym_bits(d, 88, "d"); for (int i = 0; i < 12; i++) d[i] = (char)((0x5a3 + 7 * p) >> i & 1);
    int b0 = q ? (p * 11) & 255 : (p * 13) % 208; bits_imbe(d, b0);
    if (skip(1, 0, 0, b0 > 207 || (e0 >= 2 && tot >= 10), b0 > 207)) return;
    sym_bits(&fr[0][0], 184, "spare");
    tx_golay(d, &fr[0][0], 23, e0, wt(e0, p), p);
    for (int r = 0; r < 3; r++) tx_golay(d + 12 + 12 * r, &fr[1 + r][0], 23, g[r], wt(g[r], p + r), p + 2 * r);
    for (int r = 0; r < 3; r++) tx_ham(H1, d + 48 + 11 * r, &fr[4 + r][0], h[r], p + r);
    for (int j = 0; j < 7; j++) fr[7][6 - j] = d[81 + j];
    unsigned seed = 0; for (int i = 0; i < 12; i++) seed = seed << 1 | (unsigned)d[i];
    unsigned x = ks(16u * seed);
    for (int r = 1; r < 7; r++) for (int j = r < 4 ? 22 : 14; j >= 0; j--, x = ks(x)) fr[r][j] ^= (char)(x >> 15);
    __ai_uninit(out, 88); setup(0);
    if (p & 8) mbe_processImbe7200x4400Frame(A.pcm, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    else mbe_processImbe7200x4400Framef(A.out, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    __ai_same_i(errs, e0, "IMBE 7200 frame: *errs is not the first block's correction count"); __ai_same_i(errs2, tot, "IMBE 7200 frame: *errs2 is not the total correction count");
    __ai_same_mem(out, d, 88, "IMBE 7200 frame: parameter bits are not the transmitted ones");
    ref_imbe(B.out, tot, B.es, d, &B.cur, &B.prev, &B.enh, e0, h4);
    if (p & 8) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "IMBE 7200 frame: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("IMBE 7200 frame");
}
int f7100_parts(void) { return 4 * 2 * 16 * 2; }
void f7100(int p) {
    int e0 = p & 3, h4 = p >> 2 & 1, s = p >> 3 & 15, q = p >> 7, errs = 77, errs2 = 77, g[3], h[3]; char d[88], out[88], fr[7][24];
    int tot = split(s, e0, h4, 2, g, h), b0 = q ? (p * 11) & 255 : (p * 13) % 208;
    if (skip(1, 0, 0, b0 > 207 || (e0 >= 2 && tot >= 10), b0 > 207)) return;
    sym_bits(d, 88, "d"); d[0] = (char)(p >> 4 & 1); for (int i = 0; i < 6; i++) d[1 + i] = (char)(b0 >> (7 - i) & 1);
    d[86] = (char)(b0 >> 1 & 1); d[87] = (char)(b0 & 1);
    sym_bits(&fr[0][0], 168, "spare");
    tx_golay(d, &fr[0][1], 18, e0, wt(e0, p), p);
    for (int r = 0; r < 3; r++) tx_golay(d + 7 + 12 * r, &fr[1 + r][r == 0], 23, g[r], wt(g[r], p + r), p + 2 * r);
    for (int r = 0; r < 2; r++) tx_ham(H2, d + 43 + 11 * r, &fr[4 + r][0], h[r], p + r);
    for (int j = 0; j < 23; j++) fr[6][22 - j] = d[65 + j];
    unsigned seed = 0; for (int i = 0; i < 7; i++) seed = seed << 1 | (unsigned)d[i];
    unsigned x = ks(16u * seed);
    for (int r = 1; r < 6; r++) for (int j = r < 2 ? 23 : r < 4 ? 22 : 14; j >= 0; j--, x = ks(x)) fr[r][j] ^= (char)(x >> 15);
    __ai_uninit(out, 88); setup(0);
    if (p & 8) mbe_processImbe7100x4400Frame(A.pcm, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    else mbe_processImbe7100x4400Framef(A.out, &errs, &errs2, A.es, fr, out, &A.cur, &A.prev, &A.enh, __ai_int("uvq", -9, 99));
    between();
    mbe_convertImbe7100to7200(d);
    __ai_same_i(errs, e0, "IMBE 7100 frame: *errs is not the first block's correction count"); __ai_same_i(errs2, tot, "IMBE 7100 frame: *errs2 is not the total correction count");
    __ai_same_mem(out, d, 88, "IMBE 7100 frame: parameter bits are not the transmitted ones in 7200 order");
    ref_imbe(B.out, tot, B.es, d, &B.cur, &B.prev, &B.enh, e0, h4);
    if (p & 8) { __stub_mbe_floattoshort(B.out, B.pcm); __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "IMBE 7100 frame: 16-bit output is not the conversion of the float output"); memcpy(B.out, A.out, sizeof B.out); }
    CMP_STATE("IMBE 7100 frame");
}
/* ---------------- 16-bit synthesis wrappers ---------------- */
int shorts_parts(void) { return 3; }
void shorts(int p) {
    setup(0);
    if (p == 0) { mbe_synthesizeSpeech(A.pcm, &A.cur, &A.prev, __ai_int("uvq", -9, 99)); between(); __stub_mbe_synthesizeSpeechf(B.out, &B.cur, &B.prev, 0); }
    else if (p == 1) { mbe_synthesizeComfortNoise(A.pcm); between(); __stub_mbe_synthesizeComfortNoisef(B.out); }
    else { mbe_synthesizeSilence(A.pcm); between(); for (int i = 0; i < 160; i++) B.pcm[i] = 0; }
    if (p < 2) __stub_mbe_floattoshort(B.out, B.pcm);
    __ai_same_mem(A.pcm, B.pcm, sizeof A.pcm, "16-bit output is not the conversion of the float output");
    B.W = W; __ai_same_i(A.W, B.W, "16-bit output: noise generator use");
    __ai_same_mem(&A.cur, &B.cur, 3 * sizeof A.cur, "16-bit output: state differs from the float twin");
}
