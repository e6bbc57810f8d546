/* Parameter decoding: every field of the packed parameters against the published dequantisation procedure. */
#include "ref.h"
#include "tables.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
static int fld(const char* d, const int* pos, int n) { int v = 0; for (int i = 0; i < n; i++) v = (v << 1) | d[pos[i]]; return v; }
/* magnitude interpolation positions of the previous frame (shared by the three codecs) */
static void ref_predict(mbe_parms* c, mbe_parms* p, float rho, const float* T, float bias, int copy0) {
    int L = c->L, P = p->L;
    for (int l = P + 1; l <= L; l++) { p->Ml[l] = p->Ml[P]; p->log2Ml[l] = p->log2Ml[P]; }
    if (copy0) { p->log2Ml[0] = p->log2Ml[1]; p->Ml[0] = p->Ml[1]; }
    float mean = 0.0f, pr[57];
    for (int l = 1; l <= L; l++) {
        float k = ((float)P / (float)L) * (float)l; int i = (int)k; float s = k - (float)i;
        pr[l] = (1.0f - s) * p->log2Ml[i] + s * p->log2Ml[i < 56 ? i + 1 : 56];
        mean = mean + pr[l];
    }
    mean = (rho / (float)L) * mean;
    for (int l = 1; l <= L; l++) c->log2Ml[l] = T[l] + rho * pr[l] - mean + bias;
}
static void idct(const float* C, int n, float* out) {
    for (int j = 1; j <= n; j++) {
        float s = 0.0f;
        for (int k = 1; k <= n; k++) s = s + (k == 1 ? 1.0f : 2.0f) * C[k] * __builtin_cosf((float)((M_PI * (float)(k - 1) * ((float)j - 0.5f)) / (float)n));
        out[j] = s;
    }
}
/* everything from the gain vector on is common to both AMBE variants */
static void ref_ambe_tail(mbe_parms* c, mbe_parms* p, float dg, const float* p24, const float* p58, const float* const hoc[4], const int* J, float unvc) {
    c->gamma = dg + 0.5f * p->gamma;
    float G[9], R[9], C[19], T[60]; int L = c->L, at = 0;
    G[1] = 0; G[2] = p24[0]; G[3] = p24[1]; G[4] = p24[2]; G[5] = p58[0]; G[6] = p58[1]; G[7] = p58[2]; G[8] = p58[3];
    idct(G, 8, R);
    float rc = 1.0f / (2.0f * 1.41421356237309504880f);
    for (int b = 0; b < 4; b++) {
        int n = J[b];
        C[1] = 0.5f * (R[2 * b + 1] + R[2 * b + 2]); C[2] = rc * (R[2 * b + 1] - R[2 * b + 2]);
        for (int k = 3; k <= n; k++) C[k] = k <= 6 ? hoc[b][k - 3] : 0.0f;
        idct(C, n, T + at); at += n;
    }
    float s = 0.0f; for (int l = 1; l <= L; l++) s += T[l];
    float bias = c->gamma - 0.5f * __builtin_log2f((float)L) - s / (float)L;
    ref_predict(c, p, 0.65f, T, bias, 1);
    for (int l = 1; l <= L; l++) { float m = __builtin_exp2f(c->log2Ml[l]); c->Ml[l] = c->Vl[l] ? m : unvc * m; }
}
static const int A_b0[7] = {0, 1, 2, 3, 37, 38, 39}, A_b1[5] = {4, 5, 6, 7, 35}, A_b2[5] = {8, 9, 10, 11, 36}, A_b3[9] = {12, 13, 14, 15, 16, 17, 18, 19, 40}, A_b4[7] = {20, 21, 22, 23, 41, 42, 43},
                 A_b5[5] = {24, 25, 26, 27, 44}, A_b6[4] = {28, 29, 30, 45}, A_b7[4] = {31, 32, 33, 46}, A_b8[3] = {34, 47, 48};
static const int D_b0[7] = {0, 1, 2, 3, 4, 5, 48}, D_b1[4] = {38, 39, 40, 41}, D_b2[6] = {6, 7, 8, 9, 42, 43}, D_b3[9] = {10, 11, 12, 13, 14, 15, 16, 44, 45}, D_b4[7] = {17, 18, 19, 20, 21, 46, 47},
                 D_b5[4] = {22, 23, 25, 26}, D_b6[4] = {27, 28, 29, 30}, D_b7[4] = {31, 32, 33, 34}, D_b8[3] = {35, 36, 37};
/* tone signature: six leading ones, and either four trailing zeros or matching nibbles */
static int tone2450(const char* d) {
    for (int i = 0; i < 6; i++) if (!d[i]) return 0;
    int z = 1, m = 1;
    for (int i = 45; i < 49; i++) if (d[i]) z = 0;
    for (int i = 0; i < 4; i++) if (d[12 + i] != d[20 + i]) m = 0;
    return z || m;
}
static int ref_2450(const char* d, mbe_parms* c, mbe_parms* p, int b0, int tone) {
    c->repeat = p->repeat;
    if (tone) return 7;
    if ((b0 >= 120 && b0 <= 123) || b0 >= 126) return 2;
    float f0; int b1 = fld(d, A_b1, 5);
    if (b0 >= 124) { f0 = (float)M_PI / 32.0f; c->w0 = f0 * (float)(2.0 * M_PI); c->L = b0 == 124 ? 15 : 14; for (int l = 1; l <= c->L; l++) c->Vl[l] = 0; }
    else { f0 = R_AmbeW0table[b0]; c->w0 = (float)(f0 * 2.0f * M_PI); c->L = (int)R_AmbeLtable[b0]; for (int l = 1; l <= c->L; l++) c->Vl[l] = R_AmbeVuv[b1][(int)((float)l * 16.0f * f0)]; }
    int b3 = fld(d, A_b3, 9), b4 = fld(d, A_b4, 7);
    const float* hoc[4] = {R_AmbeHOCb5[fld(d, A_b5, 5)], R_AmbeHOCb6[fld(d, A_b6, 4)], R_AmbeHOCb7[fld(d, A_b7, 4)], R_AmbeHOCb8[fld(d, A_b8, 3)]};
    ref_ambe_tail(c, p, R_AmbeDg[fld(d, A_b2, 5)], R_AmbePRBA24[b3], R_AmbePRBA58[b4], hoc, R_AmbeLmprbl[c->L], 0.2046f / __builtin_sqrtf(c->w0));
    return 0;
}
static int ref_2400(const char* d, mbe_parms* c, mbe_parms* p, int b0, int tone) {
    c->repeat = p->repeat;
    if ((b0 & 0x7e) == 0x7e) {
        if (tone >= 5 && tone <= 122) return tone;
        if (tone < 128 || tone > 163) { c->w0 = (float)((2.0f * M_PI) / 32.0f); c->L = 14; for (int l = 1; l <= 14; l++) c->Vl[l] = 0; }
        return 3;
    }
    float f0 = __builtin_exp2f(-4.311767578125f - (2.1336e-2f * ((float)b0 + 0.5f)));
    c->w0 = (float)(f0 * 2.0f * M_PI); c->L = (int)R_AmbePlusLtable[b0];
    int b1 = fld(d, D_b1, 4), b3 = fld(d, D_b3, 9), b4 = fld(d, D_b4, 7);
    for (int l = 1; l <= c->L; l++) c->Vl[l] = R_AmbePlusVuv[b1][(int)((float)l * 16.0f * f0)];
    const float* hoc[4] = {R_AmbePlusHOCb5[fld(d, D_b5, 4)], R_AmbePlusHOCb6[fld(d, D_b6, 4)], R_AmbePlusHOCb7[fld(d, D_b7, 4)], R_AmbePlusHOCb8[fld(d, D_b8, 3) << 1]};
    ref_ambe_tail(c, p, R_AmbePlusDg[fld(d, D_b2, 6)], R_AmbePlusPRBA24[b3], R_AmbePlusPRBA58[b4], hoc, R_AmbePlusLmprbl[c->L], 0.2046f / __builtin_sqrtf(c->w0));
    return 0;
}
static int ref_imbe(const char* d, mbe_parms* c, mbe_parms* p, int b0) {
    c->repeat = p->repeat;
    if (b0 > 207) return 1;
    c->w0 = (float)(4.0 * M_PI) / (float)((float)b0 + 39.5);
    int L = (int)(0.9254 * (int)((M_PI / c->w0) + 0.25));
    if (L < 9 || L > 56) return 1;
    int K = L < 37 ? (L + 2) / 3 : 12, q = L - 9; c->L = L; c->K = K;
    char bb[58][12]; int nb[58]; memset(bb, 0, sizeof bb); memset(nb, 0, sizeof nb);
    for (int i = 0; i < 79; i++) bb[R_bo[q][i][0]][R_bo[q][i][1]] = d[6 + i];
    int val[58];
    for (int i = 1; i <= L; i++) { int k = K - 1 - (i - 1) / 3; c->Vl[i] = bb[1][k < 0 ? 0 : k]; }
    float G[7], R[7], C[19], T[60]; int at = 0, m = 8, g = 0;
    for (int i = 5; i >= 0; i--) g = (g << 1) | bb[2][i];
    (void)val; G[1] = R_B2[g];
    for (int i = 2; i <= 6; i++) { int n = (int)R_ba[q][i - 2][0], v = 0; for (int b = n - 1; b >= 0; b--) v = (v << 1) | bb[i + 1][b]; G[i] = R_ba[q][i - 2][1] * ((float)v - (float)(1 << (n - 1)) + 0.5f); }
    idct(G, 6, R);
    for (int i = 1; i <= 6; i++) {
        int n = R_ImbeJi[q][i - 1]; C[1] = R[i];
        for (int k = 2; k <= n; k++, m++) { int B = R_hoba[q][m - 8], v = 0; for (int b = B - 1; b >= 0; b--) v = (v << 1) | bb[m][b]; C[k] = B ? (R_quantstep[B - 1] * R_standdev[k - 2]) * (((float)v - (float)(1 << (B - 1))) + 0.5f) : 0.0f; }
        idct(C, n, T + at); at += n;
    }
    float rho = L <= 15 ? 0.4f : L <= 24 ? (float)(0.03 * (float)L - 0.05) : 0.7f;
    ref_predict(c, p, rho, T, 0.0f, 0);
    for (int l = 1; l <= L; l++) c->Ml[l] = __builtin_exp2f(c->log2Ml[l]);
    return 0;
}
/* ---- partitions: fundamental code x harmonic count of the previous frame; everything else symbolic ---- */
#ifdef ALLPREV
#define NP 56
static int prevL(int L, int b0, int k) { (void)L; (void)b0; return 1 + k; }
#else
#define NP 3
static int prevL(int L, int b0, int k) { int v = k == 0 ? L : 1 + (b0 * 23 + k * 29 + b0 / 56 * 7) % 56; return v < 1 ? 1 : v > 56 ? 56 : v; }
#endif
static void put(char* d, const int* pos, int n, int v) { for (int i = 0; i < n; i++) d[pos[i]] = (char)((v >> (n - 1 - i)) & 1); }
static void havoc2(mbe_parms* c, mbe_parms* p, int PL) { havoc_parms(c, 1, 56); havoc_parms(p, PL, PL); for (int i = 0; i < 57; i++) { p->log2Ml[i] = __ai_float("plog", -60.0f, 60.0f); } p->gamma = __ai_float("pg", -60.0f, 60.0f); }
static void compare(const mbe_parms* c, const mbe_parms* rc, const mbe_parms* p, const mbe_parms* rp, int r, int rr) {
    __ai_assert(r == rr, "decode: wrong frame classification");
    __ai_same_f(c->w0, rc->w0, "decode: fundamental frequency"); __ai_same_i(c->L, rc->L, "decode: number of harmonics"); __ai_same_i(c->K, rc->K, "decode: number of voicing bands");
    __ai_same_mem(c->Vl, rc->Vl, sizeof c->Vl, "decode: voicing decisions"); __ai_same_f(c->gamma, rc->gamma, "decode: gain");
    __ai_same_mem(c->log2Ml, rc->log2Ml, sizeof c->log2Ml, "decode: log spectral amplitudes"); __ai_same_mem(c->Ml, rc->Ml, sizeof c->Ml, "decode: spectral amplitudes");
    __ai_same_mem(c, rc, sizeof *c, "decode: another field of the current model changes"); __ai_same_mem(p, rp, sizeof *p, "decode: previous model extended differently");
}
int d2450_parts(void) { return 128 * NP; }
void d2450(int q) {
    char d[52]; int b0 = q / NP, L = b0 < 120 ? (int)R_AmbeLtable[b0] : b0 == 124 ? 15 : 14, PL = prevL(L, b0, q % NP); sym_bits(d, 49, "bit");
    put(d, A_b0, 7, b0); mbe_parms c, p, rc, rp; havoc2(&c, &p, PL); rc = c; rp = p;
    int pos6 = 1; for (int i = 0; i < 4; i++) if (!d[i]) pos6 = 0;
    int tone = 0;
    if (pos6) { /* concrete choices for the bits of the tone signature */
        int v = q % NP % 3 + (b0 & 1) * 3; d[4] = d[5] = 1;
        if (v == 0) { d[5] = 0; } else if (v == 1) { d[45] = d[46] = d[47] = d[48] = 0; tone = 1; } else if (v == 2) { d[48] = 1; for (int i = 0; i < 4; i++) d[20 + i] = d[12 + i] = (char)(i & 1); tone = 1; }
        else if (v == 3) { d[48] = 1; d[12] = 1; d[20] = 0; } else if (v == 4) { d[45] = 1; d[15] = 0; d[23] = 1; } else { d[4] = 0; d[45] = d[46] = d[47] = d[48] = 0; }
    }
    __ai_freeze(d, 49);
    int r = mbe_decodeAmbe2450Parms(d, &c, &p), rr = ref_2450(d, &rc, &rp, b0, tone);
    compare(&c, &rc, &p, &rp, r, rr);
}
int d2400_parts(void) { return 126 * NP + 256; }
void d2400(int q) {
    char d[52]; int b0, PL, tone = 0; sym_bits(d, 49, "bit"); mbe_parms c, p, rc, rp;
    if (q < 126 * NP) { b0 = q / NP; PL = prevL((int)R_AmbePlusLtable[b0], b0, q % NP); put(d, D_b0, 7, b0); }
    else { /* tone codes: (bits 6,7,8) select the three leading bits */
        static const int hi[8] = {4, 0, 1, 2, 3, 7, 6, 5}; static const int lo[5] = {9, 42, 43, 10, 11};
        q -= 126 * NP; b0 = 126 + (q & 1); PL = 1 + q % 56; put(d, D_b0, 7, b0); int g = q >> 5; d[6] = (char)(g >> 2); d[7] = (char)(g >> 1 & 1); d[8] = (char)(g & 1);
        put(d, lo, 5, q & 31); tone = hi[g] << 5 | (q & 31);
    }
    havoc2(&c, &p, PL); rc = c; rp = p; __ai_freeze(d, 49);
    int r = mbe_decodeAmbe2400Parms(d, &c, &p), rr = ref_2400(d, &rc, &rp, b0, tone);
    compare(&c, &rc, &p, &rp, r, rr);
}
static const int I_b0[8] = {0, 1, 2, 3, 4, 5, 85, 86};
int dimbe_parts(void) { return 208 * NP + 48; }
void dimbe(int q) {
    char d[88]; int b0, PL; sym_bits(d, 88, "bit"); mbe_parms c, p, rc, rp;
    if (q < 208 * NP) { b0 = q / NP; PL = prevL((int)(0.9254 * (int)(((b0 + 39.5) / 4.0) + 0.25)), b0, q % NP); } else { b0 = 208 + q - 208 * NP; PL = 1 + q % 56; }
    put(d, I_b0, 8, b0); havoc2(&c, &p, PL); rc = c; rp = p; __ai_freeze(d, 88);
    int r = mbe_decodeImbe4400Parms(d, &c, &p), rr = ref_imbe(d, &rc, &rp, b0);
    compare(&c, &rc, &p, &rp, r, rr);
}
