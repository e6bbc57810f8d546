/* Frame layer: block correction inside frames, descrambling, bit packing, 7100->7200 reordering. */
#include "ai.h"
#include <string.h>
#include "mbelib-neo/mbelib.h"
#include "codes.h"

static void sym(char* d, int n, const char* name) { for (int i = 0; i < n; i++) d[i] = (char)__ai_bits(name, 1); }
/* pattern number t in 0..2047 -> up to three error positions in 0..n-1 (n = 23 gives exactly 2048 patterns) */
static int unrank(int t, int n, int e[3]) {
    e[0] = e[1] = e[2] = -1;
    if (t == 0) return 0;
    t--;
    if (t < n) { e[0] = t; return 1; }
    t -= n;
    for (int a = 0; a < n; a++) { if (t < n - 1 - a) { e[0] = a; e[1] = a + 1 + t; return 2; } t -= n - 1 - a; }
    for (int a = 0; a < n; a++)
        for (int b = a + 1; b < n; b++) { if (t < n - 1 - b) { e[0] = a; e[1] = b; e[2] = b + 1 + t; return 3; } t -= n - 1 - b; }
    return 0;
}
/* transmit a Golay block: tx gets codeword of d with pattern t applied; returns the number of wrong data bits */
static int tx_golay(const char d[12], char* tx, int t, int n) {
    char cw[23];
    int e[3], nd = 0;
    ref_golay_encode(d, cw);
    unrank(t, n, e);
    for (int i = 0; i < 3; i++) if (e[i] >= 0) { cw[e[i]] ^= 1; nd += e[i] >= 11; }
    memcpy(tx, cw, (size_t)n);
    return nd;
}
static int tx_ham(const unsigned* H, const char d[11], char* tx, int e) {
    ref_ham_encode(H, d, tx);
    if (e < 15) { tx[e] ^= 1; return 1; }
    return 0;
}

/* ---------------- AMBE ---------------- */
static void ambe_c0_one(int t, int codec) {
    char fr[4][24], was[4][24], d[12];
    sym(d, 12, "data"); sym(&fr[0][0], 96, "frame");
    int nd = tx_golay(d, &fr[0][1], t, 23);
    memcpy(was, fr, sizeof fr);
    int n = codec ? mbe_eccAmbe3600x2450C0(fr) : mbe_eccAmbe3600x2400C0(fr);
    __ai_same_mem(&fr[0][12], d, 12, "AMBE C0: data bits are not those transmitted");
    __ai_same_mem(&fr[1][0], &was[1][0], 72, "AMBE C0: another row of the frame changed");
    if (nd == 0) {
        char par = 0;
        for (int i = 1; i < 24; i++) par ^= was[0][i];
        __ai_same_i(fr[0][0], par, "AMBE C0: parity bit not made even");
        __ai_same_i(n, was[0][0] ^ par, "AMBE C0: count of a block whose data is intact");
    } else {
        __ai_same_i(fr[0][0], was[0][0], "AMBE C0: parity bit of a corrected block changed");
        __ai_assert(n == nd, "AMBE C0: count differs from the number of corrected data bits");
    }
}
int ambe_c0_parts(void) { return 128; }
void ambe_c0(int p) { for (int t = p * 16; t < p * 16 + 16; t++) { ambe_c0_one(t, 0); ambe_c0_one(t, 1); } }

static void ambe_data_one(int t, int codec) {
    char fr[4][24], was[4][24], d[12], out[49], want[49];
    sym(d, 12, "data"); sym(&fr[0][0], 96, "frame");
    int nd = tx_golay(d, &fr[1][0], t, 23);
    memcpy(was, fr, sizeof fr);
    __ai_uninit(out, 49);
    int n = codec ? mbe_eccAmbe3600x2450Data(fr, out) : mbe_eccAmbe3600x2400Data(fr, out);
    int k = 0;
    for (int j = 0; j < 12; j++) want[k++] = was[0][23 - j];
    for (int j = 0; j < 12; j++) want[k++] = d[11 - j];
    for (int j = 0; j < 11; j++) want[k++] = was[2][10 - j];
    for (int j = 0; j < 14; j++) want[k++] = was[3][13 - j];
    __ai_same_mem(out, want, 49, "AMBE data: parameter bits are not the transmitted ones in order C0 C1 C2 C3");
    __ai_assert(n == nd, "AMBE data: count differs from the number of corrected C1 data bits");
}
int ambe_data_parts(void) { return 128; }
void ambe_data(int p) { for (int t = p * 16; t < p * 16 + 16; t++) { ambe_data_one(t, 0); ambe_data_one(t, 1); } }

static unsigned ks(unsigned x) { return (173u * x + 13849u) & 0xffffu; }
int ambe_demod_parts(void) { return 256; }
void ambe_demod(int p) {
    for (int seed = p * 16; seed < p * 16 + 16; seed++)
        for (int codec = 0; codec < 2; codec++) {
            char fr[4][24], want[4][24];
            sym(&fr[0][0], 96, "frame");
            for (int i = 0; i < 12; i++) fr[0][12 + i] = (char)((seed >> i) & 1);
            memcpy(want, fr, sizeof fr);
            unsigned x = ks(16u * (unsigned)seed);
            for (int j = 22; j >= 0; j--, x = ks(x)) want[1][j] ^= (char)(x >> 15);
            if (codec) mbe_demodulateAmbe3600x2450Data(fr); else mbe_demodulateAmbe3600x2400Data(fr);
            __ai_same_mem(fr, want, 96, "AMBE descrambling differs from the C0-seeded keystream on the second block");
        }
}

/* ---------------- IMBE 7200x4400 ---------------- */
int imbe7200_c0_parts(void) { return 128; }
void imbe7200_c0(int p) {
    for (int t = p * 16; t < p * 16 + 16; t++) {
        char fr[8][23], was[8][23], d[12];
        sym(d, 12, "data"); sym(&fr[0][0], 184, "frame");
        int nd = tx_golay(d, &fr[0][0], t, 23);
        memcpy(was, fr, sizeof fr);
        int n = mbe_eccImbe7200x4400C0(fr);
        __ai_same_mem(&fr[0][11], d, 12, "IMBE 7200 C0: data bits are not those transmitted");
        __ai_same_mem(&fr[1][0], &was[1][0], 161, "IMBE 7200 C0: another row changed");
        __ai_assert(n == nd, "IMBE 7200 C0: count differs from the number of corrected data bits");
    }
}
int imbe7200_data_parts(void) { return 256; }
void imbe7200_data(int p) {
    for (int t = p * 8; t < p * 8 + 8; t++) {
        char fr[8][23], d[4][12], h[3][11], out[88], want[88];
        int total = 0, k = 0;
        sym(&fr[0][0], 184, "frame");
        for (int r = 1; r < 4; r++) { sym(d[r], 12, "golay"); total += tx_golay(d[r], &fr[r][0], (t * (r == 1 ? 1 : r == 2 ? 1021 : 1531) + r * 7 - 7) & 2047, 23); }
        for (int r = 0; r < 3; r++) { sym(h[r], 11, "hamming"); total += tx_ham(H1, h[r], &fr[4 + r][0], (t + r * 5 + (t >> (4 * r))) & 15); }
        for (int j = 0; j < 12; j++) want[k++] = fr[0][22 - j];
        for (int r = 1; r < 4; r++) for (int j = 0; j < 12; j++) want[k++] = d[r][11 - j];
        for (int r = 0; r < 3; r++) for (int j = 0; j < 11; j++) want[k++] = h[r][10 - j];
        for (int j = 0; j < 7; j++) want[k++] = fr[7][6 - j];
        __ai_uninit(out, 88);
        int n = mbe_eccImbe7200x4400Data(fr, out);
        __ai_same_mem(out, want, 88, "IMBE 7200 data: parameter bits are not the transmitted ones in order C0..C7");
        __ai_assert(n == total, "IMBE 7200 data: count differs from the number of corrected bits");
    }
}
int imbe7200_demod_parts(void) { return 512; }
void imbe7200_demod(int p) {
    for (int seed = p * 8; seed < p * 8 + 8; seed++) {
        char fr[8][23], want[8][23];
        sym(&fr[0][0], 184, "frame");
        for (int i = 0; i < 12; i++) fr[0][11 + i] = (char)((seed >> i) & 1);
        memcpy(want, fr, sizeof fr);
        unsigned x = ks(16u * (unsigned)seed);
        for (int r = 1; r < 7; r++) for (int j = r < 4 ? 22 : 14; j >= 0; j--, x = ks(x)) want[r][j] ^= (char)(x >> 15);
        mbe_demodulateImbe7200x4400Data(fr);
        __ai_same_mem(fr, want, 184, "IMBE 7200 descrambling differs from the C0-seeded keystream on blocks 1..6");
    }
}

/* ---------------- IMBE 7100x4400 ---------------- */
int imbe7100_c0_parts(void) { return 124; }
void imbe7100_c0(int p) { /* shortened block: 18 received bits, 7 of them data; 988 patterns of weight <= 3 */
    for (int t = p * 8; t < p * 8 + 8 && t < 988; t++) {
        char fr[7][24], was[7][24], d[12];
        sym(d, 12, "data"); sym(&fr[0][0], 168, "frame");
        for (int i = 7; i < 12; i++) d[i] = 0;
        int nd = tx_golay(d, &fr[0][1], t, 18);
        memcpy(was, fr, sizeof fr);
        int n = mbe_eccImbe7100x4400C0(fr);
        __ai_same_mem(&fr[0][12], d, 7, "IMBE 7100 C0: data bits are not those transmitted");
        __ai_same_mem(&fr[1][0], &was[1][0], 144, "IMBE 7100 C0: another row changed");
        __ai_assert(n == nd, "IMBE 7100 C0: count differs from the number of corrected data bits");
    }
}
int imbe7100_data_parts(void) { return 256; }
void imbe7100_data(int p) {
    for (int t = p * 8; t < p * 8 + 8; t++) {
        char fr[7][24], d[4][12], h[2][11], out[88], want[88];
        int total = 0, k = 0;
        sym(&fr[0][0], 168, "frame");
        for (int r = 1; r < 4; r++) { sym(d[r], 12, "golay"); total += tx_golay(d[r], &fr[r][r == 1 ? 1 : 0], (t * (r == 1 ? 1 : r == 2 ? 1021 : 1531) + r * 7 - 7) & 2047, 23); }
        for (int r = 0; r < 2; r++) { sym(h[r], 11, "hamming"); total += tx_ham(H2, h[r], &fr[4 + r][0], (t + r * 5 + (t >> (4 * r))) & 15); }
        for (int j = 0; j < 7; j++) want[k++] = fr[0][18 - j];
        for (int r = 1; r < 4; r++) for (int j = 0; j < 12; j++) want[k++] = d[r][11 - j];
        for (int r = 0; r < 2; r++) for (int j = 0; j < 11; j++) want[k++] = h[r][10 - j];
        for (int j = 0; j < 23; j++) want[k++] = fr[6][22 - j];
        __ai_uninit(out, 88);
        int n = mbe_eccImbe7100x4400Data(fr, out);
        __ai_same_mem(out, want, 88, "IMBE 7100 data: parameter bits are not the transmitted ones in order C0..C6");
        __ai_assert(n == total, "IMBE 7100 data: count differs from the number of corrected bits");
    }
}
int imbe7100_demod_parts(void) { return 128; }
void imbe7100_demod(int seed) {
    char fr[7][24], want[7][24];
    sym(&fr[0][0], 168, "frame");
    for (int i = 0; i < 7; i++) fr[0][12 + i] = (char)((seed >> i) & 1);
    memcpy(want, fr, sizeof fr);
    unsigned x = ks(16u * (unsigned)seed);
    for (int r = 1; r < 6; r++) for (int j = r < 2 ? 23 : r < 4 ? 22 : 14; j >= 0; j--, x = ks(x)) want[r][j] ^= (char)(x >> 15);
    mbe_demodulateImbe7100x4400Data(fr);
    __ai_same_mem(fr, want, 168, "IMBE 7100 descrambling differs from the C0-seeded keystream on blocks 1..5");
}
/* 7100 order: status bit, 6 pitch bits and the rest of the high-priority bits, gain and voicing in the middle.
 * 7200 order wanted: everything in transmission order, except gain bits (2) + voicing bits (K) which move to 48.., status last. */
int convert_parts(void) { return 256; }
void convert(int b0) {
    char in[88], out[88], want[88];
    sym(in, 88, "bit");
    for (int i = 0; i < 6; i++) in[1 + i] = (char)((b0 >> (7 - i)) & 1);
    in[86] = (char)((b0 >> 1) & 1); in[87] = (char)(b0 & 1);
    int h = (int)((b0 + 39.5) / 4.0 + 0.25);
    int L = (int)(0.9254 * h);
    int K = L < 37 ? (L + 2) / 3 : 12;
    /* 7100 payload without the moved group, in order */
    char rest[88]; int n = 0;
    for (int i = 1; i < 88; i++) if (i < 42 || i >= 44 + K) rest[n++] = in[i];
    int k = 0;
    for (int i = 0; i < 48; i++) want[k++] = rest[i];
    for (int i = 0; i < K; i++) want[k++] = in[44 + i];
    want[k++] = in[42]; want[k++] = in[43];
    for (int i = 48; i < n; i++) want[k++] = rest[i];
    want[k++] = in[0];
    memcpy(out, in, 88);
    mbe_convertImbe7100to7200(out);
    __ai_assert(k == 88, "harness: 88 bits expected");
    __ai_same_mem(out, want, 88, "IMBE 7100->7200 reordering misplaces a parameter bit");
}
