/* Reference encoders of the published block codes. */
#ifndef CODES_H
#define CODES_H
/* (23,12) Golay, systematic, generator polynomial g(x) = 0xC75, data in bits 11..22 */
static unsigned golay_parity_of_bit(int i) { /* x^(11+i) mod g */
    unsigned r = 1u << (11 + i);
    for (int b = 22; b >= 11; b--) if (r & (1u << b)) r ^= 0xC75u << (b - 11);
    return r;
}
static void ref_golay_encode(const char d[12], char cw[23]) {
    for (int i = 0; i < 11; i++) cw[i] = 0;
    for (int i = 0; i < 12; i++) {
        cw[11 + i] = d[i];
        unsigned p = golay_parity_of_bit(i);
        for (int j = 0; j < 11; j++) if ((p >> j) & 1) cw[j] ^= d[i];
    }
}
/* (15,11) Hamming: parity checks of the two published variants, data in bits 4..14 */
static const unsigned H1[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1};
static const unsigned H2[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591};
static void ref_ham_encode(const unsigned* H, const char d[11], char cw[15]) {
    for (int i = 0; i < 11; i++) cw[4 + i] = d[i];
    for (int r = 0; r < 4; r++) {
        char p = 0;
        for (int i = 4; i < 15; i++) if ((H[r] >> i) & 1) p ^= cw[i];
        cw[3 - r] = p;
    }
}
#endif
