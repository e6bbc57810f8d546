/* Block codes: every received word within the correction radius of every codeword. */
#include "ai.h"
#include <string.h>
#include "mbelib-neo/mbelib.h"

#include "codes.h"
static void one_golay(const char cw[23], int e0, int e1, int e2) {
    char in[23], out[23], keep[23];
    int nd = 0;
    memcpy(in, cw, 23);
    if (e0 >= 0) { in[e0] ^= 1; nd += e0 >= 11; }
    if (e1 >= 0) { in[e1] ^= 1; nd += e1 >= 11; }
    if (e2 >= 0) { in[e2] ^= 1; nd += e2 >= 11; }
    memcpy(keep, in, 23);
    __ai_uninit(out, 23);
    __ai_freeze(in, 23);
    int n = mbe_golay2312(in, out);
    __ai_thaw();
    __ai_same_mem(out + 11, cw + 11, 12, "mbe_golay2312: data bits of a codeword with at most 3 errors are not restored");
    __ai_same_mem(out, keep, 11, "mbe_golay2312: parity bits are not passed through");
    __ai_assert(n == nd, "mbe_golay2312: returned count differs from the number of corrected data bits");
}
int golay_parts(void) { return 24; }
void golay(int part) {
    char d[12], cw[23];
    for (int i = 0; i < 12; i++) d[i] = (char)__ai_bits("data", 1);
    ref_golay_encode(d, cw);
    if (part == 23) { one_golay(cw, -1, -1, -1); return; }
    one_golay(cw, part, -1, -1);
    for (int b = part + 1; b < 23; b++) {
        one_golay(cw, part, b, -1);
        for (int c = b + 1; c < 23; c++) one_golay(cw, part, b, c);
    }
}
/* range of the return value and memory safety for words at any distance */
void golay_any(void) {
    char in[23], out[23];
    for (int i = 0; i < 23; i++) in[i] = (char)__ai_bits("in", 1);
    __ai_uninit(out, 23);
    int n = mbe_golay2312(in, out);
    __ai_range_i(n, 0, 12, "mbe_golay2312: count out of range");
    __ai_init(out, 23, "mbe_golay2312: output not fully written");
}
static void one_ham(int which, const char cw[15], int e) {
    char in[15], out[15];
    memcpy(in, cw, 15);
    if (e >= 0) in[e] ^= 1;
    __ai_uninit(out, 15);
    __ai_freeze(in, 15);
    int n = which ? mbe_7100x4400hamming1511(in, out) : mbe_hamming1511(in, out);
    __ai_thaw();
    __ai_same_mem(out, cw, 15, which ? "mbe_7100x4400hamming1511: a single-bit error is not corrected" : "mbe_hamming1511: a single-bit error is not corrected");
    __ai_assert(n == (e >= 0), which ? "mbe_7100x4400hamming1511: wrong error count" : "mbe_hamming1511: wrong error count");
}
int hamming_parts(void) { return 2; }
void hamming(int part) {
    char d[11], cw[15];
    for (int i = 0; i < 11; i++) d[i] = (char)__ai_bits("data", 1);
    ref_ham_encode(part ? H2 : H1, d, cw);
    for (int e = -1; e < 15; e++) one_ham(part, cw, e);
}
