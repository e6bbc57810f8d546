#ifndef COMMON_H
#define COMMON_H
#include "ai.h"
#include <string.h>
#include <limits.h>
#include "mbelib-neo/mbelib.h"
#define BIGF 3.4028234e38f
#define INFF (__builtin_inff())
#ifdef MBE_DEBUG /* what a build with debug logs prints is of no interest, only that its arguments are defined */
#define QUIET() __ai_print_ignore()
#else
#define QUIET() (void)0
#endif
/* a parameter structure about which only the documented field ranges are known */
static void havoc_parms(mbe_parms* p, int Llo, int Lhi) {
    QUIET();
    p->w0 = __ai_float_nan("w0", -INFF, INFF);
    p->L = __ai_int("L", Llo, Lhi);
    p->K = __ai_int("K", 0, 56);
    for (int i = 0; i < 57; i++) {
        p->Vl[i] = __ai_int("Vl", 0, 1);
        p->Ml[i] = __ai_float_nan("Ml", -INFF, INFF);
        p->log2Ml[i] = __ai_float_nan("log2Ml", -INFF, INFF);
        p->PHIl[i] = __ai_float_nan("PHIl", -INFF, INFF);
        p->PSIl[i] = __ai_float_nan("PSIl", -INFF, INFF);
    }
    p->gamma = __ai_float_nan("gamma", -INFF, INFF);
    p->un = __ai_int("un", INT_MIN, INT_MAX);
    p->repeat = __ai_int("repeat", 0, 1000);
    p->swn = __ai_int("swn", INT_MIN, INT_MAX);
    p->localEnergy = __ai_float_nan("localEnergy", -INFF, INFF);
    p->amplitudeThreshold = __ai_int("amplitudeThreshold", INT_MIN, INT_MAX);
    p->errorRate = __ai_float_nan("errorRate", -INFF, INFF);
    p->errorCountTotal = __ai_int("errorCountTotal", 0, 64);
    p->errorCount4 = __ai_int("errorCount4", 0, 64);
    p->repeatCount = __ai_int("repeatCount", 0, 1000);
    p->mutingThreshold = __ai_float_nan("mutingThreshold", -INFF, INFF);
    for (int i = 0; i < 256; i++) p->previousUw[i] = __ai_float_nan("previousUw", -INFF, INFF);
    p->noiseSeed = __ai_float_nan("noiseSeed", -INFF, INFF);
    for (int i = 0; i < 96; i++) p->noiseOverlap[i] = __ai_float_nan("noiseOverlap", -INFF, INFF);
}
static void sym_bits(char* d, int n, const char* name) { QUIET(); for (int i = 0; i < n; i++) d[i] = (char)__ai_bits(name, 1); }
#endif
