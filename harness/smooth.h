/* Reference adaptive smoothing. */
#ifndef SMOOTH_H
#define SMOOTH_H
#include <float.h>
static void ref_smooth(mbe_parms* c, const mbe_parms* p, int given, float rm0) {
    float R = 0.0f; if (given) R = rm0; else for (int l = 1; l <= c->L; l++) R += c->Ml[l] * c->Ml[l];
    float pe = p->localEnergy; if (pe < 10000.0f) pe = 75000.0f;
    float e = 0.95f * pe + 0.05f * R; if (e < 10000.0f) e = 10000.0f; c->localEnergy = e;
    float er = c->errorRate; float vm;
    if (er <= 0.005f && c->errorCountTotal <= 4) vm = FLT_MAX;
    else {
        float x = __builtin_sqrtf(__builtin_sqrtf(__builtin_sqrtf(e))), q = x * x * x;
        if (er <= 0.0125f && c->errorCount4 == 0) vm = (45.255f * q) / __builtin_expf(277.26f * er); else vm = 1.414f * q;
    }
    for (int l = 1; l <= c->L; l++) if (c->Ml[l] > vm) c->Vl[l] = 1;
    float am = 0.0f; for (int l = 1; l <= c->L; l++) am += c->Ml[l];
    int pt = p->amplitudeThreshold; if (pt <= 0) pt = 20480; if (pt > INT_MAX - 6000) pt = INT_MAX - 6000;
    int tm = er <= 0.005f && c->errorCountTotal <= 6 ? 20480 : 6000 - 300 * c->errorCountTotal + pt;
    c->amplitudeThreshold = tm;
    if (am > (float)tm && am > 0.0f) { float sc = (float)tm / am; for (int l = 1; l <= c->L; l++) c->Ml[l] *= sc; }
}
#endif
