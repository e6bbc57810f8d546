/* Reference definitions of the frame state machine, written from the documented decoder behaviour. */
#ifndef REF_H
#define REF_H
#include "common.h"
#define PI_D 3.14159265358979323846
static void ref_defaults(mbe_parms* p, float w0, int L, int K, float mute) {
    p->swn = 0; p->un = 0; p->w0 = w0; p->L = L; p->K = K; p->gamma = 0.0f;
    for (int l = 0; l < 57; l++) { p->Ml[l] = 1.0f; p->Vl[l] = 0; p->log2Ml[l] = 0.0f; p->PHIl[l] = 0.0f; p->PSIl[l] = 0.0f; }
    p->repeat = 0; p->localEnergy = 75000.0f; p->amplitudeThreshold = 20480; p->errorRate = 0.0f; p->errorCountTotal = 0; p->errorCount4 = 0;
    p->repeatCount = 0; p->mutingThreshold = mute; p->noiseSeed = -1.0f;
    for (int i = 0; i < 96; i++) p->noiseOverlap[i] = 0.0f;
    for (int i = 0; i < 256; i++) p->previousUw[i] = 0.0f;
}
static void ref_init_ambe(mbe_parms* a, mbe_parms* b, mbe_parms* c) {
    ref_defaults(b, (float)((PI_D / 32.0) * (2.0 * PI_D)), 15, 0, 0.096f);
    *a = *b; *c = *b;
}
static void ref_init_imbe(mbe_parms* a, mbe_parms* b, mbe_parms* c) {
    float w0 = (float)((4.0 * PI_D) / (134.0 + 39.5));
    ref_defaults(b, w0, (int)(0.9254 * (int)((PI_D / w0) + 0.25)), 12, 0.0875f);
    *a = *b; *c = *b;
}
/* erasure: neutral model, phases and noise state carried over from the previous frame */
static void ref_erasure(mbe_parms* m, const mbe_parms* prev) {
    m->swn = 0; m->un = 0; m->w0 = 0.0f; m->L = 9; m->K = 0; m->gamma = 0.0f;
    for (int l = 0; l < 57; l++) { m->Ml[l] = 1.0f; m->Vl[l] = 0; m->log2Ml[l] = 0.0f; m->PHIl[l] = prev->PHIl[l]; m->PSIl[l] = prev->PSIl[l]; }
    m->localEnergy = 75000.0f; m->amplitudeThreshold = 20480; m->noiseSeed = prev->noiseSeed;
    for (int i = 0; i < 96; i++) m->noiseOverlap[i] = prev->noiseOverlap[i];
    for (int i = 0; i < 256; i++) m->previousUw[i] = prev->previousUw[i];
}
#endif
