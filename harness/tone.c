/* Tone synthesis against the published tone plan: one partition per tone index, every other parameter bit and both phases symbolic. */
#include "ref.h"
#include <math.h>
#define CLIP ((32767.0f * 0.95f) / 7.0f)
/* published frequency pairs, indices 128..163, in Hz */
static const short pair[36][2] = {
    {1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852}, {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770},
    {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941}, {1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743},
    {1162, 743}, {1279, 743}, {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820}, {440, 350}, {480, 440}, {620, 480}, {490, 350}};
static unsigned step_of(double f) { return (unsigned)(f / 8000.0 * 4294967296.0 + 0.5); }
static float wave(unsigned ph) { return sinf((float)((double)ph * (2.0 * 3.14159265358979323846 / 4294967296.0) - 3.14159265358979323846 / 2.0)); }
static void silence(float* o) { for (int i = 0; i < 160; i++) o[i] = 0.0f; }
/* id: tone index; ad: amplitude index; dstar: only the single tones exist */
static void ref_tone(float* o, mbe_parms* c, int id, int ad, int dstar) {
    unsigned s1 = 0, s2 = 0, p1 = (unsigned)c->swn, p2 = (unsigned)c->un;
#ifdef DISABLE_AMBE_TONES
    silence(o); return;
#endif
    if (id >= 5 && id <= 122) s1 = step_of(31.25 * id);
    else if (!dstar && id >= 128 && id <= 163) { s1 = step_of(pair[id - 128][0]); s2 = step_of(pair[id - 128][1]); }
    else { silence(o); return; }
    float g = (float)ad / 127.0f * CLIP;
    for (int n = 0; n < 160; n++) {
        p1 += s1; p2 += s2;
        o[n] = s2 ? 0.5f * g * wave(p1) + 0.5f * g * wave(p2) : g * wave(p1);
    }
    c->swn = (int)p1; c->un = (int)p2;
}
static void same(const float* o, const float* r, const mbe_parms* a, const mbe_parms* b) {
    for (int i = 0; i < 160; i++) __ai_same_f(o[i], r[i], "tone: an output sample is not the published tone");
    __ai_same_i(a->swn, b->swn, "tone: phase of the first oscillator"); __ai_same_i(a->un, b->un, "tone: phase of the second oscillator");
    __ai_same_mem(a, b, sizeof *a, "tone: another field of the model changes");
}
int tone_parts(void) { return 256 + 256 + 4; }
void tone(int p) {
    mbe_parms c, r; char d[49]; float o[164], q[160];
    havoc_parms(&c, 1, 56); sym_bits(d, 49, "d"); for (int i = 0; i < 164; i++) o[i] = __ai_float("stale", -9, 9);
    float g0 = o[0], g1 = o[1], g2 = o[162], g3 = o[163];
    __ai_uninit(o + 2, 640); r = c;
    int ad = d[6] * 64 + d[7] * 32 + d[8] * 16 + d[9] * 8 + d[10] * 4 + d[11] * 2 + d[44];
    if (p < 256) {
        for (int i = 0; i < 8; i++) d[12 + i] = (char)(p >> (7 - i) & 1);
        __ai_freeze(d, 49); mbe_synthesizeTonef(o + 2, d, &c); ref_tone(q, &r, p, ad, 0); same(o + 2, q, &c, &r);
    } else if (p < 514) {
        int id = p < 512 ? p - 256 : p == 512 ? -1 : 1000; __ai_freeze(d, 49);
        mbe_synthesizeTonefdstar(o + 2, d, &c, id); ref_tone(q, &r, id, 103, 1); same(o + 2, q, &c, &r);
    } else {
        int id = p == 514 ? __ai_int("id", INT_MIN, 4) : __ai_int("id", 123, INT_MAX); __ai_freeze(d, 49);
        mbe_synthesizeTonefdstar(o + 2, d, &c, id); silence(q); same(o + 2, q, &c, &r);
    }
    __ai_init(o + 2, 640, "tone: an output sample is never written");
    __ai_assert(o[0] == g0 && o[1] == g1 && o[162] == g2 && o[163] == g3, "tone: writes outside the 160 samples");
}
