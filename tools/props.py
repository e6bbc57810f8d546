PROPS = []
def P(id, title, statement, over, for_all, tests, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mech=mech); d.update(kw); PROPS.append(d)

ECC = "src/ecc/ecc.c"; A24 = "src/ambe/ambe3600x2400.c"; A45 = "src/ambe/ambe3600x2450.c"; AC = "src/ambe/ambe_common.c"
I72 = "src/imbe/imbe7200x4400.c"; I71 = "src/imbe/imbe7100x4400.c"; LIB = "src/core/mbelib.c"; AD = "src/core/mbe_adaptive.c"; UV = "src/core/mbe_unvoiced_fft.c"
HDR = "include/mbelib-neo/mbelib.h"

P("C01", "Golay (23,12) decoding corrects every pattern of up to three errors",
  "Decoding any transmitted (23,12) Golay codeword with at most three bits in error anywhere in the block yields exactly the transmitted twelve data bits. The returned count is the number of data bits that were wrong, and the received block is not modified.",
  ["inputs"], "all 4096 messages x all 2048 error patterns of weight at most 3, and arbitrary received words for the read-only part",
  "Tests decode a handful of codewords with one or two flips; one wrong entry among the 2048 syndromes goes unnoticed.",
  [ECC, "src/ecc/ecc_const.c"], [("syndrome computation and table correction", ECC), ("syndrome to error mask table", "src/ecc/ecc_const.c")])
P("C02", "Hamming (15,11) decoding corrects every single-bit error, both variants",
  "Decoding any codeword of either (15,11) code with at most one bit in error yields the transmitted codeword. The returned count is one exactly when a bit was wrong.",
  ["inputs"], "all 2048 messages x 16 error patterns x 2 codes", "Tests flip one bit of one word; other positions of either code are not sampled.",
  [ECC], [("syndrome to position lookup for the two parity matrices", ECC)])
P("C03", "First-block correction inside every frame format recovers the C0 bits",
  "For each of the four frame formats, first-block correction recovers the transmitted data bits from at most three channel errors in the protected bits and reports the number of data bits corrected. The extended block's parity bit is handled as documented, and no other part of the frame changes.",
  ["inputs"], "all frame contents x all error patterns of weight at most 3 in the first block x 4 formats", "Tests run zero frames and a few golden frames; block boundaries, shortening and parity corner cases are not covered.",
  [AC, I72, I71], [("AMBE C0 correction with parity bit", AC), ("IMBE C0 correction", I72), ("shortened C0 correction", I71)])
P("C04", "Data-block correction and parameter packing recover the transmitted bits",
  "For each frame format, correcting the remaining protected blocks and packing the result yields exactly the transmitted parameter bits in the documented order, every output bit being written. The returned count equals the number of corrected bits.",
  ["inputs"], "all frame contents x correctable error patterns of every protected block x 4 formats", "Tests only use all-zero or golden frames, so permutations that agree on those go unnoticed.",
  [AC, I72, I71], [("AMBE data correction and packing", AC), ("IMBE 7200 data correction and packing", I72), ("IMBE 7100 data correction and packing", I71)])
P("C05", "Descrambling applies exactly the published keystream for every seed",
  "For each format, descrambling XORs the scrambled blocks with the pseudo-random sequence seeded by the first block's data bits, and leaves every other bit of the frame untouched.",
  ["inputs"], "all seeds (4096, or 128 for the shortened block) x all frame contents x 4 formats", "Golden frames sample a few seeds only.",
  [AC, I72, I71], [("AMBE keystream", AC), ("IMBE 7200 keystream over six blocks", I72), ("IMBE 7100 keystream over five blocks", I71)])
P("C07", "7100-to-7200 conversion reorders every parameter bit correctly",
  "Converting an IMBE 7100 parameter block to the 7200 layout places every one of the 88 bits at its published position for the harmonic count implied by the pitch field.",
  ["inputs"], "all 2^88 parameter blocks", "Tests convert a couple of vectors; the reordering depends on the pitch index through the band count.",
  [I71], [("bit reordering", I71)])
STATE = [("mbe_parms current/previous/enhanced", "the three per-stream models", HDR), ("errorRate, errorCountTotal, errorCount4, repeatCount, mutingThreshold", "frame-quality bookkeeping", HDR)]
PROC = [A24, A45, I72, I71, AC]
PM = [("AMBE 2450 frame processing", A45), ("AMBE 2400 frame processing", A24), ("IMBE 4400 frame processing", I72), ("IMBE 7100 frame processing", I71)]
P("C08", "Whole-frame entry points report the true error counts and parameter bits",
  "For every frame format, decoding a whole received frame with a correctable error pattern returns the transmitted parameter bits, the number of corrections in the first block and the total over all blocks. The same frame then drives the same decoding as handing those bits and counts to the parameter entry point.",
  ["inputs"], "all payloads x all correctable error patterns of the partitioned weights x 4 formats x float and 16-bit entry points",
  "Golden frames are error free; the interplay of block counts and the frame decision is sampled at a few points.", PROC, PM, state=STATE)
P("C11", "A good voice frame updates the three models exactly as documented",
  "On a frame that decodes cleanly, the decoded model becomes the previous model before enhancement, the enhanced and synthesized model becomes the enhanced model, repeat state is cleared, and synthesis sees the enhanced current model with the previously enhanced one. No other state carries over.",
  ["inputs", "histories"], "all states of the three models x all voice frames of each codec", "Unit tests look at a few fields after one or two frames from a fresh state.", PROC, PM, state=STATE)
P("C12", "Frames over the error threshold repeat the previous model, with a bounded run",
  "A frame whose corrected errors exceed the codec's documented threshold (or whose pitch index is unusable) is replaced by the previous model and counted. After the documented number of consecutive repeats the decoder mutes and resets rather than repeating forever.",
  ["inputs", "histories"], "every error count at and around each threshold x all model states x 4 codecs", "Tests take one count on each side at most, from a fresh state.", PROC, PM, state=STATE)
P("C13", "Erasure frames mute with a neutral model and keep synthesis continuity",
  "An AMBE erasure frame outputs comfort noise, installs the neutral erasure model in all three models, clears repeat state, and carries phases and unvoiced-noise history over from the previous frame.",
  ["inputs", "histories"], "all model states x all erasure codings of the AMBE 2450 codec", "Tests check a handful of fields for one erasure code.", [A45, AC], [("erasure model", AC), ("erasure branch", A45)], state=STATE)
P("C14", "Tone frames are recognised and routed by the documented rules",
  "A frame is rendered as a tone exactly when the documented tone signature, tone index and error-count limits hold. Any other tone-like frame falls back to the documented repeat, comfort noise or reset, and the three models are left as documented.",
  ["inputs", "histories"], "all tone codes and signatures x error counts around every limit x all model states", "Tests render a few valid tones with zero errors.", [A24, A45], [("tone verification and routing", A45), ("tone decoding and routing", A24)], state=STATE)
P("C16", "The status string marks every corrected error and the frame's fate",
  "The status string consists of one '=' per counted error followed by the documented markers for tone, erasure, repeat and mute, and is always terminated, with nothing written beyond the terminator.",
  ["inputs", "histories"], "all error counts from negative to 33 at each decision x every frame class x 4 codecs", "Tests look at the string of a few frames.", PROC, PM)
P("C17", "Error metrics follow the documented recurrence on every frame",
  "On every frame that is not a repeat or reset, the error rate follows the codec's documented first-order recurrence from the previous model and the frame's error total, the counts are those of the frame, and the codec's muting threshold is in force.",
  ["inputs", "histories"], "all previous error rates, all error counts partitioned around every threshold, 4 codecs", "Tests compute the recurrence for a few frames from a fresh state.", PROC, PM, state=STATE)
P("C22", "The 16-bit entry points return the conversion of the float entry points",
  "Every 16-bit synthesis and processing entry point leaves the same state as its float twin and returns exactly the documented conversion of the float samples, all 160 of them.",
  ["inputs"], "all frames and states, every pair of 16-bit and float entry points", "Tests compare pairs on one or two frames.", PROC + [LIB], PM + [("speech, comfort-noise and silence wrappers", LIB)])
P("C27", "Quality argument and incoming counts are inert, inputs are read-only",
  "The legacy unvoiced-quality argument and the incoming value of the output-only counters never influence samples, status or state, and parameter bits and counts passed as inputs are never modified by the parameter entry points.",
  ["inputs"], "all argument values and frames", "Tests pass one value.", PROC, PM)
P("C18", "Initialisation and model copies set or transfer the complete state",
  "Initialising a stream sets every field of the three models to the documented defaults whatever they held before. The two copy operations transfer the complete state and leave the source untouched.",
  ["inputs", "histories"], "all contents of the three models before the call", "Tests look at a few fields.", [LIB, AC], [("initialisation", LIB), ("copies", LIB)], state=STATE)
P("C19", "Adaptive smoothing follows the documented thresholds and recurrences",
  "For all amplitudes, error metrics and previous state, adaptive smoothing updates local energy and amplitude threshold by the documented recurrences, forces voicing only above the documented threshold, scales amplitudes only when their sum exceeds the amplitude threshold, and changes nothing else.",
  ["inputs", "histories"], "every harmonic count x every error regime x symbolic amplitudes, energies and thresholds", "Tests evaluate a few concrete frames; boundary regimes and saturation are not reached.",
  [AD], [("adaptive smoothing", AD)], state=[("localEnergy, amplitudeThreshold", "recursive smoothing state", HDR)])
P("C23", "Float to 16-bit conversion saturates, zeroes NaN and agrees across builds",
  "Every float sample is scaled by 7, limited to 95% of full scale and truncated; samples beyond the limit saturate with the right sign, NaN becomes 0. The scalar and SIMD builds give the same 16-bit value, and exactly 160 outputs are written.",
  ["inputs", "configurations"], "all float values of every lane, scalar and SIMD builds", "Tests convert a few values on the build host's path only.", [LIB], [("scalar conversion", LIB), ("SSE2 conversion", LIB)])
P("C32", "The reported version is the one the build declares",
  "The version string, the version macro and the version written into a caller's buffer all equal the version declared by the build, with exactly that many bytes and a terminator written.",
  ["inputs", "configurations"], "any previous buffer content, any declared version", "Tests check for a non-empty string.", [LIB, "include/mbelib-neo/version.h.in", "CMakeLists.txt"], [("version functions", LIB)])
P("C38", "Quality predicates answer by their documented thresholds",
  "The muting, repeat-limit and smoothing predicates answer exactly by their documented thresholds for every metric value including NaN and extremes, answer no for a null model, and never modify the model.",
  ["inputs"], "all metric values", "Tests evaluate a few values on each side.", [AD], [("predicates", AD)])
P("C39", "Silence and comfort-noise writers produce exactly one frame",
  "The silence entry points write exactly 160 zero samples and nothing around them.",
  ["inputs"], "any surrounding memory", "Tests do not look beyond the frame.", [LIB], [("silence", LIB)])

DECT = "Golden frames exercise a few pitch indices and table rows; a wrong entry, bit position or coefficient elsewhere goes unnoticed."
P("C06", "IMBE parameters decode to the published model for every frame",
  "Decoding IMBE parameter bits yields the published fundamental, harmonic and band counts, voicing decisions, gain, DCT coefficients and predicted spectral amplitudes for every bit pattern and every previous spectrum. Reserved pitch codes are rejected and leave the model as documented.",
  ["inputs", "histories"], "all 2^88 parameter blocks x all previous spectra (every previous harmonic count in the thorough tier)", DECT,
  [I72, "src/internal/imbe7200x4400_const.h"], [("dequantisation", I72), ("quantiser tables and bit allocation", "src/internal/imbe7200x4400_const.h")], state=[("log2Ml, L", "previous spectrum used for prediction", HDR)])
P("C09", "AMBE 2450 parameters decode to the published model for every frame",
  "Decoding AMBE 2450 parameter bits yields the published fundamental, harmonic count, voicing, differential gain, PRBA and higher-order coefficients and predicted spectral amplitudes for every bit pattern and previous spectrum. Silence, erasure and tone codings are classified as documented.",
  ["inputs", "histories"], "all 2^49 parameter blocks x all previous spectra (every previous harmonic count in the thorough tier)", DECT,
  [A45, "src/internal/ambe3600x2450_const.h"], [("dequantisation", A45), ("quantiser tables", "src/internal/ambe3600x2450_const.h")], state=[("log2Ml, L, gamma", "previous spectrum used for prediction", HDR)])
P("C10", "AMBE 2400 (D-STAR) parameters decode to the published model for every frame",
  "Decoding AMBE 2400 parameter bits yields the published fundamental, harmonic count, voicing, differential gain, PRBA and higher-order coefficients and predicted spectral amplitudes for every bit pattern and previous spectrum. Tone codings yield the documented tone index.",
  ["inputs", "histories"], "all 2^49 parameter blocks x all previous spectra (every previous harmonic count in the thorough tier)", DECT,
  [A24, "src/internal/ambe3600x2400_const.h"], [("dequantisation", A24), ("quantiser tables", "src/internal/ambe3600x2400_const.h")], state=[("log2Ml, L, gamma", "previous spectrum used for prediction", HDR)])

P("C40", "Spectral enhancement applies the published clamped weights, keeping energy",
  "For all amplitudes and pitches, spectral enhancement multiplies each harmonic above the lowest eighth by the published weight clamped to [0.5, 1.2], then rescales all amplitudes to the energy before enhancement. Zero amplitudes, a zero pitch and energies beyond float range keep the amplitudes finite, no other field changes, and adaptive smoothing of that model uses the energy from before enhancement.",
  ["inputs", "configurations"], "every harmonic count x symbolic amplitudes and pitch, scalar and SIMD builds", "Tests enhance one or two spectra and look at coarse effects.",
  [LIB, AD], [("spectral enhancement, scalar and SIMD sums", LIB), ("pre-enhancement energy hand-off", AD)], state=[("pre-enhancement energy", "thread-local energy of the model enhanced last", AD)])

P("C15", "Tone synthesis renders the published tone for every index and amplitude",
  "For every tone index and amplitude code, tone synthesis outputs the published single or dual sinusoid at 8 kHz with the published gain, continuing both oscillator phases seamlessly across frames. Undefined indices give silence and leave the phases alone, and nothing else in the model or around the buffer changes.",
  ["inputs", "histories"], "all 256 indices x all amplitude codes x all phases, both tone entry points", "Tests render a few indices from phase zero and look at coarse energy.",
  [LIB], [("tone frequency table and renderer", LIB)], state=[("swn, un", "oscillator phases carried across frames", HDR)])
P("C33", "A build without tones renders silence for every tone and keeps the state",
  "When the library is built with tone synthesis disabled, both tone entry points write exactly 160 zero samples for every parameter block and index, and leave the model unchanged.",
  ["inputs", "configurations"], "all parameter blocks, indices and model contents, build option DISABLE_AMBE_TONES", "The test suite is built with one setting of the option.",
  [LIB], [("build option in the tone entries", LIB)])
P("C26", "Noise generators follow the published sequences from any seed",
  "After seeding, comfort noise is the published 48-bit linear congruential sequence scaled to 0.3 percent of full scale, and unvoiced noise is the published modulo-53125 sequence with 96 samples of overlap carried in the model. A zero seed is replaced by the documented constant, a seed primes exactly the next cold start, and unseeded streams use the documented defaults.",
  ["inputs", "histories"], "all seeds, all generator states, consecutive frames", "Tests compare two runs of the same build, which agree whatever the sequence is.",
  [AD, UV, LIB], [("comfort-noise generator", AD), ("unvoiced-noise generator and overlap", UV), ("seeding", LIB)], state=[("noiseSeed, noiseOverlap", "unvoiced generator state carried in the model", HDR)])
P("C36", "Unvoiced synthesis scales windowed noise per band as published",
  "For every fundamental the codecs can transmit and all amplitudes, unvoiced synthesis windows the noise, scales each unvoiced band to the published gain, clears all other bands, and adds the inverse transform to the preceding frame's by weighted overlap-add. The stored overlap is this frame's signal, and bands without energy stay silent instead of dividing by zero.",
  ["inputs", "histories", "configurations"], "every codec pitch and some beyond x symbolic noise, amplitudes, overlap; both builds; transform decided separately", "Tests look at energy and determinism of a few frames.",
  [UV, LIB], [("windowed noise, band scaling, overlap-add", UV), ("unvoiced part of frame synthesis", LIB)], state=[("previousUw", "unvoiced signal of the preceding frame", HDR)])
P("C37", "Voiced synthesis evolves phases and harmonics as published",
  "For all model pairs, voiced synthesis advances each harmonic's phase by the mean of both pitches, jitters it above the lowest quarter by the noise, and renders each harmonic by the published interpolated or windowed oscillators, clipped to the documented limit. Harmonics present in only one model fade, and phases stay continuous across frames.",
  ["inputs", "histories", "configurations"], "every harmonic count x symbolic pitches, amplitudes, phases; partitions of voicing, scalar and SIMD builds", "Tests synthesize a few models and look at coarse signal features.",
  [LIB, UV], [("voiced synthesis and phase update, scalar and SIMD", LIB), ("noise used for phase jitter", UV)], state=[("PSIl, PHIl", "harmonic phases carried across frames", HDR)])
P("C41", "The 256-point real transform and its inverse are the DFT",
  "Forward and inverse ordered transforms used by unvoiced synthesis produce, for every input, the 256-point discrete Fourier transform in the documented half-complex order and its unnormalised inverse, in the scalar and the SIMD build.",
  ["inputs", "configurations"], "all inputs (linear map on symbolic inputs), both directions and builds", "Tests hear the transform only through synthesized noise.",
  ["src/external/pffft/pffft.c"], [("real FFT passes and ordering", "src/external/pffft/pffft.c")])
P("C42", "Frames past the repeat or error limits are muted to comfort noise",
  "Speech synthesis of a model past the repeat limit, or above its error-rate limit under IMBE thresholds, outputs comfort noise at every harmonic count and pitch and leaves phases, noise and overlap state alone, so that speech resumes from the preceding state. Every other model is synthesized.",
  ["inputs", "histories"], "both sides of every limit x symbolic metrics, models", "Tests mute a few frames and look at energy.",
  [LIB, AD], [("muting decision in frame synthesis", LIB), ("mute predicates", AD)], state=[("repeatCount, errorRate, mutingThreshold", "metrics deciding muting", HDR)])

P("C20", "Every frame is decoded without memory or arithmetic errors, in range",
  "From the initial state and any sequence of frames with any bits and error counts, no entry point reads or writes out of bounds, uses uninitialised data, divides by zero or overflows. Each frame yields exactly 160 samples within the documented amplitude range, harmonic counts, voicing, repeat counters and noise state stay in their documented ranges.",
  ["inputs", "histories"], "all parameter blocks and error counts x all reachable models (by an inductive invariant), every codec, scalar and SIMD builds", "Sanitized tests decode a few dozen frames.",
  PROC + [LIB, AD, UV, ECC], PM + [("synthesis", LIB), ("unvoiced synthesis", UV)], state=STATE)
P("C29", "Failed allocations only cost the unvoiced part of the frame",
  "When any allocation made during synthesis fails, the frame is the voiced synthesis with every other field as usual, nothing is leaked, and the next frame with memory available is complete again.",
  ["faults", "histories"], "each allocation of the transform plan failing, and all of them, scalar and SIMD builds", "Tests never make an allocation fail.",
  [LIB, UV, "src/external/pffft/pffft.c"], [("transform plan allocation", UV), ("per-thread plan", LIB), ("transform setup", "src/external/pffft/pffft.c")], state=[("per-thread transform plan", "allocated on first use", LIB)])
P("C43", "Streams decoded on one thread do not influence each other",
  "Decoding frames of one stream never changes what the library computes for another stream on the same thread, whatever codecs and frame classes are interleaved. Only the noise generators, which seeding fixes, are shared.",
  ["histories"], "all interleavings of codecs and frame classes of any length x all models and parameter bits", "Tests decode one stream at a time, for a few frames.",
  PROC + [LIB, AD, UV], PM + [("per-thread caches and hand-off state", AD)], state=[("DCT caches, transform plan, pre-enhancement energy", "thread-local library state", AD)])
P("C24", "Threads share no mutable library state",
  "Decoding on one thread never affects or races with decoding on another: all mutable library state is per thread, seeding included, and a stream's results are the same whatever other threads do.",
  ["schedules"], "all interleavings (no shared mutable state exists), all configurations", "Tests run on one thread.",
  PROC + [LIB, AD, UV], [("seeding", LIB), ("comfort noise, hand-off", AD), ("unvoiced seeds", UV), ("DCT caches", A45)], state=[("all library globals", "thread-local", LIB)])
P("C25", "Results depend only on arguments, models and seeds",
  "No entry point reads the environment, clock, files or other ambient state, prints (except the dump functions) or ends the process, and no result depends on uninitialised memory or on where the heap places blocks.",
  ["inputs", "configurations"], "all call paths from the public entry points, four build configurations", "Tests cannot observe what is not exercised.",
  PROC + [LIB, AD, UV, ECC], PM + [("public entry points", LIB)])
P("C31", "The binary interface stays that of the major version",
  "Programs compiled against this major version keep working: every public function stays declared, exported and of the same type with C linkage, and the model structure keeps its size and the type and offset of every field.",
  ["configurations"], "all public functions and all fields of the model", "Tests are recompiled with every change.",
  [HDR, LIB], [("public interface", HDR)])
P("C30", "Diagnostic dumps print every bit of the frame once, in frame order",
  "The public dump functions print each bit of the parameter block or frame exactly once as a digit, blocks in transmission order and each block's high bit first, read only bits the format has, and modify nothing. Spacing is free.",
  ["inputs"], "all 2^88 parameter blocks and all frames, both IMBE formats", "No test reads what is printed.",
  [I72, I71], [("IMBE 7200 dumps", I72), ("IMBE 7100 dumps", I71)])
P("C21", "NULL arguments are refused without effect where they are accepted",
  "The writers, predicates and smoothing entry points that accept NULL return without touching memory, changing the other argument or advancing the noise generator; predicates answer no.",
  ["inputs", "histories"], "each NULL argument x all contents of the other argument, every seed", "Tests pass NULL to a few of them once.",
  [LIB, AD], [("silence, version", LIB), ("predicates, comfort noise, smoothing", AD)])
P("C28", "Debug-log and strict-order builds decode exactly as the plain build",
  "Enabling the debug logs or the reserved strict-order option changes nothing about results: parameter decoding, frame processing and 16-bit conversion give the documented models, counts, status strings and samples, and logging reads only defined data.",
  ["inputs", "configurations"], "all parameter blocks, previous models, frames and error counts, in both builds", "Tests are not run in these builds.",
  PROC + [LIB, "CMakeLists.txt"], PM)
P("C34", "After a thread's first frame, decoding allocates nothing and stack is bounded",
  "The first synthesized frame of a thread allocates the transform plan once. No later frame of any codec, class or stream on that thread allocates or releases memory, and every entry point runs without recursion, within a fixed stack bound.",
  ["histories", "inputs"], "all pairs of codecs and frame classes after the first frame x all models and parameter bits; all call paths of four build configurations",
  "Tests do not count allocations, and a leak on one frame class or a rare path only shows after hours of decoding.", [UV, LIB, "src/external/pffft/pffft.c"] + PROC, [("per-thread transform plan", UV), ("plan use during synthesis", LIB)], state=[("thread-local transform plan", "allocated on first use, kept for the thread's life", UV)])
P("C35", "Scalar and SIMD builds give the same 16-bit samples up to rounding",
  "For every stream, the PCM of the SIMD build differs from that of the scalar build by no more than one unit per sample over the whole stream.",
  ["inputs", "histories", "configurations"], "all streams of any length", "Tests compare a few frames.", [LIB, UV], [("SIMD and scalar synthesis loops", LIB), ("SIMD overlap-add", UV)],
  na="Needs a bound on float rounding accumulated through trigonometric recurrences, a transform and feedback over unbounded histories; the real-number equality of each build with the same reference is decided by C36, C37, C40 and C41, but no static argument in reach bounds the rounding to one unit.")
P("C44", "Decoding one frame fits its 20 ms real-time budget",
  "Processing and synthesizing one frame of any codec takes less than 20 ms on the supported hardware.",
  ["inputs"], "all frames and models on all supported hardware", "Benchmarks measure typical frames.", [LIB, UV], [("frame synthesis", LIB)],
  na="Wall-clock time depends on the hardware and on clang's code generation, which the IR does not determine. That every loop of a frame is bounded (the analyses of C20 run each to its end) and that no allocation or recursion occurs (C34) is decided.")
P("C45", "Speech quality equals that of the JMBE decoder",
  "Decoded speech is perceptually indistinguishable from that of JMBE for the same channel bits.",
  ["inputs", "histories"], "all voice traffic", "The tests hold a few golden samples.", [LIB, UV, AD], [("synthesis", LIB), ("unvoiced synthesis", UV)],
  na="Perceptual equivalence is not a property of the source; the published equations each stage must follow are decided by C06, C09, C10, C19, C36, C37 and C40.")
