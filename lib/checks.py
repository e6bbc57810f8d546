"""The registry: what each property's check runs, which findings decide it, and what it must have reached."""
import rules


def R(h, e, cfg="scalar", **kw):
    d = {"h": h, "e": e, "cfg": cfg}; d.update(kw); return d


CHECKS = {}


def check(pid, **kw):
    own = kw.get("own", ("assert", "abort", "unreachable"))
    kw["own"] = own if "uninit" in own or not kw.get("runs") else own + ("uninit",)   # what depends on memory never written is not determined
    CHECKS[pid] = kw


check("C01", level="proof", runs=[R("ecc.c", "golay"), R("ecc.c", "golay_any")], must_reach=["mbe_golay2312"], floor=40000,
      technique="abstract interpretation (bit-level GF(2) forms), partition over error patterns",
      rule="For all 4096 messages at once (12 symbolic data bits) and each of the 2048 error patterns of weight <=3, the abstract value of every decoded bit must be the GF(2) form of the transmitted data bit; the count must equal the number of wrong data bits; the input is read-only.")
check("C02", level="proof", runs=[R("ecc.c", "hamming")], must_reach=["mbe_hamming1511", "mbe_7100x4400hamming1511"], floor=400,
      technique="abstract interpretation (bit-level GF(2) forms), partition over error positions",
      rule="For all 2048 messages at once and each of the 16 error patterns of weight <=1, for both (15,11) codes, the decoded word must be the transmitted word and the count 0 or 1.")

check("C03", level="proof", runs=[R("frames.c", "ambe_c0"), R("frames.c", "imbe7200_c0"), R("frames.c", "imbe7100_c0")], floor=20000,
      must_reach=["mbe_eccAmbe3600x2400C0", "mbe_eccAmbe3600x2450C0", "mbe_eccImbe7200x4400C0", "mbe_eccImbe7100x4400C0"],
      technique="abstract interpretation (bit-level GF(2) forms), partition over error patterns",
      rule="For all contents of the frame at once (symbolic bits) and every error pattern of weight <=3 in the first block (2048 patterns for the 23-bit block, 988 for the shortened one), the corrected block must carry the transmitted data bits, the count must be the documented one, and every other row must keep its abstract value.")
check("C04", level="proof", runs=[R("frames.c", "ambe_data"), R("frames.c", "imbe7200_data"), R("frames.c", "imbe7100_data")], floor=20000,
      must_reach=["mbe_eccAmbe3600x2400Data", "mbe_eccAmbe3600x2450Data", "mbe_eccImbe7200x4400Data", "mbe_eccImbe7100x4400Data"],
      technique="abstract interpretation (bit-level GF(2) forms), partition over error patterns",
      rule="For all frame contents at once and partitions over the correctable error pattern of each protected block (each Golay block sees all 2048 patterns, each Hamming block all 16), the packed parameter bits must be the transmitted bits in the documented order, all of them written, and the returned count the number of corrected bits.")
check("C05", level="proof", runs=[R("frames.c", "ambe_demod"), R("frames.c", "imbe7200_demod"), R("frames.c", "imbe7100_demod")], floor=8000,
      must_reach=["mbe_demodulateAmbe3600x2400Data", "mbe_demodulateAmbe3600x2450Data", "mbe_demodulateImbe7200x4400Data", "mbe_demodulateImbe7100x4400Data"],
      technique="abstract interpretation (bit-level GF(2) forms), partition over keystream seeds",
      rule="For every keystream seed (4096 or 128) and all other frame bits symbolic, each output bit must be the input bit XOR the keystream bit of the published generator; bits outside the scrambled blocks keep their value.")
check("C07", level="proof", runs=[R("frames.c", "convert")], floor=256, must_reach=["mbe_convertImbe7100to7200"],
      technique="abstract interpretation (bit-level GF(2) forms), partition over the pitch index",
      rule="For each of the 256 pitch indices and the other 80 bits symbolic, each of the 88 output positions must hold exactly the input bit the published reordering assigns to it.")

ALLP = ["p2450", "p2400", "pimbe", "f2450", "f2400", "f7200", "f7100"]
FR = ["f2450", "f2400", "f7200", "f7100"]
PARAM_API = ["mbe_processAmbe2450Dataf", "mbe_processAmbe2400Dataf", "mbe_processImbe4400Dataf"]
FRAME_API = ["mbe_processAmbe3600x2450Framef", "mbe_processAmbe3600x2400Framef", "mbe_processImbe7200x4400Framef", "mbe_processImbe7100x4400Framef"]
SHORT_API = [a[:-1] for a in PARAM_API + FRAME_API]
AIT = "abstract interpretation of the frame entry points against a reference state machine, sound generators as uninterpreted functions"
SEMEQ = "Both sides run on one symbolic state (all fields of the three models unknown, payload bits symbolic); every observable (parameter bits, counts, status string, all fields of the three models, samples, noise state) must have the same abstract term. "


def sel(n, ents): return [R("proc.c", e, hdefs=("-DSEL=%d" % n,)) for e in ents]
def has(*subs): return lambda f: any(s in f["msg"] for s in subs)


check("C08", level="proof", runs=[R("proc.c", e) for e in FR], floor=100000, must_reach=FRAME_API + [a[:-1] for a in FRAME_API],
      technique=AIT + "; bit-level GF(2) forms for the codes",
      rule=SEMEQ + "A reference transmitter encodes symbolic payloads, channel errors of the partitioned weights are applied in every protected block, and the whole-frame entry must return the transmitted bits, the two counts and the reference state machine's results.")
check("C11", level="proof", runs=sel(1, ALLP), floor=100000, must_reach=PARAM_API + FRAME_API, technique=AIT,
      rule=SEMEQ + "Partitions: voice frames without enough errors to be repeated, for every pitch index.")
check("C12", level="proof", runs=sel(2, ALLP), floor=40000, must_reach=PARAM_API + FRAME_API, technique=AIT,
      rule=SEMEQ + "Partitions: frames at and beyond each repeat threshold and unusable pitch indices; repeat counters of the incoming models are symbolic, so the bound on consecutive repeats is decided for every history.")
check("C13", level="proof", runs=sel(3, ["p2450", "f2450"]), floor=5000, must_reach=["mbe_processAmbe2450Dataf", "mbe_processAmbe3600x2450Framef"], technique=AIT,
      rule=SEMEQ + "Partitions: every erasure coding.")
check("C14", level="proof", runs=sel(4, ["p2450", "p2400", "f2450", "f2400"]), floor=40000,
      must_reach=["mbe_processAmbe2450Dataf", "mbe_processAmbe2400Dataf", "mbe_processAmbe3600x2450Framef", "mbe_processAmbe3600x2400Framef"], technique=AIT,
      rule=SEMEQ + "Partitions: every tone code and signature variant with error counts around each limit.")
check("C16", level="proof", runs=[R("proc.c", e) for e in ALLP], floor=20000, must_reach=PARAM_API + FRAME_API + SHORT_API, only=has("status string"), technique=AIT,
      rule="The 72-byte status buffer (unknown before the call) must hold the reference string and its terminator, and every byte beyond must keep its incoming abstract value, in every partition of frame class x error count.")
check("C17", level="proof", runs=[R("proc.c", e) for e in ALLP], floor=20000, must_reach=PARAM_API + FRAME_API + SHORT_API, only=has("metric"), technique=AIT,
      rule="errorRate, errorCountTotal, errorCount4, mutingThreshold and repeatCount after the frame must have the abstract term of the documented recurrence in every partition of frame class x error count.")
check("C22", level="proof", runs=[R("proc.c", e) for e in ALLP + ["shorts"]], floor=20000,
      must_reach=SHORT_API + ["mbe_synthesizeSpeech", "mbe_synthesizeComfortNoise", "mbe_synthesizeSilence"], only=has("16-bit output"), technique=AIT,
      rule="In the 16-bit partitions the 160 samples must be the (uninterpreted) conversion of the reference's 160 float samples, for every frame class.")
check("C27", level="proof", runs=[R("proc.c", e) for e in ALLP], floor=20000, must_reach=PARAM_API + FRAME_API + SHORT_API,
      own=("assert", "frozen"), only=lambda f: f["cat"] == "frozen" or "depend" in f["msg"], count=("frozen", "assertion"),
      technique=AIT + "; dependency tracking of abstract terms",
      rule="No sample, status byte or state field may have an abstract term containing the quality argument or the incoming output-only counts, and the parameter bits and input counts are frozen memory that no store may reach.")

AI = "abstract interpretation"
check("C18", level="proof", runs=[R("api.c", "state"), R("api.c", "state", "simd")], floor=5000, must_reach=["mbe_initMbeParms", "mbe_moveMbeParms", "mbe_useLastMbeParms"], own=("assert", "frozen", "abort", "unreachable"), technique=AI + " on arbitrary model contents against reference defaults",
      rule="With every field of the three models unknown, each byte of the models after the call must have the abstract value of the documented default (or of the source field).")
check("C19", level="proof", runs=[R("api.c", "smooth"), R("api.c", "smooth", "simd")], floor=100000, must_reach=["mbe_applyAdaptiveSmoothing"], own=("assert", "frozen", "abort", "unreachable"), technique=AI + " with semantic term comparison against the documented recurrences",
      rule="For every harmonic count, partitions over the error regimes and symbolic amplitudes, energies and thresholds, every field of the current model must denote the reference recurrence's value; the previous model is read-only memory.")
check("C23", level="proof", runs=[R("api.c", "pcm"), R("api.c", "pcm", "simd")], floor=20000, must_reach=["mbe_floattoshort"], own=("assert", "frozen", "float-to-int", "uninit", "oob"), technique=AI + " (interval and term domains) of both builds, partition over value classes of each lane",
      rule="For each of the 160 lanes and each class of values (in range, beyond either limit, at either limit, NaN, infinities) the 16-bit output must be the documented value in the scalar and the SIMD build.")
check("C32", level="proof", runs=[R("api.c", "version"), R("api.c", "version", "simd")], floor=40, must_reach=["mbe_versionString", "mbe_printVersion"], own=("assert", "oob", "null"), technique=AI + " against the version declared in CMakeLists.txt",
      rule="versionString, MBELIB_VERSION and the buffer written by printVersion must equal the declared project version; bytes beyond the terminator keep their abstract value.")
check("C38", level="proof", runs=[R("api.c", "predicates"), R("api.c", "predicates", "simd")], floor=1000, must_reach=["mbe_requiresMuting", "mbe_isMaxFrameRepeat", "mbe_requiresAdaptiveSmoothing"], own=("assert", "frozen", "null"), technique=AI + ", partition of the metric ranges at each threshold",
      rule="On each side of each threshold (intervals ending at the adjacent float), for NaN and for NULL, the answer must be the documented one.")
check("C39", level="proof", runs=[R("api.c", "silence"), R("api.c", "silence", "simd")], floor=500, must_reach=["mbe_synthesizeSilencef", "mbe_synthesizeSilence"], own=("assert", "oob"), technique=AI,
      rule="With two unknown guard samples on each side, exactly the 160 samples of the frame must become zero.")

DT = "abstract interpretation against a reference dequantiser (symbolic bits, table lookups as terms, linear normal forms)"
DR = "For every fundamental code and partitions over the previous frame's harmonic count, with all other parameter bits and the previous spectrum symbolic, every field of the current model must denote the reference dequantiser's value, the previous model must be extended as documented and nothing else may change."
for _p, _e, _f in (("C06", "dimbe", "mbe_decodeImbe4400Parms"), ("C09", "d2450", "mbe_decodeAmbe2450Parms"), ("C10", "d2400", "mbe_decodeAmbe2400Parms")):
    check(_p, level="proof", runs=[R("decode.c", _e, hdefs=("-DALLPREV",))], must_reach=[_f], floor=1000000,
          own=("assert", "frozen", "abort", "unreachable", "oob", "uninit", "div0", "overflow", "shift", "float-to-int", "null", "dangling"), technique=DT, rule=DR)

SYN = ("assert", "frozen", "abort", "unreachable", "oob", "uninit", "div0", "null", "dangling")
check("C40", level="proof", runs=[R("enh.c", e, c) for c in ("scalar", "simd") for e in ("enh", "handoff")], must_reach=["mbe_spectralAmpEnhance", "mbe_applyAdaptiveSmoothing"], floor=1000000,
      own=SYN, technique="abstract interpretation with semantic term comparison (both builds) against the published weights",
      rule="For every harmonic count, ordinary and very large amplitudes and zero pitch, each amplitude after enhancement must denote the clamped, energy-preserving weight of the published formula in the scalar and the SIMD build, nothing else may change, and the next smoothing of that model (only) must use the energy before enhancement.")

TONE_API = ["mbe_synthesizeTonef", "mbe_synthesizeTonefdstar"]
check("C15", level="proof", runs=[R("tone.c", "tone"), R("tone.c", "tone", "simd")], must_reach=TONE_API, floor=1000000, own=SYN + ("float-to-int", "overflow", "shift"),
      technique="abstract interpretation with semantic term comparison against the published tone plan (phase accumulators as integers modulo 2^32)",
      rule="One partition per tone index (256 for the bit-coded entry, 256 plus out-of-range ones for the D-STAR entry), all other parameter bits and both phases symbolic: each of the 160 samples and both phases must denote the published tone; everything else in the model and around the buffer keeps its value.")
check("C33", level="proof", runs=[R("tone.c", "tone", "notones")], must_reach=TONE_API, floor=100000, own=SYN, technique=AI + " of the library built with tones disabled",
      rule="In the build with tones disabled every tone index of both tone entries must give 160 zero samples and leave the model unchanged.")
check("C26", level="proof", runs=[R("noise.c", e, c) for c in ("scalar", "simd") for e in ("comfort", "unvoiced")], must_reach=["mbe_setThreadRngSeed", "mbe_synthesizeComfortNoisef", "mbe_synthesizeSpeechf"], floor=3000,
      own=("assert", "frozen", "abort", "unreachable", "oob", "uninit", "null"), technique=AI + " with exact modular terms against the published generators",
      rule="For the unseeded state and every seed (symbolic 32 bits), each sample of two consecutive comfort-noise frames must denote the published 48-bit generator's output; for every value of the 53125 generator states, seeds and cold starts, the noise state after each synthesized frame must denote the published sequence.")
SAFE = ("float-to-int", "overflow", "shift")
check("C37", level="proof", runs=[R("synth.c", "voiced", hdefs=("-DPL=3",)), R("synth.c", "voiced", "simd", hdefs=("-DPL=3",))], thorough=[R("synth.c", "voiced", hdefs=("-DPL=8",)), R("synth.c", "voiced", "simd", hdefs=("-DPL=8",))],
      must_reach=["mbe_synthesizeSpeechf"], floor=100000, own=SYN + SAFE, technique=AI + " with semantic term comparison against the published voiced synthesis (both builds)",
      rule="For every harmonic count, partitions over the previous count, the voicing pattern and the pitch regime, with symbolic pitches, amplitudes and phases: each of the 160 samples, every phase, the extended models and the noise state must denote the published voiced synthesis in the scalar and the SIMD build.")
check("C36", level="proof", runs=[R("synth.c", "unvoiced", c, hdefs=("-DUNVOICED",)) for c in ("scalar", "simd")], must_reach=["mbe_synthesizeSpeechf"], floor=100000, own=SYN + SAFE,
      technique=AI + " with semantic term comparison against the published unvoiced synthesis, the transform an uninterpreted function (decided by C41)",
      rule="For every fundamental each codec can transmit, symbolic amplitudes, noise and overlap: the windowed noise, band edges, scaling, inverse transform, overlap-add weights and the stored overlap must denote the published synthesis, in every sample and field.")
check("C41", level="proof", runs=[R("fft.c", "fft"), R("fft.c", "fft", "simd")], must_reach=["pffft_transform_ordered", "pffft_new_setup"], floor=1000, own=SYN,
      technique=AI + " with linear normal forms: the transform is evaluated on symbolic inputs and its matrix compared with the DFT's",
      rule="Each of the 256 outputs of the forward and the inverse ordered real transform must be a linear form of the symbolic inputs whose 256 coefficients are those of the DFT within float rounding.")
check("C42", level="proof", runs=[R("synth.c", "mute"), R("synth.c", "mute", "simd")], must_reach=["mbe_synthesizeSpeechf"], floor=10000, own=SYN,
      technique=AI + " with semantic term comparison, partition of the metric ranges at each limit",
      rule="On each side of each muting limit the 160 samples must be comfort noise (or the ordinary synthesis), and on the muted side phases, models and noise state must keep the documented values.")

_ALLAPI = PARAM_API + FRAME_API + SHORT_API
_S = lambda e, c, n=1: R("safe.c", e, c, hdefs=("-DPL=%d" % n,))
check("C20", level="proof", runs=[_S(e, "scalar", 2) for e in ("amb2450", "amb2400", "imbe")] + [_S(e, "simd") for e in ("amb2450", "amb2400", "imbe")] + [R("safe.c", "frames")],
      thorough=[_S(e, c, 16) for c in ("scalar", "simd") for e in ("amb2450", "amb2400", "imbe")], must_reach=PARAM_API + ["mbe_eccAmbe3600x2450Data", "mbe_eccImbe7200x4400Data", "mbe_synthesizeSpeechf"], floor=1000000, own=SYN + SAFE + ("align", "free"),
      technique=AI + " of the whole decoder (interval, initialisation and pointer domains), induction over frames",
      rule="From every model triple in the invariant (each fundamental of each codec, the initial and the erasure model in turn as current, previous and enhanced model; all other fields unknown) and all parameter bits, no instruction of any frame entry may access memory out of bounds or uninitialised, divide by zero, overflow, convert out of range or reach abort; the 160 samples must be written within the documented range and all three models must satisfy the invariant again. Error correction and descrambling of arbitrary bits must yield bits and bounded counts.",
      assumptions=["Combinations of the three models' fundamentals are sampled (each fundamental occurs in each role), all other fields are unknown."])
check("C29", level="proof", runs=[R("synth.c", "nomem", c, hdefs=("-DUNVOICED",)) for c in ("scalar", "simd")], must_reach=["mbe_synthesizeSpeechf"], floor=100000, own=SYN + SAFE + ("free",),
      technique=AI + ", partition over the failing allocation, against the reference synthesizer",
      rule="For each allocation of the transform plan failing (and all of them), the frame must be exactly the voiced part, nothing may be leaked or freed twice, and the next frame with memory must be the complete reference synthesis.")
check("C43", level="proof", runs=[R("iso.c", e, c) for e in ("iso", "carry") for c in ("scalar", "simd")], thorough=[R("iso.c", "iso", hdefs=("-DPL=4",)), R("iso.c", "carry", hdefs=("-DPL=4",))], must_reach=PARAM_API, floor=100000, own=("assert", "abort", "unreachable", "uninit"),
      technique=AI + ", comparison of abstract results with and without another stream before",
      rule="After two frames of another stream (each pair of codecs; voice, silence, erasure, tone, repeat and mute frames; models and parameter bits unknown) every sample, status byte and model field of two frames of this stream must have the abstract term it has in a library as loaded. Once every class of call has occurred, every byte of static data and heap blocks changed by another round of them is made uninitialised, and no later call of any class may read any of it before writing it (comfort-noise generator aside, which is seeded again).")
check("C24", level="proof", runs=[R("iso.c", "iso", c, hdefs=("-DTHREAD=1",)) for c in ("scalar", "simd")], rules=[rules.threads(("scalar", "simd", "notones", "strict"))], must_reach=PARAM_API, floor=100000, own=("assert", "abort", "unreachable", "shared"),
      technique="ownership lint of mutable globals over the IR; " + AI + " with thread-local data reset between the streams",
      rule="Every mutable global of the library must be thread-local or never written (stores, copies and escaping addresses are followed through calls) in all four configurations; and after another thread's two frames every result of a stream must have the abstract term it has in a library as loaded.")
check("C25", level="proof", runs=[R("iso.c", "det", c) for c in ("scalar", "simd")], rules=[rules.effects(("scalar", "simd", "notones", "strict"))], must_reach=PARAM_API, floor=30000, own=("assert", "abort", "unreachable", "uninit", "effect"),
      technique="effect analysis over the call graph; " + AI + " with initialisation tracking",
      rule="From every public entry point only mathematical, string, memory-formatting and allocation functions may be reachable in all four configurations (printing only from the dump functions); no result may depend on uninitialised memory or on where the heap places blocks.")
check("C31", level="other", runs=[], rules=[rules.abi], floor=200, own=("abi",), technique="type-level comparison of the compiled library's debug information and the public header (C and C++) with the frozen interface",
      rule="Every public function of this major version must be declared, defined, exported under hidden default visibility with the same type and unmangled for C++, and the model structure must keep its size and every field's type and offset.")
check("C30", level="proof", runs=[R("api.c", "dump")], floor=1000, must_reach=["mbe_dumpImbe4400Data", "mbe_dumpImbe7200x4400Data", "mbe_dumpImbe7200x4400Frame", "mbe_dumpImbe7100x4400Data", "mbe_dumpImbe7100x4400Frame"], own=SYN,
      technique=AI + " with the printed bytes as abstract values",
      rule="With every bit of the block symbolic and the bits outside the format uninitialised, the printed bytes without white space must be, in order, the digits of the block's bits, and the block is read-only memory.")
check("C21", level="proof", runs=[R("api.c", "nulls")], floor=1000, must_reach=["mbe_synthesizeComfortNoisef", "mbe_applyAdaptiveSmoothing", "mbe_printVersion", "mbe_synthesizeSilencef"], own=SYN, technique=AI,
      rule="With each accepted NULL argument, no instruction may access memory through it, the other argument must keep every abstract value, and the comfort noise that follows must be that of the seed set before.")
_OPT = ("debug", "strict")
check("C28", level="proof", runs=[R("decode.c", e, c) for c in _OPT for e in ("d2450", "d2400", "dimbe")] + [R("proc.c", e, c) for c in _OPT for e in ALLP] + [R(h, e, c) for c in _OPT for h, e in (("api.c", "pcm"), ("api.c", "smooth"), ("api.c", "state"), ("enh.c", "enh"), ("noise.c", "comfort"), ("noise.c", "unvoiced"), ("synth.c", "voiced"))], floor=1000000,
      must_reach=["mbe_decodeImbe4400Parms", "mbe_decodeAmbe2450Parms", "mbe_decodeAmbe2400Parms"] + PARAM_API + FRAME_API, own=SYN + SAFE, technique=AI + " of the debug-log and strict-order builds against the same references as the plain build",
      rule="In both builds every field decoded, every observable of every frame entry every converted sample, and the results of smoothing, enhancement, initialisation, the noise generators and voiced synthesis must denote the reference's value in partitions used for C06, C09-C14, C16-C19, C23, C26, C37 and C40; every value handed to the log must be initialised.")
check("C34", level="proof", runs=[R("iso.c", "steady", c) for c in ("scalar", "simd")], rules=[rules.bounded(("scalar", "simd", "notones", "strict"))], must_reach=PARAM_API + ["mbe_synthesizeTonef", "mbe_synthesizeComfortNoisef"], floor=300, own=("assert", "abort", "unreachable", "recursion", "stack", "free"),
      technique="call-graph cycle and stack-object analysis over the IR; " + AI + " counting allocations per thread",
      rule="Below every public entry point the call graph must be acyclic and within 64 KiB of stack objects in four configurations; no variable-sized stack object may have an unknown or large size where it is reached; and after a thread's first synthesized frame no allocation or release may happen on any path of later frames of any codec and class (partitioned), with models and parameter bits unknown.")
