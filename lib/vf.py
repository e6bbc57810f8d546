"""Shared machinery: build the abstract interpreter, lower /repo to LLVM IR, run analysis entries, report."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EV = os.path.join(VERIF, "evidence")
CLANG, OPT, LINK, CONFIG = "clang-18", "opt-18", "llvm-link-18", "llvm-config-18"
JOBS = int(os.environ.get("MBE_JOBS", "8"))


class Broken(Exception):
    """The analysis itself could not give an answer (exit 2, never a verdict)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p


def engine():
    """Build engine/ into build/mbeai-<hash> when it is not there yet."""
    src = os.path.join(VERIF, "engine")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        h.update(f.encode()); h.update(open(os.path.join(src, f), "rb").read())
    exe = os.path.join(BUILD, "mbeai-" + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cxx = run([CONFIG, "--cxxflags"]).stdout.split()
        cxx = [c for c in cxx if not c.startswith("-std=") and c != "-fno-exceptions"]
        ld = run([CONFIG, "--ldflags"]).stdout.split()
        tmp = exe + ".tmp%d" % os.getpid()
        p = run(["g++", "-O2", "-g1", "-w", "-std=c++17"] + cxx + ["-fexceptions", "core.cpp", "interp.cpp", "-o", tmp] + ld + ["-lLLVM-18", "-lpthread"], cwd=src)
        if p.returncode:
            raise Broken("the engine does not build:\n" + p.stderr[-3000:])
        os.replace(tmp, exe)
        for f in os.listdir(BUILD):
            if f.startswith("mbeai-") and os.path.join(BUILD, f) != exe:
                try: os.unlink(os.path.join(BUILD, f))
                except OSError: pass
    return exe


CONFIGS = {
    "scalar": ["-DPFFFT_SIMD_DISABLE=1"],
    "simd": ["-DMBELIB_ENABLE_SIMD=1"],
    "notones": ["-DPFFFT_SIMD_DISABLE=1", "-DDISABLE_AMBE_TONES"],
    "debug": ["-DPFFFT_SIMD_DISABLE=1", "-DMBE_DEBUG", "-DIMBE_DEBUG", "-DAMBE_DEBUG"],
    "strict": ["-DPFFFT_SIMD_DISABLE=1", "-DMBELIB_STRICT_ORDER=1"],
}


class Tree:
    """IR of the library in /repo's working tree, one module per configuration."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mbeverif.")
        self.mods = {}
        gen = os.path.join(self.dir, "gen", "mbelib-neo")
        os.makedirs(gen)
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"project\s*\([^)]*?VERSION\s+([0-9.]+)", cm, re.S)
        if not m:
            raise Broken("project version not found in CMakeLists.txt")
        self.version = m.group(1)
        t = open(os.path.join(REPO, "include/mbelib-neo/version.h.in")).read()
        v = (self.version + ".0.0").split(".")
        for k, x in (("PROJECT_VERSION_MAJOR", v[0]), ("PROJECT_VERSION_MINOR", v[1]), ("PROJECT_VERSION_PATCH", v[2]), ("PROJECT_VERSION", self.version)):
            t = t.replace("@%s@" % k, x).replace("${%s}" % k, x)
        open(os.path.join(gen, "version.h"), "w").write(t)
        self.sources = self._sources(cm)

    def _sources(self, cm):
        """The sources the build compiles: every .c file named in CMakeLists.txt below src/."""
        named = set(re.findall(r"src/[A-Za-z0-9_./-]+\.c\b", cm))
        out = sorted(f for f in named if os.path.exists(os.path.join(REPO, f)))
        if len(out) < 8:
            raise Broken("only %d library sources found" % len(out))
        return out

    def cflags(self, defs):
        return ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-ffp-contract=off", "-fno-builtin-printf", "-std=gnu11", "-w",
                "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(self.dir, "gen"), "-I" + os.path.join(REPO, "src/internal"),
                "-I" + os.path.join(REPO, "src/external/pffft"), "-I" + REPO, "-I" + os.path.join(VERIF, "harness")] + list(defs)

    def _compile(self, jobs):
        ps = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), c) for c in jobs]
        for p, c in ps:
            o, e = p.communicate()
            if p.returncode:
                raise Broken("compilation failed: %s\n%s" % (" ".join(c[-4:]), e[-2000:]))

    def lib(self, cfg, extra=()):
        key = (cfg, tuple(extra))
        if key in self.mods:
            return self.mods[key]
        d = tempfile.mkdtemp(dir=self.dir)
        fl = self.cflags(CONFIGS[cfg] + list(extra))
        outs = []; jobs = []
        for s in self.sources:
            o = os.path.join(d, s.replace("/", "_") + ".bc"); outs.append(o)
            jobs.append([CLANG] + fl + ["-emit-llvm", "-c", os.path.join(REPO, s), "-o", o])
        self._compile(jobs)
        raw = os.path.join(d, "lib.bc")
        p = run([LINK] + outs + ["-o", raw])
        if p.returncode:
            raise Broken("llvm-link: " + p.stderr[-2000:])
        self.mods[key] = raw
        return raw

    def module(self, harness, cfg, extra=(), hdefs=()):
        raw = self.lib(cfg, extra)
        d = tempfile.mkdtemp(dir=self.dir)
        hb = os.path.join(d, "h.bc"); ln = os.path.join(d, "l.bc"); fin = os.path.join(d, "m.bc")
        self._compile([[CLANG] + self.cflags(CONFIGS[cfg] + list(extra) + list(hdefs)) + ['-DVERSION_STRING="%s"' % self.version, "-emit-llvm", "-c", os.path.join(VERIF, "harness", harness), "-o", hb]])
        for c in ([LINK, raw, hb, "-o", ln], [OPT, "-passes=always-inline,mem2reg", ln, "-o", fin]):
            p = run(c)
            if p.returncode:
                raise Broken("%s: %s" % (c[0], p.stderr[-2000:]))
        return fin

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Result:
    def __init__(self):
        self.findings = []; self.errors = []; self.functions = set(); self.checks = {}; self.sites = set()
        self.instr = 0; self.parts = 0; self.outs = []; self.runs = []


def analyse(tree, res, harness, entry, cfg="scalar", extra=(), hdefs=(), budget=None, jobs=None, batch=None, rng=None, own=()):
    exe = engine()
    mod = tree.module(harness, cfg, extra, hdefs)
    out = os.path.join(os.path.dirname(mod), "out.json")
    cmd = [exe, mod, "--entry", entry, "--out", out, "--jobs", str(jobs or JOBS)]
    if budget: cmd += ["--budget", str(budget)]
    if batch: cmd += ["--batch", str(batch)]
    if own: cmd += ["--own", ",".join(sorted(own))]
    if any(f["cat"] in own for f in res.findings): cmd += ["--patience", "20"]
    if rng: cmd += ["--from", str(rng[0]), "--to", str(rng[1])]
    t0 = time.time()
    p = run(cmd)
    r = Result()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l)
            r.instr += j["instructions"]; r.parts += j["parts"][1] - j["parts"][0]
            if j["error"]: r.errors.append(j["error"])
            for f in j["findings"]:
                f["config"] = cfg; f["entry"] = entry; f["harness"] = harness
                r.findings.append(f)
            for k, v in j["checks"].items(): r.checks[k] = r.checks.get(k, 0) + v
            r.functions |= set(j["functions"]); r.sites |= set(j["sites"]); r.outs += [(k, v) for k, v in j["outs"]]
    if p.returncode not in (0, 4) or (p.returncode == 4 and not r.errors):
        raise Broken("analysis of %s/%s failed (%d): %s" % (harness, entry, p.returncode, p.stderr[-1500:]))
    r.secs = round(time.time() - t0, 2)
    res.runs.append({"harness": harness, "entry": entry, "configuration": cfg, "defines": list(extra) + list(hdefs), "partitions": r.parts,
                     "ir_instructions": r.instr, "seconds": r.secs, "errors": len(r.errors), "findings": len(r.findings)})
    res.findings += r.findings; res.errors += ["%s[%s]: %s" % (entry, cfg, e) for e in r.errors]
    res.functions |= r.functions; res.sites |= r.sites; res.instr += r.instr; res.parts += r.parts; res.outs += r.outs
    for k, v in r.checks.items(): res.checks[k] = res.checks.get(k, 0) + v
    if os.environ.get("MBE_KEEP"): print("kept", mod)
    return r


def rel(path):
    for b in (REPO + "/", VERIF + "/"):
        if path.startswith(b): return path[len(b):]
    return path
