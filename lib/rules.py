"""Structural rules over the lowered library: sharing between threads, effects, and the binary interface."""
import hashlib, json, os, subprocess, tempfile
import vf


def mbelint():
    """Build engine/lint.cpp into build/mbelint-<hash> when it is not there yet."""
    import fcntl
    src = os.path.join(vf.VERIF, "engine", "lint.cpp")
    exe = os.path.join(vf.BUILD, "mbelint-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if os.path.exists(exe): return exe
    os.makedirs(vf.BUILD, exist_ok=True)
    with open(os.path.join(vf.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        cxx = [c for c in vf.run([vf.CONFIG, "--cxxflags"]).stdout.split() if not c.startswith("-std=") and c != "-fno-exceptions"]
        tmp = exe + ".tmp%d" % os.getpid()
        p = vf.run(["g++", "-O1", "-w", "-std=c++17"] + cxx + [src, "-o", tmp] + vf.run([vf.CONFIG, "--ldflags"]).stdout.split() + ["-lLLVM-18"])
        if p.returncode: raise vf.Broken("mbelint does not build:\n" + p.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def facts(tree, cfg, extra=()):
    raw = tree.lib(cfg, extra)
    fin = os.path.join(tempfile.mkdtemp(dir=tree.dir), "lint.bc")
    p = vf.run([vf.OPT, "-passes=always-inline,mem2reg", raw, "-o", fin])
    if p.returncode: raise vf.Broken("opt: " + p.stderr[-1000:])
    p = vf.run([mbelint(), fin])
    if p.returncode: raise vf.Broken("mbelint: " + p.stderr[-1000:])
    return json.loads(p.stdout)


def finding(cat, f, l, func, msg, cfg):
    return {"cat": cat, "file": f or "?", "line": l, "func": func, "msg": msg, "config": cfg, "stack": ""}


def threads(cfgs):
    def rule(tree, res, tier):
        n = mut = 0; names = set()
        for c in cfgs:
            for g in facts(tree, c)["globals"]:
                n += 1
                if g["const"] or g["decl"]: continue
                mut += 1; names.add(g["name"] + (" (per thread)" if g["tls"] else ""))
                if g["tls"]: continue
                for w in g["writes"]:
                    res.findings.append(finding("shared", w["file"], w["line"], w["func"], "global %s is shared by all threads and %s here without synchronisation" % (g["name"], {"store": "written"}.get(w["kind"], w["kind"])), c))
        return {"rule": "every non-constant global is thread-local or never written (stores, copies, escaping addresses followed through calls)", "globals": n, "mutable": sorted(names), "obligations": n}
    return rule


LIBM = """acos asin atan atan2 ceil copysign cos cosh erf erfc exp exp2 expm1 fabs fdim floor fma fmax fmin fmod frexp hypot ilogb ldexp lgamma llrint llround
log log10 log1p log2 logb lrint lround modf nearbyint nextafter pow remainder remquo rint round roundeven scalbln scalbn sin sincos sinh sqrt tan tanh tgamma trunc
exp10 cbrt""".split()
PURE = set(LIBM) | {m + "f" for m in LIBM} | {m + "l" for m in LIBM} | set("""memcpy memset memmove memcmp memchr strlen strnlen strcmp strncmp strcpy strncpy strcat strncat strchr strrchr strstr
stpcpy snprintf vsnprintf sprintf vsprintf malloc calloc realloc free aligned_alloc posix_memalign _mm_malloc _mm_free abs labs llabs div ldiv strtol strtoul strtod atoi qsort bsearch __assert_fail bcmp bzero
__memcpy_chk __memset_chk __memmove_chk __strcpy_chk __strncpy_chk __snprintf_chk __sprintf_chk __isnan __isnanf __isinf __isinff __finite __finitef __fpclassify __fpclassifyf __signbitf __signbit
pthread_once pthread_getspecific pthread_setspecific pthread_key_create pthread_mutex_lock pthread_mutex_unlock call_once tss_get tss_set tss_create __cxa_thread_atexit_impl __tls_get_addr""".split())
PRINT = set("fprintf printf vprintf vfprintf fputs puts fputc putc putchar fwrite __fprintf_chk __printf_chk fflush &stderr &stdout".split())


def effects(cfgs):
    def rule(tree, res, tier):
        nf = ne = 0; ext = set()
        api = set(declared(tree))
        for c in cfgs:
            F = {f["name"]: f for f in facts(tree, c)["functions"]}
            taken = [f for f in F if F[f]["addr"] and not F[f]["decl"]]
            roots = [f for f in F if not F[f]["decl"] and not F[f]["local"] and f in api]
            if len(roots) < 50: raise vf.Broken("only %d entry points found" % len(roots))
            for r in sorted(roots):
                dump = r.startswith("mbe_dump")
                seen = {r: None}; todo = [r]
                while todo:
                    f = todo.pop(); nf += 1
                    for call in F[f]["calls"]:
                        for t in (taken if call["to"] == "<indirect>" else [call["to"]]):
                            if t in F and not F[t]["decl"]:
                                if t not in seen: seen[t] = f; todo.append(t)
                                continue
                            if t == "<pointer to integer>" or t == "<indirect>": continue
                            ne += 1; ext.add(t)
                            if t in PURE or (dump and t in PRINT): continue
                            path = [f]
                            while seen[path[0]]: path.insert(0, seen[path[0]])
                            fd = finding("effect", call["file"], call["line"], f, "%s uses %s, which is neither a function of its arguments nor plain memory management" % (r, t), c)
                            fd["stack"] = " > ".join(path); res.findings.append(fd)
        return {"rule": "from every public entry point only mathematical, string, formatting-into-memory and allocation functions are reachable; printing only from the dump functions", "call_edges_to_outside": ne, "functions_visited": nf, "outside_functions": sorted(ext), "obligations": ne}
    return rule


STACK = 65536


def bounded(cfgs):
    """No recursion, and a bound on the stack any entry point needs for its objects of fixed size."""
    def rule(tree, res, tier):
        n = 0; worst = (0, "", [])
        api = set(declared(tree))
        for c in cfgs:
            F = {f["name"]: f for f in facts(tree, c)["functions"]}
            taken = [f for f in F if F[f]["addr"] and not F[f]["decl"]]
            roots = sorted(f for f in F if not F[f]["decl"] and not F[f]["local"] and f in api)
            if len(roots) < 50: raise vf.Broken("only %d entry points found" % len(roots))
            done = {}; path = []; bad = set()
            def visit(f):
                if f in done: return done[f]
                if f in path:
                    if f not in bad:
                        bad.add(f); fd = finding("recursion", F[f]["file"], F[f]["line"], f, "%s can call itself, so the stack a frame needs has no bound" % f, c)
                        fd["stack"] = " > ".join(path[path.index(f):] + [f]); res.findings.append(fd)
                    return (0, [])
                path.append(f); best = (0, [])
                for call in F[f]["calls"]:
                    for t in (taken if call["to"] == "<indirect>" else [call["to"]]):
                        if t in F and not F[t]["decl"]:
                            r = visit(t)
                            if r[0] > best[0]: best = r
                path.pop(); done[f] = (best[0] + F[f]["stack"], [f] + best[1]); return done[f]
            for r in roots:
                s, p = visit(r); n += 1
                if s > worst[0]: worst = (s, r, p)
                if s > STACK: res.findings.append(finding("recursion", F[r]["file"], F[r]["line"], r, "%s needs %d bytes of stack objects, more than %d, along %s" % (r, s, STACK, " > ".join(p)), c))
            n += len(done)
        return {"rule": "the call graph below the public entry points has no cycle, and the stack objects along any path take at most %d bytes" % STACK,
                "largest_stack_bytes": worst[0], "largest_path": worst[2], "obligations": n}
    return rule


def declared(tree, cxx=False):
    """Functions the public header declares, with their types."""
    d = tempfile.mkdtemp(dir=tree.dir); s = os.path.join(d, "h." + ("cc" if cxx else "c"))
    open(s, "w").write('#include "mbelib-neo/mbelib.h"\n')
    p = vf.run([vf.CLANG, "-w", "-I" + os.path.join(vf.REPO, "include"), "-I" + os.path.join(tree.dir, "gen"), "-Xclang", "-ast-dump=json", "-fsyntax-only", s])
    if p.returncode: raise vf.Broken("the public header does not compile: " + p.stderr[-800:])
    out = {}
    def walk(n):
        for x in n.get("inner", []):
            if x.get("kind") == "FunctionDecl" and x.get("name", "").startswith("mbe_"): out[x["name"]] = {"type": x["type"]["qualType"], "mangled": x.get("mangledName", x["name"])}
            elif x.get("kind") == "LinkageSpecDecl": walk(x)
    walk(json.loads(p.stdout))
    if len(out) < 20: raise vf.Broken("only %d functions found in the public header" % len(out))
    return out


ABI = os.path.join(vf.VERIF, "lib", "abi.json")


def abi_facts(tree):
    j = facts(tree, "scalar", ("-fvisibility=hidden",))
    S = {s["name"]: s for s in j["structs"]}
    api = declared(tree)
    F = {f["name"]: f for f in j["functions"] if not f["decl"]}
    return api, F, S


def abi(tree, res, tier):
    api, F, S = abi_facts(tree)
    ref = json.load(open(ABI)); n = 0; hdr = os.path.join(vf.REPO, "include/mbelib-neo/mbelib.h")
    for name, ty in sorted(ref["functions"].items()):
        n += 3
        if name not in api: res.findings.append(finding("abi", hdr, 0, name, "public function %s is no longer declared" % name, "scalar")); continue
        if name not in F: res.findings.append(finding("abi", hdr, 0, name, "public function %s is declared but not defined" % name, "scalar")); continue
        if F[name]["local"] or F[name]["hidden"]: res.findings.append(finding("abi", F[name]["file"], F[name]["line"], name, "public function %s is not exported from the shared library" % name, "scalar"))
        if F[name]["type"] != ty: res.findings.append(finding("abi", F[name]["file"], F[name]["line"], name, "public function %s has type %s, callers were compiled for %s" % (name, F[name]["type"], ty), "scalar"))
    for name in sorted(api):
        if name not in F: res.findings.append(finding("abi", hdr, 0, name, "public function %s is declared but not defined" % name, "scalar"))
        elif F[name]["hidden"] or F[name]["local"]: res.findings.append(finding("abi", F[name]["file"], F[name]["line"], name, "public function %s is not exported from the shared library" % name, "scalar"))
        n += 2
    m = S.get("mbe_parameters")
    if not m: raise vf.Broken("the model structure was not found in the debug information")
    have = {x["name"]: x for x in m["members"]}
    n += 1
    if m["size"] != ref["size"]: res.findings.append(finding("abi", hdr, 0, "mbe_parms", "the model structure has %d bytes, callers allocate %d" % (m["size"], ref["size"]), "scalar"))
    for f, (ty, off) in ref["members"].items():
        n += 1; x = have.get(f)
        if not x: res.findings.append(finding("abi", hdr, 0, "mbe_parms", "field %s is gone" % f, "scalar"))
        elif (x["type"], x["offset"]) != (ty, off): res.findings.append(finding("abi", hdr, x["line"], "mbe_parms", "field %s is %s at offset %d, callers were compiled for %s at offset %d" % (f, x["type"], x["offset"], ty, off), "scalar"))
    for name, d in sorted(declared(tree, True).items()):
        n += 1
        if d["mangled"] != name: res.findings.append(finding("abi", hdr, 0, name, "a C++ program links %s instead of %s" % (d["mangled"], name), "scalar"))
    return {"rule": "functions, types, visibility, C++ linkage and model layout equal those callers of this major version were compiled for", "functions": len(ref["functions"]), "fields": len(ref["members"]), "obligations": n}


if __name__ == "__main__":      # python3 lib/rules.py: freeze the binary interface of the current tree
    t = vf.Tree(); api, F, S = abi_facts(t); m = S["mbe_parameters"]
    json.dump({"functions": {f: F[f]["type"] for f in sorted(api) if f in F}, "size": m["size"], "members": {x["name"]: [x["type"], x["offset"]] for x in m["members"]}}, open(ABI, "w"), indent=1)
    print(len(api), [f for f in api if f not in F]); t.close()
