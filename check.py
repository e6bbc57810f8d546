#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property from /repo's current source."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
from checks import CHECKS


def known():
    p = os.path.join(vf.VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(pid, f, kn):
    for k in kn:
        if k["property"] == pid and k.get("status", "open") == "open" and all(k["match"][m] in str(f.get(m, "")) for m in k["match"]):
            return k
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    c = CHECKS[pid]
    t0 = time.time()
    tree = None
    try:
        tree = vf.Tree()
        res = vf.Result()
        for r in c.get("runs", []) + (c.get("thorough", []) if tier == "thorough" else []):
            vf.analyse(tree, res, r["h"], r["e"], r.get("cfg", "scalar"), tuple(r.get("extra", ())), tuple(r.get("hdefs", ())), r.get("budget"), r.get("jobs"), r.get("batch"), own=c.get("own", ("assert", "abort", "unreachable")))
        rules = []
        for fn in c.get("rules", []):
            rules.append(fn(tree, res, tier))      # appends to res.findings; returns a description of what was analysed
        own = set(c.get("own", ("assert", "abort", "unreachable")))
        only = c.get("only")      # predicate restricting findings
        seen = set(); viol = []; other = []
        for f in res.findings:
            f["file"] = vf.rel(f["file"])
            key = (f["cat"], f["file"], f["line"], f["func"], f["msg"] if f["cat"] == "assert" else "", f.get("config"))
            if key in seen: continue
            seen.add(key)
            (viol if f["cat"] in own and (not only or only(f)) else other).append(f)
        kn = known(); new = []; kprint = {}
        for f in viol:
            k = is_known(pid, f, kn)
            if k: kprint[k["id"]] = k
            else: new.append(f)
        for k in kprint.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if not new and res.errors:      # undefined behaviour on the way to what could not be decided
            new = [f for f in other if f["cat"] in ("uninit", "oob", "null", "dangling", "free", "frozen") and not is_known(pid, f, kn)]
        nobl = sum(v for k, v in res.checks.items() if k in own or k in c.get("count", ("assertion",))) + sum(r.get("obligations", 0) for r in rules)
        # the analysis itself must have reached what it is about
        problems = []
        if not new:
            if res.errors: problems += res.errors
            for fn in c.get("must_reach", []):
                if fn not in res.functions: problems.append("anchor function %s was not analysed" % fn)
            if nobl < c.get("floor", 1): problems.append("only %d obligations analysed, at least %d expected" % (nobl, c.get("floor", 1)))
        os.makedirs(vf.EV, exist_ok=True)
        level = c["level"]
        cov = {"rule": c["rule"], "runs": res.runs, "functions_analysed": sorted(f for f in res.functions if not f.startswith("__"))[:400],
               "ir_instructions_interpreted": res.instr, "partitions": res.parts,
               "checks_by_kind": res.checks, "sites": len(res.sites), "site_samples": sorted(s for s in res.sites if not s.startswith("harness"))[:25],
               "structural": rules, "obligations": nobl, "discharged": nobl - len(viol),
               "checker_cmd": "python3 check.py %s %s" % (pid, tier),
               "trusted_base": ["clang-18 front end and LLVM 18 IR semantics", "engine/ (abstract interpreter)", "harness/ reference definitions", "correctly modelled libm intervals"],
               "not_owned_findings": [{"cat": f["cat"], "func": f["func"], "file": f["file"], "line": f["line"], "msg": f["msg"]} for f in other][:20],
               "explanation": c["rule"]}
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
              "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(vf.EV, pid + ".json"), "w"), indent=1)
        if new:
            rp = os.path.join(vf.EV, pid + ".replay.json")
            json.dump({"property": pid, "rerun": "python3 %s/check.py %s %s" % (vf.VERIF, pid, tier), "violations": new}, open(rp, "w"), indent=1)
            for f in new[:12]:
                print("%s:%d: %s: [%s] %s%s%s" % (f["file"], f["line"], f["func"], f["cat"], f["msg"],
                      "  (path: %s)" % f["stack"].replace(vf.REPO + "/", "") if f.get("stack") else "", "  (entry %s, partition %s, %s build)" % (f["entry"], f.get("part"), f.get("config")) if f.get("entry") else ""))
            if len(new) > 12: print("... %d more in %s" % (len(new) - 12, rp))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if problems:
            for p in problems[:10]: print("ANALYSIS-BROKEN %s: %s" % (pid, p))
            return 2
        print("ok %s: %d obligations discharged, %d functions, %d partitions, %d IR instructions, %.1fs" % (pid, nobl, len(res.functions), res.parts, res.instr, time.time() - t0))
        return 0
    except vf.Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN %s" % pid); return 2
    finally:
        if tree: tree.close()


sys.exit(main())
