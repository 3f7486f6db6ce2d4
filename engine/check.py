#!/usr/bin/env python3-vt
"""check.py <property-id> [quick|thorough]: decide one property on /repo's current tree."""
import sys, os, re, glob, json, time, importlib, subprocess, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "..", "specs"))
from prog import *
import spec

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUILD = VERIF + "/build"


class Harness:
    """executable replay/cross-check harness: compiled against the real sources of /repo on every run"""

    def __init__(self, name, src, repo_srcs=(), flags=(), libs=(), quick=20, thorough=200, args=(), sanitize=True, opt="-O1", extra_srcs=(), defs=None, share=None):
        self.__dict__.update(locals())

    def build(self):
        d = BUILD + "/h_" + self.name
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cxx = ["ccache", "g++"] if shutil.which("ccache") else ["g++"]
        env = dict(os.environ, CCACHE_DIR=BUILD + "/ccache", CCACHE_MAXSIZE="600M")
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment,vptr,shift,signed-integer-overflow,float-cast-overflow,bool,enum"] if self.sanitize else []
        inc = []
        if self.defs is not None:
            # the tracked parameter header with other widths (the header is normally regenerated by config.py)
            os.makedirs(d + "/inc")
            t = open(SIM + "/radsim_defines.hpp").read()
            for k, v in self.defs.items():
                t2 = re.sub(r"(#define\s+%s\s+)\S+" % k, lambda m: m.group(1) + str(v), t)
                t = t2 if re.search(r"#define\s+%s\s" % k, t) else t.replace("#pragma once", "#pragma once\n#define %s %s" % (k, v))
            open(d + "/inc/radsim_defines.hpp", "w").write(t)
            inc = ["-I" + d + "/inc"]
        base = inc + ["-std=c++17", self.opt, "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS", "-I" + VERIF + "/harness"] + san + list(self.flags)
        objs = []
        jobs = []
        for k, s in enumerate([VERIF + "/harness/" + self.src] + list(self.extra_srcs) + list(self.repo_srcs() if callable(self.repo_srcs) else self.repo_srcs)):
            if not os.path.exists(s): raise RuntimeError("source %s is missing" % s)
            o = "%s/%d_%s.o" % (d, k, os.path.basename(s))
            objs.append(o)
            jobs.append((cxx[:-1] + ["gcc"] if s.endswith(".c") else cxx) + ["-c", s, "-o", o] + [b for b in base if not (s.endswith(".c") and b.startswith("-std"))])
        def run(j):
            p = subprocess.run(j, capture_output=True, text=True, env=env)
            return p.returncode, p.stderr, j
        with cf.ThreadPoolExecutor(8) as ex:
            for rc, err, j in ex.map(run, jobs):
                if rc != 0: raise RuntimeError("harness build failed: %s\n%s" % (" ".join(j[:6]), err[-3000:]))
        exe = d + "/run"
        p = subprocess.run(["g++"] + san + objs + ["-o", exe] + list(self.libs), capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError("harness link failed: " + p.stderr[-3000:])
        for o in objs: os.unlink(o)
        self.exe = exe

    def run(self, tier, seed):
        """returns (status, output, stats): status ok|fail|error"""
        secs = self.thorough if tier == "thorough" else self.quick
        env = dict(os.environ, HARNESS_SECONDS=str(secs), HARNESS_SEED=str(seed), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=98", SC_COPYRIGHT_MESSAGE="DISABLE", SC_SIGNAL_WRITE_CHECK="DISABLE")
        wd = self.exe + ".wd"
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        try:
            p = subprocess.run([self.exe] + list(self.args), capture_output=True, text=True, env=env, timeout=secs * 4 + 120, cwd=wd, errors="replace")
            out = p.stdout + p.stderr
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            return "error", "harness timeout", {}
        finally: shutil.rmtree(wd, ignore_errors=True)
        stats = {}
        for l in out.split("\n"):
            if l.startswith("STAT "):
                _, k, v = l.split(" ", 2)
                try: stats[k] = int(v)
                except ValueError: stats[k] = v
            if l.startswith("SAMPLE "): stats.setdefault("samples", []).append(l[7:])
        if rc == 0: return "ok", out, stats
        return "fail", out, stats


def known_findings(pid):
    l = []
    try:
        for x in open(VERIF + "/KNOWN_FINDINGS.txt"):
            x = x.strip()
            if x.startswith("known: property=%s " % pid): l.append(x[len("known: property=%s " % pid):])
    except FileNotFoundError: pass
    return l


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    t0 = time.time()
    mod = importlib.import_module(json.load(open(VERIF + "/specs/index.json"))[pid])
    P = mod.PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    try: ensure_radext()
    except Exception as e: print("radext unavailable:", e)
    hs = P.get("harness", [])
    if callable(hs): hs = hs()
    if not isinstance(hs, list): hs = [hs]
    herr = []
    ex = cf.ThreadPoolExecutor(4)

    def dohar(h):
        try: h.build()
        except Exception as e: return h, "error", str(e), {}
        s, o, st = h.run(tier, SEED)
        return h, s, o, st
    futs = [ex.submit(dohar, h) for h in hs]
    results = []
    groups = P["groups"]() if callable(P["groups"]) else P["groups"]
    loaded = []
    for g in groups:
        err = prog = units = None
        try:
            prog = load(g["srcs"], g["flags"])
            units = g["units"](prog) if callable(g["units"]) else g["units"]
        except Unsupported as e: err = str(e)
        except Exception as e: err = "internal: %s: %s" % (type(e).__name__, e)
        loaded.append((g, prog, units, err))
    unproved_contracts = spec.attach_frames([us for _, _, us, _ in loaded if us is not None])
    for g, prog, units, err in loaded:
        if err is not None:
            nm = g.get("name", "unit group %s" % os.path.basename(g["srcs"][0]))
            results.append({"unit": nm, "fn": nm, "status": "unsupported", "obs": [], "error": err, "trusted": [], "inlined": [], "loops": [], "wall": 0, "mode": "unbounded", "u": None, "prog": None, "contracts": []})
            continue
        for u, r in zip(units, spec.run_units(prog, units, 8)):
            r["u"], r["prog"] = u, prog
            results.append(r)
    failing, unsupported, bounded_ok = [], [], []
    for r in results:
        if os.environ.get("VERIF_V"): spec.show(r)
        if r["status"] == "unsupported": unsupported.append(r)
        elif r["status"] == "failed":
            u = r["u"]
            if u.bounded:
                b = spec.run_units(r["prog"], [u], 1, "bounded")[0]
                r["bounded_result"] = b["status"]
                if b["status"] == "proved": bounded_ok.append(r); continue
                r["bounded_obs"] = [o for o in b["obs"] if o["status"] != "proved"]
            failing.append(r)
    hres = [f.result() for f in futs]
    obligations = sum(len(r["obs"]) for r in results)
    discharged = sum(o["status"] == "proved" for r in results for o in r["obs"])
    replay = None
    viol = None
    os.makedirs(BUILD + "/replay", exist_ok=True)
    hfail = [x for x in hres if x[1] == "fail"]
    herrs = [x for x in hres if x[1] == "error"]
    kf = known_findings(pid)
    rp = BUILD + "/replay/%s.txt" % pid
    if hfail or failing:
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for r in failing:
                f.write("\nFAILED OBLIGATIONS of unit %s (function %s)\n" % (r["unit"], r["fn"]))
                for o in r["obs"]:
                    if o["status"] != "proved":
                        f.write("  [%s] %s line %s: %s -- %s %s (%s)\n" % (o["kind"], o["fn"], o["line"], o["label"], o["status"], o["reason"], o["backend"]))
                        f.write("     goal: %s\n" % o.get("goal"))
                        for m in o.get("model", [])[:80]: f.write("     model: %s\n" % m)
                for o in r.get("bounded_obs", []):
                    f.write("  bounded instance: [%s] %s line %s: %s -- %s\n" % (o["kind"], o["fn"], o["line"], o["label"], o["status"]))
                    for m in o.get("model", [])[:80]: f.write("     model: %s\n" % m)
            for h, s, o, st in hfail:
                f.write("\nCONCRETE FAILING INPUT against the real code: %s (seed %d; re-run: HARNESS_SEED=%d %s)\n%s\n" % (h.src, SEED, SEED, h.exe, o[-6000:]))
        viol = "VIOLATION property=%s replay=%s%s" % (pid, rp, "" if hfail else " no-failing-input-found")
    trusted = sorted({t for r in results for t in r["trusted"]})
    level = P.get("level", "proof")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "python3-vt engine/check.py %s %s" % (pid, tier),
        "trusted_base": ["clang 18 front end (AST)", "engine/sym.py VC generator", "z3 5.3.2 / cvc5 1.1.2"] + P.get("assumptions", []) + ["library theory: " + ", ".join(t[4:] if t.startswith("lib:") else t for t in trusted)],
        "functions_under_contract": sorted({r["fn"] for r in results}),
        "functions_inlined": sorted({q for r in results for q in r["inlined"]}),
        "contracts_proved_by_no_unit_of_this_check": unproved_contracts,
        "callee_contracts_assumed_here": sorted({q for r in results for q in r.get("contracts", [])}),
        "units": [{"unit": r["unit"], "fn": r["fn"], "status": r["status"], "obligations": len(r["obs"]), "discharged": sum(o["status"] == "proved" for o in r["obs"]), "solver_s": round(sum(o["time"] for o in r["obs"]), 2), "wall_s": r["wall"], "why": r["error"]} for r in results],
        "back_ends": {b: sum(o["backend"] == b for r in results for o in r["obs"] if o["status"] == "proved") for b in sorted({o["backend"] for r in results for o in r["obs"] if o["status"] == "proved"})},
        "solver_s": round(sum(o["time"] for r in results for o in r["obs"]), 2),
        "not_proved_on_this_run": [{"unit": r["unit"], "why": r["error"] or "obligations left: " + "; ".join(o["label"] for o in r["obs"] if o["status"] != "proved")} for r in results if r["status"] != "proved"],
        "bounded": [{"harness": h.src, "status": s, "bound": "randomised/enumerated inputs, %s s budget" % (h.thorough if tier == "thorough" else h.quick), "stats": {k: v for k, v in st.items() if k != "samples"}, "samples": st.get("samples", [])[:5], "note": P.get("harness_note", "concrete replay of the contracts against the compiled real code; bounded, never counted as proved") + ("" if s != "error" else " -- NOT RUN: " + o[:400])} for h, s, o, st in hres] + [{"unit": r["unit"], "status": "bounded instance holds"} for r in bounded_ok],
        "samples": [{"unit": r["unit"], "obligation": r["obs"][0]["label"]} for r in results if r["obs"]][:5],
    }
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    if level != "proof":
        ev["coverage"]["explanation"] = P.get("explanation", "")
        ev["coverage"]["evaluations"] = sum(st.get("evaluations", 0) for _, _, _, st in hres)
        ev["coverage"]["distinct_nontrivial"] = sum(st.get("nontrivial", 0) for _, _, _, st in hres)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: units %d proved %d failed %d undecided %d; obligations %d discharged %d; harness %s; %.1fs" % (pid, len(results), sum(r["status"] == "proved" for r in results), len(failing), len(unsupported) + len(bounded_ok), obligations, discharged, ",".join(s for _, s, _, _ in hres) or "none", time.time() - t0))
    for r in unsupported: print("  undecided unit %s: %s" % (r["unit"], r["error"]))
    for h, s, o, st in herrs: print("  harness error:", o[:600])
    if viol:
        if not hfail:
            for r in failing:
                for o in r["obs"]:
                    if o["status"] != "proved": print("  failed obligation: %s [%s] %s:%s %s (%s)" % (r["unit"], o["kind"], o["fn"], o["line"], o["label"], o["status"]))
        print(viol)
        sys.exit(1)
    decided = any(r["status"] == "proved" for r in results) or any(s == "ok" for _, s, _, _ in hres)
    if not decided:
        print("nothing could be decided")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__": main()
