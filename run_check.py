#!/usr/bin/env python3
"""Runs the solver-based checks of one property against /repo's current source tree.

  run_check.py <property> [--tier quick|thorough]

1. compiles every library source of /repo (and the property's harnesses) to LLVM IR,
2. lets build/qsx execute the harness symbolically and Z3 decide every assertion,
3. replays every counterexample natively (sanitized build of the same sources); only counterexamples
   that reproduce are violations,
4. writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QSX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LLVM = "/usr/lib/llvm-18/bin"
CXX = os.path.join(LLVM, "clang++") if os.path.exists(LLVM + "/clang++") else "/usr/bin/clang++-18"
JOBS = min(8, os.cpu_count() or 4)
BASE = ["-std=gnu++20", "-ffp-contract=off", "-fno-strict-aliasing", "-w", "-fopenmp", "-DQUESO_BUILD_TESTING=0",
        "-I" + HERE + "/harness/shadow", "-I" + HERE + "/harness", "-I" + REPO, "-I" + REPO + "/queso",
        "-I" + REPO + "/external_libraries", "-include", HERE + "/harness/prelude.h"]

INIT = "-ftrivial-auto-var-init=pattern"       # values of uninitialised locals (property option "init": zero for G06)
sys.path.insert(0, HERE)


class Fail(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **kw)


def repo_sources():
    out = []
    for root in ("queso", "external_libraries"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = [x for x in dirs if x not in ("tests", "python", "nanobind", "pybind11") and not x.startswith("_build")]
            out += [os.path.join(d, f) for f in files if f.endswith((".cpp", ".cc"))]
    return sorted(out)


def compile_many(jobs, soft=()):
    """jobs: list of (cmd, source). Raises Fail on the first error; returns the errors of the sources in soft."""
    def one(j):
        r = sh(j[0]); return j[1], r.returncode, r.stdout
    bad = {}
    with ThreadPoolExecutor(JOBS) as ex:
        for src, rc, out in ex.map(one, jobs):
            if rc and src in soft: bad[src] = out[:600]
            elif rc: raise Fail("does not compile: %s\n%s" % (src, out[-3000:]))
    return bad


def to_bitcode(srcs, wd, defines=(), soft=0):
    jobs, outs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(wd, "%03d_%s.bc" % (i, os.path.basename(s)))
        jobs.append(([CXX, *BASE, INIT, *["-D" + d for d in defines], "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-c", s, "-o", o], s))
        outs.append(o)
    # long compilations first
    n = len(srcs) - soft
    bad = compile_many(sorted(jobs, key=lambda j: -os.path.getsize(j[1])), set(srcs[n:]))
    return (outs, [bad.get(s) for s in srcs[n:]]) if soft else outs


def link_module(objs, out, race=False):
    lnk = out + ".l.bc"
    r = sh([LLVM + "/llvm-link", "-o", lnk, *objs])
    if r.returncode:
        raise Fail("llvm-link: " + r.stdout[-2000:])
    dce, pre = out + ".d.bc", out + ".p.bc"
    r = sh([LLVM + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=qsx_main", lnk, "-o", dce])
    if not r.returncode: r = sh([BUILD + "/qsx", "-prept" if race else "-prep", dce, pre])
    if not r.returncode: r = sh([LLVM + "/opt", "-passes=globaldce,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", pre, "-o", out])
    for f in (lnk, dce, pre):
        if os.path.exists(f): os.unlink(f)
    if r.returncode:
        raise Fail("opt: " + r.stdout[-2000:])


def native_build(harness, wd, defines=(), race=False):
    """Sanitized native build of harness + repository sources, for replay. race: every access reports to engine/race_rt.cpp
    (clang's thread sanitizer instrumentation with our runtime)."""
    exe = os.path.join(wd, os.path.basename(harness) + (".race" if race else ".replay"))
    if os.path.exists(exe):
        return exe
    plain = [*BASE, INIT, *["-D" + d for d in defines], "-DQSX_NATIVE", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]; flags = plain + ["-fsanitize=thread" if race else "-fsanitize=address"]
    nd = os.path.join(wd, "race" if race else "native"); os.makedirs(nd, exist_ok=True)
    jobs, objs = [], []
    for i, s in enumerate(repo_sources()):
        o = os.path.join(nd, "%03d.o" % i); objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX, *flags, "-c", s, "-o", o], s))
    for s in (harness, HERE + "/harness/omp_rt.cpp", HERE + "/engine/replay.cpp") + ((HERE + "/engine/race_rt.cpp",) if race else ()):
        o = os.path.join(nd, os.path.basename(s) + ".o"); objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX, *(plain if race and s != harness else flags), "-c", s, "-o", o], s))
    compile_many(sorted(jobs, key=lambda j: -os.path.getsize(j[1])))
    r = sh([CXX, *([] if race else ["-fsanitize=address"]), "-o", exe, *objs, "-lm"])
    if r.returncode:
        raise Fail("replay link: " + r.stdout[-2000:])
    return exe


def replay(exe, ce, wd):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:alloc_dealloc_mismatch=0")
    d = tempfile.mkdtemp(dir=wd)
    try:
        r = sh([exe, os.path.abspath(ce)], timeout=120, env=env, cwd=d)
    except subprocess.TimeoutExpired:
        return "timeout", "the replay did not terminate within 120 s"
    if r.returncode == 0: return "held", r.stdout[-1500:]
    if r.returncode == 3: return "diverged", r.stdout[-1500:]
    return "violated", r.stdout[-1500:]


def known_findings():
    """known_findings.txt: lines  known: property=<id> run=<run> label=<regex> <text>   /  fixed: ...  """
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) run=(\S+) label=\"(.*?)\" (.*)$", ln.rstrip("\n"))
            if m: out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from checks_spec import CHECKS
    spec = CHECKS[a.prop]
    global INIT
    INIT = "-ftrivial-auto-var-init=" + spec.get("init", "pattern")
    t0 = time.time()
    total_budget = spec.get("total", {}).get(a.tier, 560 if a.tier == "quick" else 800)
    hard_end = t0 + min(total_budget, 840)
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["bash", HERE + "/engine/build.sh"])
    if r.returncode: print(r.stdout); return 2
    wd = tempfile.mkdtemp(prefix="w_%s_" % a.prop, dir=BUILD)
    evdir = os.path.join(HERE, "evidence"); os.makedirs(evdir, exist_ok=True)
    cedir = os.path.join(evdir, "replays", a.prop); shutil.rmtree(cedir, ignore_errors=True)
    runs = [x for x in spec["runs"] if a.tier in x.get("tiers", ("quick", "thorough")) and (not a.only or re.search(a.only, x["name"]))]
    results, violations, unconfirmed, known, notes = [], [], [], [], []
    kf = known_findings()
    try:
        try:
            mods = {}
            src = repo_sources()
            hs = sorted({x["harness"] for x in runs if not x.get("py")})
            if hs:
                hp = [os.path.join(HERE, "harness", h + ".cpp") for h in hs]
                bcs, bad = to_bitcode(src + [HERE + "/harness/omp_rt.cpp"] + hp, wd, soft=len(hp))
                for h, msg in zip(hs, bad):     # the tree compiles but an interface this harness uses is gone
                    if msg: notes.append("harness %s does not fit this tree, its runs are skipped: %s" % (h, msg))
                if all(bad): raise Fail("no harness compiles against this tree\n" + bad[0])
                common, hb = bcs[:-len(hp)], dict(zip(hs, bcs[-len(hp):]))
                hs = [h for h, msg in zip(hs, bad) if not msg]; runs = [x for x in runs if x.get("py") or x["harness"] in hs]
                with ThreadPoolExecutor(4) as ex:
                    def mk(i):
                        o = os.path.join(wd, hs[i] + ".m.bc"); link_module(common + [hb[hs[i]]], o, spec.get("race")); return o
                    for h, o in zip(hs, ex.map(mk, range(len(hs)))): mods[h] = o
        except Fail as e:
            print("ERROR property=%s %s" % (a.prop, e)); return 2
        compile_s = time.time() - t0
        # share the remaining time between the runs
        weights = [x.get("weight", 1.0) for x in runs]
        par = max(1, spec.get("parallel", 4))
        def run_one(i):
            x = runs[i]
            left = hard_end - time.time() - 5
            if left < 3: return i, None
            budget = min(x.get("budget", {}).get(a.tier, 300), left)
            out = os.path.join(wd, "run%d" % i)
            if x.get("py"):
                cmd = ["/opt/veriftools/pyvenv/bin/python3", os.path.join(HERE, "harness", x["py"]), "--out", out, "--repo", REPO, "--tier", a.tier, "--budget", str(budget)]
                for k, v in x.get("args", {}).items(): cmd += ["--" + k, str(v)]
            else:
                cmd = [BUILD + "/qsx", mods[x["harness"]], "-o", out, "-budget", "%.1f" % budget, "-j", str(x.get("j", max(2, JOBS // par)))]
                for k, v in {**x.get("args", {}), **x.get("args_" + a.tier, {})}.items(): cmd += ["-D", "%s=%s" % (k, v)]
                cmd += x.get("opts", [])
            d = tempfile.mkdtemp(dir=wd)
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=budget + 40, cwd=d)
                tail = r.stdout[-2000:]
            except subprocess.TimeoutExpired as e:
                tail = "killed after %.0f s" % (budget + 40)
                subprocess.run(["pkill", "-9", "-f", out], stdout=subprocess.DEVNULL)
            res = None
            if os.path.exists(out + ".json"):
                try: res = json.load(open(out + ".json"))
                except Exception as e: tail += " " + str(e)
            return i, (res, tail, out)
        order = sorted(range(len(runs)), key=lambda i: -weights[i])
        with ThreadPoolExecutor(par) as ex:
            raw = dict(ex.map(run_one, order))
        for i, x in enumerate(runs):
            if raw.get(i) is None: results.append({"run": x["name"], "status": "not started (time)"}); notes.append(x["name"] + ": not started"); continue
            res, tail, out = raw[i]
            if res is None: results.append({"run": x["name"], "status": "no result", "output": tail[-400:]}); notes.append(x["name"] + ": no result"); continue
            missing = [l for l in x.get("reach", []) if not res.get("reach", {}).get(l)]
            und = sum(v["unknown"] for v in res.get("asserts", {}).values())
            st = "decided" if not res["errors"] and not und and not res["deadline_hit"] else "incomplete"
            if missing: st = "vacuous"; notes.append("%s: never reached %s" % (x["name"], ", ".join(missing)))
            if st == "incomplete": notes.append("%s: %d undecided assertions, %s" % (x["name"], und, dict(list(res.get("engine_errors", {}).items())[:4])))
            rec = {"run": x["name"], "status": st, "bounds": x.get("bounds", ""), **{k: res[k] for k in res if k not in ("functions",)}}
            results.append(rec)
            rec["functions"] = res.get("functions", [])
            for ce in sorted(glob.glob(out + ".ce*")):
                txt = open(ce).read(); label = txt.split("\n", 1)[0][6:]
                os.makedirs(cedir, exist_ok=True); keep = os.path.join(cedir, "%s.%s.txt" % (x["name"], ce.rsplit(".", 1)[1]))
                try:
                    if x.get("py"): status, log = ("violated" if "\nconfirmed yes" in txt else "held"), ""
                    else: status, log = replay(native_build(os.path.join(HERE, "harness", x["harness"] + ".cpp"), wd, race=label.startswith("data race")), ce, wd)
                except Fail as e: status, log = "replay build failed", str(e)
                open(keep, "w").write(txt + "\n--- native replay: %s\n%s\n" % (status, log))
                m = re.search(r"REPLAY violated (.*)", log or "")
                item = {"run": x["name"], "label": label, "replayed_label": m.group(1) if m else (log or "").strip()[:200], "replay": keep, "status": status}
                hit = [k for k in kf if k[0] == a.prop and re.fullmatch(k[1], x["name"]) and re.search(k[2], label)]
                if status == "violated" and hit: known.append((hit[0], item))
                elif status == "violated": violations.append(item)
                else: unconfirmed.append(item)
    finally:
        if not a.keep: shutil.rmtree(wd, ignore_errors=True)
        else: print("kept", wd)
    fns = sorted({f for r in results for f in r.get("functions", [])})
    asserts = {}
    for r in results:
        for l, v in r.get("asserts", {}).items():
            t = asserts.setdefault(r["run"] + ": " + l, dict.fromkeys(v, 0))
            for k in v: t[k] += v[k]
    obligations = sum(v["concrete"] + v["unsat"] + v["sat"] + v["unknown"] for v in asserts.values())
    discharged = sum(v["concrete"] + v["unsat"] for v in asserts.values())
    tot = lambda k: sum(r.get(k, 0) for r in results)
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
          "coverage": {"states": tot("paths") + tot("pruned"), "transitions": tot("instructions"), "traces_validated_against_impl": len(violations) + len(known) + len(unconfirmed),
                       "samples": [{k: r.get(k) for k in ("run", "status", "bounds", "paths", "queries", "unsat", "sat", "unknown", "solver_s", "wall_s", "reach", "asserts", "engine_errors")} for r in results],
                       "paths": tot("paths"), "infeasible_paths": tot("pruned"), "forks": tot("forks"), "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
                       "assertions_evaluated": obligations, "assertions_discharged": discharged, "assertions_discharged_by_solver": sum(v["unsat"] for v in asserts.values()),
                       "assertions_undecided": sum(v["unknown"] for v in asserts.values()), "solver_s": round(tot("solver_s"), 2), "solver_max_s": max([r.get("solver_max_s", 0) for r in results] or [0]),
                       "symbolic_fp_operations": tot("symbolic_fp_ops"), "engine_errors": tot("errors"), "functions_encoded": fns, "runs_decided": sum(r["status"] == "decided" for r in results), "runs_total": len(runs), "compile_s": round(compile_s, 1),
                       "incomplete": notes, "unconfirmed_counterexamples": unconfirmed, "exhaustive": all(r["status"] == "decided" for r in results)},
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
    for k, item in known[:20]: pass
    for txt in sorted({k[3] for k, _ in known}): print("KNOWN-FINDING: property=%s %s" % (a.prop, txt))
    print("%s %s: %d/%d runs decided, %d paths, %d assertion instances (%d by the solver, %d undecided), %d queries, solver %.1f s, wall %.1f s" % (a.prop, a.tier, ev["coverage"]["runs_decided"], len(runs), tot("paths"), obligations, ev["coverage"]["assertions_discharged_by_solver"], ev["coverage"]["assertions_undecided"], tot("queries"), tot("solver_s"), ev["wall_s"]))
    for n in notes: print("  note:", n)
    for u in unconfirmed: print("  not reproduced natively (%s): %s %s" % (u["status"], u["run"], u["label"]))
    if a.v:
        for r in results: print(json.dumps({k: r.get(k) for k in ("run", "status", "wall_s", "paths", "pruned", "errors", "queries", "unknown", "solver_s", "solver_max_s", "reach", "asserts", "engine_errors")}, indent=None))
    if violations:
        seen = set()
        for v in violations:
            if (v["run"], v["label"]) in seen: continue
            seen.add((v["run"], v["label"]))
            if len(seen) <= 12: print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"])); print("   %s: %s -> %s" % (v["run"], v["label"], v["replayed_label"]))
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    "symbolic doubles are real numbers: arithmetic on symbolic operands is exact; doubles that do not depend on a symbolic input are computed in IEEE arithmetic as on the machine; assertions carry a rounding allowance",
    "the C++ standard library and libm are executed natively on concrete arguments; header-only parts are executed symbolically",
    "OpenMP regions run one thread after the other, with the argument sched in every order of the first synchronisation points (harness/omp_rt.cpp)",
    "the encoding is clang 18's LLVM IR at -O1 without floating-point contraction, regenerated from /repo on every run",
]

if __name__ == "__main__":
    sys.exit(main())
