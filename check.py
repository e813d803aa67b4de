#!/usr/bin/env python3-vt
"""check.py <property> [--verbose]   decide one property on /repo's working tree.

exit 0: every obligation discharged (and the concrete cross-check agreed)
exit 1: VIOLATION line
"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from klv import build, core, models, solver  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VERBOSE = "--verbose" in sys.argv or "-v" in sys.argv
PROOF_S = 560 if TIER == "quick" else 3000


class Ctx:
    tier = TIER
    seed = SEED


def run_unit(prop, idx, bcs, conn, deadline):
    """child process: one verification unit"""
    res = {"obligs": {}, "failures": [], "covers": {}, "error": None, "fns": {}, "trusted": [], "loops": [], "stat": {}, "assumptions": []}
    eng = None
    t0 = time.time()
    try:
        m = importlib.import_module("props." + prop.lower())
        name, srcs, fn = m.UNITS[idx][:3]
        mods = [build.load(b) for b in bcs]
        eng = core.Engine(mods)
        models.install(eng)
        eng.deadline = deadline
        if TIER != "quick":
            eng.solver.full_ms = 180000
        eng.assumptions = []
        try:
            fn(eng)
        except core.TooManyFailures:
            pass
    except core.Unsupported as e:
        res["error"] = "not within the verifier's reach: %s" % e
    except RecursionError:
        res["error"] = "not within the verifier's reach: recursion"
    except Exception:
        res["error"] = "verifier error: " + traceback.format_exc()[-3000:]
    if eng is not None:
        res["obligs"] = eng.obligs
        res["covers"] = eng.covers
        res["fns"] = eng.fn_used
        res["trusted"] = sorted({"%s: %s" % k for k in eng.trusted_used})
        res["loops"] = eng.loop_log
        res["assumptions"] = getattr(eng, "assumptions", [])
        for f in eng.failures:
            cases = f.cases
            md = ""
            if f.model is not None:
                try:
                    md = "\n".join("%s = %s" % (d.name(), str(f.model[d])[:300]) for d in list(f.model.decls())[:60])
                except Exception:
                    pass
            res["failures"].append({"obligation": f.name, "detail": f.msg[:800], "solver": f.status, "model": md, "cases": cases})
    res["stat"] = dict(solver.STAT)
    res["wall"] = time.time() - t0
    conn.send(res)
    conn.close()


def build_driver(prop, work):
    src = os.path.join(HERE, "drivers", prop.lower() + ".cpp")
    if not os.path.exists(src):
        return None, None
    out = os.path.join(work, prop.lower() + ".drv")
    m = importlib.import_module("props." + prop.lower())
    extra = [build.REPO + "/" + s[5:] if s.startswith("repo:") else s for s in getattr(m, "DRIVER_SRC", [])]
    flags = getattr(m, "DRIVER_FLAGS", [])
    san = getattr(m, "DRIVER_SAN", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute"])
    std = getattr(m, "DRIVER_STD", "-std=c++17")
    cmd = ["clang++-18", std, "-O1", "-g1", *san, "-I" + build.REPO + "/include", "-I" + os.path.join(HERE, "drivers"),
           "-I" + build.REPO, *build.incs(), src, *extra, "-o", out, *flags]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, "driver does not build: " + r.stderr[-3000:]
    return out, None


def drv_env(work):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:exitcode=77"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["KLV_SCRATCH"] = work
    return e


def drv_search(drv, work, seconds, seed, tag):
    """returns (evaluations, failing case or None, text)"""
    cur = os.path.join(work, "case." + tag)
    try:
        r = subprocess.run([drv, "search", str(seed), str(seconds), cur], capture_output=True, text=True, errors="replace", timeout=seconds * 3 + 60, env=drv_env(work))
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = 99, "", "timeout (hang)"
    ev = 0
    for l in out.splitlines():
        if l.startswith("EVALS "):
            ev = int(l.split()[1])
    if rc == 0:
        return ev, None, out
    case = open(cur, errors="replace").read().split("\0")[0] if os.path.exists(cur) else ""
    # leak reports come at exit: no single case; keep the last one
    return ev, case, (out[-2000:] + "\n" + err[-4000:])


def drv_replay(drv, work, case, timeout=60):
    f = os.path.join(work, "rp%d" % (abs(hash(case)) % 10**9))
    open(f, "w").write(case)
    try:
        r = subprocess.run([drv, "replay", f], capture_output=True, text=True, errors="replace", timeout=timeout, env=drv_env(work))
        return r.returncode, r.stdout[-2000:] + "\n" + r.stderr[-4000:]
    except subprocess.TimeoutExpired:
        return 99, "timeout (hang)"


def main():
    prop = sys.argv[1]
    t0 = time.time()
    m = importlib.import_module("props." + prop.lower())
    work = tempfile.mkdtemp(prefix="klv_%s_" % prop)
    code = 2
    try:
        code = decide(prop, m, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, m, work, t0):
    # ---- mechanical extraction (all sources, in parallel)
    srcs = sorted({s for u in m.UNITS for s in u[1]})
    bc, err = {}, {}

    def comp(s):
        try:
            p = build.REPO + "/" + s[5:] if s.startswith("repo:") else os.path.join(HERE, s)
            bc[s] = build.compile_bc(p, work, getattr(m, "IR_FLAGS", ()))
        except Exception as e:
            err[s] = str(e)
    drvres = {}

    def drvjob():
        d, e = build_driver(prop, work)
        drvres["drv"], drvres["err"] = d, e
        if d:
            n = 2 if TIER == "quick" else 4
            secs = getattr(m, "DRIVER_SECONDS", 6) if TIER == "quick" else 120
            rs = [None] * n
            th = []
            for i in range(n):
                def go(i=i):
                    rs[i] = drv_search(d, work, secs, SEED * 1000 + i, str(i))
                x = threading.Thread(target=go)
                x.start()
                th.append(x)
            for x in th:
                x.join()
            drvres["runs"] = rs
    ths = [threading.Thread(target=comp, args=(s,)) for s in srcs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    dth = threading.Thread(target=drvjob)
    dth.start()
    units = []
    if err:
        for s, e in err.items():
            units.append({"name": "extraction of " + s, "obligs": {}, "failures": [], "covers": {}, "error": e, "fns": {}, "trusted": [], "loops": [], "stat": {}, "wall": 0, "assumptions": []})
    else:
        deadline = time.time() + PROOF_S
        pend = list(range(len(m.UNITS)))
        running = []
        done = {}
        ctx = mp.get_context("fork")
        maxp = 8
        while pend or running:
            while pend and len(running) < maxp:
                i = pend.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=run_unit, args=(prop, i, [bc[s] for s in m.UNITS[i][1]], b, deadline))
                p.start()
                b.close()
                running.append((i, p, a))
            for x in list(running):
                i, p, a = x
                if a.poll(0.02):
                    try:
                        done[i] = a.recv()
                    except EOFError:
                        done[i] = {"obligs": {}, "failures": [], "covers": {}, "error": "verifier process died", "fns": {}, "trusted": [], "loops": [], "stat": {}, "wall": 0, "assumptions": []}
                    p.join()
                    running.remove(x)
                elif time.time() > deadline + 60:
                    p.kill()
                    p.join()
                    done[i] = {"obligs": {}, "failures": [], "covers": {}, "error": "time budget exhausted", "fns": {}, "trusted": [], "loops": [], "stat": {}, "wall": 0, "assumptions": []}
                    running.remove(x)
        for i in range(len(m.UNITS)):
            done[i]["name"] = m.UNITS[i][0]
            units.append(done[i])
    dth.join()
    # ---- verdict
    nobl = sum(sum(u["obligs"].values()) for u in units)
    named = sum(len(u["obligs"]) for u in units)
    problems = []
    for u in units:
        for f in u["failures"]:
            problems.append(dict(f, unit=u["name"]))
        if u["error"]:
            problems.append({"unit": u["name"], "obligation": "%s: obligations generated and discharged" % u["name"], "detail": u["error"], "solver": "-", "model": "", "cases": []})
        elif not u["failures"]:
            for c, ok in u["covers"].items():
                if not ok:
                    problems.append({"unit": u["name"], "obligation": "%s: %s is reachable (vacuity)" % (u["name"], c), "detail": "path never taken", "solver": "-", "model": "", "cases": []})
            if not u["covers"] or not u["obligs"]:
                problems.append({"unit": u["name"], "obligation": "%s: generates obligations" % u["name"], "detail": "vacuous unit", "solver": "-", "model": "", "cases": []})
    found = None   # (case, text, how)
    drv = drvres.get("drv")
    evals = sum(r[0] for r in drvres.get("runs", []) if r)
    if drv:
        for p in problems:
            for c in p["cases"]:
                rc, txt = drv_replay(drv, work, c)
                if rc != 0:
                    found = (c, txt, "verifier counterexample for '%s'" % p["obligation"])
                    break
            if found:
                break
        if not found:
            for r in drvres.get("runs", []):
                if r and r[1] is not None:
                    rc, txt = drv_replay(drv, work, r[1])
                    if rc != 0:
                        found = (r[1], txt, "search of the concrete cross-check")
                        break
                    rc2 = "LeakSanitizer" in r[2] or "AddressSanitizer" in r[2] or "ThreadSanitizer" in r[2]
                    found = (r[1], r[2], "search of the concrete cross-check (history)")
        if problems and not found:
            ev, case, txt = drv_search(drv, work, 25, SEED * 1000 + 77, "x")
            evals += ev
            if case is not None:
                rc, txt2 = drv_replay(drv, work, case)
                found = (case, txt2 if rc else txt, "search after a failed obligation")
    elif drvres.get("err") and not problems:
        problems.append({"unit": "driver", "obligation": "driver: builds against the API", "detail": drvres["err"], "solver": "-", "model": "", "cases": []})
    wall = time.time() - t0
    fns = {}
    for u in units:
        for k, v in u["fns"].items():
            fns[k] = fns.get(k, 0) + v
    stat = {}
    for u in units:
        for k, v in u["stat"].items():
            stat[k] = max(stat.get(k, 0), v) if k == "max_s" else round(stat.get(k, 0) + v, 2)
    failed = len(problems)
    repo_fns = sorted(k for k in fns if "kl::" in k or k.startswith("klv_"))
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": getattr(m, "LEVEL", "proof"),
        "coverage": {
            "obligations": nobl + failed, "discharged": nobl,
            "checker_cmd": "python3-vt check.py %s (z3 4.8.12/z3-new/cvc5 back ends)" % prop,
            "trusted_base": sorted({t for u in units for t in u["trusted"]}) + ["clang 18 front end and mem2reg (C++ to LLVM IR)", "klv verification-condition generator", "z3 / cvc5 unsat answers"],
            "named_obligations": named,
            "functions_under_contract": repo_fns[:400],
            "other_functions_verified_through": len(fns) - len(repo_fns),
            "units": [{"unit": u["name"], "obligations": sum(u["obligs"].values()), "named": len(u["obligs"]), "failures": len(u["failures"]), "error": u["error"], "wall_s": round(u["wall"], 2), "covers": u["covers"], "loops": u["loops"][:40]} for u in units],
            "obligation_names": sorted({k for u in units for k in u["obligs"]})[:600],
            "solver": stat,
            "concrete_cross_check_evaluations": evals,
            "bounded": getattr(m, "BOUNDED", []),
            **({"explanation": "BOUNDED stand-in, not counted as proved: " + " ".join(getattr(m, "BOUNDED", []))} if getattr(m, "LEVEL", "proof") == "other" else {}),
        },
        "assumptions": sorted({a for u in units for a in u["assumptions"]} | set(getattr(m, "ASSUMPTIONS", []))),
        "wall_s": round(wall, 2), "violations": 1 if (problems or found) else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("known: "):].strip())
    print("%s: %d obligations (%d named) discharged, %d problems, %d functions, %d concrete cases, %.1f s (solver %.1f s)" % (
        prop, nobl, named, failed, len(fns), evals, wall, stat.get("solver_s", 0)))
    if VERBOSE:
        for u in units:
            print("  unit %-40s %4d obl %5.1fs q=%s slow=%.1f %s" % (u["name"], sum(u["obligs"].values()), u["wall"], u["stat"].get("queries"), u["stat"].get("max_s", 0), u["error"] or ""))
    if not problems and not found:
        return 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".txt")
    with open(rp, "w") as f:
        f.write("property %s\n" % prop)
        for p in problems:
            f.write("\nFAILED OBLIGATION: %s\n  unit: %s\n  solver answer: %s\n  detail: %s\n" % (p["obligation"], p["unit"], p["solver"], p["detail"]))
            if p["model"]:
                f.write("  counterexample:\n    " + p["model"].replace("\n", "\n    ") + "\n")
        if found:
            f.write("\nFAILING INPUT (%s), replayed on the real code with drivers/%s.cpp:\n%s\n\noutput:\n%s\n" % (found[2], prop.lower(), found[0], found[1]))
        else:
            f.write("\nno failing input found by the concrete search\n")
    for p in problems[:5]:
        print("FAILED OBLIGATION %s [%s] %s" % (p["obligation"], p["solver"], p["detail"][:300].replace("\n", " ")))
    if found:
        print("failing input: %s" % found[0][:300].replace("\n", " | "))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    return 1


if __name__ == "__main__":
    main()
