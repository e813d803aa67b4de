"""development aid: run one verification unit in-process: python3-vt -m klv.one c02 0"""
import importlib
import os
import sys
import tempfile
import time
sys.setrecursionlimit(20000)
from . import build, core, models, solver


def main():
    prop, ui = sys.argv[1], sys.argv[2]
    m = importlib.import_module("props." + prop)
    us = [u for i, u in enumerate(m.UNITS) if ui == "all" or (ui.isdigit() and int(ui) == i) or (not ui.isdigit() and ui in u[0])]
    work = tempfile.mkdtemp()
    for name, srcs, fn in us:
        t = time.time()
        mods = []
        for s in srcs:
            p = build.REPO + "/" + s[5:] if s.startswith("repo:") else s
            mods.append(build.load(build.compile_bc(p, work, getattr(m, "IR_FLAGS", ()))))
        eng = core.Engine(mods)
        models.install(eng)
        eng.assumptions = []
        eng.deadline = time.time() + 3000
        q0 = dict(solver.STAT)
        try:
            fn(eng)
        except core.TooManyFailures:
            print("too many failures")
        print("unit", name, sum(eng.obligs.values()), "obligations", len(eng.failures), "failures", "covers", eng.covers, "%.1fs" % (time.time() - t), "queries", solver.STAT["queries"] - q0["queries"])
        for f in eng.failures:
            print("  FAIL", f.name, f.status, f.msg[:300], f.cases[:2])
    os.system("rm -rf " + work)


main()
