"""Discharging verification conditions: z3 (incremental, then fresh), then cvc5."""
import os
import time
import z3
from .sym import *

STAT = {"z3_incremental": 0, "z3_fresh": 0, "z3_portfolio": 0, "cvc5": 0, "cvc5_int": 0, "solver_s": 0.0, "queries": 0, "max_s": 0.0}


class Solver:
    def __init__(self, quick_ms=500, full_ms=60000):
        self.s = z3.Solver()
        self.stack = []
        self.quick_ms = quick_ms
        self.full_ms = full_ms
        self.s.set("timeout", quick_ms)
        self.use_cvc5 = True
        self.lia = None

    def _sync(self, pc):
        n = 0
        m = min(len(self.stack), len(pc))
        while n < m and self.stack[n] is pc[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)

    def check(self, pc, extra=None, need=False, quick=None):
        """returns (res, model)"""
        if extra is not None:
            extra = tb(extra)
            if extra is False:
                return "unsat", None
            if extra is True:
                extra = None
        t0 = time.time()
        STAT["queries"] += 1
        try:
            if need and extra is not None and is_simple(extra) and not shape(extra)[2]:
                small = [a for a in pc if is_simple(a)]
                if is_light(extra) and self._lia([a for a in small if is_light(a)], extra, 400000) or self._lia(small, extra, 2500000):
                    return "unsat", None
            self._sync(pc)
            # a resource limit (deterministic, independent of machine load); the time-out is only a backstop
            self.s.set("rlimit", (quick or self.quick_ms) * 3500)
            self.s.set("timeout", 10 * (quick or self.quick_ms))
            r = self.s.check(extra) if extra is not None else self.s.check()
            if r == z3.unsat:
                STAT["z3_incremental"] += 1
                return "unsat", None
            if r == z3.sat:
                STAT["z3_incremental"] += 1
                return "sat", self.s.model()
            if not need:
                return "unknown", None
            if extra is not None and self._lia(list(pc), extra, 12000000):
                return "unsat", None
            return self._hard(list(pc) + ([extra] if extra is not None else []))
        finally:
            dt = time.time() - t0
            STAT["solver_s"] += dt
            STAT["max_s"] = max(STAT["max_s"], dt)
            if dt > float(os.environ.get("KLV_SLOW", "1e9")):
                print("  slow query %.1fs need=%s" % (dt, need), flush=True)
                if os.environ.get("KLV_DUMP"):
                    s = z3.Solver()
                    s.add(list(pc))
                    if extra is not None:
                        s.add(extra)
                    open(os.environ["KLV_DUMP"] + ".%d" % STAT["queries"], "w").write("(set-logic ALL)\n" + s.to_smt2())

    def _lia(self, pc, extra, rlimit):
        if self.lia is None:
            from .lia import Lia
            self.lia = Lia()
        try:
            ok = self.lia.refutes(pc + [extra], rlimit, max(2000, rlimit // 1000))
        except z3.Z3Exception:
            return False
        if ok:
            STAT["z3_lia"] = STAT.get("z3_lia", 0) + 1
        return ok

    def _hard(self, asserts):
        s = z3.Solver()
        s.set("rlimit", 25000000)
        s.set("timeout", 30000)
        s.add(asserts)
        r = s.check()
        if r == z3.unsat:
            STAT["z3_fresh"] += 1
            return "unsat", None
        if r == z3.sat:
            STAT["z3_fresh"] += 1
            return "sat", s.model()
        smt2 = s.to_smt2()
        r, who = portfolio(smt2, self.full_ms)
        if r == "unsat":
            STAT[who] = STAT.get(who, 0) + 1
            return "unsat", None
        if r == "sat":
            STAT[who] = STAT.get(who, 0) + 1
            s.set("rlimit", 0)
            s.set("timeout", 20000)
            if s.check() == z3.sat:
                return "sat", s.model()
            return "sat", None
        return "unknown", None


_SHAPE = {}
_BITS = {z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT, z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I}


def shape(t):
    """(number of nodes capped at 300, reads memory)"""
    k = t.get_id()
    r = _SHAPE.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    st, seen, mem, bits = [t], set(), False, False
    while st and len(seen) < 300:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            mem = True
            continue
        if z3.is_select(x) or z3.is_store(x):
            mem = True
        elif z3.is_app(x) and x.decl().kind() in _BITS:
            bits = True
        st.extend(x.children())
    r = (len(seen), mem, bits)
    _SHAPE[k] = (t, r)
    return r


def is_light(t):
    n, mem, bits = shape(t)
    return n <= 120 and not mem


def is_simple(t):
    n, mem, bits = shape(t)
    return n <= (60 if mem else 120)


def has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def portfolio(smt2, ms):
    """first definite answer of several solver processes"""
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        nm = f.name
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt2)
        nm2 = f.name
    t = int(ms / 1000) + 1
    cmds = [("cvc5", ["cvc5", nm]), ("cvc5_int", ["cvc5", "--solve-bv-as-int=sum", nm]),
            ("z3_portfolio", ["z3-new", "-T:%d" % t, nm2]), ("z3_portfolio", ["z3", "-T:%d" % t, nm2]),
            ("z3_portfolio", ["z3-new", "-T:%d" % t, "tactic.default_tactic=smt", nm2])]
    ps = []
    try:
        for who, c in cmds:
            try:
                ps.append((who, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        end = time.time() + ms / 1000
        live = list(ps)
        while live and time.time() < end:
            for x in list(live):
                who, p = x
                if p.poll() is not None:
                    live.remove(x)
                    o = p.stdout.read().split()
                    if o and o[0] in ("sat", "unsat"):
                        return o[0], who
            time.sleep(0.02)
        return "unknown", None
    finally:
        for who, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        os.unlink(nm)
        os.unlink(nm2)
