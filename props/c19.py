"""C19: zipped/enumerated iteration yields aligned elements, stops at the shortest range."""
from klv.spec import *

SRC = ["harness/c19.cpp"]
LIM = 1 << 40


def umin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(ult(r, x), r, x, 64)
    return norm(r)


def elem(p, base, i, size):
    """p points at element i of the buffer base"""
    return And(isinstance(p, Ptr) and p.o == base.o, eq(p.off, mul(i, size))) if isinstance(p, Ptr) else False


def setup(eng, fn, bufs, want):
    """bufs: list of (Ptr, len, elem size) in argument order of klv_visit"""
    def m_visit(eng, s, a, ins, name):
        i = s.ghost["count"]
        eng.prove(s, ult(i, want), "no step beyond the shortest range", fn)
        for k, (p, n, sz) in enumerate(bufs):
            eng.prove(s, elem(a[k], p, i, sz), "step i refers to element i of range %d" % k, fn, str(a[k]))
            eng.prove(s, ult(i, n), "range %d is not visited past its end" % k, fn)
        s.ghost["count"] = add(i, 1)
        eng.cover(s, "visits")
    eng.model("^klv_visit$", m_visit, kind="specification", doc="receives the elements")
    eng.loop_hints = [lambda eng, fr, L, h, e: [("steps so far", lambda v: ule(v.st.ghost["count"], want))]]


def finish(eng, st, fn, args, want):
    for s, oc in eng.call_fn(st, fn, args):
        if oc[0] != "ret":
            eng.prove(s, False, "does not throw", fn)
            continue
        eng.prove(s, eq(s.ghost["count"], want), "POST exactly as many steps as the shortest range has elements", fn)
        eng.cover(s, "returns")


def bufs_of(st, k):
    r = []
    for nm, sz in [("a", 4), ("b", 2), ("c", 1)][:k]:
        n = z3.BitVec("n_" + nm, 64)
        st.assume(z3.ULE(n, LIM))
        p, _, _ = input_buffer(st, nm, norm(n * sz))
        r.append((p, n, sz))
    return r


def start(eng):
    st = State(eng)
    st.ghost["count"] = 0
    eng.require_termination = True
    return st


def vec(st, p, n, sz):
    v = local_obj(st, 24, "vector")
    st.wobj(v.o).cells = {0: (8, p), 8: (8, Ptr(p.o, mul(n, sz))), 16: (8, Ptr(p.o, mul(n, sz)))}
    return v


def case(eng, bufs, extra=""):
    def f(m):
        c = [min(mint(m, n), 50) for _, n, _ in bufs]
        return "zip %s %s" % (" ".join(str(x) for x in (c + [0, 0, 0])[:3]), extra)
    eng.cex = f
    eng.cex_bias = [And(*[ule(n, 5) for _, n, _ in bufs])]


def zip_(eng, fn, k, how="buf"):
    st = start(eng)
    b = bufs_of(st, k)
    if how == "arr":
        p, _, _ = input_buffer(st, "arr", 20)
        b[0] = (p, 5, 4)
    want = umin(*[n for _, n, _ in b])
    setup(eng, fn, b, want)
    case(eng, b)
    if how == "vec":
        args = [vec(st, *x) for x in b]
    elif how == "arr":
        args = [b[0][0], b[1][0], b[1][1]]
    else:
        args = [y for x in b for y in x[:2]]
    finish(eng, st, fn, args, want)


def enum_(eng, fn, how):
    st = start(eng)
    b = bufs_of(st, 2)
    a = b[0] if how in ("buf", "vec") else b[1]
    n = a[1]
    frm, to = 0, None
    if how in ("iota", "iota2"):
        frm = z3.BitVec("from", 64)
    if how == "iota2":
        cnt = z3.BitVec("cnt", 64)
        to = norm(frm + cnt)
        st.assume(z3.ULE(frm, to))
        n = umin(n, cnt)

    def m_index(eng, s, x, ins, name):
        i = s.ghost["count"]
        eng.prove(s, ult(i, n), "no step beyond the shortest range", fn)
        eng.prove(s, eq(x[0], add(frm, i)), "counters are consecutive from the start value", fn, str(x[0]))
        eng.prove(s, elem(x[1], a[0], i, a[2]), "step i refers to element i", fn)
        s.ghost["count"] = add(i, 1)
        eng.cover(s, "visits")
    eng.model("^klv_index$", m_index, kind="specification", doc="receives the elements")
    eng.loop_hints = [lambda eng, fr, L, h, e: [("steps so far", lambda v: ule(v.st.ghost["count"], n))]]

    def f(m):
        return "enum %d %d %d" % (min(mint(m, a[1]), 50), mint(m, frm), min(mint(m, to) - mint(m, frm), 50) if to is not None else 0)
    eng.cex = f
    eng.cex_bias = [And(ule(n, 5), ule(a[1], 5))]
    if how == "vec":
        args = [vec(st, *a)]
    elif how == "buf":
        args = [a[0], a[1]]
    elif how == "iota":
        args = [frm, a[0], a[1]]
    else:
        args = [frm, to, a[0], a[1]]
    finish(eng, st, fn, args, n)


def iota(eng):
    fn = "klv_iota"
    st = start(eng)
    a, want = z3.BitVec("from", 64), z3.BitVec("cnt", 64)
    b = norm(a + want)
    st.assume(a <= b)     # and the distance, as an unsigned number, is exactly want

    def m_value(eng, s, x, ins, name):
        i = s.ghost["count"]
        eng.prove(s, ult(i, want), "no value beyond the end", fn)
        eng.prove(s, eq(x[0], add(a, i)), "values are consecutive", fn)
        s.ghost["count"] = add(i, 1)
        eng.cover(s, "visits")
    eng.model("^klv_value$", m_value, kind="specification", doc="receives the values")
    eng.loop_hints = [lambda eng, fr, L, h, e: [("steps so far", lambda v: ule(v.st.ghost["count"], want))]]
    eng.cex = lambda m: "iota %d %d" % (sgn(mint(m, a), 64), min(mint(m, want), 50))
    eng.cex_bias = [ule(want, 5)]
    finish(eng, st, fn, [a, b], want)


UNITS = [("zip of one range", SRC, lambda e: zip_(e, "klv_zip1", 1)), ("zip of two ranges", SRC, lambda e: zip_(e, "klv_zip2", 2)),
         ("zip of three ranges", SRC, lambda e: zip_(e, "klv_zip3", 3)), ("zip of three ranges, explicit iteration", SRC, lambda e: zip_(e, "klv_zip3r", 3)),
         ("zip of vectors", SRC, lambda e: zip_(e, "klv_zipvec", 2, "vec")), ("zip of an array and a range", SRC, lambda e: zip_(e, "klv_ziparr", 2, "arr")),
         ("enumerated range", SRC, lambda e: enum_(e, "klv_enum", "buf")), ("enumerated vector", SRC, lambda e: enum_(e, "klv_enumvec", "vec")),
         ("zip with a counter", SRC, lambda e: enum_(e, "klv_zipiota", "iota")), ("zip with a bounded counter", SRC, lambda e: enum_(e, "klv_zipiota2", "iota2")),
         ("counter range", SRC, iota)]
DRIVER_SECONDS = 4
ASSUMPTIONS = ["zip is verified for one, two and three ranges (pointer ranges, vectors, arrays, an iterator with a separate end type, counters); every other arity and iterator type instantiates the same template text",
               "a range has at most 2^40 elements"]
