"""C06: path accessors and views."""
from .pathlib import *

IR_FLAGS = ()


def valid_path(eng):
    """any path that satisfies the invariant C05 establishes"""
    st = State(eng)
    path = PathObj(eng, st)
    st = path.st
    path.arbitrary(st)
    s0 = st.fork()
    st.assume(path.bounds(s0))
    st.foralls = (lambda j: path.layout(s0, j),)
    eng.on_load = lambda eng, s, q, t, v: inst(path, s, q)
    sv, c = path.str_(st), path.count(st)
    J = z3.BitVec("J", 64)
    for j in (0, sub(c, 1), J):
        st.instantiate(j)
    text = str_bytes(st, sv)
    arr = z3.Array("text0", z3.BitVecSort(64), z3.BitVecSort(8))

    def cex(m):
        # some path with that many segments
        n = min(m.eval(c, model_completion=True).as_long(), 9)
        return "set " + ("/".join("s%d" % k + "x" * (k % 3) for k in range(n)).encode().hex() or "-")
    eng.cex = cex
    eng.cex_bias = [c <= k for k in (2, 3, 5, 9)]
    return st, path, sv, c, J


def inst(path, s, q):
    if q.o == path.buf:
        r = div_exact(q.off, 16)
        if r is not None:
            eng = path.eng
            eng.prove(s, ult(r[0], path.count(s)), "only existing segments are read", eng.fname_stack[-1] if eng.fname_stack else "")
            s.instantiate(r[0])


def frame(eng, path, s0, s1, fn):
    a, b = s0.obj(path.p.o), s1.obj(path.p.o)
    same = a.cells == b.cells and s0.obj(path.buf).tarr is s1.obj(path.buf).tarr and s0.obj(path.str_(s0).buf).by is s1.obj(path.str_(s0).buf).by
    eng.prove(s1, bool(same), "POST the path is not modified", fn)


def results(eng, path, st, fn, args, with_len=True):
    s0 = st.fork()
    st = st.fork()
    if with_len:
        out = local_obj(st, 8, "out")
        args = args + [out]
    for s1, oc in eng.call_fn(st, fn, args):
        if oc[0] != "ret":
            eng.prove(s1, False, "POST no exception", fn)
            continue
        frame(eng, path, s0, s1, fn)
        yield s1, oc[1], eng.load(s1, out, T_I64) if with_len else None


def is_range(path, s, ptr, ln, off, want):
    """the returned view is text[off, off+want)"""
    return And(isinstance(ptr, Ptr) and ptr.o == path.str_(s).buf, eq(ptr.off, off) if isinstance(ptr, Ptr) else False, eq(ln, want))


def path_accessors(eng):
    st, path, sv, c, J = valid_path(eng)
    i = z3.BitVec("i", 64)
    for s1, n, _ in results(eng, path, st, "klv_path_size", [path.p], False):
        eng.prove(s1, eq(n, c), "POST size", "klv_path_size")
    for s1, n, _ in results(eng, path, st, "klv_path_empty", [path.p], False):
        eng.prove(s1, Iff(n, eq(c, 0)), "POST empty", "klv_path_empty")
    s = st.fork()
    s.assume(ult(i, c))
    for s1, p, n in results(eng, path, s, "klv_path_at", [path.p, i]):
        eng.cover(s1, "element")
        eng.prove(s1, is_range(path, s1, p, n, path.off(s1, i), path.len(s1, i)), "POST element i", "klv_path_at")
    for s1, p, n in results(eng, path, st, "klv_path_joined", [path.p, i]):
        # the text from segment i to its end; the invariant makes that the segments i.. joined with '/'
        if s1.feasible(ult(i, c)):
            s2 = s1.fork()
            s2.assume(ult(i, c))
            eng.cover(s2, "joined")
            eng.prove(s2, is_range(path, s2, p, n, path.off(s2, i), sub(sv.len, path.off(s2, i))), "POST joined text from segment i", "klv_path_joined")
            s2.assume(And(ule(i, J), ult(J, c)))
            if s2.feasible():
                joined(eng, path, s2, i, c, J, add(path.off(s2, i), n), "klv_path_joined")
        s1.assume(ule(c, i))
        if s1.feasible():
            eng.prove(s1, eq(n, 0), "POST joined text past the end is empty", "klv_path_joined")
            eng.cover(s1, "joined past the end")


def joined(eng, path, s, first, last, J, end, fn):
    """segments first..last-1 lie one after the other, separated by '/', ending at `end`"""
    o, l = path.off(s, J), path.len(s, J)
    s.instantiate(J)
    s.instantiate(add(J, 1))
    eng.prove(s, Implies(eq(add(J, 1), last), eq(add(o, l), end)), "POST the last segment ends the text", fn)
    eng.prove(s, Implies(ult(add(J, 1), last), And(eq(path.off(s, add(J, 1)), add(add(o, l), 1)), eq(path.byte(s, add(o, l)), 47, 8))), "POST segments are separated by '/'", fn)


def views(eng):
    st, path, sv, c, J = valid_path(eng)
    a, b, i, k = (z3.BitVec(x, 64) for x in ("front", "back", "i", "count"))
    st.assume(And(ule(a, c), ule(b, c), ule(add(a, b), c)))
    vs = eng.call_fn(st.fork(), "klv_view_sizeof", [])[0][1][1]
    v = local_obj(st, vs, "view")
    s0 = st.fork()
    m = sub(c, add(a, b))
    for s1, oc in eng.call_fn(st, "klv_view_drop", [path.p, a, b, v]):
        if oc[0] != "ret":
            eng.prove(s1, False, "POST no exception", "klv_view_drop")
            continue
        frame(eng, path, s0, s1, "klv_view_drop")
        for s2, n, _ in results(eng, path, s1, "klv_view_size", [v], False):
            eng.prove(s2, eq(n, m), "POST view size", "klv_view_size")
        for s2, n, _ in results(eng, path, s1, "klv_view_empty", [v], False):
            eng.prove(s2, Iff(n, eq(m, 0)), "POST view empty", "klv_view_empty")
        s2 = s1.fork()
        s2.assume(ult(i, m))
        if s2.feasible():
            for s3, p, n in results(eng, path, s2, "klv_view_at", [v, i]):
                eng.cover(s3, "view element")
                eng.prove(s3, is_range(path, s3, p, n, path.off(s3, add(a, i)), path.len(s3, add(a, i))), "POST view element i is path element front+i", "klv_view_at")
        s2 = s1.fork()
        s2.assume(ult(0, m))
        if s2.feasible():
            for s3, p, n in results(eng, path, s2, "klv_view_front", [v]):
                eng.cover(s3, "view front")
                eng.prove(s3, is_range(path, s3, p, n, path.off(s3, a), path.len(s3, a)), "POST view front", "klv_view_front")
        s2 = s1.fork()
        s2.assume(ule(k, m))
        for s3, p, n in results(eng, path, s2, "klv_view_prefix", [v, k]):
            last = add(add(a, k), mask(64))
            s4 = s3.fork()
            s4.assume(eq(k, 0))
            if s4.feasible():
                eng.prove(s4, eq(n, 0), "POST prefix of no segments is empty", "klv_view_prefix")
            s3.assume(ult(0, k))
            if not s3.feasible():
                continue
            eng.cover(s3, "prefix")
            s3.instantiate(last)
            eng.prove(s3, is_range(path, s3, p, n, 0, add(path.off(s3, last), path.len(s3, last))), "POST prefix runs from the first segment through the view's n-th", "klv_view_prefix")
            s3.assume(ult(J, add(a, k)))
            if s3.feasible():
                joined(eng, path, s3, 0, add(a, k), J, n, "klv_view_prefix")


def empty_view(eng):
    st = State(eng)
    vs = eng.call_fn(st.fork(), "klv_view_sizeof", [])[0][1][1]
    v = local_obj(st, vs, "view")
    for s1, oc in eng.call_fn(st, "klv_view_ctor", [v]):
        for s2, o2 in eng.call_fn(s1.fork(), "klv_view_size", [v]):
            eng.prove(s2, eq(o2[1], 0), "POST a default view has no segments", "klv_view_ctor")
            eng.cover(s2, "default view")
        for s2, o2 in eng.call_fn(s1.fork(), "klv_view_empty", [v]):
            eng.prove(s2, o2[1], "POST a default view is empty", "klv_view_ctor")
        o = local_obj(s1, 8, "out")
        for s2, o2 in eng.call_fn(s1, "klv_view_prefix", [v, 0, o]):
            eng.prove(s2, eq(eng.load(s2, o, T_I64), 0), "POST prefix(0) of a default view is empty", "klv_view_prefix")


UNITS = [("path accessors", SRC, path_accessors), ("views", SRC, views), ("default view", SRC, empty_view)]
DRIVER_SRC = ["repo:src/path.cpp"]
DRIVER_SECONDS = 4
ASSUMPTIONS = ["the path satisfies the invariant that C05 proves for every set(): the text is the segments joined with '/'",
               "std::string, std::string_view::substr and the inline members of boost::container::small_vector: std::string by model, the rest executed as compiled",
               "mixed sequences of drop_front and drop_back are covered as a fronts followed by b backs (for every a, b)"]
