"""C13: enum ranges enumerate each value once in order; facade iterators obey the random-access laws."""
from klv.spec import *

SRC = ["harness/c13.cpp"]
T_OF = {8: T_I8, 16: T_I16, 32: T_I32, 64: T_I64}
TYPES = {"i8": (8, 1, -128, 127), "u8": (8, 0, 0, 255), "i16": (16, 1, -32768, 32767), "u16": (16, 0, 3, 65535), "i32": (32, 1, -10**9, 10**9),
         "u32": (32, 0, 7, 4294967295), "i64": (64, 1, -4 * 10**18, 4 * 10**18), "u64": (64, 0, 1, 2**63 - 1), "one": (32, 1, 41, 42), "cnt": (64, 1, 0, 0)}


def call1(eng, st, fn, args):
    for s, oc in eng.call_fn(st, fn, args):
        if oc[0] != "ret":
            eng.prove(s, False, "does not throw", fn)
            continue
        eng.cover(s, fn)
        yield s, oc[1]


def wide(x, signed):
    return (z3.SignExt if signed else z3.ZeroExt)(72 - x.size(), x)


def laws(eng, N):
    w, signed, lo, hi = TYPES[N]
    a, b = z3.BitVec("a", w), z3.BitVec("b", w)
    n = z3.BitVec("n", 64)
    cur = [""]
    eng.cex = lambda m: "%s %s %d %d %d" % (N, cur[0], mint(m, a), mint(m, b), mint(m, n))
    A, B, NN = wide(a, signed), wide(b, signed), z3.SignExt(8, n)
    tmin = -(1 << (w - 1)) if signed else 0
    tmax = (1 << (w - 1)) - 1 if signed or w == 64 else (1 << w) - 1   # 64-bit unsigned: values representable as ptrdiff_t

    def inr(x):
        return z3.And(x >= tmin, x <= tmax)

    def start():
        st = State(eng)
        st.assume(inr(A))
        st.assume(inr(B))
        return st
    two = {"add": A + NN, "radd": A + NN, "adda": A + NN, "sub": A - NN, "suba": A - NN, "idx": A + NN}
    one = {"inc": (1, 1), "pinc": (0, 1), "dec": (-1, -1), "pdec": (0, -1), "arrow": (0, 0), "copy": (0, 0)}

    def res(s, r):
        t = T_OF[w]
        return wide(bv(eng.load(s, r, t), w), signed), wide(bv(eng.load(s, Ptr(r.o, w // 8), t), w), signed)
    for op, want in two.items():
        fn = "klv_%s_%s" % (N, op)
        cur[0] = op
        st = start()
        st.assume(inr(want))
        st.assume(NN > -(1 << 63))
        r = local_obj(st, w // 4, "r")
        for s, _ in call1(eng, st, fn, [a, n, r]):
            x, y = res(s, r)
            eng.prove(s, x == want, "POST result is the position %s by n" % ("advanced" if "add" in op or op == "idx" else "moved back"), fn)
            eng.prove(s, y == (want if op in ("adda", "suba") else A), "POST operand afterwards", fn)
    for op, (dr, di) in one.items():
        fn = "klv_%s_%s" % (N, op)
        cur[0] = op
        st = start()
        st.assume(inr(A + di))
        r = local_obj(st, w // 4, "r")
        for s, _ in call1(eng, st, fn, [a, r]):
            x, y = res(s, r)
            eng.prove(s, x == A + dr, "POST value yielded", fn)
            eng.prove(s, y == A + di, "POST position afterwards", fn)
    st = start()
    st.assume(z3.And(A - B <= (1 << 63) - 1, A - B >= -(1 << 63)))
    cur[0] = "diff"
    fn = "klv_%s_diff" % N
    for s, r in call1(eng, st, fn, [a, b]):
        eng.prove(s, z3.SignExt(8, bv(r, 64)) == A - B, "POST difference counts the steps from right to left", fn)
    # ordering is defined through the difference, which must be representable both ways
    st.assume(A - B > -(1 << 63))
    for op, want in {"eq": A == B, "ne": A != B, "lt": A < B, "gt": A > B, "le": A <= B, "ge": A >= B}.items():
        fn = "klv_%s_%s" % (N, op)
        cur[0] = op
        for s, r in call1(eng, st.fork(), fn, [a, b]):
            eng.prove(s, Iff(r, want), "POST comparison agrees with the positions", fn)


def visits(eng):
    def visit(eng, st, a, ins, name):
        # contract of one visit: the next value in order
        eng.prove(st, eq(a[0], st.ghost["next"]), "VISIT value is the successor of the previous one", "klv_visit")
        st.ghost["next"] = add(st.ghost["next"], 1)
    eng.model("^klv_visit$", visit, kind="environment", doc="the loop body of the user")

    def hint(eng, fr, L, head, entry):
        r = [("visited exactly the values before the current one", lambda v: eq(v.st.ghost["next"], add(entry.st.ghost["next"], v.n)))]
        for i, x in enumerate(head.nums):
            if x[2] > 1:
                for sg in (0, 1):
                    r.append(("next visited value is the iterator's", lambda v, i=i, sg=sg: eq(v.st.ghost["next"], (sext if sg else zext)(v.nums[i][3], v.nums[i][2], 64) if v.nums[i][2] < 64 else v.nums[i][3])))
        return r
    eng.loop_hints = [hint]


def ranges(eng, N):
    w, signed, lo, hi = TYPES[N]
    visits(eng)
    st = State(eng)

    def m64(x):
        return x & mask(64)

    def mw(x):
        return x & mask(w)
    eng.cex = lambda m: "%s range 0 0 0" % N
    for c, first, last in (("", lo, hi), ("c", lo, hi)):
        fn = "klv_%s_%srange" % (N, c)
        s0 = State(eng)
        s0.ghost["next"] = m64(first)
        for s, _ in call1(eng, s0, fn, []):
            eng.prove(s, eq(s.ghost["next"], m64(last)), "POST every value was visited", fn)
    for op, want in (("min", lo), ("minv", lo), ("max", hi), ("maxv", hi), ("cmaxv", hi)):
        for s, r in call1(eng, State(eng), "klv_%s_%s" % (N, op), []):
            eng.prove(s, eq(r, mw(want), w), "POST bound", "klv_%s_%s" % (N, op))
    for op in ("count", "ccount"):
        for s, r in call1(eng, State(eng), "klv_%s_%s" % (N, op), []):
            eng.prove(s, eq(r, hi - lo, 64), "POST number of values", "klv_%s_%s" % (N, op))
    a, b = z3.BitVec("a", w), z3.BitVec("b", w)
    A, B = wide(a, signed), wide(b, signed)
    eng.cex = lambda m: "%s in %d %d 0" % (N, mint(m, a), mint(m, b))
    for op in ("in", "inv", "cin"):
        for s, r in call1(eng, State(eng), "klv_%s_%s" % (N, op), [a]):
            eng.prove(s, Iff(r, z3.And(A >= lo, A < hi)), "POST in range exactly for the enumerated values", "klv_%s_%s" % (N, op))
    eng.cex = lambda m: "%s foreach %d %d 0" % (N, mint(m, a), mint(m, b))
    eng.cex_bias = [z3.And(B - A <= 5, B - A >= -2), z3.And(B - A <= 5000, B - A >= -2)]
    s0 = State(eng)
    s0.assume(z3.And(A >= lo, B <= hi, A <= B))
    A64 = norm(z3.Extract(63, 0, A))
    s0.ghost["next"] = A64
    for s, _ in call1(eng, s0, "klv_%s_foreach" % N, [a, b]):
        eng.prove(s, eq(s.ghost["next"], norm(z3.Extract(63, 0, B))), "POST every value of [first, last) was visited", "klv_%s_foreach" % N)
    s0 = State(eng)
    s0.assume(z3.And(A >= lo, B <= hi, A > B))
    s0.ghost["next"] = A64
    for s, _ in call1(eng, s0, "klv_%s_foreach" % N, [a, b]):
        eng.prove(s, eq(s.ghost["next"], A64), "POST nothing visited for an inverted range", "klv_%s_foreach" % N)
    for op, dr in (("einc", 1), ("epinc", 0)):
        s0 = State(eng)
        s0.assume(z3.And(A >= lo, A < hi))
        r = local_obj(s0, w // 4, "r")
        for s, _ in call1(eng, s0, "klv_%s_%s" % (N, op), [a, r]):
            t = T_OF[w]
            eng.prove(s, And(eq(eng.load(s, r, t), a + dr, w), eq(eng.load(s, Ptr(r.o, w // 8), t), a + 1, w)), "POST increment is one step", "klv_%s_%s" % (N, op))
    for s, r in call1(eng, State(eng), "klv_%s_plus" % N, [a]):
        eng.prove(s, eq(r, a, w), "POST underlying value", "klv_%s_plus" % N)


def ptrs(eng):
    """facade over a pointer walk in an array of any length"""
    L = z3.BitVec("L", 64)
    i, j, n = z3.BitVec("i", 64), z3.BitVec("j", 64), z3.BitVec("n", 64)
    cur = [""]
    eng.cex = lambda m: "ptr %s %d %d %d" % (cur[0], mint(m, i), mint(m, j), mint(m, n))
    eng.cex_bias = [z3.ULE(L, 100)]

    def start():
        st = State(eng)
        st.assume(z3.ULE(L, 1 << 40))
        st.assume(z3.ULE(i, L))
        st.assume(z3.ULE(j, L))
        arr = z3.Array("arr", z3.BitVecSort(64), z3.BitVecSort(8))
        o = st.new_obj(mul(L, 4), "input", "array", by=Bytes(arr))
        return st, Ptr(o, norm(i * 4)), Ptr(o, norm(j * 4)), o

    def at(p, o, k):
        return p.o == o and eq(p.off, norm(k * 4))
    for op, want, self_ in (("add", i + n, 0), ("radd", i + n, 0), ("adda", i + n, 1), ("sub", i - n, 0), ("suba", i - n, 1)):
        st, a, b, o = start()
        st.assume(z3.ULE(want, L))
        st.assume(z3.And(n <= L, n >= -L))
        r = local_obj(st, 16, "r")
        fn = "klv_ptr_" + op
        cur[0] = op
        for s, _ in call1(eng, st, fn, [a, n, r]):
            eng.prove(s, at(eng.load(s, r, T_PTR), o, want), "POST result position", fn)
            eng.prove(s, at(eng.load(s, Ptr(r.o, 8), T_PTR), o, want if self_ else i), "POST operand position", fn)
    for op, dr, di in (("inc", 1, 1), ("pinc", 0, 1), ("dec", -1, -1), ("pdec", 0, -1)):
        st, a, b, o = start()
        st.assume(z3.ULE(i + di, L))
        r = local_obj(st, 16, "r")
        fn = "klv_ptr_" + op
        cur[0] = op
        for s, _ in call1(eng, st, fn, [a, r]):
            eng.prove(s, at(eng.load(s, r, T_PTR), o, i + dr), "POST value yielded", fn)
            eng.prove(s, at(eng.load(s, Ptr(r.o, 8), T_PTR), o, i + di), "POST position afterwards", fn)
    for op in ("idx", "deref", "arrow"):
        st, a, b, o = start()
        fn = "klv_ptr_" + op
        cur[0] = op
        want = i + n if op == "idx" else i
        st.assume(z3.ULT(want, L))
        st.assume(z3.And(n <= L, n >= -L))
        for s, r in call1(eng, st, fn, [a, n] if op == "idx" else [a]):
            eng.prove(s, at(r, o, want), "POST refers to the element at the position", fn)
    for op, want in {"eq": i == j, "ne": i != j, "lt": z3.ULT(i, j), "gt": z3.ULT(j, i), "le": z3.ULE(i, j), "ge": z3.ULE(j, i)}.items():
        st, a, b, o = start()
        fn = "klv_ptr_" + op
        cur[0] = op
        for s, r in call1(eng, st, fn, [a, b]):
            eng.prove(s, Iff(r, want), "POST comparison agrees with the positions", fn)
    st, a, b, o = start()
    cur[0] = "diff"
    for s, r in call1(eng, st, "klv_ptr_diff", [a, b]):
        eng.prove(s, eq(r, i - j), "POST difference counts the steps from right to left", "klv_ptr_diff")
    st, a, b, o = start()
    st.assume(z3.ULE(i, j))
    cur[0] = "range"
    for fn in ("klv_range_size", "klv_range_isize"):
        for s, r in call1(eng, st.fork(), fn, [a, b]):
            eng.prove(s, eq(r, j - i), "POST size is the number of steps", fn)
    for fn, k in (("klv_range_begin", i), ("klv_range_end", j)):
        for s, r in call1(eng, st.fork(), fn, [a, b]):
            eng.prove(s, at(r, o, k), "POST bound kept", fn)


UNITS = [("iterator laws " + N, SRC, lambda e, N=N: laws(e, N)) for N in TYPES if N != "one"]
UNITS += [("enumeration " + N, SRC, lambda e, N=N: ranges(e, N)) for N in TYPES if N != "cnt"]
UNITS.append(("pointer walk", SRC, ptrs))
DRIVER_SECONDS = 3
ASSUMPTIONS = ["enums with 8- to 64-bit signed and unsigned underlying types (one enum per type; 64-bit unsigned positions are those representable as ptrdiff_t)",
               "iterator operations are used where C++ gives them meaning: the resulting position and the difference are representable",
               "the facade is verified in three instantiations: enum_iterator, a value-yielding counter and a pointer walk"]
