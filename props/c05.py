"""C05: path parsing."""
from .pathlib import *

IR_FLAGS = ()
B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
E_ = z3.Function("piece_end", B64, B64)             # first '/' at or after x, or n
D_ = z3.Function("depth", B64, B64)                 # number of segments before the piece at x is read
S_ = z3.Function("segment_piece", B64, B64, B64)    # piece (start) that segment j comes from, at that time
T_ = z3.Function("token", B64, B64, B64)            # position of the k-th character or escape of the piece at x


def hexval(c):
    d = z3.ZeroExt(0, c)
    dig = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    up = z3.And(z3.UGE(c, 65), z3.ULE(c, 70))
    lo = z3.And(z3.UGE(c, 97), z3.ULE(c, 102))
    return z3.Or(dig, up, lo), z3.If(dig, c - 48, z3.If(up, c - 55, c - 87))


class Spec:
    def __init__(self, s, n):
        self.s, self.n = s, n
        self.ERR = z3.Bool("string_is_rejected")
        self.x0, self.m0 = z3.BitVec("bad_piece", 64), z3.BitVec("bad_token", 64)
        self.J, self.J2, self.K = z3.BitVec("J", 64), z3.BitVec("J2", 64), z3.BitVec("K", 64)

    def ch(self, i):
        return z3.Select(self.s, bv(i, 64))

    def end_ax(self, x):
        x = bv(x, 64)
        e = E_(x)
        g = z3.ULE(x, self.n)
        return z3.And(z3.Implies(g, z3.And(z3.ULE(x, e), z3.ULE(e, self.n))), z3.Implies(z3.And(g, z3.ULT(e, self.n)), self.ch(e) == 47))

    def end_not(self, x, y):
        x, y = bv(x, 64), bv(y, 64)
        return z3.Implies(z3.And(z3.ULE(x, y), z3.ULT(y, E_(x)), z3.ULE(x, self.n)), self.ch(y) != 47)

    def end_unfold(self, x):
        x = bv(x, 64)
        return z3.Implies(z3.ULE(x, self.n), E_(x) == z3.If(z3.Or(x == self.n, self.ch(x) == 47), x, E_(x + 1)))

    def start(self, x):
        x = bv(x, 64)
        return z3.And(z3.ULE(x, self.n), z3.Or(x == 0, self.ch(x - 1) == 47))

    def kind(self, x):
        x = bv(x, 64)
        ln = E_(x) - x
        dot = z3.And(ln == 1, self.ch(x) == 46)
        dd = z3.And(ln == 2, self.ch(x) == 46, self.ch(x + 1) == 46)
        return ln == 0, dot, dd

    def step(self, x):
        """what reading the piece at x does"""
        x = bv(x, 64)
        nx = E_(x) + 1
        em, dot, dd = self.kind(x)
        d = D_(x)
        J = self.J
        nd = z3.If(z3.Or(em, dot), d, z3.If(dd, z3.If(d == 0, z3.BitVecVal(0, 64), d - 1), d + 1))
        push = z3.Not(z3.Or(em, dot, dd))
        return z3.Implies(z3.ULE(x, self.n), z3.And(D_(nx) == nd, S_(nx, J) == z3.If(z3.And(push, J == d), x, S_(x, J))))

    def tok0(self, x):
        return T_(bv(x, 64), z3.BitVecVal(0, 64)) == bv(x, 64)

    def tokstep(self, x, m):
        x, m = bv(x, 64), bv(m, 64)
        t = T_(x, m)
        return T_(x, m + 1) == z3.If(z3.ULT(t, E_(x)), t + z3.If(self.ch(t) == 37, z3.BitVecVal(3, 64), z3.BitVecVal(1, 64)), t)

    def dec(self, x, k):
        t = T_(bv(x, 64), bv(k, 64))
        _, hi = hexval(self.ch(t + 1))
        _, lo = hexval(self.ch(t + 2))
        return z3.If(self.ch(t) == 37, (hi << 4) | lo, self.ch(t))

    def bad(self, x, m):
        x = bv(x, 64)
        t = T_(x, bv(m, 64))
        h1, hi = hexval(self.ch(t + 1))
        h2, lo = hexval(self.ch(t + 2))
        e = E_(x)
        return z3.And(z3.ULT(t, e), self.ch(t) == 37, z3.Or(z3.UGE(t + 2, e), z3.Not(h1), z3.Not(h2), ((hi << 4) | lo) == 47))

    def rejected_by(self, x, m):
        em, dot, dd = self.kind(x)
        return z3.And(self.start(x), z3.Not(z3.Or(em, dot, dd)), self.bad(x, m))

    def intro(self, x, m):
        return z3.Implies(self.rejected_by(x, m), self.ERR)

    def whole(self, x, ln):
        """ln decoded characters are exactly the piece at x"""
        x, ln = bv(x, 64), bv(ln, 64)
        return z3.And(T_(x, ln) == E_(x), z3.ULT(T_(x, ln - 1), E_(x)))


def setup(eng, st):
    sp, n, s = input_buffer(st, "text")
    P = Spec(s, n)
    st.assume(D_(z3.BitVecVal(0, 64)) == 0)
    for x in (0, 1):
        st.assume(P.end_ax(x))
        st.assume(P.end_unfold(x))
        st.assume(P.step(x))
    st.assume(P.end_ax(2))
    st.assume(P.end_ax(n))
    st.assume(P.step(n))
    # a rejected string has a bad escape in some piece that is neither empty, '.' nor '..'
    st.assume(z3.Implies(P.ERR, P.rejected_by(P.x0, P.m0)))
    st.assume(P.end_ax(P.x0))
    return sp, n, s, P


def install(eng, path, sp, n, P):
    def m_memchr_text(eng, st, a, ins, name):
        p, c, k = a
        if isinstance(p, Ptr) and p.o == sp.o and not is_sym(c) and c & 255 == 47 and st.entails(eq(add(p.off, k), n)):
            eng.check_access(st, p, k, ins, "memchr")
            x = p.off
            st.ghost["x"] = x
            for ax in (P.end_ax(x), P.step(x), P.tok0(x), P.end_not(x, sub(P.x0, 1))):
                st.assume(ax)
            e = E_(bv(x, 64))
            s2 = st.fork()
            st.assume(ult(e, n))
            s2.assume(eq(e, n))
            r = []
            if st.feasible():
                r.append((st, ("ret", Ptr(p.o, norm(e)))))
            if s2.feasible():
                r.append((s2, ("ret", NULL)))
            return r
        return m_memchr(eng, st, a, ins, name)
    eng.model(r"^memchr$", m_memchr_text, doc="memchr finds the first occurrence")

    def on_load(eng, st, q, t, v):
        if q.o == path.buf:
            r = div_exact(q.off, 16)
            if r is not None:
                eng.prove(st, ult(r[0], path.count(st)), "only existing segments are read", eng.fname_stack[-1] if eng.fname_stack else "")
                st.instantiate(r[0])
        elif q.o == sp.o:
            pass
    eng.on_load = on_load

    def content(view_st, x, j):
        """segment j holds the decoded piece it comes from"""
        st = view_st
        src = S_(bv(x, 64), bv(j, 64))
        o, l = path.off(st, j), path.len(st, j)
        return Implies(ult(j, path.count(st)), And(P.whole(src, l), Implies(ult(P.K, l), eq(path.byte(st, add(o, P.K)), P.dec(src, P.K), 8))))

    def hints(eng, fr, L, head, entry):
        hs = []
        if path.str_(head.st) is None or path.count(head.st) is None or path.str_(entry.st) is None:
            return hs
        changed_count = not (path.count(head.st) is path.count(entry.st) or eq(path.count(head.st), path.count(entry.st)) is True)
        changed_str = path.str_(head.st).buf != path.str_(entry.st).buf
        J, J2, K = P.J, P.J2, P.K
        # positions in the text held by loop variables
        idx = [k for k, (key, i, w, t, e, obj) in enumerate(head.nums) if w == 64 and is_sym(t)]

        def num(v, k):
            return v.nums[k][3]
        if changed_count or (changed_str and "x" not in entry.st.ghost):
            lay = lambda v: path.layout(v.st, J)
            hs.append(("text is the segments joined", lay, lambda v: (lambda j: path.layout(v.st, j))))
            hs.append(("segments in order", lambda v: path.order(v.st, J, J2), lambda v: (lambda j: And(path.order(v.st, J, j), path.order(v.st, J2, j), path.order(v.st, J, J2)))))
            hs.append(("empty text for no segments", lambda v: path.bounds(v.st)))
            hs.append(("table bounds", lambda v: ule(v.st.obj(path.p.o).cells[path.cap][1], 1 << 42)))
            hs.append(("count within capacity", lambda v: ule(path.count(v.st), v.st.obj(path.p.o).cells[path.cap][1])))
            ptrs = any(head.nums[k][5] == sp.o for k in idx)
            for k in idx:
                key, i, w, t, e, obj = head.nums[k]
                if obj is not None and obj != sp.o:
                    continue
                if obj is None:
                    if key[0] == "cell" and key[1] == path.p.o:
                        continue
                    for k2 in idx:
                        if head.nums[k2][5] == sp.o:
                            hs.append(("rest of the text %d %d" % (k, k2), lambda v, k=k, k2=k2: And(ule(num(v, k2), n), eq(add(num(v, k), num(v, k2)), n))))
                if obj is None and ptrs:
                    continue
                hs.append(("at the start of a piece %d" % k, lambda v, k=k: P.start(num(v, k))))
                hs.append(("number of segments %d" % k, lambda v, k=k: eq(path.count(v.st), D_(bv(num(v, k), 64)))))
                hs.append(("segments are the pieces %d" % k, lambda v, k=k: content(v.st, num(v, k), J)))
                hs.append(("no bad piece before %d" % k, lambda v, k=k: Implies(P.ERR, ule(num(v, k), P.x0))))
        elif changed_str and "x" in entry.st.ghost:
            x = entry.st.ghost["x"]
            v0 = path.str_(entry.st).len
            o0, l0 = path.off(entry.st, J), path.len(entry.st, J)
            b0 = path.byte(entry.st, add(o0, K))
            b1 = path.byte(entry.st, sub(o0, 1))
            last = path.byte(entry.st, sub(v0, 1))
            m = lambda v: sub(path.str_(v.st).len, v0)

            def axioms(v):
                mm = m(v)
                for ax in (P.tok0(x), P.tokstep(x, mm), P.intro(x, mm), z3.Implies(z3.And(P.ERR, bv(x, 64) == P.x0, z3.ULE(bv(mm, 64), P.m0)), z3.ULE(T_(bv(x, 64), bv(mm, 64)), T_(P.x0, P.m0)))):
                    v.st.assume(ax)
                return True
            hs.append(("axioms", axioms))
            hs.append(("text grows", lambda v: And(ule(v0, path.str_(v.st).len), ule(path.str_(v.st).len, add(v0, sub(n, x))))))
            hs.append(("old segments unchanged", lambda v: Implies(ult(add(o0, K), v0), eq(path.byte(v.st, add(o0, K)), b0, 8))))
            hs.append(("old separators unchanged", lambda v: Implies(And(ule(1, o0), ule(o0, v0)), eq(path.byte(v.st, sub(o0, 1)), b1, 8))))
            hs.append(("last separator unchanged", lambda v: Implies(ult(0, v0), eq(path.byte(v.st, sub(v0, 1)), last, 8))))
            hs.append(("decoded so far", lambda v: Implies(ult(K, m(v)), eq(path.byte(v.st, add(v0, K)), P.dec(x, K), 8))))
            hs.append(("bad token not passed", lambda v: Implies(And(P.ERR, eq(x, P.x0)), ule(m(v), P.m0))))
            hs.append(("previous token inside", lambda v: Implies(ult(0, m(v)), ult(T_(bv(x, 64), bv(sub(m(v), 1), 64)), E_(bv(x, 64))))))
            for k in idx:
                key, i, w, t, e, obj = head.nums[k]
                if obj is not None and obj != sp.o:
                    continue
                if obj is None:
                    if key[0] == "cell" and key[1] == path.p.o:
                        continue
                    hs.append(("token position rel %d" % k, lambda v, k=k: And(ule(num(v, k), sub(E_(bv(x, 64)), x)), eq(T_(bv(x, 64), bv(m(v), 64)), add(x, num(v, k))), ule(m(v), num(v, k)))))
                    hs.append(("token position abs %d" % k, lambda v, k=k: And(ule(x, num(v, k)), ule(num(v, k), E_(bv(x, 64))), eq(T_(bv(x, 64), bv(m(v), 64)), num(v, k)), ule(m(v), sub(num(v, k), x)))))
                else:
                    hs.append(("token position ptr %d" % k, lambda v, k=k: And(ule(x, num(v, k)), ule(num(v, k), E_(bv(x, 64))), eq(T_(bv(x, 64), bv(m(v), 64)), num(v, k)), ule(m(v), sub(num(v, k), x)))))
        return hs
    eng.loop_hints = [hints]


def parse(eng, fn, fresh, case=None):
    st = State(eng)
    eng.require_termination = True
    eng.merge_pure, eng.auto_inv = True, False
    path = PathObj(eng, st)
    st = path.st
    sp, n, s, P = setup(eng, st)
    if case is not None:
        st.assume(case(P, n))
    if not fresh:
        path.arbitrary(st)
        install(eng, path, sp, n, P)
    eng.cex = lambda m: "set " + (model_bytes(m, s, n).hex() or "-")
    eng.cex_bias = [n <= k for k in (4, 8, 16, 32)]
    J, K = P.J, P.K
    fin = n + 1
    for s1, oc in eng.call_fn(st, fn, [path.p, sp, n]):
        if oc[0] == "exc":
            eng.prove(s1, eng.ti_is(oc[1].ti, "_ZTIN2kl16path_parse_errorE"), "POST only a path parse error is thrown", fn)
            eng.prove(s1, P.ERR, "POST only strings with a bad escape are rejected", fn)
            eng.cover(s1, "rejected")
            continue
        eng.prove(s1, z3.Not(P.ERR), "POST every bad escape is rejected", fn)
        for s2, o2 in eng.call_fn(s1, "klv_path_size", [path.p]):
            sz = o2[1]
            eng.prove(s2, eq(sz, D_(fin)), "POST number of segments", fn)
            eng.cover(s2, "parsed")
            eng.prove(s2, path.layout(s2, J), "POST the text is the segments joined with '/'", fn)
            eng.prove(s2, path.order(s2, J, P.J2), "POST segments in order", fn)
            eng.prove(s2, path.bounds(s2), "POST empty text exactly for no segments", fn)
            for s3, o3 in eng.call_fn(s2.fork(), "klv_path_empty", [path.p]):
                eng.prove(s3, Iff(o3[1], eq(sz, 0)), "POST empty() agrees", fn)
            s2.assume(ult(J, sz))
            if not s2.feasible():
                continue
            out = local_obj(s2, 8, "out")
            for s3, o3 in eng.call_fn(s2, "klv_path_at", [path.p, J, out]):
                ptr = o3[1]
                ln = eng.load(s3, out, T_I64)
                src = S_(fin, J)
                eng.prove(s3, P.whole(src, ln), "POST a segment is a whole decoded piece", fn)
                s3.assume(ult(K, ln))
                if s3.feasible():
                    c = eng.load(s3, Ptr(ptr.o, add(ptr.off, K)), T_I8)
                    eng.prove(s3, eq(c, P.dec(src, K), 8), "POST segment characters are the decoded characters", fn)
                    eng.cover(s3, "segment")


def ctor(eng):
    """the constructor starts from an empty path, hands the string to set() and leaves the result alone"""
    st = State(eng)
    sp, n, s = input_buffer(st, "text")
    size = eng.call_fn(st.fork(), "klv_path_sizeof", [])[0][1][1]
    p = local_obj(st, size, "path")
    ref = PathObj(eng, State(eng))
    eng.cex = lambda m: "set " + (model_bytes(m, s, n).hex() or "-")
    eng.cex_bias = [n <= k for k in (4, 8, 16, 32)]

    def m_set(eng, s1, a, ins, name):
        eng.prove(s1, And(isinstance(a[0], Ptr) and a[0].o == p.o and a[0].off == 0, "set" not in s1.ghost), "set() is applied once, to the new path", name)
        eng.prove(s1, And(eq(a[1], n), isinstance(a[2], Ptr) and a[2].o == sp.o and eq(a[2].off, 0)), "set() gets the constructor's string", name)
        cells = s1.obj(p.o).cells
        eng.prove(s1, bool(isinstance(cells.get(ref.sv, (0, 0))[1], StrVal)) and And(eq(cells[ref.cnt][1], 0), eq(cells[ref.sv][1].len, 0)), "set() is applied to an empty path", name)
        s1.ghost["set"] = 1
        s2 = s1.fork()
        # any result
        o = s1.wobj(p.o)
        ln, c = fresh_bv("newlen", 64), fresh_bv("newcount", 64)
        s1.assume(ule(c, 15))
        s1.kill(o.cells[ref.sv][1].buf)
        o.cells[ref.sv] = (32, mkstr(s1, Bytes(fresh_arr("newtext")).store(ln, 0), ln))
        o.cells[ref.cnt] = (8, c)
        s1.ghost["after"] = dict(o.cells)
        e = Exc(Ptr(s2.new_obj(16, "exc", "exception"), 0), "_ZTIN2kl16path_parse_errorE")
        s2.exc[e.ptr.o] = e
        return [(s1, ("ret", None)), (s2, ("exc", e))]
    eng.model(r"^kl::path::set\(.*\)$", m_set, kind="contract", doc="kl::path::set (verified by the units above)")
    for s1, oc in eng.call_fn(st, "klv_path_from", [p, sp, n]):
        eng.prove(s1, "set" in s1.ghost, "POST the constructor parses its string", "klv_path_from")
        if oc[0] == "ret":
            eng.cover(s1, "constructed")
            eng.prove(s1, s1.obj(p.o).cells == s1.ghost.get("after"), "POST the constructor leaves the parsed path alone", "klv_path_from")
        else:
            eng.cover(s1, "constructor throws")
            eng.prove(s1, eng.ti_is(oc[1].ti, "_ZTIN2kl16path_parse_errorE"), "POST only a path parse error is thrown", "klv_path_from")


def clear(eng):
    st = State(eng)
    path = PathObj(eng, st)
    st = path.st
    path.arbitrary(st)
    for s1, oc in eng.call_fn(st, "klv_path_clear", [path.p]):
        eng.prove(s1, oc[0] == "ret", "POST no exception", "klv_path_clear")
        for s2, o2 in eng.call_fn(s1, "klv_path_size", [path.p]):
            eng.prove(s2, eq(o2[1], 0), "POST no segments", "klv_path_clear")
            eng.prove(s2, eq(path.str_(s2).len, 0), "POST no text", "klv_path_clear")
            eng.cover(s2, "cleared")


SLASH = lambda P, n: z3.And(n != 0, P.ch(0) == 47)
PLAIN = lambda P, n: z3.Or(n == 0, P.ch(0) != 47)
UNITS = [("path::set, leading '/'", SRC, lambda e: parse(e, "klv_path_set", False, SLASH)),
         ("path::set, no leading '/'", SRC, lambda e: parse(e, "klv_path_set", False, PLAIN)),
         ("constructor", SRC, ctor), ("clear", SRC, clear)]
DRIVER_SRC = ["repo:src/path.cpp"]
DRIVER_SECONDS = 4
ASSUMPTIONS = ["std::string and memchr/memcmp by model; boost::container::small_vector's inline members executed as compiled, its reallocation function by contract (elements kept, one appended)",
               "fewer than 2^42 segments and texts shorter than 2^47 bytes"]
