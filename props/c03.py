"""C03: binary cursor - bounds, sticky error, all-or-nothing; every operation from every reachable state."""
from klv.spec import *

SRC = ["harness/c03.cpp"]
SZ = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "en": 2, "pod": 16}


class Env:
    def __init__(self, eng, writer):
        self.eng, self.writer = eng, writer
        st = self.st = State(eng)
        self.p, self.n, self.arr = input_buffer(st, "buf")
        if writer:
            st.obj(self.p.o).const = False
        self.pos = z3.BitVec("pos", 64)
        self.err = z3.Bool("err")
        st.assume(z3.ULE(self.pos, self.n))
        self.obs = local_obj(st, 24, "obs")
        self.args = [self.p, self.n, self.pos, self.err, self.obs]
        self.K = z3.BitVec("K", 64)     # arbitrary byte index

    def seen(self, s):
        e, o = self.eng, self.obs
        return (e.load(s, o, T_I64), e.load(s, Ptr(o.o, 8), T_I64), tb(e.load(s, Ptr(o.o, 16), T_I1)), tb(e.load(s, Ptr(o.o, 17), T_I1)))

    def post(self, s, fn, pos, err):
        p, l, e, em = self.seen(s)
        self.eng.prove(s, eq(p, pos), "POST position", fn)
        self.eng.prove(s, eq(l, sub(self.n, pos)), "POST bytes left", fn)
        self.eng.prove(s, Iff(e, err), "POST error flag", fn)
        self.eng.prove(s, Iff(em, eq(self.n, pos)), "POST emptiness", fn)
        self.eng.prove(s, ule(p, self.n), "INV position within the buffer", fn)

    def buffer_unchanged(self, s, fn):
        b = s.obj(self.p.o).by
        self.eng.prove(s, Implies(ult(self.K, self.n), eq(b.read(self.K, s), z3.Select(self.arr, self.K), 8)), "POST buffer unchanged", fn)


def outs(eng, E, fn, args):
    r = []
    for s, oc in eng.call_fn(E.st, fn, E.args + args):
        if oc[0] != "ret":
            eng.prove(s, False, "does not throw", fn)
            continue
        r.append((s, oc[1]))
        eng.cover(s, fn)
    return r


def case(E, op, extra=""):
    return lambda m: "%s %d %d %d %s" % (op, mint(m, E.n), mint(m, E.pos), mint(m, E.err), " ".join(str(mint(m, x)) for x in (extra or []))) if mint(m, E.n) < 100000 else None


def reader(eng, kind, N):
    fn = "klv_r_%s_%s" % (kind, N)
    E = Env(eng, False)
    st = E.st
    spn = kind in ("spn", "ops")
    cnt = 1
    if spn:
        cnt = z3.BitVec("cnt", 64)
        st.assume(z3.ULE(cnt, 1 << 40))
    size = mul(cnt, SZ[N])
    darr = z3.Array("dst", z3.BitVecSort(64), z3.BitVecSort(8))
    d = Ptr(st.new_obj(size, "input", "dst", by=Bytes(darr)), 0)
    eng.cex = case(E, "r_%s_%s" % (kind, N), [cnt])
    fits = And(Not(E.err), ule(size, sub(E.n, E.pos)))
    peek = kind in ("peek", "pret")
    for s, ok in outs(eng, E, fn, [d] + ([cnt] if spn else [])):
        if ok is not None:
            eng.prove(s, Iff(ok, fits), "POST reports success exactly when it fits", fn)
        E.post(s, fn, ite(And(fits, Not(peek)), add(E.pos, size), E.pos, 64), E.err if peek else Not(fits))
        got = s.obj(d.o).by.read(E.K, s)
        # a value-returning read stores T{} on failure
        old = 0 if kind in ("ret", "pret") else z3.Select(darr, E.K)
        want = z3.If(zb(fits), z3.Select(E.arr, E.pos + E.K), bv(old, 8))
        eng.prove(s, Implies(ult(E.K, size), eq(got, want, 8)), "POST destination bytes", fn)


def writer(eng, kind, N):
    fn = "klv_w_%s_%s" % (kind, N)
    E = Env(eng, True)
    st = E.st
    spn = kind in ("spn", "ops")
    cnt = 1
    if spn:
        cnt = z3.BitVec("cnt", 64)
        st.assume(z3.ULE(cnt, 1 << 40))
    size = mul(cnt, SZ[N])
    sarr = z3.Array("src", z3.BitVecSort(64), z3.BitVecSort(8))
    so = st.new_obj(size, "input", "src", by=Bytes(sarr))
    st.obj(so).const = True
    eng.cex = case(E, "w_%s_%s" % (kind, N), [cnt])
    fits = And(Not(E.err), ule(size, sub(E.n, E.pos)))
    for s, ok in outs(eng, E, fn, [Ptr(so, 0)] + ([cnt] if spn else [])):
        if ok is not None:
            eng.prove(s, Iff(ok, fits), "POST reports success exactly when it fits", fn)
        E.post(s, fn, ite(fits, add(E.pos, size), E.pos, 64), Not(fits))
        got = s.obj(E.p.o).by.read(E.K, s)
        inside = And(fits, ule(E.pos, E.K), ult(sub(E.K, E.pos), size))
        want = z3.If(zb(inside), z3.Select(sarr, E.K - E.pos), z3.Select(E.arr, E.K))
        eng.prove(s, Implies(ult(E.K, E.n), eq(got, want, 8)), "POST buffer bytes", fn)


def skips(eng, w):
    fn = "klv_%s_skip" % ("w" if w else "r")
    E = Env(eng, w)
    off = z3.BitVec("off", 64)
    eng.cex = case(E, "w_skip" if w else "r_skip", [off])
    fits = And(Not(E.err), z3.If(off >= 0, z3.ULE(off, E.n - E.pos), z3.ULE(-off, E.pos)))
    for s, _ in outs(eng, E, fn, [off]):
        E.post(s, fn, ite(fits, add(E.pos, off), E.pos, 64), Not(fits))
        E.buffer_unchanged(s, fn)
    fn = "klv_%s_nop" % ("w" if w else "r")
    E = Env(eng, w)
    for s, _ in outs(eng, E, fn, []):
        E.post(s, fn, E.pos, E.err)
        E.buffer_unchanged(s, fn)


def spans(eng):
    fn = "klv_r_span"
    E = Env(eng, False)
    cnt, mv = z3.BitVec("cnt", 64), z3.Bool("mv")
    eng.cex = case(E, "r_span", [cnt, mv])
    out = local_obj(E.st, 16, "span")
    fits = And(Not(E.err), ule(cnt, sub(E.n, E.pos)))
    for s, _ in outs(eng, E, fn, [cnt, mv, out]):
        E.post(s, fn, ite(And(fits, mv), add(E.pos, cnt), E.pos, 64), Not(fits))
        for s2, oc in eng.call_fn(s, "klv_span_size", [out]):
            sz = oc[1]
            eng.prove(s2, eq(sz, ite(fits, cnt, 0, 64)), "POST span size", fn)
            for s3, oc3 in eng.call_fn(s2, "klv_span_data", [out]):
                d = oc3[1]
                good = (d.o == E.p.o) and eq(d.off, E.pos)
                eng.prove(s3, Implies(Not(eq(sz, 0)), good), "POST span starts at the position", fn)


def ctors(eng):
    for fn, esz in (("klv_r_from_u32", 4), ("klv_w_from_u32", 4)):
        st = State(eng)
        n = z3.BitVec("n", 64)
        st.assume(z3.ULE(n, 1 << 40))
        p, _, arr = input_buffer(st, "b32", n=mul(n, 4))
        obs = local_obj(st, 24, "obs")
        for s, oc in eng.call_fn(st, fn, [p, n, obs]):
            eng.prove(s, And(eq(eng.load(s, obs, T_I64), 0), eq(eng.load(s, Ptr(obs.o, 8), T_I64), mul(n, 4)), Not(tb(eng.load(s, Ptr(obs.o, 16), T_I1)))), "POST cursor over all bytes", fn)
            eng.cover(s, fn)
    st = State(eng)
    p, _, arr = input_buffer(st, "b13", n=13)
    obs = local_obj(st, 24, "obs")
    for s, oc in eng.call_fn(st, "klv_r_from_arr", [p, obs]):
        eng.prove(s, And(eq(eng.load(s, obs, T_I64), 0), eq(eng.load(s, Ptr(obs.o, 8), T_I64), 13)), "POST cursor over all bytes", "klv_r_from_arr")


UNITS = []
for N in ("u8", "u16", "u32", "u64", "pod"):
    def rf(e, N=N):
        for k in ("raw", "peek", "spn"):
            reader(e, k, N)

    def wf(e, N=N):
        for k in ("raw", "spn"):
            writer(e, k, N)
    UNITS += [("reader raw/peek/span " + N, SRC, rf), ("writer raw/span " + N, SRC, wf)]
for N in ("u8", "i16", "i32", "u64", "en"):
    def rf2(e, N=N):
        for k in ("read", "op", "ret", "pret", "ops"):
            reader(e, k, N)
        for k in ("op", "ops"):
            writer(e, k, N)
    UNITS.append(("operators " + N, SRC, rf2))
UNITS += [("skip", SRC, lambda e: (skips(e, False), skips(e, True))), ("span", SRC, spans), ("constructors", SRC, ctors)]
ASSUMPTIONS = ["every reachable cursor state is (buffer, position, error) as produced by skip and notify_error; each operation is verified from all of them, so any history follows by induction",
               "destination and source of a transfer do not overlap the buffer", "buffers are smaller than 2^47 bytes"]
DRIVER_SECONDS = 4
