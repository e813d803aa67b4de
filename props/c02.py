"""C02: base64 decoding accepts exactly well-formed text and returns its bytes."""
from klv.spec import *
from props.c01 import STD, URL

SRC = ["harness/c02.cpp", "repo:src/base64.cpp"]
DRIVER_SRC = ["repo:src/base64.cpp"]
BAD = 0x80


def val(c, url):
    """value of character c (8-bit term): 0..63, or 0x80"""
    t = [BAD] * 256
    for i, ch in enumerate(URL if url else STD):
        t[ch] = i
    return bv(mux(t, z3.ZeroExt(56, c), 8), 8)


EQ = ord("=")


def run(eng, fn, url, E, T):
    """one case of an exhaustive split on the number E of trailing '=' (3: more than two) and
    on T = (number of characters before them, at most two counted) mod 4"""
    st = State(eng)
    Q = z3.BitVec("Q", 64)
    st.assume(z3.ULE(Q, ALLOC_LIMIT))
    chars = norm(Q * 4 + T)
    n = norm(chars + min(E, 2))
    st.assume(ule(n, ALLOC_LIMIT))
    p, n, arr = input_buffer(st, "in", n)
    out = local_obj(st, 32, "result")

    def ch(i):
        return z3.Select(arr, bv(i, 64))
    st.assume(case_cond(ch, n, E))
    tail = T
    struct = And(tail != 1, True if url else (T + min(E, 2)) % 4 == 0)
    KG = z3.BitVec("KG", 64)
    KJ = z3.BitVec("KJ", 2)
    K = KG * 3 + z3.ZeroExt(62, KJ)
    KC = z3.BitVec("KC", 64)              # arbitrary character position
    st.assume(z3.ULT(KG, 1 << 46))
    st.assume(KJ != 3)
    size = norm(Q * 3 + (0 if tail == 0 else tail - 1))

    def v6(i):
        return z3.If(z3.ULT(i, chars), z3.Extract(5, 0, val(ch(i), url)), z3.BitVecVal(0, 6))
    w = z3.Concat(v6(KG * 4), v6(KG * 4 + 1), v6(KG * 4 + 2), v6(KG * 4 + 3))
    want = z3.If(KJ == 0, z3.Extract(23, 16, w), z3.If(KJ == 1, z3.Extract(15, 8, w), z3.Extract(7, 0, w)))

    def valid(i):
        return z3.ULT(val(ch(i), url), 64)

    # record which characters a path looked at: the universally quantified hypothesis of the
    # rejection case is instantiated there
    def on_load(eng, s, q, t, v):
        if q.o == p.o:
            s.ghost["reads"] = s.ghost.get("reads", ()) + (q.off,)
    eng.on_load = on_load

    def hint(eng, fr, L, head, entry):
        res = []
        nn = len(head.nums)
        # trailing '=' counting
        for idx in range(-1, nn):
            def cnt(v, idx=idx):
                if idx < 0:
                    return v.n
                x = v.nums[idx]
                return x[3] if x[2] == 64 else None
            if cnt(head) is None:
                continue
            outs = sorted({x[5] for x in head.nums if x[5] is not None and head.st.obj(x[5]).kind == "heap"})
            for j in range(3) if not outs else ():
                res.append(("counted characters are '='", lambda v, c=cnt, j=j: Implies(ult(j, c(v)), And(ult(j, n), eq(ch(n - 1 - j), EQ, 8)))))
                res.append(("remaining suffix is '='", lambda v, c=cnt, j=j: Implies(And(ult(j, n), ule(c(v), sub(sub(n, 1), j))), eq(ch(n - 1 - j), EQ, 8))))
            # decoded prefix
            if not outs:
                continue
            for o in outs:
                res.append(("decoded prefix is right", lambda v, c=cnt, o=o: Implies(ult(KG, c(v)), eq(v.st.obj(o).by.read(K, v.st), want, 8)) if v.st.obj(o).by is not None else True))
            res.append(("accepted prefix is in the alphabet", lambda v, c=cnt: Implies(ult(KC, mul(c(v), 4)), valid(KC))))
        return res
    eng.loop_hints = [hint]
    eng.cex = lambda m: ("url " if url else "std ") + model_bytes(m, arr, n).hex()
    eng.cex_bias = [ule(n, 12), ule(n, 4000)]
    seen = set()
    for s, oc in eng.call_fn(st, fn, [out, p, n]):
        if oc[0] != "ret":
            eng.prove(s, False, "decoder does not throw", fn, str(oc))
            continue
        for s, has in [(x, y[1]) for x, y in eng.call_fn(s, "klv_has", [out])]:
            for s, has in split(s, has):
                if has:
                    eng.prove(s, struct, "POST accepted text has a legal length and padding", fn)
                    eng.prove(s, Implies(ult(KC, chars), valid(KC)), "POST every accepted character is in the alphabet", fn)
                    sz = eng.call_fn(s, "klv_size", [out])[0][1][1]
                    eng.prove(s, eq(sz, size), "POST decoded size", fn)
                    d = eng.call_fn(s, "klv_data", [out])[0][1][1]
                    s2 = s.fork()
                    s2.assume(ult(K, sz))
                    if s2.feasible() and d.o is not None:
                        b = s2.obj(d.o).by
                        eng.prove(s2, And(eq(d.off, 0), eq(b.read(K, s2), want, 8)), "POST every decoded byte", fn)
                    seen.add(1)
                else:
                    s2 = s.fork()
                    s2.assume(struct)
                    for i in set(map(lambda x: x, s.ghost.get("reads", ()))):
                        s2.assume(Implies(ult(i, chars), valid(i)))
                    for i in (sub(n, 3), chars - 1, chars - 2, chars - 3):
                        s2.assume(Implies(ult(i, chars), valid(i)))
                    eng.prove(s2, False, "POST only ill-formed text is rejected", fn)
                    seen.add(0)
                eng.cover(s, "%s returns" % fn)
    eng.prove(State(eng), len(seen) > 0, "an outcome is analysed", fn)


def case_cond(ch, n, E):
    """exactly E trailing '=' (E == 3: at least three)"""
    c = [And(ule(j + 1, n), eq(ch(sub(n, j + 1)), EQ, 8)) for j in range(E)]
    if E < 3:
        c.append(Not(And(ule(E + 1, n), eq(ch(sub(n, E + 1)), EQ, 8))))
    return And(*c)


def cases(eng):
    """the case split is exhaustive"""
    st = State(eng)
    arr = z3.Array("in", z3.BitVecSort(64), z3.BitVecSort(8))
    n = z3.BitVec("n", 64)
    st.assume(z3.ULE(n, ALLOC_LIMIT))
    eng.prove(st, Or(*[case_cond(lambda i: z3.Select(arr, bv(i, 64)), n, E) for E in range(4)]), "LEMMA every text is in one of the cases", "cases")
    for E in range(3):
        s2 = st.fork()
        s2.assume(case_cond(lambda i: z3.Select(arr, bv(i, 64)), n, E))
        c = n - E
        eng.prove(s2, Or(*[And(eq(n, z3.LShR(c, 2) * 4 + T + E), ule(z3.LShR(c, 2), ALLOC_LIMIT)) for T in range(4)]), "LEMMA every length is in one of the cases", "cases")
    eng.cover(st, "cases")


def split(s, b):
    b = tb(b)
    if isinstance(b, bool):
        return [(s, b)]
    r = []
    for c, v in ((b, True), (Not(b), False)):
        s2 = s.fork()
        s2.assume(c)
        if s2.feasible():
            r.append((s2, v))
    return r


def lemma(eng):
    """decode(encode(x)) == x, over the two specifications"""
    st = State(eng)
    w = z3.BitVec("w", 24)
    for url in (False, True):
        al = list(URL if url else STD)
        for k, hi in enumerate((23, 17, 11, 5)):
            six = z3.Extract(hi, hi - 5, w)
            c = bv(mux(al, z3.ZeroExt(58, six), 8), 8)
            eng.prove(st, val(c, url) == z3.ZeroExt(2, six), "LEMMA character value inverts the alphabet", "lemma")
            eng.prove(st, c != ord("="), "LEMMA padding is not a data character", "lemma")
    n = z3.BitVec("n", 64)
    st.assume(z3.ULE(n, 1 << 40))
    q, r = eng.udivrem(st, n, 3, 64)
    chars = q * 4 + z3.If(r == 0, z3.BitVecVal(0, 64), r + 1)
    tail = chars & 3
    size = z3.LShR(chars, 2) * 3 + z3.If(tail == 0, z3.BitVecVal(0, 64), tail - 1)
    eng.prove(st, And(eq(size, n), tail != 1), "LEMMA decoded length of an encoding is the original length", "lemma")
    eng.cover(st, "lemma")


UNITS = [("round trip lemma", SRC, lemma), ("case split", SRC, cases)]
for _u, _f in ((False, "klv_decode"), (True, "klv_decode_url")):
    for _e in range(4):
        for _t in range(4):
            UNITS.append(("%s, %s trailing '=', length class %d" % (_f[4:], _e if _e < 3 else ">2", _t), SRC,
                          lambda e, f=_f, u=_u, E=_e, T=_t: run(e, f, u, E, T)))
