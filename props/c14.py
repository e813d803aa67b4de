"""C14: hashes equal the published recursive definitions."""
from klv.spec import *

SRC = ["harness/c14.cpp"]
I64, I32 = z3.BitVecSort(64), z3.BitVecSort(32)


def positions(v):
    """candidate 'how much has been consumed' terms at a loop head"""
    r = [v.n]
    for key, i, w, t, e, obj in v.nums:
        if w == 64:
            r += [t, sub(e, t)]
    return r


def fnv_axioms(H, arr):
    def inst(st, p):
        p = bv(p, 64)
        st.assume(H(z3.BitVecVal(0, 64)) == 2166136261)
        for q in (p, p - 1):
            st.assume(z3.Implies(z3.ULT(q, 1 << 60), H(q + 1) == (H(q) ^ z3.ZeroExt(24, z3.Select(arr, q))) * 16777619))
    return inst


def recursive_hint(F, inst, width=32):
    def hint(eng, fr, L, head, entry):
        res = []
        for key, i, w, t, e, obj in head.nums:
            if w != width:
                continue
            for pi in range(len(positions(head))):
                def f(v, key=key, i=i, pi=pi):
                    t = next(x[3] for x in v.nums if x[0] == key and x[1] == i)
                    p = positions(v)[pi]
                    inst(v.st, p)
                    return eq(t, F(bv(p, 64)), width)
                res.append(("accumulator equals the recursive definition", f))
        return res
    return hint


def fnv_unit(eng, fn, mode):
    H = z3.Function("FNV", I64, I32)
    st = State(eng)
    if mode == "str":
        p0, n, arr = input_buffer(st, "in")
        sp = local_obj(st, 32, "str")
        str_set(eng, st, sp, Bytes(arr), n)
        args = [sp]
    elif isinstance(mode, int):
        p0, n, arr = input_buffer(st, "in", n=mode)
        args = [p0]
    else:
        p0, n, arr = input_buffer(st, "in")
        args = [p0, n]
    inst = fnv_axioms(H, arr)
    eng.loop_hints = [recursive_hint(H, inst)]
    eng.cex = lambda m: "fnv " + (model_bytes(m, arr, n).hex() or "00" * (mint(m, n) > 0)) + (" %d" % mint(m, n) if mint(m, n) > 4096 else "")
    eng.cex_bias = [ule(n, 9), ule(n, 300), ule(n, 1 << 20)]
    for s, oc in eng.call_fn(st, fn, args):
        if isinstance(mode, int):
            nul = eq(norm(z3.Select(arr, z3.BitVecVal(mode - 1, 64))), 0, 8)
            if oc[0] == "exc":
                eng.prove(s, Not(nul), "throws only without terminating NUL", fn)
                eng.cover(s, fn + " throws")
                continue
            eng.prove(s, nul, "array overload requires the terminating NUL", fn)
            L = mode - 1
            for k in range(L):
                inst(s, k + 1)
        else:
            L = n
            if oc[0] != "ret":
                eng.prove(s, False, "does not throw", fn)
                continue
        inst(s, L)
        eng.prove(s, eq(oc[1], H(bv(L, 64)), 32), "POST result is FNV-1a of the bytes", fn)
        eng.cover(s, fn)


def hsieh_unit(eng):
    fn = "klv_hsieh"
    G = z3.Function("SFH", I64, I32)
    st = State(eng)
    p, n, arr = input_buffer(st, "in")

    def by(i):
        return z3.Select(arr, bv(i, 64))

    def g16(i):
        return z3.ZeroExt(16, z3.Concat(by(i + 1), by(i)))

    def inst(s, k):
        k = bv(k, 64)
        s.assume(G(z3.BitVecVal(0, 64)) == z3.Extract(31, 0, n))
        for q in (k, k - 1):
            h = G(q) + g16(q * 4)
            tmp = (g16(q * 4 + 2) << 11) ^ h
            h = (h << 16) ^ tmp
            h = h + z3.LShR(h, 11)
            s.assume(z3.Implies(z3.ULT(q, 1 << 58), G(q + 1) == h))
    eng.loop_hints = [recursive_hint(G, inst)]
    eng.cex = lambda m: "hsieh " + (model_bytes(m, arr, n).hex() or "00" * (mint(m, n) > 0)) + (" %d" % mint(m, n) if mint(m, n) > 4096 else "")
    eng.cex_bias = [ule(n, 9), ule(n, 300), ule(n, 1 << 20)]
    blocks = z3.LShR(n, 2)
    rem = z3.Extract(1, 0, n)
    base = blocks * 4
    h = G(blocks)

    def se(i):
        return z3.SignExt(24, by(i))
    h3 = h + g16(base)
    h3 = h3 ^ (h3 << 16)
    h3 = h3 ^ (se(base + 2) << 18)
    h3 = h3 + z3.LShR(h3, 11)
    h2 = h + g16(base)
    h2 = h2 ^ (h2 << 11)
    h2 = h2 + z3.LShR(h2, 17)
    h1 = h + se(base)
    h1 = h1 ^ (h1 << 10)
    h1 = h1 + z3.LShR(h1, 1)
    r = z3.If(rem == 3, h3, z3.If(rem == 2, h2, z3.If(rem == 1, h1, h)))
    r = r ^ (r << 3)
    r = r + z3.LShR(r, 5)
    r = r ^ (r << 4)
    r = r + z3.LShR(r, 17)
    r = r ^ (r << 25)
    r = r + z3.LShR(r, 6)
    want = z3.If(n == 0, z3.BitVecVal(0, 32), r)
    for s, oc in eng.call_fn(st, fn, [p, n]):
        if oc[0] != "ret":
            eng.prove(s, False, "does not throw", fn)
            continue
        inst(s, blocks)
        eng.prove(s, eq(oc[1], want, 32), "POST result is SuperFastHash of the bytes", fn)
        eng.cover(s, fn)
    st = State(eng)
    for s, oc in eng.call_fn(st, fn, [NULL, 0]):
        eng.prove(s, oc[0] == "ret" and eq(oc[1], 0, 32), "POST null, empty input hashes to 0", fn)


UNITS = [("fnv1a(ptr,len)", SRC, lambda e: fnv_unit(e, "klv_fnv", "ptr")),
         ("fnv1a(string)", SRC, lambda e: fnv_unit(e, "klv_fnv_str", "str")),
         ("operator _h", SRC, lambda e: fnv_unit(e, "klv_fnv_lit", "ptr")),
         ("fnv1a(char[1])", SRC, lambda e: fnv_unit(e, "klv_fnv_a1", 1)),
         ("fnv1a(char[2])", SRC, lambda e: fnv_unit(e, "klv_fnv_a2", 2)),
         ("fnv1a(char[7])", SRC, lambda e: fnv_unit(e, "klv_fnv_a7", 7)),
         ("hsieh", SRC, hsieh_unit)]
ASSUMPTIONS = ["the array overload is verified for the instantiations N = 1, 2, 7 (its body forwards to the pointer overload, verified for every length)"]
DRIVER_SECONDS = 4
