import z3
from klv.spec import *

ID = "C01"
STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
URL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def sextet(arr, n, k, K):
    """6-bit group number k (K = 8-bit select function) of the RFC 4648 bit string:
    bits 6k .. 6k+5 of the input followed by zero bits."""
    g = z3.LShR(k, 2)                    # group of three bytes
    j = z3.Extract(1, 0, k)
    base = g * 3

    def byte(o):
        i = base + o
        return z3.If(z3.ULT(i, n), z3.Select(arr, i), z3.BitVecVal(0, 8))
    b0, b1, b2 = byte(0), byte(1), byte(2)
    w = z3.Concat(b0, b1, b2)            # 24 bits
    return z3.If(j == 0, z3.Extract(23, 18, w), z3.If(j == 1, z3.Extract(17, 12, w), z3.If(j == 2, z3.Extract(11, 6, w), z3.Extract(5, 0, w))))


def spec_char(arr, n, k, url):
    s6 = sextet(arr, n, k, None)
    ch = bv(mux(list(URL if url else STD), z3.ZeroExt(58, s6), 8), 8)
    return ch


def run(eng, fname, url):
    st = State(eng)
    p, n, arr = input_buffer(st, "in")
    out = local_obj(st, 32, "result")
    q, r = eng.udivrem(st, n, 3, 64)
    chars = norm(q * 4 + z3.If(r == 0, z3.BitVecVal(0, 64), r + 1))          # data characters
    total = chars if url else norm(q * 4 + z3.If(r == 0, z3.BitVecVal(0, 64), z3.BitVecVal(4, 64)))
    K = z3.Concat(z3.BitVec("KG", 62), z3.BitVec("KJ", 2))   # arbitrary output position

    def want(k):
        return z3.If(z3.ULT(k, chars), spec_char(arr, n, k, url), z3.BitVecVal(ord("="), 8))

    # loop invariant template: everything written so far (below some loop counter) is right
    def hint(eng, fr, L, head, entry):
        res = []
        for key, i, w, t, e, obj in head.nums:
            if w != 64 or obj is None:
                continue

            def f(v, key=key, i=i, obj=obj):
                off = next(x[3] for x in v.nums if x[0] == key and x[1] == i)
                o = v.st.obj(obj)
                if o.by is None or o.const:
                    return True
                return Implies(And(ult(K, off)), eq(o.by.read(K, v.st), want(K), 8))
            res.append(("output prefix is the encoding", f))
        return res
    eng.loop_hints = [hint]
    eng.cex = lambda m: ("url " if url else "std ") + model_bytes(m, arr, n).hex()
    eng.cex_bias = [ule(n, 12), ule(n, 4000)]
    outs = eng.call_fn(st, fname, [out, p, n])
    for s, oc in outs:
        if oc[0] != "ret":
            eng.prove(s, False, "encoder does not throw", fname, str(oc))
            continue
        sv = str_get(eng, s, out)
        eng.prove(s, eq(sv.len, total), "POST length is RFC 4648 length", fname)
        eng.prove(s, Implies(ult(K, sv.len), eq(str_bytes(s, sv).read(K, s), want(K), 8)), "POST every character is the RFC 4648 character", fname)
        eng.cover(s, fname + " returns")


SRC = ["harness/c01.cpp", "repo:src/base64.cpp"]
DRIVER_SRC = ["repo:src/base64.cpp"]
UNITS = [("base64_encode", SRC, lambda e: run(e, "klv_encode", False)),
         ("base64url_encode", SRC, lambda e: run(e, "klv_encode_url", True))]
