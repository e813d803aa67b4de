"""C20: enum reflection converts names and values both ways."""
from klv.spec import *

SRC = ["harness/c20.cpp"]
# name -> (bits, [(value, text)]) in declaration order
ENUMS = {
    "ord": (32, [(0, "a"), (1, "b"), (2, "ccc"), (3, "dd")]),
    "ord8": (8, [(0, "zero"), (1, "one"), (2, "two")]),
    "sord8": (8, [(0, "p"), (1, "q"), (2, "r")]),
    "sparse": (32, [(-5, "lo"), (3, "x"), (2000000000, "hi")]),
    "perm": (32, [(0, "c0"), (2, "c2"), (1, "c1"), (3, "c3")]),
    "notzero": (16, [(1, "one"), (2, "two"), (3, "three")]),
    "wide": (64, [(-2**63, "neg"), (1 << 32, "mid"), (2**63 - 1, "top")]),
    "uwide": (64, [(0, "z"), (2**64 - 1, "top")]),
    "single": (32, [(0, "only")]),
    "single7": (32, [(7, "only")]),
    "prefix": (32, [(0, "A"), (1, "AB"), (2, "ABC"), (3, "abc")]),
    "renamed": (32, [(0, "first"), (1, "beta"), (5, "the_third_one")]),
    "flat": (32, [(0, "flat_a"), (4, "B"), (5, "flat_c")]),
    "alias": (32, [(0, "x"), (1, "y"), (1, "z"), (2, "w")]),
    "gap": (32, [(0, "a"), (1, "b"), (3, "d")]),
    "dup": (32, [(0, "x"), (1, "y"), (1, "z"), (3, "w")]),
    "dup0": (8, [(0, "x"), (0, "y"), (2, "z")]),
    "dip": (16, [(0, "a"), (-1, "b"), (2, "c")]),
    "jump": (64, [(0, "a"), (5, "b"), (2, "c")]),
    "rev": (32, [(2, "a"), (1, "b"), (0, "c")]),
    "swap0": (32, [(1, "b"), (0, "a"), (2, "c")]),
    "big": (32, [(i, "v%d" % i) for i in range(19)] + [(19, "last")]),
    "bigger": (16, [(100, "k0"), (99, "k1"), (98, "k2"), (-1, "k3"), (0, "k4"), (1, "k5"), (32767, "k6"), (-32768, "k7")]),
}
T_OF = {8: T_I8, 16: T_I16, 32: T_I32, 64: T_I64}


def text_at(eng, s, p, cap=64):
    """the NUL-terminated text at p, None when it is not a concrete one"""
    r = b""
    for k in range(cap):
        c = eng.load(s, Ptr(p.o, add(p.off, k)), T_I8)
        if is_sym(c):
            return None
        if c == 0:
            return r.decode("latin1")
        r += bytes([c])
    return None


def unit(N):
    w, ents = ENUMS[N]
    ents = [(v & mask(w), t) for v, t in ents]
    t = T_OF[w]

    def f(eng):
        eng.require_termination = True
        first = {}
        for v, tx in ents:
            first.setdefault(v, tx)
        unknown = "unknown <%s>" % N
        v = z3.BitVec("v", w)
        known = Or(*[eq(v, x, w) for x in first])
        for fn in ("klv_to_", "klv_free_", "klv_todef_"):
            fn += N
            st = State(eng)
            args = [v]
            dp = None
            if "todef" in fn:
                dp, _, _ = input_buffer(st, "def", 1)
                args.append(dp)
            eng.cex = lambda m: "%s to %d" % (N, mint(m, v))
            for s, oc in eng.call_fn(st, fn, args):
                if not eng.prove(s, oc[0] == "ret" and isinstance(oc[1], Ptr) and oc[1].o is not None, "POST a string is returned", fn):
                    continue
                p = oc[1]
                if dp is not None and p.o == dp.o:
                    eng.prove(s, eq(p.off, 0), "POST the given default is returned unchanged", fn)
                    tx = None
                else:
                    tx = text_at(eng, s, p)
                    if not eng.prove(s, tx is not None, "POST a NUL-terminated name", fn):
                        continue
                if tx is None or (tx == unknown and dp is None):
                    eng.prove(s, Not(known), "POST only values that are not enumerators are unknown", fn)
                    eng.cover(s, fn + " unknown")
                else:
                    ok = [x for x, y in ents if y == tx]
                    eng.prove(s, Or(*[eq(v, x, w) for x in ok]) if ok else False, "POST the name is the enumerator's", fn, tx)
                    eng.cover(s, fn + " known")
        for fn in ("klv_from_", "klv_ffree_"):
            fn += N
            st = State(eng)
            p, n, arr = input_buffer(st, "text")
            out = local_obj(st, w // 8, "out")

            def isname(tx):
                return z3.And(n == len(tx), *[z3.Select(arr, z3.BitVecVal(i, 64)) == ord(c) for i, c in enumerate(tx)])
            eng.cex = lambda m: "%s from %s" % (N, model_bytes(m, arr, n).hex() or "-")
            eng.cex_bias = [n <= 20]
            for s, oc in eng.call_fn(st, fn, [p, n, out]):
                r = oc[1] if oc[0] == "ret" else None
                if not eng.prove(s, r is not None and not is_sym(r), "POST returns", fn):
                    continue
                if r == 0:
                    eng.prove(s, Not(Or(*[isname(tx) for _, tx in ents])), "POST every declared name is accepted", fn)
                    eng.cover(s, fn + " rejected")
                else:
                    got = eng.load(s, out, t)
                    eng.prove(s, Or(*[And(isname(tx), eq(got, x, w)) for x, tx in ents]), "POST only a declared name is accepted, with its value", fn)
                    eng.cover(s, fn + " accepted")
        eng.cex_bias = []
        eng.cex = lambda m: "%s list" % N
        fn = "klv_count_" + N
        for s, oc in eng.call_fn(State(eng), fn, []):
            eng.prove(s, oc[0] == "ret" and eq(oc[1], len(ents)), "POST count is the number of declared enumerators", fn)
        fn = "klv_vbegin_" + N
        for s, oc in eng.call_fn(State(eng), fn, []):
            b = oc[1]
            for s2, oc2 in eng.call_fn(s, "klv_vend_" + N, []):
                e = oc2[1]
                eng.prove(s2, b.o == e.o and eq(sub(e.off, b.off), len(ents) * w // 8), "POST the listed values are as many as declared", fn)
                for i, (x, _) in enumerate(ents):
                    eng.prove(s2, eq(eng.load(s2, Ptr(b.o, add(b.off, i * w // 8)), t), x, w), "POST the listed values are the declared ones in order", fn)
        fn = "klv_cvals_" + N
        st = State(eng)
        out = local_obj(st, len(ents) * w // 8, "out")
        for s, oc in eng.call_fn(st, fn, [out]):
            eng.prove(s, oc[0] == "ret" and eq(oc[1], len(ents)), "POST the listed values are as many as declared", fn)
            for i, (x, _) in enumerate(ents):
                eng.prove(s, eq(eng.load(s, Ptr(out.o, i * w // 8), t), x, w), "POST the listed values are the declared ones in order", fn)
        fn = "klv_view_" + N
        for i in range(len(ents) + 1):
            st = State(eng)
            ov, op, on = local_obj(st, w // 8), local_obj(st, 8), local_obj(st, 8)
            for s, oc in eng.call_fn(st, fn, [i, ov, op, on]):
                eng.prove(s, oc[0] == "ret" and oc[1] == (1 if i < len(ents) else 0), "POST the table has the declared entries", fn)
                if i < len(ents) and oc[1] == 1:
                    x, tx = ents[i]
                    q = eng.load(s, op, T_PTR)
                    eng.prove(s, eq(eng.load(s, ov, t), x, w), "POST table value", fn)
                    eng.prove(s, eq(eng.load(s, on, T_I64), len(tx)) and text_at(eng, s, q) == tx, "POST table name", fn)
    return ("enum %s" % N, SRC, f)


UNITS = [unit(n) for n in ENUMS]
DRIVER_SECONDS = 3
ASSUMPTIONS = ["%d representative enums are instantiated (contiguous from zero, sparse, permuted, negative, aliased, single, renamed, unscoped, 8/16/32/64 bit); for each, all underlying values and all strings are covered" % len(ENUMS)]
