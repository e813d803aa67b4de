"""C15: JSON integers deserialize exactly or are rejected."""
from klv.spec import *

SRC = ["harness/c15.cpp", "repo:src/json.cpp", "repo:src/serialization_error.cpp"]
DRIVER_SRC = ["repo:src/json.cpp", "repo:src/serialization_error.cpp"]
TY = {"i8": (8, 1), "u8": (8, 0), "ch": (8, 1), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "i64": (64, 1), "u64": (64, 0), "ll": (64, 1), "ull": (64, 0)}
T_OF = {8: T_I8, 16: T_I16, 32: T_I32, 64: T_I64}
NUM = ["int", "unsigned", "int64", "uint64"]
KINDS = NUM + ["double", "null", "false", "true", "string", "array", "object"]


def jsonval(kind, bits):
    """value of the JSON number as a 72-bit signed integer"""
    lo = z3.Extract(31, 0, bits)
    return [z3.SignExt(40, lo), z3.ZeroExt(40, lo), z3.SignExt(8, bits), z3.ZeroExt(8, bits)][kind]


def install(eng):
    def m_wrote(eng, s, a, ins, name):
        s.ghost["wrote"] = s.ghost.get("wrote", ()) + ((a[0], a[1]),)
    eng.model("^klv_wrote$", m_wrote, kind="specification", doc="receives what is written")
    eng.new_can_throw = False


def de(eng, fn, N):
    install(eng)
    w, sg = TY[N]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    for kind, kn in enumerate(KINDS):
        st = State(eng)
        bits = z3.BitVec("bits", 64)
        out = local_obj(st, w // 8, "out")
        eng.cex = lambda m: "%s %d %d" % (N, kind, mint(m, bits))
        for s, oc in eng.call_fn(st, fn, [kind, bits, out]):
            eng.prove(s, oc[0] == "ret", "throws nothing else", fn)
            if oc[0] != "ret":
                continue
            r = oc[1]
            if is_sym(r):
                raise Unsupported("symbolic outcome")
            eng.cover(s, "%s %s" % (kn, ["accepted", "rejected", "?"][r])) if kind < 4 and (r == 1 or True) else eng.cover(s, kn)
            if kind < 4:
                v = jsonval(kind, bits)
                inr = z3.And(v >= lo, v <= hi)
                if r == 0:
                    got = bv(eng.load(s, out, T_OF[w]), w)
                    got = (z3.SignExt if sg else z3.ZeroExt)(72 - w, got)
                    eng.prove(s, got == v, "POST the value is exactly the JSON integer (%s)" % kn, fn)
                else:
                    eng.prove(s, r == 1, "POST rejection is a deserialization error", fn)
                    eng.prove(s, z3.Not(inr), "POST only unrepresentable integers are rejected (%s)" % kn, fn)
            else:
                eng.prove(s, r == 1, "POST a JSON %s is rejected with a deserialization error" % kn, fn)


def de_bool(eng, fn):
    install(eng)
    for kind, kn in enumerate(KINDS):
        st = State(eng)
        bits = z3.BitVec("bits", 64)
        out = local_obj(st, 1, "out")
        eng.cex = lambda m: "bool %d %d" % (kind, mint(m, bits))
        for s, oc in eng.call_fn(st, fn, [kind, bits, out]):
            ok = kn in ("true", "false")
            eng.prove(s, oc[0] == "ret" and oc[1] == (0 if ok else 1), "POST exactly JSON booleans are accepted (%s)" % kn, fn)
            if ok:
                eng.prove(s, eq(eng.load(s, out, T_I8), int(kn == "true"), 8), "POST the value is the JSON boolean", fn)
            eng.cover(s, kn)


def round_(eng, N):
    install(eng)
    w = TY[N][0] if N != "bool" else 8
    fn = "klv_round_" + N
    st = State(eng)
    v = z3.BitVec("v", w) if N != "bool" else z3.Bool("v")
    out = local_obj(st, w // 8, "out")
    eng.cex = lambda m: "round_%s 0 %d" % (N, mint(m, v))
    for s, oc in eng.call_fn(st, fn, [v, out]):
        eng.prove(s, oc[0] == "ret" and oc[1] == 0, "POST the serialized integer is accepted", fn)
        eng.prove(s, eq(eng.load(s, out, T_OF[w]), bv(v, w), w), "POST round trip returns the integer unchanged", fn)
        eng.cover(s, "round trip")
    fn = "klv_put_" + N
    st = State(eng)
    for s, oc in eng.call_fn(st, fn, [v]):
        wr = s.ghost.get("wrote", ())
        eng.prove(s, oc[0] == "ret" and len(wr) == 1, "POST one value is written", fn)
        if len(wr) != 1:
            continue
        k, x = wr[0]
        if N == "bool":
            eng.prove(s, k == 4 and eq(x, bv(v, 64)), "POST the boolean is written", fn)
        else:
            want = (z3.SignExt if TY[N][1] else z3.ZeroExt)(72 - w, v)
            # the writer interprets its argument by the kind of call
            if not eng.prove(s, k in (0, 1, 2, 3), "POST an integer is written as an integer", fn):
                continue
            eng.prove(s, jsonval(k, bv(x, 64)) == want, "POST the integer is written unchanged", fn)
        eng.cover(s, "written")


UNITS = []
for _n in TY:
    UNITS.append(("deserialize " + _n, SRC, lambda e, n=_n: de(e, "klv_de_" + n, n)))
    if _n not in ("ll", "ull"):
        UNITS.append(("deserialize in place " + _n, SRC, lambda e, n=_n: de(e, "klv_ref_" + n, n)))
        UNITS.append(("round trip " + _n, SRC, lambda e, n=_n: round_(e, n)))
UNITS += [("deserialize bool", SRC, lambda e: de_bool(e, "klv_de_bool")), ("deserialize bool in place", SRC, lambda e: de_bool(e, "klv_ref_bool")), ("round trip bool", SRC, lambda e: round_(e, "bool"))]
DRIVER_SECONDS = 4
ASSUMPTIONS = ["RapidJSON's value class is verified through (its inline code is executed symbolically); its parser and writer are outside: a parsed document holds the integer its text denotes as int, unsigned, int64 or uint64 value",
               "memory allocation succeeds"]
