"""C12: flag sets are exact bitwise set algebra, for every underlying type."""
from klv.spec import *

SRC = ["harness/c12.cpp"]
TYPES = [("i8", 8, 1), ("u8", 8, 0), ("i16", 16, 1), ("u16", 16, 0), ("i32", 32, 1), ("u32", 32, 0), ("i64", 64, 1), ("u64", 64, 0)]


def unit(N, w, signed):
    def f(eng):
        a, b = z3.BitVec("a", w), z3.BitVec("b", w)
        lt = (a < b) if signed else z3.ULT(a, b)
        full = {"and": a & b, "or": a | b, "xor": a ^ b}
        spec = {"not": ~a, "not_e": ~a, "value": a, "uvalue": a, "bool": a != 0, "any_s": (a & b) != 0, "any_e": (a & b) != 0, "any_mask": (a & b) != 0,
                "all_s": (a & b) == b, "all_e": (a & b) == b, "all_t": (a & b) == b, "ctor": z3.BitVecVal(0, w)}
        for o in full:
            for s in ("", "_se", "_es", "_ee"):
                spec[o + s] = full[o]
        for s in ("_ss", "_se", "_es"):
            spec["eq" + s] = a == b
            spec["ne" + s] = a != b
            spec["lt" + s] = lt
        eng.cex = lambda m, N=N: "%s %s %d %d" % (N, eng.cur, mint(m, a), mint(m, b))
        for op, want in spec.items():
            fn = "klv_%s_%s" % (N, op)
            eng.cur = op
            st = State(eng)
            unary = op in ("not", "not_e", "value", "uvalue", "bool")
            args = [] if op == "ctor" else [a] if unary else [a, b]
            for s, oc in eng.call_fn(st, fn, args):
                if oc[0] != "ret":
                    eng.prove(s, False, "does not throw", fn)
                    continue
                got = oc[1]
                if z3.is_bool(want):
                    eng.prove(s, Iff(got, want), "POST equals the bitwise predicate", fn)
                else:
                    eng.prove(s, eq(got, want, w), "POST equals the bitwise result", fn)
                eng.cover(s, fn)
        for op, want in full.items():
            for sfx in ("_asg_s", "_asg_e", "_asg_ee"):
                for alias in (False, True):
                    fn = "klv_%s_%s%s" % (N, op, sfx)
                    eng.cur = op + sfx
                    st = State(eng)
                    pa = local_obj(st, w // 8, "left")
                    eng.write_raw(st, pa, w // 8, a)
                    if alias:
                        pb = pa
                    else:
                        pb = local_obj(st, w // 8, "right")
                        eng.write_raw(st, pb, w // 8, b)
                    t = T_OF[w]
                    for s, oc in eng.call_fn(st, fn, [pa, pb]):
                        wv = z3.substitute(want, (b, a)) if alias else want
                        eng.prove(s, eq(eng.load(s, pa, t), wv, w), "POST left operand is the bitwise result", fn)
                        if not alias:
                            eng.prove(s, eq(eng.load(s, pb, t), b, w), "POST right operand unchanged", fn)
                        eng.prove(s, eng.ptr_eq(s, oc[1], pa), "POST returns the left operand", fn)
                        eng.cover(s, fn)
    return ("enum_set<%s>" % N, SRC, f)


T_OF = {8: T_I8, 16: T_I16, 32: T_I32, 64: T_I64}
UNITS = [unit(*t) for t in TYPES]
DRIVER_SECONDS = 3
ASSUMPTIONS = ["enums with a fixed underlying type of 8, 16, 32 or 64 bits (signed and unsigned); bool as underlying type is not instantiated"]
