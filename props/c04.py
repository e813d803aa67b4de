"""C04: binary serialization round trip. Scalars, enums, endian types, pairs, optionals and variants of
them: for all values, all buffer capacities and all truncation points. Containers: for up to N elements."""
from klv.spec import *

SRC = ["harness/c04.cpp", "harness/rbtree.cpp"]


def setup(eng, st):
    cap, ln = fresh_bv("cap", 64), fresh_bv("len", 64)
    st.assume(z3.ULE(cap, 1 << 40))
    st.assume(z3.ULE(ln, cap))
    buf = Ptr(st.new_obj(cap, "input", "buffer"), 0)
    wpos = local_obj(st, 8, "wpos")
    return buf, cap, ln, wpos


def post(eng, st, fn, args, E, cex=None):
    """E: encoded length (term over the inputs)"""
    buf, cap, ln, wpos = setup(eng, st)
    if cex:
        eng.cex = lambda m: cex(m, mint(m, cap), mint(m, ln))
    n = 0
    for s, oc in eng.call_fn(st, fn, args + [buf, cap, ln, wpos]):
        if not eng.prove(s, oc[0] == "ret", "POST no exception", fn):
            continue
        r = oc[1]
        big = z3.UGE(cap, E)
        eng.prove(s, Iff(eq(r, 1, 32), Not(big)), "POST writing fails exactly when the buffer is too small", fn)
        eng.prove(s, Implies(big, eq(eng.load(s, wpos, T_I64), E, 64)), "POST the encoding has its documented length", fn)
        eng.prove(s, Implies(And(big, z3.ULT(ln, E)), eq(r, 2, 32)), "POST truncated input is an error", fn)
        eng.prove(s, Implies(And(big, z3.UGE(ln, E)), eq(r, 0, 32)), "POST the value read back is equal, at the same position", fn)
        for nm, val in (("read back", 0), ("too small", 1), ("truncated", 2)):
            x = s.fork()
            c = eq(r, val, 32)
            if c is not False:
                x.assume(c)
                eng.cover(x, nm)


def scalars(eng):
    for fn, w, size in (("u8", 8, 1), ("i16", 16, 2), ("u32", 32, 4), ("i64", 64, 8), ("enum", 16, 2), ("le", 32, 4), ("be", 16, 2)):
        st = State(eng)
        v = fresh_bv("v", w)
        post(eng, st, "klv_rt_" + fn, [v], size, lambda m, c, l: "%s %d %d %d" % (fn, mint(m, v), c, l))
    for b in (0, 1):
        post(eng, State(eng), "klv_rt_bool", [b], 1, lambda m, c, l: "bool %d %d %d" % (b, c, l))


def composites(eng):
    a, b = fresh_bv("a", 8), fresh_bv("b", 32)
    post(eng, State(eng), "klv_rt_pair", [a, b], 5, lambda m, c, l: "pair %d %d %d %d" % (mint(m, a), mint(m, b), c, l))
    for h in (0, 1):
        post(eng, State(eng), "klv_rt_opt", [h, b], 5 if h else 1, lambda m, c, l: "opt %d %d %d %d" % (h, mint(m, b), c, l))
    c16 = fresh_bv("c", 16)
    for k in (0, 1, 2):
        post(eng, State(eng), "klv_rt_optopt", [k, c16], (1, 2, 4)[k], lambda m, c, l: "optopt %d %d %d %d" % (k, mint(m, c16), c, l))
    d = fresh_bv("d", 64)
    for k in (0, 1, 2):
        post(eng, State(eng), "klv_rt_var", [k, d], (2, 9, 3)[k], lambda m, c, l: "var %d %d %d %d" % (k, mint(m, d), c, l))


def inputs(eng):
    """arbitrary bytes, arbitrary length"""
    for fn in ("klv_read_var", "klv_read_opt"):
        st = State(eng)
        ln = fresh_bv("len", 64)
        st.assume(z3.ULE(ln, 1 << 40))
        buf = Ptr(st.new_obj(ln, "input", "input", by=Bytes(z3.Array("in", z3.BitVecSort(64), z3.BitVecSort(8)))), 0)
        pos = local_obj(st, 8, "pos")
        val = local_obj(st, 4, "val")
        args = [buf, ln, pos] + ([val] if fn.endswith("opt") else [])
        o = st.obj(buf.o)
        tag = eng.read_raw(st, o, 0, 1)
        for s, oc in eng.call_fn(st, fn, args):
            if not eng.prove(s, oc[0] == "ret", "POST no exception", fn):
                continue
            p = eng.load(s, pos, T_I64)
            eng.prove(s, z3.ULE(p, ln), "POST the position stays within the input", fn)
            if fn.endswith("var"):
                need = z3.If(eq(tag, 0, 8), z3.BitVecVal(2, 64), z3.If(eq(tag, 1, 8), z3.BitVecVal(9, 64), z3.BitVecVal(3, 64)))
                ok = And(z3.UGE(ln, 1), ult(tag, 3, 8), z3.UGE(ln, need))
                eng.prove(s, Iff(eq(oc[1], 0xffffffff, 32), Not(ok)), "POST error exactly for truncated input or an out-of-range index", fn)
                eng.prove(s, Implies(ok, eq(oc[1], zext(tag, 8, 32), 32)), "POST the alternative is the one named by the index", fn)
            else:
                ok = And(z3.UGE(ln, 1), Or(eq(tag, 0, 8), z3.UGE(ln, 5)))
                eng.prove(s, Iff(eq(oc[1], 0xffffffff, 32), Not(ok)), "POST error exactly for truncated input", fn)
            eng.cover(s, fn)


def containers(eng, fn, sizes, item, elem):
    for n in sizes:
        st = State(eng)
        vals = [fresh_bv("e%d" % i, 8 * elem) for i in range(n)]
        arr = local_obj(st, max(1, n * elem), "elements")
        for i, v in enumerate(vals):
            eng.store(st, Ptr(arr.o, i * elem), v, T_I32 if elem == 4 else T_I8)
        if fn in ("set", "map", "mapstr"):
            # distinct keys (equal ones give a smaller container); their order is arbitrary
            for i in range(n):
                for j in range(i):
                    st.assume(vals[i] != vals[j])
        E = 4 + (sum(item(i) for i in range(n)))
        post(eng, st, "klv_rt_" + fn, [arr, n], E, lambda m, c, l: "%s %d %s %d %d" % (fn, n, " ".join(str(mint(m, v)) for v in vals), c, l))


def variants(eng):
    for n in (0, 1, 2):
        for k in (0, 1, 2):
            st = State(eng)
            vals = [fresh_bv("e%d" % i, 8) for i in range(n)]
            arr = local_obj(st, max(1, n), "elements")
            for i, v in enumerate(vals):
                eng.store(st, Ptr(arr.o, i), v, T_I8)
            post(eng, st, "klv_rt_vs", [k, arr, n], 5 if k == 0 else 5 + n, lambda m, c, l: "vs %d %d %s %d %d" % (k, n, " ".join(str(mint(m, v)) for v in vals), c, l))


UNITS = [
    ("scalars, enums, endian types", SRC, scalars),
    ("pairs, optionals, variants", SRC, composites),
    ("arbitrary input bytes", SRC, inputs),
    ("vectors of scalars", SRC, lambda e: containers(e, "vec", range(4), lambda i: 4, 4)),
    ("strings", SRC, lambda e: containers(e, "str", (0, 1, 2, 3, 20), lambda i: 1, 1)),
    ("vectors of pairs", SRC, lambda e: containers(e, "vecpair", range(4), lambda i: 5, 4)),
    ("vectors of strings", SRC, lambda e: containers(e, "vecstr", range(4), lambda i: 4 + i, 1)),
    ("sets", SRC, lambda e: containers(e, "set", range(4), lambda i: 4, 4)),
    ("maps", SRC, lambda e: containers(e, "map", range(4), lambda i: 6, 4)),
    ("maps to strings", SRC, lambda e: containers(e, "mapstr", range(3), lambda i: 8 + i, 4)),
    ("variants with containers", SRC, variants),
]


def unbounded(eng, fn, elem):
    """containers of scalars of any size"""
    st = State(eng)
    n = fresh_bv("n", 32)
    st.assume(z3.ULE(n, 1 << 28))
    n64 = z3.ZeroExt(32, n)
    arr = Ptr(st.new_obj(n64 * elem, "input", "elements", by=Bytes(z3.Array("elems", z3.BitVecSort(64), z3.BitVecSort(8)))), 0)
    post(eng, st, "klv_rt_" + fn, [arr, n], n64 * elem + 4, lambda m, c, l: "%s# %d %d %d" % (fn, mint(m, n), c, l))


UNITS += [("strings of any length", SRC, lambda e: unbounded(e, "str", 1)), ("vectors of any length", SRC, lambda e: unbounded(e, "vec", 4))]
NOTE = "scalars, enums, endian types, strings, vectors of scalars, pairs, optionals and variants of scalars: proved for every value, capacity and truncation point. Vectors of other types, sets and maps: bounded (see BOUNDED); wider types by random concrete cases"
BOUNDED = ["vectors of pairs or strings: at most 3 elements; sets: 3; maps: 3 (2 with string values); variants with string or vector alternatives: 2 elements; elements, capacity and truncation point arbitrary"]
DRIVER_SECONDS = 12
ASSUMPTIONS = ["memory allocation succeeds for lengths the input can hold", "an empty std::vector hands memcpy a null pointer with size 0, accepted as an empty copy"]
LEVEL = "other"
