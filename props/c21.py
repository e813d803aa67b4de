"""C21: reflected structs: deserialization, patching, serialization."""
from klv.spec import *

SRC = ["harness/c21.cpp", "harness/rbtree.cpp", "repo:src/json.cpp", "repo:src/serialization_error.cpp"]
DRIVER_SRC = ["repo:src/json.cpp", "repo:src/serialization_error.cpp"]
RES = ["threw", "other", "want_error", "named", "exact", "frame"]
SER = ["fields", "dump", "round", "threw"]


def world(eng):
    def m_any(e, s, a, i, n):
        v = fresh_bv("doc", 32)
        s.ghost["any"] = s.ghost["any"] + (v,)
        return v

    def m_pick(e, s, a, ins, name):
        r = []
        for k in range(a[0]):
            x = s.fork()
            x.ghost["trace"] = s.ghost["trace"] + "p%d " % k
            r.append((x, ("ret", k)))
        return r
    eng.model("^klv_any$", m_any, kind="specification", doc="an integer in the document or the struct: arbitrary")
    eng.model("^klv_pick$", m_pick, kind="specification", doc="a choice in the document: arbitrary")
    def m_demangle(e, s, a, i, n):
        oid = s.new_obj(2, "heap", "type name")
        s.obj(oid).meta = {"allocated": "malloc"}
        for k, c in enumerate(b"T\0"):
            e.store(s, Ptr(oid, k), c, T_I8)
        if not (isinstance(a[3], Ptr) and a[3].o is None):
            e.store(s, a[3], 0, T_I32)
        return Ptr(oid, 0)
    eng.model("^__cxa_demangle$", m_demangle, kind="assumption", doc="the demangled name of a type: some text in a block from malloc")
    eng.static_once = True
    eng.new_can_throw = False
    eng.width_unroll = 4000
    st = State(eng)
    st.ghost["trace"] = ""
    st.ghost["any"] = ()
    return st


def apply(eng, fn, patch, wide):
    st = world(eng)
    out = local_obj(st, 4 * len(RES), "result")
    for s, oc in eng.call_fn(st, fn, [patch, wide, out]):
        note = s.ghost["trace"]
        eng.cex = lambda m, s=s: "%s %d %d | %s| %s" % (fn, patch, wide, s.ghost["trace"], " ".join(str(mint(m, v)) for v in s.ghost["any"]))
        if not eng.prove(s, oc[0] == "ret", "POST nothing else is thrown", fn, note):
            continue
        o = {f: eng.load(s, Ptr(out.o, 4 * i), T_I32) for i, f in enumerate(RES)}
        if is_sym(o["threw"]) or is_sym(o["want_error"]):
            raise Unsupported("symbolic outcome")
        eng.prove(s, eq(o["other"], 0, 32), "POST only deserialization errors are thrown", fn, note)
        eng.prove(s, (o["threw"] != 0) == (o["want_error"] != 0), "POST an error exactly when a field cannot be read from its key", fn, note)
        if o["threw"]:
            eng.prove(s, Not(eq(o["named"], 0, 32)), "POST the error names a field that failed", fn, note)
            eng.cover(s, "error")
        else:
            eng.prove(s, Not(eq(o["exact"], 0, 32)), "POST every field has the value of its own key (or its default, or its old value)", fn, note)
            eng.cover(s, "applied")
        if patch:
            eng.prove(s, Not(eq(o["frame"], 0, 32)), "POST fields the document does not mention keep their value, even on an error", fn, note)


def ser(eng, fn, args):
    st = world(eng)
    out = local_obj(st, 4 * len(SER), "result")
    for s, oc in eng.call_fn(st, fn, args + [out]):
        note = s.ghost["trace"]
        eng.cex = lambda m, s=s: "%s %s | %s| %s" % (fn, " ".join(map(str, args)) + (" 0" if len(args) == 1 else ""), s.ghost["trace"], " ".join(str(mint(m, v)) for v in s.ghost["any"]))
        if not eng.prove(s, oc[0] == "ret", "POST nothing is thrown", fn, note):
            continue
        o = {f: eng.load(s, Ptr(out.o, 4 * i), T_I32) for i, f in enumerate(SER)}
        eng.prove(s, eq(o["threw"], 0, 32), "POST nothing is thrown", fn, note)
        eng.prove(s, Not(eq(o["fields"], 0, 32)), "POST exactly the fields to be emitted appear, each once under its own name", fn, note)
        eng.prove(s, Not(eq(o["dump"], 0, 32)), "POST streaming writes what the tree contains", fn, note)
        eng.prove(s, Not(eq(o["round"], 0, 32)), "POST the round trip reproduces the struct", fn, note)
        eng.cover(s, "serialized")


UNITS = []
for _p in (0, 1):
    _n = ["deserialize", "patch"][_p]
    for _w in (1, 2, 4):
        UNITS.append(("%s names %d" % (_n, _w), SRC, lambda e, p=_p, w=_w: apply(e, "klv_s1", p, w)))
    for _w in (1, 2):
        UNITS.append(("%s policies %d" % (_n, _w), SRC, lambda e, p=_p, w=_w: apply(e, "klv_s2", p, w)))
    UNITS.append(("%s flatten and extra" % _n, SRC, lambda e, p=_p: apply(e, "klv_s3", p, 1)))
    UNITS.append(("%s from a sequence" % _n, SRC, lambda e, p=_p: apply(e, "klv_s5", p, 1)))
    UNITS.append(("%s a derived struct" % _n, SRC, lambda e, p=_p: apply(e, "klv_s6", p, 1)))
for _k in (0, 1):
    for _f in (1, 2, 3, 6):
        UNITS.append(("serialize %d, skip null %d" % (_f, _k), SRC, lambda e, f=_f, k=_k: ser(e, "klv_ser%d" % f, [k])))
    for _t in (0, 1, 2):
        UNITS.append(("serialize 4 part %d, skip null %d" % (_t, _k), SRC, lambda e, t=_t, k=_k: ser(e, "klv_ser4", [k, t])))
BOUNDED = ["six reflected structs covering plain, renamed, aliased, optional, nested, defaulted, allow-missing, skipped, validated, flattened and extra-fields members, a derived struct, a struct read from a sequence, and vectors, maps, strings, enums and pairs; every combination of absent, present, null and wrongly typed keys within groups; all integers arbitrary; at most two elements per collection"]
NOTE = "bounded in the reflected types and the set of keys: generic code is verified on representative instances; RapidJSON's value class is executed, its parser and text writer are not"
TECHNIQUE = "contract-based deductive verification, bounded stand-in (obligations on the real (de)serialization and patch code over representative structs, arbitrary documents over their keys), plus random concrete documents"
ASSUMPTIONS = ["memory allocation succeeds", "RapidJSON's parser and text writer are outside the verified code (the driver runs them)"]
LEVEL = "other"
DRIVER_SAN = ["-fsanitize=address", "-fno-sanitize-recover=all"]   # RapidJSON offsets null pointers itself
DRIVER_SECONDS = 6
