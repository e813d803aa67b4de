"""Shared by C08 and C09: the resource verbs on an arbitrary value of a reflected type, with an arbitrary document."""
from klv.spec import *

SRC = ["harness/c08.cpp", "harness/rbtree.cpp", "repo:src/path.cpp", "repo:src/serialization_error.cpp"]
GET, PUT, PATCH, POST, DEL = range(5)
VERBS = ["get", "put", "patch", "post", "del"]
FIELDS = ["status", "same", "advance", "at", "below", "root", "unique", "keys", "untouched", "reported", "toys"]


class World:
    def __init__(self, eng):
        self.eng = eng
        self.force = None
        self.many = False
        eng.model("^klv_any$", lambda e, s, a, i, n: fresh_bv("doc", 32), kind="specification", doc="an integer in the document: arbitrary")
        eng.model("^klv_pick$", self.m_pick, kind="specification", doc="a choice in the document: arbitrary")
        eng.model("^klv_fails$", self.m_fails, kind="specification", doc="deserialization or validation fails at an arbitrary point, with either kind of exception")
        st = State(eng)
        r = eng.call_fn(st.fork(), "klv_res_sizeof", [])
        self.sz = r[0][1][1]

    def m_pick(self, eng, s, a, ins, name):
        r = []
        n = a[0]
        if n == 7 and self.force is not None:
            choice = [self.force]                    # the member of the root that the document names
        elif n == 4:
            choice = [2, 3] if self.many else range(3)   # children in the document
        elif n == 5:
            choice = range(2) if self.many else [0]      # whether a child's own collection is named
        elif n == 6:
            choice = range(3)
        else:
            choice = range(n)
        for k in choice:
            x = s.fork()
            x.ghost["trace"] = s.ghost["trace"] + "p%d " % k
            r.append((x, ("ret", k)))
        return r

    def m_fails(self, eng, s, a, ins, name):
        r = [(s, ("ret", 0))]
        if self.many:
            s.ghost["trace"] += "f0 "
            return r
        n = s.ghost["checks"] + 1
        t = s.ghost["trace"]
        for k in ((1, 2) if n % 2 else (1,)):
            x = s.fork()
            x.ghost["trace"] = t + "f%d " % k
            x.ghost["failed"] = True
            x.ghost["checks"] = n
            r.append((x, ("ret", k)))
        s.ghost["checks"] = n
        s.ghost["trace"] = t + "f0 "
        return r

    def make(self, shape):
        st = State(self.eng)
        st.ghost["trace"] = ""
        st.ghost["checks"] = 0
        st.ghost["failed"] = False
        m = local_obj(st, self.sz, "resource")
        a = local_obj(st, 26 * 4, "integers")
        for i in range(26):
            self.eng.store(st, Ptr(a.o, 4 * i), z3.BitVec("a%d" % i, 32), T_I32)
        rs = self.eng.call_fn(st, "klv_res_make", [m, shape, a])
        if len(rs) != 1 or rs[0][1][0] != "ret":
            raise Unsupported("construction forks")
        return rs[0][0], m

    def cstr(self, st, s):
        b = s.encode() + b"\0"
        p = local_obj(st, len(b), "path")
        for i, c in enumerate(b):
            self.eng.store(st, Ptr(p.o, i), c, T_I8)
        return p

    def run(self, shape, verb, path, pre=()):
        eng = self.eng
        st, m = self.make(shape)
        for p, sub in pre:
            (st, _), = eng.call_fn(st, "klv_notify", [m, self.cstr(st, p), sub])
        out = local_obj(st, 4 * len(FIELDS), "out")
        args = [m, verb, self.cstr(st, path), self.cstr(st, path.rstrip("/") + "/zz"), out]
        for s, oc in eng.call_fn(st, "klv_run", args):
            eng.cex = lambda mo, s=s: "%d %s %s | %s" % (shape, VERBS[verb], path, s.ghost["trace"])
            if oc[0] != "ret":
                eng.prove(s, False, "POST only the exceptions of user code leave the call", VERBS[verb], path)
                continue
            yield s, {f: eng.load(s, Ptr(out.o, 4 * i), T_I32) for i, f in enumerate(FIELDS)}


def sint(v):
    return v - (1 << 32) if not is_sym(v) and v >> 31 else v


SUB = {"/": 1, "/plain": 0, "/fixed": 0, "/maybe": 1, "/rmaybe": 1, "/opt": 1, "/opt/v": 0, "/opt/lock": 0, "/olist": 1, "/olist/0": 0, "/inner": 1, "/inner/v": 0, "/inner/lock": 0, "/rinner": 1, "/rinner/v": 0, "/rinner/lock": 0,
       "/sinner": 1, "/sinner/v": 0, "/sinner/lock": 0, "/list": 1, "/list/0": 0, "/list/1": 0, "/list/7": 0, "/list/x": 0, "/rlist": 1, "/rlist/0": 0, "/slist": 1, "/slist/0": 0, "/kids": 1, "/kids/a": 1, "/kids/b": 1, "/kids/a/id": 0, "/kids/a/n": 0,
       "/kids/a/in": 1, "/kids/a/in/v": 0, "/kids/a/in/lock": 0, "/kids/zz": 1, "/kids/a/toys": 1, "/kids/a/toys/1": 1, "/kids/a/toys/1/id": 0, "/kids/a/toys/1/n": 0, "/kids/b/toys": 1, "/skids": 1, "/skids/a": 1, "/skids/a/n": 0, "/skids/a/in/v": 0, "/dict": 1, "/dict/a": 0, "/dict/b": 0, "/dict/q": 0, "/rdict": 1, "/rdict/a": 1, "/rdict/a/v": 0, "/rdict/a/lock": 0,
       "/sopt": 1, "/sopt/v": 0, "/sopt/lock": 0, "/sdict": 1, "/sdict/a": 1, "/sdict/a/v": 0, "/nothing": 0, "/plain/x": 0}
# operations that must not modify anything, by the attributes of the members on the path
PROTECTED = set()
for _p in SUB:
    _t = _p.strip("/").split("/")
    _name = _t[0]
    _last = _t[-1]
    for _v in (PUT, PATCH, POST, DEL):
        ro = False
        if _last == "lock" or (len(_t) == 1 and _name in ("fixed", "rmaybe", "rinner", "rlist", "rdict")):
            ro = True                                        # the member itself is read-only
        if _name in ("sinner", "slist", "skids", "sopt", "sdict") and len(_t) > 1:
            ro = True                                        # below a subtree-read-only member
        if _name in ("slist", "skids") and _v == POST:
            ro = True                                        # adding a child
        if _name in ("rlist", "rdict") and _v == DEL and len(_t) == 2:
            ro = True                                        # removing a child of a read-only collection
        if _last == "id":
            ro = True                                        # the key of a keyed child
        if ro:
            PROTECTED.add((_p, _v))


# the paths that protection and keys are about
GUARDED = [p for p in SUB if any((p, v) in PROTECTED for v in (PUT, PATCH, POST, DEL)) or p.startswith("/kids") or p.startswith("/skids")]
BOUNDED = ["one reflected type (below) covering scalar, optional, nested, indexed, keyed and mapped members with and without read-only attributes; collections of at most two elements; all integers, the document's content, the failing point and the kind of exception arbitrary; paths from a fixed list"]
NOTE = "bounded in the shape of the value and the list of paths: the verbs are executed symbolically on the real code with an arbitrary document and failures at every point of deserialization and validation; all obligations discharged"
TECHNIQUE = "contract-based deductive verification, bounded stand-in (obligations on the real verbs over a representative reflected type, arbitrary documents and throw points), plus random concrete histories"
DRIVER_SRC = ["repo:src/path.cpp", "repo:src/serialization_error.cpp"]
