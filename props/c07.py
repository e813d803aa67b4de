"""C07: the change tracker.

Contracts on notify_changed / changed_at / changed_since over two abstract maps
(std::map is used through its specification), followed by the lemma that those
contracts imply the property for every history."""
import re
from klv import ir
from .pathlib import *
from .c06 import valid_path

SRC = ["harness/c07.cpp", "repo:src/path.cpp"]
NODE_VALUE = 64          # libstdc++: _Rb_tree_node_base (32) + std::string (32)
MAP = r"std::map<std::__cxx11::basic_string<.*>, kl::resources::modification_tracker::generation, .*>::"


class Maps:
    """the two maps of a tracker, seen through the keys that are texts of prefixes of one path"""

    def __init__(self, eng, st, path):
        self.eng, self.path = eng, path
        n = eng.call_fn(st.fork(), "klv_trk_sizeof", [])[0][1][1]
        self.t = local_obj(st, n, "tracker")
        r = eng.call_fn(st, "klv_trk_ctor", [self.t])
        if len(r) != 1:
            raise Unsupported("tracker() forks")
        self.st = r[0][0]
        self.log = set()
        self.mode = None
        eng.model(r"^(?:decltype.*\)|.*) ?" + MAP + r"(find|count|lower_bound|contains)(<.*>)?\(.*\)( const)?$", self.m_find, doc="std::map::find/count: the entry with that key, if any")
        eng.model(r"^.*" + MAP + r"(emplace|try_emplace|insert_or_assign|insert|emplace_hint)(<.*>)?\(.*\)$", self.m_emplace, doc="std::map::emplace/try_emplace/insert_or_assign: inserts the key when absent")
        eng.model(r"^.*" + MAP + r"(operator\[\]|at)\(.*\)( const)?$", self.m_index, doc="std::map::operator[]/at")
        eng.model(r"^.*" + MAP + r"(erase|clear|swap|operator=|extract|merge)(<.*>)?\(.*\)$", self.m_other, doc="not used")

    # ---- keys
    def key(self, s, p, args, ins, name):
        eng = self.eng
        if re.match(r"(<std::basic_string_view|<std::basic_string_view[^(]*&|\(std::basic_string_view)", args):
            ln, q = eng.load(s, p, T_I64, ins), eng.load(s, Ptr(p.o, add(p.off, 8)), T_PTR, ins)
        elif re.match(r"(<std::__cxx11::basic_string|\(std::__cxx11::basic_string)", args):
            sv = str_get(eng, s, p, ins)
            ln, q = sv.len, Ptr(sv.buf, 0)
        else:
            raise Unsupported("map key type: " + args[:80])
        text = self.path.str_(s)
        if not (q.o == text.buf and eq(q.off, 0) is True):
            if q.o is None:
                eng.prove(s, eq(ln, 0), "a key is the text of a prefix of the path", name)
            else:
                j = fresh_bv("j", 64)
                s2 = s.fork()
                s2.assume(ult(j, ln))
                if s2.feasible():
                    b = eng.load(s2, Ptr(q.o, add(q.off, j)), T_I8, ins)
                    eng.prove(s2, eq(b, self.path.byte(s2, j), 8), "a key is the text of a prefix of the path", name)
        return ln

    def which(self, p):
        if p.o != self.t.o or is_sym(p.off):
            raise Unsupported("a map outside the tracker")
        self.log.add(p.off)
        return p.off

    @staticmethod
    def tail(name, fn):
        d = name.rsplit("::" + fn, 1)[1]
        return d

    # ---- abstract contents
    def found(self, s, m, ln):
        """[(state, node or None)]"""
        if self.mode == "query":
            pres, val = self.q[m]
            self.eng.prove(s, eq(s.obj(self.qn[m]).cells[NODE_VALUE][1], s.ghost["last", m]), "a query does not change the marks", "query")
            c = norm(z3.Select(pres, bv(ln, 64)) != 0)
            v = norm(z3.Select(val, bv(ln, 64)))
            a, b = s.fork(), s
            r = []
            a.assume(c)
            if a.feasible():
                a.assume(Not(eq(v, self.V)))
                o = a.wobj(self.qn[m])
                o.cells[NODE_VALUE] = (8, v)
                a.ghost["last", m] = v
                r.append((a, Ptr(self.qn[m], 0)))
            b.assume(Not(c))
            if b.feasible():
                r.append((b, None))
            return r
        hit = And(self.kpre, eq(ln, self.klen))
        r = []
        for h, c in ((True, hit), (False, Not(hit))):
            a = s.fork()
            a.assume(c)
            if not a.feasible():
                continue
            pr = a.ghost["present", m] if h else fresh_bool("there")
            b = a.fork()
            a.assume(pr)
            if a.feasible():
                if h:
                    r.append((a, Ptr(self.kn[m], 0)))
                else:
                    a.wobj(self.on[m]).cells[NODE_VALUE] = (8, fresh_bv("other", 64))
                    r.append((a, Ptr(self.on[m], 0)))
            b.assume(Not(pr))
            if b.feasible():
                r.append((b, ("K" if h else None)))
        return r

    def end(self, m):
        return Ptr(self.t.o, m + 8)

    def m_find(self, eng, s, a, ins, name):
        name = ir.demangle(name)
        fn = re.match(r".*::(find|count|lower_bound|contains)[<(]", name).group(1)
        if fn == "lower_bound":
            raise Unsupported("std::map::lower_bound")
        m = self.which(a[0])
        ln = self.key(s, a[1], self.tail(name, fn), ins, name)
        out = []
        for x, p in self.found(s, m, ln):
            there = isinstance(p, Ptr)
            if fn == "find":
                out.append((x, ("ret", p if there else self.end(m))))
            else:
                out.append((x, ("ret", there if fn == "contains" else int(there))))
        return out

    def put(self, s, m, k, v):
        """insert an absent key; k is "K" for the key in focus"""
        if self.mode == "query":
            self.eng.prove(s, False, "a query inserts nothing", "query")
            return Ptr(self.qn[m], 0)
        o = self.kn[m] if k == "K" else self.on[m]
        s.wobj(o).cells[NODE_VALUE] = (8, v)
        if k == "K":
            s.ghost["present", m] = True
        return Ptr(o, 0)

    def m_emplace(self, eng, s, a, ins, name):
        name = ir.demangle(name)
        fn = re.match(r".*::(emplace|try_emplace|insert_or_assign|insert|emplace_hint)[<(]", name).group(1)
        if fn in ("insert", "emplace_hint"):
            raise Unsupported("std::map::" + fn)
        m = self.which(a[0])
        tail = self.tail(name, fn)
        if fn != "emplace":
            tail = tail[tail.index("("):]
        ln = self.key(s, a[1], tail, ins, name)
        v = eng.load(s, a[2], T_I64, ins) if len(a) > 2 else 0
        out = []
        for x, p in self.found(s, m, ln):
            if isinstance(p, Ptr):
                if fn == "insert_or_assign":
                    eng.write_raw(x, Ptr(p.o, NODE_VALUE), 8, v)
                out.append((x, ("ret", [p, 0])))
            else:
                out.append((x, ("ret", [self.put(x, m, p, v), 1])))
        return out

    def m_index(self, eng, s, a, ins, name):
        name = ir.demangle(name)
        fn = "operator[]" if "operator[]" in name else "at"
        m = self.which(a[0])
        ln = self.key(s, a[1], self.tail(name, fn), ins, name)
        out = []
        for x, p in self.found(s, m, ln):
            if not isinstance(p, Ptr):
                if fn == "at":
                    raise Unsupported("map::at on an absent key")
                p = self.put(x, m, p, 0)
            out.append((x, ("ret", Ptr(p.o, NODE_VALUE))))
        return out

    def m_other(self, eng, s, a, ins, name):
        raise Unsupported("map operation " + name[-80:])

    # ---- set-up
    def nodes(self, st, what):
        return {m: st.new_obj(72, "heap", "%s@%d" % (what, m)) for m in self.ms}

    def focus(self, st, klen, kpre):
        self.mode, self.klen, self.kpre = "notify", klen, kpre
        self.kn, self.on = self.nodes(st, "entry"), self.nodes(st, "other entry")
        for m in self.ms:
            st.wobj(self.kn[m]).cells[NODE_VALUE] = (8, fresh_bv("value%d" % m, 64))
            st.wobj(self.on[m]).cells[NODE_VALUE] = (8, 0)
            st.ghost["present", m] = fresh_bool("present%d" % m)

    def at(self, s, m):
        """(present, value) of the key in focus"""
        return s.ghost["present", m], s.obj(self.kn[m]).cells[NODE_VALUE][1]

    def queries(self, st, V):
        self.mode, self.V = "query", V
        self.q = {m: (fresh_arr("there%d" % m), fresh_arr("value%d" % m, 64)) for m in self.ms}
        self.qn = self.nodes(st, "entry")
        for m in self.ms:
            st.wobj(self.qn[m]).cells[NODE_VALUE] = (8, 0)
            st.ghost["last", m] = 0

    def sem(self, m, ln):
        pres, val = self.q[m]
        return z3.If(z3.Select(pres, bv(ln, 64)) != 0, z3.Select(val, bv(ln, 64)), z3.BitVecVal(0, 64))


def setup(eng):
    eng.require_termination = True
    st, path, sv, c, J = valid_path(eng)
    mp = Maps(eng, st, path)
    st = mp.st
    # which map is which: what a plain notification of a path and a subtree notification write
    used = {}
    for sub_ in (False, True):
        s = st.fork()
        s.foralls = ()
        old = eng.on_load
        eng.on_load = None
        q = PathObj(eng, s)
        s = q.st
        mp.log = set()
        mp.ms = (8, 56)
        mp.path = q
        mp.focus(s, 0, True)
        for x, oc in eng.call_fn(s, "klv_trk_notify", [mp.t, q.p, int(sub_)]):
            pass
        used[sub_] = set(mp.log)
        mp.path = path
        eng.on_load = old
    if len(used[False]) != 1 or len(used[True]) != 2:
        raise Unsupported("tracker layout not recognised: %s" % used)
    mp.node = list(used[False])[0]
    mp.sub = list(used[True] - used[False])[0]
    mp.ms = (mp.node, mp.sub)
    # the counter
    cells = st.obj(mp.t.o).cells
    cur = [o for o, (sz, v) in cells.items() if sz == 8 and not isinstance(v, Ptr) and not is_sym(v) and v == 1]
    if len(cur) != 1:
        raise Unsupported("generation counter not recognised")
    mp.cur = cur[0]
    G0 = z3.BitVec("generation", 64)
    st.wobj(mp.t.o).cells[mp.cur] = (8, G0)
    st.assume(And(ule(1, G0), ult(G0, 1 << 62)))

    def cex(m):
        n = min(mint(m, c), 5)
        p = "/".join("s%d" % k for k in range(n)) or "/"
        j = "/".join("s%d" % k for k in range(min(mint(m, J), n))) or "/"
        return "n %s 0;n %s 1;q s0;q s0/s1;q %s;q %s/x;q zz;n %s 0;q %s;q /" % (p, p, j, p if p != "/" else "", j, p)
    eng.cex = cex
    return st, path, c, J, mp, G0


def plen(path, s, k):
    """length of the text of the first k segments"""
    if not is_sym(k) and k == 0:
        return 0
    i = sub(k, 1)
    return z3.If(bv(k, 64) == 0, z3.BitVecVal(0, 64), bv(add(path.off(s, i), path.len(s, i)), 64))


NOTIFY = ["klv_trk_notify", "klv_trk_notify_dflt", "klv_trk_notify_view", "klv_trk_notify_view_dflt"]


def args_of(eng, st, path, fn, mp, rest):
    if "_view" not in fn:
        return st, [mp.t, path.p] + rest
    vs = eng.call_fn(st.fork(), "klv_view_sizeof", [])[0][1][1]
    v = local_obj(st, vs, "view")
    r = eng.call_fn(st, "klv_view_drop", [path.p, 0, 0, v])
    if len(r) != 1:
        raise Unsupported("view() forks")
    return r[0][0], [mp.t, v] + rest


def notify(eng, fn):
    subtree = z3.Bool("subtree")
    rest = [] if "dflt" in fn else [z3.If(subtree, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))]
    if "dflt" in fn:
        subtree = False
    else:
        rest = [subtree]
    # ---- the key in focus is the text of the first J segments
    st, path, c, J, mp, G0 = setup(eng)
    G1 = add(G0, 1)
    st.assume(ule(J, c))
    st.instantiate(sub(J, 1))
    s00 = st.fork()
    st.assume(path.order(s00, sub(J, 1), sub(c, 1)))
    K = plen(path, st, J)
    klen = fresh_bv("keylen", 64)
    st.assume(klen == K)
    mp.focus(st, klen, True)
    before = {m: mp.at(st, m) for m in mp.ms}

    def hint(e, fr0, L, hv, ev):
        def done(v):
            p, x = mp.at(v.st, mp.node)
            return And(p, eq(x, G1))
        yield "prefixes handled so far carry the new generation (upwards)", lambda v: Implies(ult(J, v.n), done(v))
        yield "prefixes handled so far carry the new generation (downwards)", lambda v: Implies(ult(c, add(v.n, J)), done(v))
        yield "prefixes handled so far carry the new generation (proper ones)", lambda v: Implies(And(ult(0, J), ule(J, v.n)), done(v))
    eng.loop_hints = [hint]
    st, args = args_of(eng, st, path, fn, mp, rest)
    for s, oc in eng.call_fn(st, fn, args):
        if not eng.prove(s, oc[0] == "ret", "POST does not throw", fn):
            continue
        eng.cover(s, "returns")
        eng.prove(s, eq(oc[1], G1), "POST returns the next generation", fn)
        eng.prove(s, eq(eng.load(s, Ptr(mp.t.o, mp.cur), T_I64), G1), "POST the current generation is the returned one", fn)
        p, x = mp.at(s, mp.node)
        eng.prove(s, And(p, eq(x, G1)), "POST the path and every ancestor carry the new generation", fn)
        p, x = mp.at(s, mp.sub)
        p0, x0 = before[mp.sub]
        whole = And(subtree, eq(J, c))
        eng.prove(s, Implies(whole, And(p, eq(x, G1))), "POST a subtree notification marks the path's descendants", fn)
        eng.prove(s, Implies(Not(whole), And(Iff(p, p0), Implies(p0, eq(x, x0)))), "POST no other subtree mark changes", fn)
    # ---- the key in focus is no prefix of the path
    st, path, c, J, mp, G0 = setup(eng)
    klen = fresh_bv("keylen", 64)
    kpre = z3.Bool("key_is_start_of_text")
    st.assume(Not(And(kpre, eq(klen, 0))))
    mp.focus(st, klen, kpre)
    before = {m: mp.at(st, m) for m in mp.ms}
    eng.loop_hints = []
    old = eng.on_load

    def onl(eng, s, q, t, v):
        old(eng, s, q, t, v)
        if q.o == path.buf:
            r = div_exact(q.off, 16)
            if r is not None:
                s.assume(Not(And(kpre, eq(klen, add(path.off(s, r[0]), path.len(s, r[0]))))))
    eng.on_load = onl
    st, args = args_of(eng, st, path, fn, mp, rest)
    for s, oc in eng.call_fn(st, fn, args):
        if not eng.prove(s, oc[0] == "ret", "POST does not throw", fn):
            continue
        eng.cover(s, "returns (other path)")
        for m in mp.ms:
            p, x = mp.at(s, m)
            p0, x0 = before[m]
            eng.prove(s, And(Iff(p, p0), Implies(p0, eq(x, x0))), "POST paths that are neither the notified one nor its ancestors are untouched", fn)


def query(eng, fn):
    st, path, c, J, mp, G0 = setup(eng)
    V = z3.BitVec("V", 64)
    st.assume(ule(J, c))
    st.instantiate(sub(J, 1))
    st.instantiate(sub(c, 1))
    mp.queries(st, V)
    nk = mp.sem(mp.node, plen(path, st, c))
    sk = mp.sem(mp.sub, plen(path, st, J))
    old_ = z3.BitVec("old", 64)
    st.assume(Not(eq(V, 0)))
    # V: a generation stored nowhere on the way (instances are assumed at each lookup)
    before = dict(st.obj(mp.t.o).cells)

    def hint(e, fr0, L, hv, ev):
        for m in mp.ms:
            yield "marks are only read %d" % m, lambda v, m=m: eq(v.st.obj(mp.qn[m]).cells[NODE_VALUE][1], v.st.ghost["last", m])
        for key, i, w, t, en, obj in hv.nums:
            if w != 64 or obj is not None:
                continue

            def get(v, key=key, i=i):
                for k2, i2, w2, t2, e2, o2 in v.nums:
                    if k2 == key and i2 == i:
                        return t2
                raise Unsupported("gone")
            yield "result is a stored generation %s" % (key,), lambda v, get=get: Not(eq(get(v), V))
            yield "result covers the prefixes so far %s" % (key,), lambda v, get=get: Implies(ult(J, v.n), ule(sk, get(v)))
            yield "result covers the prefixes so far, downwards %s" % (key,), lambda v, get=get: Implies(ult(c, add(v.n, J)), ule(sk, get(v)))
            yield "result covers the node %s" % (key,), lambda v, get=get: ule(nk, get(v))
            yield "result covers the node at the end %s" % (key,), lambda v, get=get: Implies(ult(c, v.n), ule(nk, get(v)))
    eng.loop_hints = [hint]
    rest = [old_] if "since" in fn else []
    st, args = args_of(eng, st, path, fn, mp, rest)
    for s, oc in eng.call_fn(st, fn, args):
        if not eng.prove(s, oc[0] == "ret", "POST does not throw", fn):
            continue
        eng.cover(s, "returns")
        r = oc[1]
        if rest:
            eng.prove(s, Implies(ult(old_, nk), r), "POST reports a change when the path's own mark is newer", fn)
            eng.prove(s, Implies(ult(old_, sk), r), "POST reports a change when a subtree mark on the way is newer", fn)
            # no stored generation is newer <=> choosing V = any; the result is then no larger
            eng.cover(s, "since")
        else:
            eng.prove(s, ule(nk, r), "POST at least the path's own mark", fn)
            eng.prove(s, ule(sk, r), "POST at least every subtree mark on the way", fn)
            eng.prove(s, Not(eq(r, V)), "POST the result is one of the marks on the way, or 0", fn)
        eng.prove(s, s.obj(mp.t.o).cells == before, "POST a query does not change the tracker", fn)
        for m in mp.ms:
            eng.prove(s, eq(s.obj(mp.qn[m]).cells[NODE_VALUE][1], s.ghost["last", m]), "POST a query does not change the marks", fn)


def since_bound(eng, fn):
    """no mark on the way newer than `old`: no change is reported"""
    st, path, c, J, mp, G0 = setup(eng)
    old_ = z3.BitVec("old", 64)
    mp.queries(st, 0)
    real = mp.found

    def found(s, m, ln):
        out = real(s, m, ln)
        for x, p in out:
            if isinstance(p, Ptr):
                x.assume(ule(x.obj(p.o).cells[NODE_VALUE][1], old_))
        return out
    mp.found = found

    def hint(e, fr0, L, hv, ev):
        for m in mp.ms:
            yield "marks are only read %d" % m, lambda v, m=m: eq(v.st.obj(mp.qn[m]).cells[NODE_VALUE][1], v.st.ghost["last", m])
        for key, i, w, t, en, obj in hv.nums:
            if w != 64 or obj is not None:
                continue

            def get(v, key=key, i=i):
                for k2, i2, w2, t2, e2, o2 in v.nums:
                    if k2 == key and i2 == i:
                        return t2
                raise Unsupported("gone")
            yield "result is not newer %s" % (key,), lambda v, get=get: ule(get(v), old_)
    eng.loop_hints = [hint]
    st, args = args_of(eng, st, path, fn, mp, [old_])
    for s, oc in eng.call_fn(st, fn, args):
        if eng.prove(s, oc[0] == "ret", "POST does not throw", fn):
            eng.cover(s, "returns")
            eng.prove(s, Not(oc[1]), "POST no change reported when no mark on the way is newer", fn)


def initial(eng):
    st, path, c, J, mp, G0 = setup(eng)
    n = eng.call_fn(st.fork(), "klv_trk_sizeof", [])[0][1][1]
    t = local_obj(st, n, "tracker")
    for s, oc in eng.call_fn(st, "klv_trk_ctor", [t]):
        for s2, o2 in eng.call_fn(s, "klv_trk_current", [t]):
            eng.prove(s2, And(o2[0] == "ret", ult(0, o2[1])), "POST a new tracker's generation is not 0", "klv_trk_ctor")
            for m in mp.ms:
                cnt = eng.load(s2, Ptr(t.o, m + 40), T_I64)
                eng.prove(s2, eq(cnt, 0), "POST a new tracker has no marks", "klv_trk_ctor")
        eng.cover(s, "new tracker")
    for s, oc in eng.call_fn(st.fork(), "klv_trk_current", [mp.t]):
        eng.prove(s, eq(oc[1], G0), "POST current()", "klv_trk_current")


def lemma(eng):
    """the contracts imply the property, for every history (one arbitrary step from any state satisfying the invariant)"""
    P = z3.DeclareSort("Path")
    I = z3.IntSort()
    pre = z3.Function("prefix_of", P, P, z3.BoolSort())
    node, sub_, node1, sub1 = (z3.Function(x, P, I) for x in ("node", "sub", "node1", "sub1"))
    at, at1 = z3.Function("at", P, I), z3.Function("at1", P, I)
    x, y, z = z3.Consts("x y z", P)
    p, q = z3.Consts("p q", P)
    cur = z3.Int("cur")
    G = cur + 1
    subtree = z3.Bool("subtree")
    A = [z3.ForAll([x], pre(x, x)), z3.ForAll([x, y, z], z3.Implies(z3.And(pre(x, y), pre(y, z)), pre(x, z))),
         z3.ForAll([x, y], z3.Implies(z3.And(pre(x, y), pre(y, x)), x == y)),
         cur >= 1, z3.ForAll([x], z3.And(node(x) >= 0, sub_(x) >= 0, node(x) <= cur, sub_(x) <= cur)),
         # contract of notify_changed
         z3.ForAll([x], node1(x) == z3.If(pre(x, p), G, node(x))),
         z3.ForAll([x], sub1(x) == z3.If(z3.And(subtree, x == p), G, sub_(x)))]

    def query_contract(at, n, s):
        w = z3.Function("w_" + at.name(), P, P)
        return [z3.ForAll([x], at(x) >= n(x)), z3.ForAll([x, y], z3.Implies(pre(y, x), at(x) >= s(y))),
                z3.ForAll([x], z3.Or(at(x) == 0, at(x) == n(x), z3.And(pre(w(x), x), at(x) == s(w(x)))))]
    A += query_contract(at, node, sub_) + query_contract(at1, node1, sub1)
    aff = z3.Or(pre(q, p), z3.And(subtree, pre(p, q)))
    goals = [("notified path, its ancestors and replaced descendants report the change", z3.Implies(aff, at1(q) == G)),
             ("so they have changed since every earlier generation", z3.Implies(aff, at1(q) > cur)),
             ("every other path reports what it reported before", z3.Implies(z3.Not(aff), at1(q) == at(q))),
             ("the invariant is kept: no mark is newer than the current generation", z3.ForAll([x], z3.And(node1(x) >= 0, sub1(x) >= 0, node1(x) <= G, sub1(x) <= G)))]
    st = State(eng)
    for name, g in goals:
        sol = z3.Solver()
        sol.set("timeout", 60000)
        sol.add(*A)
        sol.add(z3.Not(g))
        eng.prove(st, sol.check() == z3.unsat, "LEMMA " + name, "history lemma")
    sol = z3.Solver()
    sol.set("timeout", 20000)
    sol.add(*A)
    if sol.check() != z3.unsat:
        eng.cover(st, "the lemma's premises are not contradictory (not refuted)")


UNITS = [(f, SRC, lambda e, f=f: notify(e, f)) for f in NOTIFY]
UNITS += [(f, SRC, lambda e, f=f: query(e, f)) for f in ("klv_trk_at", "klv_trk_at_view", "klv_trk_since", "klv_trk_since_view")]
UNITS += [(f + " bound", SRC, lambda e, f=f: since_bound(e, f)) for f in ("klv_trk_since", "klv_trk_since_view")]
UNITS += [("new tracker", SRC, initial), ("history lemma", SRC, lemma)]
DRIVER_SRC = ["repo:src/path.cpp"]
DRIVER_SECONDS = 5
ASSUMPTIONS = ["std::map is used through its specification (find/emplace/try_emplace/insert_or_assign/operator[] on an abstract map); the ordering functor string_view_less is exercised by the concrete cases only",
               "the text of a path determines its segments (segments are non-empty and contain no '/', which C05 proves), so keys are equal exactly when prefixes are",
               "fewer than 2^62 notifications; memory allocation succeeds"]
