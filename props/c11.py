"""C11: connection, scoped connection and blocker handles own exactly one share each.

Rely/guarantee: other threads may change the reference count and the blocking
count of a slot and may disconnect it between any two accesses, but never take
away a share held by a handle in play.  Every operation is verified for every
combination of operand states (empty, slot A, slot B, the same object)."""
import itertools
from klv.spec import *

SRC = ["harness/c11.cpp"]


class World:
    def __init__(self, eng):
        self.eng = eng
        eng.require_termination = True

        def destroyed(eng, s, a, ins, name):
            if self.shared_on:
                self.slot_destroyed(s, a[0])
        def disc(eng, s, a, ins, name):
            if self.shared_on:
                self.sender_disconnect(s, a[0], a[1])
        eng.model("^klv_slot_destroyed$", destroyed, kind="specification", doc="a slot is destroyed")
        eng.model("^klv_sender_disconnect$", disc, kind="specification", doc="the signal is told to drop a slot")
        self.shared_on = False
        st = State(eng)
        self.sender = local_obj(st, 8, "sender")
        st = self.call(st, "klv_sender_ctor", [self.sender])
        self.slots = {}
        for n in "AB":
            st, r = self.call(st, "klv_new_slot", [self.sender], ret=True)
            self.slots[n] = r
        self.size = {T: self.call(st.fork(), "klv_%s_size" % T, [], ret=True)[1] for T in "CBS"}
        # where the counters live: found by watching what the operations change
        A = self.slots["A"]
        h, b = local_obj(st, self.size["C"]), local_obj(st, self.size["B"])
        s1 = self.call(st.fork(), "klv_C_from_slot", [h, A])
        self.cnt = self.changed(st, s1, A)
        s2 = self.call(s1.fork(), "klv_B_from", [b, h])
        self.blk = [c for c in self.changed(s1, s2, A) if c not in self.cnt]
        s3 = self.call(s1.fork(), "klv_C_disconnect", [h])
        self.snd = [o for o, (sz, v) in st.obj(A.o).cells.items() if isinstance(v, Ptr) and v.o == self.sender.o]
        if len(self.cnt) != 1 or len(self.blk) != 1 or len(self.snd) != 1:
            raise Unsupported("slot layout not recognised: %s %s %s" % (self.cnt, self.blk, self.snd))
        self.cnt, self.blk, self.snd = self.cnt[0], self.blk[0], self.snd[0]
        self.st = st
        self.byoid = {p.o: n for n, p in self.slots.items()}

    def changed(self, a, b, p):
        x, y = a.obj(p.o).cells, b.obj(p.o).cells
        return sorted(o for o in set(x) | set(y) if x.get(o) != y.get(o))

    def call(self, st, fn, args, ret=False):
        r = self.eng.call_fn(st, fn, args)
        if len(r) != 1 or r[0][1][0] != "ret":
            raise Unsupported("set-up function %s forks" % fn)
        return (r[0][0], r[0][1][1]) if ret else r[0][0]

    def handle(self, st, T, ref):
        """a T handle referring to slot ref (or empty), made with the real constructors"""
        h = local_obj(st, self.size[T], "%s(%s)" % (T, ref))
        if ref is None:
            return self.call(st, "klv_%s_default" % T, [h]), h
        if T == "C":
            return self.call(st, "klv_C_from_slot", [h, self.slots[ref]]), h
        c = local_obj(st, self.size["C"], "tmp")
        st = self.call(st, "klv_C_from_slot", [c, self.slots[ref]])
        st = self.call(st, "klv_B_from" if T == "B" else "klv_S_from_copy", [h, c])
        st = self.call(st, "klv_C_dtor", [c])
        st.kill(c.o)
        return st, h

    def refers(self, st, h):
        p = self.eng.load(st, h, T_PTR)
        if isinstance(p, Ptr) and p.o is None and not is_sym(p.off) and p.off == 0:
            return None
        if isinstance(p, Ptr) and p.o in self.byoid and eq(p.off, 0) is True:
            return self.byoid[p.o]
        return "?"

    # ------------------------------------------------------------ other threads
    def begin(self, st, own, ownb, fn):
        self.fn = fn
        g = st.ghost
        for n in "AB":
            g["own", n], g["ownb", n] = own.get(n, 0), ownb.get(n, 0)
            g["cnt", n], g["blk", n] = 0, 0
            g["zero", n] = False       # condition: a share given up here was the last one
            g["dead", n] = False
            g["null", n] = False       # known to be disconnected
            g["token", n] = 0          # right to tell the signal, taken atomically
            g["told", n] = 0
            g["loads", n] = ()
        self.shared_on = True
        self.eng.shared = self.shared

    def end(self):
        self.shared_on = False
        self.eng.shared = None

    def shared(self, eng, s, kind, p, t, v, ins):
        n = self.byoid.get(p.o)
        if n is None:
            return NotImplemented
        g = s.ghost
        fn = self.fn
        if is_sym(p.off):
            raise Unsupported("symbolic slot offset")
        if not g["own", n]:
            eng.prove(s, g["zero", n], "a slot is only accessed while a share of it is held", fn)
        if p.off == self.cnt:
            if t.size != 8:
                raise Unsupported("count width")
            old = fresh_bv("count_" + n, 64)
            s.assume(z3.And(old >= g["own", n], old < 1 << 40))
            if kind == "load":
                return old
            k = None
            if kind in ("rmw add", "rmw sub") and not is_sym(v):
                k = sgn(v, 64) * (1 if kind == "rmw add" else -1)
            if kind == "cmpxchg":
                return self.cas(eng, s, n, v, old)
            if not eng.prove(s, k in (1, -1), "the reference count changes only by one atomic increment or decrement", fn):
                return NotImplemented
            self.count_step(eng, s, n, k, old)
            return old
        if p.off == self.blk:
            w = t.w
            old = fresh_bv("blocking_" + n, w)
            s.assume(z3.And(z3.UGE(old, g["ownb", n]), z3.ULT(old, 1 << 30)))
            if kind == "load":
                g["loads", n] = g["loads", n] + (old,)
                return old
            k = None
            if kind in ("rmw add", "rmw sub") and not is_sym(v):
                k = sgn(v, w) * (1 if kind == "rmw add" else -1)
            if not eng.prove(s, k in (1, -1), "the blocking count changes only by one atomic increment or decrement", fn):
                return NotImplemented
            if k < 0:
                eng.prove(s, g["ownb", n] >= 1, "only a blocker's own block is lifted", fn)
            g["blk", n] += k
            g["ownb", n] += k
            return old
        if p.off == self.snd:
            if kind == "load":
                if g["null", n]:
                    g["loads", n] = g["loads", n] + ("null",)
                    return NULL
                # load has a single result: either still connected or not
                c = fresh_bool("connected_" + n)
                g["loads", n] = g["loads", n] + (c,)
                return Ptr(None, norm(ite(c, eng.ptr2int(s, self.sender), 0, 64)))
            if kind == "store":
                isnull = isinstance(v, Ptr) and v.o is None and eq(v.off, 0) is True
                eng.prove(s, isnull, "a handle never connects a slot", fn)
                g["null", n] = True
                return None
            if kind == "rmw xchg":
                isnull = (isinstance(v, Ptr) and v.o is None and eq(v.off, 0) is True) or (not isinstance(v, Ptr) and eq(v, 0) is True)
                eng.prove(s, isnull, "a handle never connects a slot", fn)
                if g["null", n]:
                    return NULL if t.k == "ptr" else 0
                s2 = s.fork()
                s2.ghost["null", n] = True
                g["null", n] = True
                g["token", n] = 1
                if t.k == "ptr":
                    return [(s, self.sender), (s2, NULL)]
                return [(s, eng.ptr2int(s, self.sender)), (s2, 0)]
            if kind == "cmpxchg":
                # succeeds only from the connected state to null
                if g["null", n]:
                    return [(s, (NULL, 0))]
                s2 = s.fork()
                s2.ghost["null", n] = True
                s3 = s.fork()
                g["null", n] = True
                g["token", n] = 1
                return [(s, (self.sender, 1)), (s2, (NULL, 0))]
            raise Unsupported("access to the sender: " + kind)
        return NotImplemented

    def count_step(self, eng, s, n, k, old):
        g = s.ghost
        if k < 0:
            eng.prove(s, g["own", n] >= 1, "only a held share is given up", self.fn)
            g["zero", n] = Or(g["zero", n], eq(old, 1))
        g["cnt", n] += k
        g["own", n] += k

    def cas(self, eng, s, n, v, old):
        exp, new = v
        d = sub(new, exp)
        if is_sym(d) or sgn(d, 64) not in (1, -1):
            raise Unsupported("compare-exchange on the reference count")
        s2 = s.fork()
        s.assume(old == bv(exp, 64))
        s2.assume(old != bv(exp, 64))
        r = []
        if s.feasible():
            self.count_step(eng, s, n, sgn(d, 64), old)
            r.append((s, (old, 1)))
        if s2.feasible():
            r.append((s2, (old, 0)))
        return r

    def slot_destroyed(self, s, p):
        n = self.byoid.get(p.o)
        g = s.ghost
        self.eng.prove(s, Not(g["dead", n]), "a slot is destroyed once", self.fn)
        self.eng.prove(s, g["zero", n], "a slot is destroyed only when the last share is given up", self.fn)
        g["dead", n] = True

    def sender_disconnect(self, s, snd, ident):
        g = s.ghost
        hit = [n for n, p in self.slots.items() if eq(self.eng.ptr2int(s, p), ident) is True]
        ok = self.eng.prove(s, len(hit) == 1 and isinstance(snd, Ptr) and snd.o == self.sender.o, "the signal is told which slot to drop", self.fn)
        if not ok:
            return
        n = hit[0]
        self.eng.prove(s, g["token", n] == 1, "a slot is disconnected at most once: only whoever cleared the sender atomically tells the signal", self.fn)
        g["token", n] = 0
        g["told", n] += 1


REFS = (None, "A", "B")


def show(x):
    return "-" if x is None else x


def op_unit(name, fn, types, new, spec, res=None):
    """types: handle types of the operands; new: type of a handle made in fresh memory (or None).
    spec(old refs) -> (list of allowed [new ref] + refs after, set of slots that must be disconnected) or a function of both"""
    def f(eng):
        w = World(eng)
        combos = []
        for refs in itertools.product(REFS, repeat=len(types)):
            combos.append((refs, False))
        if len(types) == 2 and types[0] == types[1]:
            combos += [((r, r), True) for r in REFS]
        for refs, alias in combos:
            st = w.st.fork()
            hs = []
            for k, (T, r) in enumerate(zip(types, refs)):
                if alias and k:
                    hs.append(hs[0])
                    continue
                st, h = w.handle(st, T, r)
                hs.append(h)
            uniq = hs[:1] if alias else hs
            utypes = types[:1] if alias else types
            urefs = refs[:1] if alias else refs
            own, ownb = {}, {}
            for T, r in zip(utypes, urefs):
                if r:
                    own[r] = own.get(r, 0) + 1
                    if T == "B":
                        ownb[r] = ownb.get(r, 0) + 1
            args = []
            m = None
            if new:
                m = local_obj(st, w.size[new], "new handle")
                args.append(m)
            args += hs
            label = "%s(%s%s)" % (name, ",".join(show(r) for r in refs), " same object" if alias else "")
            eng.cex = lambda mm: "%s %s %s" % (fn[4:], ",".join(show(r) for r in refs) or ".", int(alias))
            w.begin(st, own, ownb, label)
            outs = eng.call_fn(st, fn, args)
            w.end()
            for s, oc in outs:
                g = s.ghost
                if not eng.prove(s, oc[0] == "ret", "POST does not throw", label):
                    continue
                after = []
                if new:
                    after.append(w.refers(s, m))
                for h, T in zip(uniq, utypes):
                    after.append(None if name.endswith("dtor") else w.refers(s, h))
                alltypes = ([new] if new else []) + list(utypes)
                allowed, disc = spec(urefs, after, alias)
                eng.prove(s, after in allowed, "POST the handles refer to the right slots", label, "after %s allowed %s" % (after, allowed))
                for n in "AB":
                    nh = sum(1 for r in after if r == n)
                    nb = sum(1 for r, T in zip(after, alltypes) if r == n and T == "B")
                    eng.prove(s, g["cnt", n] == nh - own.get(n, 0), "POST shares taken and given up match the handles", label, "slot %s: count change %d, handles %d -> %d" % (n, g["cnt", n], own.get(n, 0), nh))
                    eng.prove(s, g["blk", n] == nb - ownb.get(n, 0), "POST blocks match the blockers", label)
                    eng.prove(s, Iff(g["dead", n], g["zero", n]), "POST the slot is destroyed exactly when the last share is given up", label)
                    eng.prove(s, g["token", n] == 0, "POST the signal is told about a disconnected slot", label)
                    if n in disc:
                        eng.prove(s, g["null", n], "POST the slot is disconnected", label)
                        eng.cover(s, "disconnects")
                    else:
                        eng.prove(s, not g["null", n] or any(isinstance(x, str) for x in g["loads", n]), "POST no other slot is disconnected", label)
                        eng.prove(s, g["told", n] == 0, "POST no other slot is disconnected", label)
                if res is not None:
                    res(w, eng, s, oc[1], urefs, alias, label)
                eng.cover(s, name)
    return (name, SRC, f)


def keep(refs):
    return list(refs)


def sp_default(r, a, al):
    return [[None]], ()


def sp_copy_ctor(r, a, al):
    return [[r[0], r[0]]], ()


def sp_copy_assign(r, a, al):
    return [[r[0]] if al else [r[1], r[1]]], ()


def sp_move_ctor(r, a, al):
    return [[r[0], None]], ()


def sp_move_assign(r, a, al):
    if al:
        return [[r[0]]], ()
    return [[r[1], r[0]], [r[1], None]], ()


def sp_move_assign_S(r, a, al):
    if al:
        return [[r[0]]], ()
    # what the left handle owned is handed over or disconnected now
    if a == [r[1], r[0]]:
        return [a], ()
    return [[r[1], None]], ((r[0],) if r[0] else ())


def sp_swap(r, a, al):
    return [[r[0]] if al else [r[1], r[0]]], ()


def sp_dtor(r, a, al):
    return [[None]], ()


def sp_dtor_S(r, a, al):
    return [[None]], ((r[0],) if r[0] else ())


def sp_disconnect(r, a, al):
    return [[None], [r[0]]], ((r[0],) if r[0] else ())


def sp_same(r, a, al):
    return [list(r)], ()


def sp_new_of(r, a, al):
    return [[r[0], r[0]]], ()


def sp_take(r, a, al):
    return [[r[0], None]], ()


def res_connected(w, eng, s, v, r, al, label):
    if r[0] is None:
        eng.prove(s, Not(v), "POST an empty handle is not connected", label)
        return
    ls = [x for x in s.ghost["loads", r[0]]]
    eng.prove(s, len(ls) >= 1 and Iff(v, False if isinstance(ls[-1], str) else ls[-1]), "POST connected exactly while the slot has its signal", label)


def res_eq(w, eng, s, v, r, al, label):
    eng.prove(s, Iff(v, True if al else r[0] == r[1]), "POST equal exactly when they refer to the same slot", label)


def res_lt(w, eng, s, v, r, al, label):
    if al or r[0] == r[1]:
        eng.prove(s, Not(v), "POST the order is irreflexive", label)
    else:
        a, b = (0 if x is None else eng.ptr2int(s, w.slots[x]) for x in r)
        eng.prove(s, Iff(v, ult(a, b)), "POST the order is that of the slots", label)


def res_hash(w, eng, s, v, r, al, label):
    if al or r[0] == r[1]:
        eng.prove(s, v, "POST equal handles have equal hashes", label)


def res_blocking(w, eng, s, v, r, al, label):
    eng.prove(s, Iff(v, r[0] is not None), "POST blocking exactly when it refers to a slot", label)


def slot_unit(eng):
    """the slot's own answers: blocked exactly while the blocking count is positive"""
    w = World(eng)
    for fn in ("klv_slot_blocked", "klv_slot_connected", "klv_slot_valid"):
        st = w.st.fork()
        st, c = w.handle(st, "C", "A")
        w.begin(st, {"A": 1}, {}, fn)
        outs = eng.call_fn(st, fn, [w.slots["A"]])
        w.end()
        for s, oc in outs:
            ls = s.ghost["loads", "A"]
            x = ls[-1]
            if fn.endswith("blocked"):
                eng.prove(s, len(ls) == 1 and Iff(oc[1], z3.UGT(x, 0)), "POST blocked exactly while some blocker is alive", fn)
            else:
                eng.prove(s, len(ls) == 1 and Iff(oc[1], x), "POST connected exactly while the slot has its signal", fn)
            eng.cover(s, fn)
    # a new slot: one share (the signal's), not blocked, connected to its sender
    st = w.st
    o = st.obj(w.slots["A"].o)
    eng.prove(st, eq(o.cells[w.cnt][1], 1), "POST a new slot has one share", "slot_state()")
    eng.prove(st, eq(o.cells[w.blk][1], 0), "POST a new slot is not blocked", "slot_state()")
    eng.prove(st, o.cells[w.snd][1].o == w.sender.o, "POST a new slot belongs to its signal", "slot_state()")


UNITS = [("slot state", SRC, slot_unit)]
NM = {"C": "connection", "B": "blocker", "S": "scoped_connection"}
for T in "CBS":
    N = NM[T]
    UNITS += [
        op_unit(N + " default ctor", "klv_%s_default" % T, "", T, sp_default),
        op_unit(N + " dtor", "klv_%s_dtor" % T, T, None, sp_dtor_S if T == "S" else sp_dtor),
        op_unit(N + " move ctor", "klv_%s_move_ctor" % T, T, T, sp_move_ctor),
        op_unit(N + " move assign", "klv_%s_move_assign" % T, T + T, None, sp_move_assign_S if T == "S" else sp_move_assign),
        op_unit(N + " swap", "klv_%s_swap" % T, T + T, None, sp_swap),
        op_unit(N + " std::swap", "klv_%s_std_swap" % T, T + T, None, sp_swap),
    ]
    if T != "S":
        UNITS += [
            op_unit(N + " copy ctor", "klv_%s_copy_ctor" % T, T, T, sp_copy_ctor),
            op_unit(N + " copy assign", "klv_%s_copy_assign" % T, T + T, None, sp_copy_assign),
        ]
    if T != "B":
        UNITS += [
            op_unit(N + " ==", "klv_%s_eq" % T, T + T, None, sp_same, res_eq),
            op_unit(N + " <", "klv_%s_lt" % T, T + T, None, sp_same, res_lt),
            op_unit(N + " hash", "klv_%s_hash" % T, T + T, None, sp_same, res_hash),
            op_unit(N + " connected", "klv_%s_connected" % T, T, None, sp_same, res_connected),
        ]
UNITS += [
    op_unit("connection disconnect", "klv_C_disconnect", "C", None, sp_disconnect),
    op_unit("connection get_blocker", "klv_C_get_blocker", "C", "B", sp_new_of),
    op_unit("blocker from connection", "klv_B_from", "C", "B", sp_new_of),
    op_unit("blocker blocking", "klv_B_blocking", "B", None, sp_same, res_blocking),
    op_unit("scoped_connection from copy", "klv_S_from_copy", "C", "S", sp_new_of),
    op_unit("scoped_connection from move", "klv_S_from_move", "C", "S", sp_take),
    op_unit("scoped_connection release", "klv_S_release", "S", "C", sp_take),
]


def from_slot(eng):
    w = World(eng)
    st = w.st.fork()
    m = local_obj(st, w.size["C"])
    w.begin(st, {"A": 1}, {}, "connection(slot)")   # the caller holds the slot alive
    outs = eng.call_fn(st, "klv_C_from_slot", [m, w.slots["A"]])
    w.end()
    for s, oc in outs:
        eng.prove(s, oc[0] == "ret" and w.refers(s, m) == "A" and s.ghost["cnt", "A"] == 1 and s.ghost["blk", "A"] == 0, "POST a connection to a slot holds one share", "connection(slot)")
        eng.cover(s, "from slot")


UNITS.append(("connection from slot", SRC, from_slot))
DRIVER_SECONDS = 4
ASSUMPTIONS = ["other threads never give up shares held by the handles in play and never reconnect a disconnected slot (what this property proves of every handle operation)",
               "sequentially consistent atomics; memory orders are not examined",
               "destroying a slot's callable does not destroy the handles being operated on"]
