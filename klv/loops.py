"""Loops: concrete unrolling, otherwise inductive invariants (write-set discovery,
induction variables, Houdini over candidate invariants)."""
import os
import z3
from .sym import *
from . import ir


def _core():
    from . import core
    return core


def comps(v, w):
    """numeric components of a value: [(width, term)] ; width 1 = Bool"""
    C = _core()
    if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
        return [(1, v)]
    if isinstance(v, int) or (is_sym(v) and z3.is_bv(v)):
        return [(w if not is_sym(v) else v.size(), v)]
    if isinstance(v, C.Ptr):
        return [(64, v.off)]
    if isinstance(v, C.FnPtr) or v is None:
        return []
    if isinstance(v, C.AbsVal):
        return v.comps()
    if isinstance(v, tuple):
        r = []
        for e in v:
            r += comps(e, w)
        return r
    raise C.Unsupported("loop value %r" % (v,))


def rebuild(eng, st, v, cs):
    """value of the same shape with the given numeric components (consumes cs)"""
    C = _core()
    if isinstance(v, C.Ptr):
        return C.Ptr(v.o, cs.pop(0))
    if isinstance(v, C.FnPtr) or v is None:
        return v
    if isinstance(v, C.AbsVal):
        return v.rebuild(eng, st, cs)
    if isinstance(v, tuple):
        return tuple(rebuild(eng, st, e, cs) for e in v)
    return cs.pop(0)


def same(a, b):
    C = _core()
    if a is b:
        return True
    if isinstance(a, C.Ptr) and isinstance(b, C.Ptr):
        return a.o == b.o and same(a.off, b.off)
    if isinstance(a, C.FnPtr) and isinstance(b, C.FnPtr):
        return a.name == b.name
    if isinstance(a, C.AbsVal) and isinstance(b, C.AbsVal):
        return a.same(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return int(a) == int(b)
    return False


def shape_ok(a, b):
    """can b be produced by havocking a's numeric components?"""
    C = _core()
    if isinstance(a, C.Ptr) and isinstance(b, C.Ptr):
        return a.o == b.o
    if isinstance(a, C.AbsVal) and isinstance(b, C.AbsVal):
        return a.shape_ok(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(shape_ok(x, y) for x, y in zip(a, b))
    if isinstance(a, C.FnPtr) or isinstance(b, C.FnPtr):
        return same(a, b)
    if isinstance(a, (C.Ptr, C.AbsVal, tuple)) or isinstance(b, (C.Ptr, C.AbsVal, tuple)):
        return False
    return True


class Loc:
    __slots__ = ("key", "w", "entry", "dead", "ivs", "syms", "fixed")


def width_of(key, fr):
    if key[0] == "phi":
        return key[2]
    if key[0] == "cell":
        return key[3] * 8
    return 64


def loc_get(self, st, fr, key):
    if key[0] == "phi":
        return fr.vals.get(key[1])
    if key[0] == "cell":
        o = st.obj(key[1])
        c = o.cells.get(key[2])
        return c[1] if c is not None and c[0] == key[3] else None
    if key[0] == "ghost":
        return st.ghost.get(key[1])
    if key[0] == "size":
        return st.obj(key[1]).size
    return None


def diff_state(self, S, A):
    """keys of memory/ghost locations whose value differs between S and A"""
    keys = set()
    for oid, so in S.mem.items():
        ao = A.mem.get(oid)
        if ao is so or ao is None:
            continue
        if ao.alive != so.alive:
            keys.add(("alive", oid))
            continue
        if ao.by is not so.by:
            keys.add(("by", oid))
        if ao.tarr is not so.tarr:
            keys.add(("tarr", oid))
        if not same(ao.size, so.size):
            keys.add(("size", oid))
        if ao.default is not so.default and not (isinstance(ao.default, (int, str)) and ao.default == so.default):
            keys.add(("default", oid))
        if ao.by is None and so.by is None:
            for off in set(ao.cells) | set(so.cells):
                a, s = ao.cells.get(off), so.cells.get(off)
                if a is s:
                    continue
                if a is not None and s is not None and a[0] == s[0] and same(a[1], s[1]):
                    continue
                for c in (a, s):
                    if c is not None:
                        keys.add(("cell", oid, off, c[0]))
    for g in set(A.ghost) | set(S.ghost):
        if not same(A.ghost.get(g), S.ghost.get(g)):
            keys.add(("ghost", g))
    return sorted(keys, key=repr)


class View:
    """what invariant hints see: a state at the loop head"""

    def __init__(self, eng, st, fr, n, nums, first=None):
        self.eng, self.st, self.fr, self.n, self.nums = eng, st, fr, n, nums

    def __repr__(self):
        return "View"


def havoc_state(self, st0, fr0, locs, ivn):
    """fresh loop-head state.  Returns (S, F, symlist) with symlist [(sym, key, compidx)]"""
    C = _core()
    S, F = st0.fork(), fr0.fork()
    syms = []
    # byte contents first, so abstract values can allocate on top
    for key, l in locs.items():
        if key[0] == "by":
            o = S.wobj(key[1])
            if o.alive:
                o.by = C.Bytes(fresh_arr("hv"))
                o.cells = {}
        elif key[0] == "tarr":
            o = S.wobj(key[1])
            if o.alive and o.tarr is not None:
                o.tarr = C.TArr(o.tarr.stride, {k: (s, fresh_arr("ht", 8 * s)) for k, (s, a) in o.tarr.fields.items()})
        elif key[0] == "alive":
            S.wobj(key[1]).alive = False
        elif key[0] == "default":
            o = S.wobj(key[1])
            o.default = "undef"
            o.cells = {}
    for key, l in locs.items():
        if key[0] in ("by", "tarr", "alive", "default"):
            continue
        if l.fixed:
            continue
        if l.dead:
            if key[0] == "cell":
                o = S.wobj(key[1])
                if o.alive:
                    c = o.cells.get(key[2])
                    if c is not None and c[0] == key[3]:
                        del o.cells[key[2]]
            elif key[0] == "phi":
                F.vals[key[1]] = self.undef_of(key[3])
            elif key[0] == "ghost":
                S.ghost.pop(key[1], None)
            continue
        cs = []
        for i, (w, e) in enumerate(comps(l.entry, l.w)):
            c = l.ivs.get(i) if l.ivs else None
            if c is not None and ivn is not None:
                nn = ivn if w == 64 else (z3.Extract(w - 1, 0, ivn) if w < 64 else z3.ZeroExt(w - 64, ivn))
                cs.append(norm(bv(e, w) + z3.BitVecVal(c, w) * nn))
            else:
                s = fresh_bool("lb") if w == 1 else fresh_bv("lv", w)
                cs.append(s)
                syms.append((s, key, i))
        v = rebuild(self, S, l.entry, cs)
        if key[0] == "phi":
            F.vals[key[1]] = v
        elif key[0] == "cell":
            o = S.wobj(key[1])
            if o.alive:
                for off in [k for k, cc in o.cells.items() if k < key[2] + key[3] and key[2] < k + cc[0]]:
                    del o.cells[off]
                o.cells[key[2]] = (key[3], v)
        elif key[0] == "ghost":
            S.ghost[key[1]] = v
        elif key[0] == "size":
            S.wobj(key[1]).size = v
    return S, F, syms


def _phi_back(self, item):
    """frame values of header phis when arriving over the back edge"""
    st, fr, blk, pred = item
    self.enter(st, fr, blk, pred)
    return st, fr


def par_entails(st, todo, workers=4):
    """independent entailments in forked processes"""
    import pickle
    import select
    from . import solver
    if sum(1 for t, need in todo if need) < 3:
        return [st.entails(t, need=need) for t, need in todo]
    kids = []
    nw = min(workers, len(todo))
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                s0 = dict(solver.STAT)
                out = [(k, st.entails(t, need=need)) for k, (t, need) in enumerate(todo) if k % nw == w]
                d = {k: v - s0.get(k, 0) for k, v in solver.STAT.items() if k != "max_s"}
                os.write(wr, pickle.dumps((out, d)))
            except BaseException:
                pass
            os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    res = [None] * len(todo)
    for pid, r in kids:
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if data:
            out, d = pickle.loads(data)
            for k, ok in out:
                res[k] = ok
            for k, v in d.items():
                solver.STAT[k] = solver.STAT.get(k, 0) + v
    return [st.entails(t, need=need) if ok is None else ok for ok, (t, need) in zip(res, todo)]


def handle_loop(self, item, L):
    r = self.unroll_loop(item, L)
    if r is not None:
        return r
    return self.inv_loop(item, L)


def unroll_loop(self, item, L):
    st, fr, blk, pred = item
    save = (len(self.failures), dict(self.obligs), self.trivial)
    C = _core()
    if not self.draft:
        # a nested loop is expensive: look at one rough iteration before deciding to unroll
        hits, old = self.draft_hits, self.loop_flags.get(id(L), 0)
        self.loop_flags[id(L)] = 0
        self.draft += 1
        self.quiet += 1
        b = e = ()
        try:
            b, e, o = self.run_items([(st.fork(), fr.fork(), blk, pred)], L)
        except (C.TooManyFailures, C.Unsupported):
            pass
        finally:
            self.draft -= 1
            self.quiet -= 1
        fl = self.loop_flags.get(id(L), 0)
        self.loop_flags[id(L)] = old
        if self.draft_hits != hits and not self.mix_unroll and ((fl & 1) and not (fl & 2) or b and e):
            return None
    work = [(st.fork(), fr.fork(), blk, pred)]
    exits, outs = [], []
    mixes = both = 0
    maxit = self.unroll_max
    for it in range(maxit):
        old = self.loop_flags.get(id(L), 0)
        self.loop_flags[id(L)] = 0
        try:
            b, e, o = self.run_items(work, L)
        except C.TooManyFailures:
            if it == 0:
                raise
            b = None
        fl = self.loop_flags.get(id(L), 0)
        self.loop_flags[id(L)] = old
        if b is None:
            break
        exits += e
        outs += o
        if not b:
            return exits, outs
        work = b
        if (fl & 1) and not (fl & 2):
            mixes += 1
            if mixes > self.mix_unroll:
                break
        if e or o:
            both += 1
            if both > 40:
                break
        if len(b) > self.width_unroll:
            break
    # give up: roll back
    del self.failures[save[0]:]
    self.obligs = save[1]
    self.trivial = save[2]
    return None


def termsize(t, lim=60):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n > lim:
            return n
        if z3.is_select(x) or z3.is_store(x):
            return lim + 1
        st.extend(x.children())
    return n


def inv_loop(self, item, L):
    C = _core()
    st0, fr0, blk, pred = item
    st0, fr0 = st0.fork(), fr0.fork()
    self.enter(st0, fr0, blk, pred)
    where = "%s @%s" % (fr0.fn.dname, self.loc(blk.insts[0]) if blk.insts[0].line else self.loc(next((i for i in blk.insts if i.line), blk.insts[-1])))
    locs = {}

    def addloc(key, entry):
        l = Loc()
        l.key, l.w, l.entry, l.dead, l.ivs, l.syms, l.fixed = key, width_of(key, fr0), entry, entry is None, {}, None, False
        locs[key] = l
    for ph in blk.phis:
        addloc(("phi", ph.key, ph.ty.w or 64, ph.ty), fr0.vals[ph.key])

    def body(S, F, quiet=True, rec=None):
        old, oldq = self.cmp_rec, self.quiet
        if rec is not None:
            self.cmp_rec = rec
        if quiet:
            self.quiet += 1
        try:
            return self.run_items([(S.fork(), F.fork(), blk, None)], L)
        finally:
            self.cmp_rec, self.quiet = old, oldq

    # ---- write set (loops inside the body: only what they may write matters here)
    for rnd in range(14):
        S, F, syms = self.havoc_state(st0, fr0, locs, None)
        self.draft += 1
        try:
            back, ex, outs = body(S, F)
        finally:
            self.draft -= 1
        arr = [_phi_back(self, b) for b in back]
        changed = False
        for A, FA in arr:
            for k in self.diff_state(S, A):
                if k not in locs:
                    if k[0] != "ghost" and k[1] in S.mem and k[1] not in st0.mem:
                        continue    # created by the havoc itself; covered by the value that owns it
                    e = self.loc_get(st0, fr0, k)
                    addloc(k, e)
                    changed = True
                    if k[0] == "cell" and e is None:
                        pass
            for k, l in locs.items():
                if l.dead or l.fixed or k[0] in ("by", "tarr", "alive", "default"):
                    continue
                v = self.loc_get(A, FA, k)
                if v is None or not shape_ok(l.entry, v):
                    if k[0] == "phi" and isinstance(l.entry, C.Ptr) and isinstance(v, C.Ptr):
                        pass
                    l.dead = True
                    changed = True
        if not changed:
            break
    else:
        raise C.Unsupported("loop write set does not stabilise in " + where)
    # ---- classify: unchanged / induction variables
    symof = {}
    for s, key, i in syms:
        symof[(key, i)] = s
    for key, l in locs.items():
        if l.dead or key[0] in ("by", "tarr", "alive", "default"):
            continue
        cs0 = comps(l.entry, l.w)
        unchanged = bool(arr)
        for A, FA in arr:
            v = self.loc_get(A, FA, key)
            sv = self.loc_get(S, F, key)
            if not same(v, sv):
                unchanged = False
                break
        if unchanged and not isinstance(l.entry, C.AbsVal):
            l.fixed = True
            continue
        for i, (w, e) in enumerate(cs0):
            if w == 1:
                continue
            d = None
            for A, FA in arr:
                v = comps(self.loc_get(A, FA, key), l.w)[i][1]
                x = sub(v, symof[(key, i)], w)
                if is_sym(x) or (d is not None and x != d):
                    d = None
                    break
                d = x
            if d is not None:
                l.ivs[i] = d
    n = fresh_bv("iter", 64)
    S, F, syms = self.havoc_state(st0, fr0, locs, n)
    hasiv = any(l.ivs for l in locs.values() if not l.dead)
    if self.draft:
        self.draft_hits += 1
        if hasiv:
            S.assume(z3.ULE(n, 1 << 60))
        back, exits, outs = body(S, F, True)
        return exits, outs

    # ---- candidates
    def nums_of(st, fr):
        r = []
        for key, l in locs.items():
            if l.dead or l.fixed or key[0] in ("by", "tarr", "alive", "default"):
                continue
            v = self.loc_get(st, fr, key)
            for i, ((w, t), (_, e)) in enumerate(zip(comps(v, l.w), comps(l.entry, l.w))):
                obj = v.o if isinstance(v, C.Ptr) else None
                r.append((key, i, w, t, e, obj))
        return r

    def submap(st, fr, nval):
        m = []
        for s, key, i in syms:
            cs = comps(self.loc_get(st, fr, key), locs[key].w)
            w, t = cs[i]
            m.append((s, zb(t) if z3.is_bool(s) else bv(t, s.size())))
        m.append((n, bv(nval, 64)))
        return m

    cands = []   # (label, termfn(st,fr,nval)->Bool)
    seen = set()
    symnames = {s.decl().name() for s, _, _ in syms} | {n.decl().name()}

    def addterm(t, label=None):
        t = tb(t)
        if isinstance(t, bool):
            return
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t):
            return
        k = t.get_id()
        if k in seen:
            return
        if termsize(t, 300) > 300:
            return
        if not (vars_of(t) & symnames):
            return
        seen.add(k)
        cands.append((label or "auto", lambda st, fr, nval, t=t: norm(z3.substitute(t, *submap(st, fr, nval))), t))

    if hasiv:
        addterm(z3.ULE(n, 1 << 60))
    for key, i, w, t, e, obj in nums_of(S, F) if self.auto_inv else ():
        if w == 1:
            addterm(t if not isinstance(t, bool) else True)
            addterm(Not(t))
            addterm(Iff(t, e))
            continue
        addterm(ule(e, t, w))
        addterm(ule(t, e, w))
        addterm(sle(e, t, w))
        addterm(eq(t, 0, w))
        addterm(eq(t, e, w))
        if w == 64:
            addterm(ule(t, 1 << 62))
    rec = []
    if self.auto_inv:
        self.draft += 1
        try:
            body(S, F, True, rec)
        finally:
            self.draft -= 1

    def pairs_of(rec):
        uniq = {}
        for a, b, w in rec:
            k = (a.get_id() if is_sym(a) else ("c", a), b.get_id() if is_sym(b) else ("c", b), w)
            uniq[k] = (a, b, w)
        pairs = []
        for a, b, w in uniq.values():
            if w <= 8:
                continue
            if is_sym(a) and termsize(a, 160) > 160 or is_sym(b) and termsize(b, 160) > 160:
                continue
            va = (vars_of(a) if is_sym(a) else set()) | (vars_of(b) if is_sym(b) else set())
            if not va & symnames:
                continue
            pairs.append((a, b, w))
        return pairs
    pairs = pairs_of(rec)
    for a, b, w in pairs[:40] if self.auto_inv else ():
        for t in (ule(a, b, w), ule(b, a, w), sle(a, b, w), sle(b, a, w), eq(a, b, w), Not(eq(a, b, w))):
            addterm(t)
            if is_sym(t) and hasiv and n.decl().name() in vars_of(t):
                addterm(z3.substitute(zb(t), (n, n - 1)))
    # object bounds for pointers
    for key, i, w, t, e, obj in nums_of(S, F):
        if obj is not None:
            addterm(ule(t, S.obj(obj).size))
    hint_labels = set()
    for h in self.loop_hints:
        for hint in h(self, fr0, L, View(self, S, F, n, nums_of(S, F)), View(self, st0, fr0, 0, nums_of(st0, fr0))):
            label, f = hint[:2]
            hint_labels.add(label)

            def g(st, fr, nval, f=f):
                return f(View(self, st, fr, nval, nums_of(st, fr)))
            cands.append((label, g, None) + tuple(hint[2:]))

    def suppose(S2, F2, live):
        """assume the invariants at the loop head"""
        fa = []
        for c in live:
            S2.assume(ev(c, S2, F2, n))
            if len(c) > 3:
                # a universally quantified invariant: other instances on demand
                fa.append(c[3](View(self, S2.fork(), F2.fork(), n, nums_of(S2, F2))))
        S2.foralls = S2.foralls + tuple(fa)

    def ev(c, st, fr, nval):
        return tb(c[1](st, fr, nval))

    # ---- entry filter
    live = []
    for c in cands:
        try:
            t = ev(c, st0, fr0, 0)
        except C.Unsupported:
            continue
        if st0.entails(t, need=c[2] is None):
            live.append(c)
        elif os.environ.get("KLV_LOOPS"):
            print("  entry drop", c[0], str(c[2])[:150].replace("\n", " ") if c[2] is not None else "")
    # ---- Houdini
    for rnd in range(40):
        S2, F2 = S.fork(), F.fork()
        suppose(S2, F2, live)
        if not S2.feasible():
            # entry unreachable or vacuous head: nothing arrives
            pass
        rec2 = []
        back, ex, outs = body(S2, F2, True, rec2)
        drop = set()
        arrived = []
        for b in back:
            A, FA = _phi_back(self, b)
            arrived.append((A, FA))
            todo = []
            for c in live:
                if id(c) in drop:
                    continue
                try:
                    t = ev(c, A, FA, n + 1)
                except C.Unsupported:
                    drop.add(id(c))
                    continue
                if t is True:
                    continue
                todo.append((c, t))
            if not todo:
                continue
            if A.entails(And(*[t for _, t in todo])):
                continue
            res = par_entails(A, [(t, c[2] is None) for c, t in todo])
            for (c, t), ok in zip(todo, res):
                if not ok:
                    drop.add(id(c))
                    if os.environ.get("KLV_WHY") and c[2] is None:
                        r_, m_ = self.solver.check(A.pc, Not(t))
                        print("  WHY", c[0], r_, where, "rnd", rnd, "ghost", A.ghost, "\n   ", str(t).replace("\n", " ")[:600])
                        if m_ is not None:
                            for d in m_.decls():
                                if d.arity() == 0 and not d.name().startswith(("k!", "hv", "strh", "ht")) and not z3.is_array(m_[d]):
                                    print("       ", d.name(), m_[d], end=";")
                            print()
                            if os.environ["KLV_WHY"] == "2":
                                print("\n".join("      pc " + str(x).replace("\n", " ")[:300] for x in A.pc))
                    if os.environ.get("KLV_LOOPS"):
                        print("  drop", c[0], str(c[2])[:150].replace("\n", " ") if c[2] is not None else "")
        if not drop:
            break
        live = [c for c in live if id(c) not in drop]
    else:
        raise C.Unsupported("invariant inference does not converge in " + where)
    S2, F2 = S.fork(), F.fork()
    suppose(S2, F2, live)
    if os.environ.get("KLV_LOOPS") and not self.quiet:
        print("LOOP", where, "locs", len(locs), "ivs", sum(len(l.ivs) for l in locs.values()), "inv", len(live))
        for c in live:
            print("   inv", c[0], str(c[2]).replace("\n", " ")[:200] if c[2] is not None else "")
        for key, l in locs.items():
            print("   loc", key[:4] if key[0] != "phi" else ("phi", key[2]), "dead" if l.dead else "fixed" if l.fixed else "", l.ivs, str(l.entry)[:60])
    if not self.quiet:
        nm = "%s: loop invariant established and preserved" % where
        self.obligs[nm] = self.obligs.get(nm, 0) + len(live)
        self.loop_log.append({"loop": where, "invariants": len(live), "property_invariants": sorted({c[0] for c in live if c[2] is None}), "dropped_hints": sorted(hint_labels - {c[0] for c in live})})
    if self.require_termination and not self.quiet:
        ok = False
        ms = []
        for a, b, w in pairs or pairs_of(rec2):
            ms += [sub(b, a, w), sub(a, b, w)]
        # for loops that include their bound
        incl = [add(m, 1, m.size()) for m in ms if is_sym(m)]
        for key, i, w, t, e, obj in nums_of(S, F):
            if w > 1 and is_sym(t):
                ms.append(t)
                ms.append(sub(0, t, w))
                if obj is not None:
                    ms.append(sub(S.obj(obj).size, t, 64))
        arrs = arrived
        for m in ms + incl:
            if not is_sym(m):
                continue
            good = True
            for A, FA in arrs:
                m2 = norm(z3.substitute(m, *submap(A, FA, n + 1)))
                if not A.entails(z3.ULT(bv(m2, m.size()), m), need=True):
                    good = False
                    break
            if good:
                ok = True
                break
        self.prove(st0, True if ok or not arrs else False, "loop terminates (decreasing measure)", where)
    if self.quiet:
        return ex, outs
    back, exits, outs = body(S2, F2, False)
    return exits, outs
