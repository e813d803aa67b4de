"""Trusted contracts of what lies outside /repo: C library, C++ ABI, std::string.

Every entry used in a run is listed in the evidence file."""
import z3
from .sym import *
from .core import *

ALLOC_LIMIT = 1 << 47   # no single object exceeds the x86-64 user address space


# ------------------------------------------------------------------ allocation
def m_new(eng, st, a, ins, name):
    n = a[0]
    oid = st.new_obj(n, "heap", "new")
    if is_sym(n):
        st.assume(z3.ULE(n, ALLOC_LIMIT))
        st.obj(oid).by = Bytes(fresh_arr("heap"))
    st.obj(oid).meta = {"allocated": "new"}
    if eng.new_can_throw:
        s2 = st.fork()
        s2.mem.pop(oid, None)
        return [(st, ("ret", Ptr(oid, 0))), eng.throw(s2, "_ZTISt9bad_alloc")]
    return Ptr(oid, 0)


def m_delete(eng, st, a, ins, name):
    p = a[0]
    if isinstance(p, Ptr) and p.o is None:
        if not is_sym(p.off) and p.off == 0:
            return None
        rr = getattr(eng, "region_free", None)
        if rr:
            rr(eng, st, p, ins)
            return None
        eng.prove(st, eq(p.off, 0), "delete of invalid pointer", eng._where(ins))
        return None
    o = st.obj(p.o)
    eng.prove(st, And(o.alive, o.kind == "heap", eq(p.off, 0)), "delete of live heap object", eng._where(ins), "%s alive=%s kind=%s" % (o.name, o.alive, o.kind))
    st.kill(p.o)
    hook = getattr(eng, "on_free", None)
    if hook:
        hook(eng, st, p.o)
    return None


# ------------------------------------------------------------------ mem* / str*
def m_malloc(eng, st, a, ins, name):
    oid = st.new_obj(a[0], "heap", "malloc")
    if is_sym(a[0]):
        st.assume(z3.ULE(a[0], ALLOC_LIMIT))
        st.obj(oid).by = Bytes(fresh_arr("heap"))
    st.obj(oid).meta = {"allocated": "malloc"}
    return Ptr(oid, 0)


def m_realloc(eng, st, a, ins, name):
    p, n = a
    r = m_malloc(eng, st, [n], ins, name)
    if not (isinstance(p, Ptr) and p.o is None):
        o = st.obj(p.o)
        if is_sym(o.size) or is_sym(n):
            raise Unsupported("realloc of symbolic size")
        eng.memcpy(st, r, p, min(o.size, n), ins)
        m_delete(eng, st, [p], ins, name)
    return r


def m_guard_release(eng, st, a, ins, name):
    if getattr(eng, "static_once", False):
        eng.store(st, a[0], 1, T_I8)
    return None


def m_memcpy(eng, st, a, ins, name):
    eng.memcpy(st, a[0], a[1], a[2], ins)
    return a[0]


def m_memset(eng, st, a, ins, name):
    eng.memset(st, a[0], trunc(a[1], 8), a[2], ins)
    return a[0]


def m_memcmp(eng, st, a, ins, name):
    p, q, n = a
    if not is_sym(n) and n == 0:
        return 0
    po = eng.check_access(st, p, n, ins, "memcmp")
    qo = eng.check_access(st, q, n, ins, "memcmp")
    if po is None or qo is None:
        return 0
    if is_sym(n) and any(not is_sym(o.size) and o.size <= 64 for o in (po, qo)):
        c = st.const_of(n)
        n = c if c is not None else n
    if not is_sym(n) and n <= 64:
        r = 0
        for k in reversed(range(n)):
            x = eng.read_raw(st, po, add(p.off, k), 1)
            y = eng.read_raw(st, qo, add(q.off, k), 1)
            e, l = eq(x, y, 8), ult(x, y, 8)
            r = ite(e, r, ite(l, mask(32), 1, 32), 32)
        return r
    # symbolic length: fresh result with its defining facts
    r = fresh_bv("memcmp", 32)
    k = fresh_bv("diffidx", 64)
    pb, qb = eng.content_bytes(st, po), eng.content_bytes(st, qo)
    x, y = pb.read(add(p.off, k)), qb.read(add(q.off, k))
    j = z3.BitVec(fresh_name("j"), 64)
    allb = z3.ForAll([j], z3.Implies(z3.ULT(j, k), bv(pb.read(add(p.off, j)), 8) == bv(qb.read(add(q.off, j)), 8)))
    st.assume(z3.If(r == 0, k == bv(n, 64), z3.And(z3.ULT(k, bv(n, 64)), bv(x, 8) != bv(y, 8), (r < 0) == z3.ULT(bv(x, 8), bv(y, 8)))))
    st.assume(allb)
    return r


def m_strlen(eng, st, a, ins, name):
    p = a[0]
    o = eng.check_access(st, p, 1, ins, "strlen")
    if o is None:
        return 0
    if not is_sym(o.size) and not is_sym(p.off):
        n = p.off
        while n < o.size:
            c = eng.read_raw(st, o, n, 1)
            if is_sym(c):
                break
            if c == 0:
                return n - p.off
            n += 1
    raise Unsupported("strlen of symbolic string")


def m_strcmp(eng, st, a, ins, name):
    s = []
    for p in a:
        n = m_strlen(eng, st, [p], ins, "strcmp")
        o = eng.check_access(st, p, 1, ins, "strcmp")
        s.append(bytes(eng.read_raw(st, o, p.off + k, 1) for k in range(n)))
    return (s[0] > s[1]) - (s[0] < s[1]) if s[0] >= s[1] else 0xffffffff


def m_memchr(eng, st, a, ins, name):
    """first index k in [0,n) with p[k]==c, or null"""
    p, c, n = a
    c = trunc(c, 8)
    if not is_sym(n) and n == 0:
        return NULL
    po = eng.check_access(st, p, n, ins, "memchr")
    if po is None:
        return NULL
    if not is_sym(n) and n <= 256 and not is_sym(c) and not is_sym(p.off):
        for k in range(n):
            b = eng.read_raw(st, po, p.off + k, 1)
            if is_sym(b) or not isinstance(b, int):
                break
            if b == c:
                return Ptr(p.o, p.off + k)
        else:
            return NULL
    pb = eng.content_bytes(st, po)
    if not is_sym(n) and n <= 16:
        res = []
        cur = st
        for k in range(n):
            e = eq(pb.read(add(p.off, k), cur), c, 8)
            s2 = cur.fork()
            s2.assume(e)
            if e is not False and s2.feasible():
                res.append((s2, ("ret", Ptr(p.o, add(p.off, k)))))
            cur.assume(Not(e))
            if e is True:
                return res
        if cur.feasible():
            res.append((cur, ("ret", NULL)))
        return res
    found = st.fork()
    k = fresh_bv("memchr", 64)
    j = z3.BitVec(fresh_name("j"), 64)
    found.assume(z3.ULT(k, bv(n, 64)))
    found.assume(eq(pb.read(add(p.off, k)), c, 8))
    body = Not(eq(pb.read(add(p.off, j)), c, 8))
    found.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, k), zb(body))))
    st.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, bv(n, 64)), zb(body))))
    hook = getattr(eng, "on_memchr", None)
    if hook:
        hook(eng, found, p, k, n, c, True)
        hook(eng, st, p, None, n, c, False)
    r = []
    if found.feasible():
        r.append((found, ("ret", Ptr(p.o, add(p.off, k)))))
    if st.feasible():
        r.append((st, ("ret", NULL)))
    return r


# ------------------------------------------------------------------ failure exits
def m_assert_fail(eng, st, a, ins, name):
    eng.prove(st, False, "assertion holds", eng._where(ins))
    return []


def m_abort(eng, st, a, ins, name):
    eng.prove(st, False, "abort/terminate not reached", eng._where(ins), name)
    return []


# ------------------------------------------------------------------ exceptions
def m_alloc_exc(eng, st, a, ins, name):
    return Ptr(st.new_obj(a[0], "exception", "exception"), 0)


def m_free_exc(eng, st, a, ins, name):
    st.kill(a[0].o)
    return None


def m_throw(eng, st, a, ins, name):
    ti = next(n for n, o in eng.globals.items() if o == a[1].o)
    e = Exc(a[0], ti, a[2] if isinstance(a[2], FnPtr) else None)
    st.exc[a[0].o] = e
    st.obj(a[0].o)
    return [(st, ("exc", e))]


def m_begin_catch(eng, st, a, ins, name):
    st.caught = st.caught + (a[0].o,)
    return a[0]


def m_end_catch(eng, st, a, ins, name):
    o = st.caught[-1]
    st.caught = st.caught[:-1]
    if o in st.caught:
        return None
    if st.ghost.get("rethrown_%d" % o):
        st.ghost["rethrown_%d" % o] = 0
        return None
    e = st.exc.get(o)
    if e is not None and e.dtor is not None:
        r = eng.call_fn(st, e.dtor.name, [e.ptr], ins)
        out = []
        for s, oc in r:
            s.kill(o)
            out.append((s, ("ret", None)))
        return out
    st.kill(o)
    return None


def m_rethrow(eng, st, a, ins, name):
    if not st.caught:
        eng.prove(st, False, "rethrow with active exception", eng._where(ins))
        return []
    o = st.caught[-1]
    st.ghost["rethrown_%d" % o] = 1
    return [(st, ("exc", st.exc[o]))]


def m_current_exc(eng, st, a, ins, name):
    return NULL


def thrower(ti):
    def h(eng, st, a, ins, name):
        return [eng.throw(st, ti)]
    return h


# ------------------------------------------------------------------ std::string
class StrVal(AbsVal):
    """std::string: bytes object `buf` (size len+1, NUL terminated) and length"""
    size = 32

    def __init__(self, buf, ln):
        self.buf, self.len = buf, ln

    def same(self, o):
        return isinstance(o, StrVal) and o.buf == self.buf and eq(o.len, self.len) is True

    def shape_ok(self, o):
        return isinstance(o, StrVal)

    def comps(self):
        return [(64, self.len)]

    def rebuild(self, eng, st, cs):
        n = cs.pop(0)
        return mkstr(st, Bytes(fresh_arr("strh")), n)

    def __repr__(self):
        return "Str(%s,len=%s)" % (self.buf, self.len)


def mkstr(st, by, ln):
    b = st.new_obj(add(ln, 1), "strbuf", "std::string buffer", by=by)
    if is_sym(ln):
        st.assume(z3.ULE(ln, ALLOC_LIMIT))
    return StrVal(b, ln)


def str_get(eng, st, p, ins=None):
    o = eng.check_access(st, p, 32, ins, "std::string access")
    if o is None:
        return None
    c = o.cells.get(p.off) if not is_sym(p.off) else None
    if c is None or not isinstance(c[1], StrVal):
        if not eng.quiet:
            eng.prove(st, False, "std::string access to a live string", eng._where(ins), "no string at %s" % p)
        st.assume(False)
        return None
    return c[1]


def str_put(eng, st, p, sv, ins=None, fresh=True):
    o = eng.check_access(st, p, 32, ins, "std::string construction")
    if o is None:
        return
    o = st.wobj(p.o)
    c = o.cells.get(p.off)
    if c is not None and isinstance(c[1], StrVal) and not fresh:
        if c[1].buf != sv.buf:
            st.kill(c[1].buf)
        o.cells[p.off] = (32, sv)
        return
    eng.clear_range(st, o, p.off, 32)
    o.cells[p.off] = (32, sv)


def str_bytes(st, sv):
    return st.obj(sv.buf).by


def str_set(eng, st, p, by, ln, ins=None, fresh=True):
    """(re)define string at p; by = content for [0,len)"""
    sv = mkstr(st, by.store(ln, 0), ln)
    str_put(eng, st, p, sv, ins, fresh)
    return sv


def empty_bytes():
    return Bytes(0)


def src_bytes(eng, st, p, n, ins):
    """content view of n bytes at p, as Bytes starting at index 0"""
    if not is_sym(n) and n == 0:
        return Bytes(0)
    o = eng.check_access(st, p, n, ins, "string source")
    if o is None:
        return Bytes(0)
    b = eng.content_bytes(st, o)
    return Bytes(0).copy(0, n, b, p.off) if not (not is_sym(p.off) and p.off == 0) else Bytes(0).copy(0, n, b, 0)


def lenerr(eng, st, n, f):
    """length_error when n exceeds max_size: excluded by the object size limit"""
    return f()


def s_compare(eng, st, a, ins, name):
    x, y = str_get(eng, st, a[0], ins), str_get(eng, st, a[1], ins)
    if x is None or y is None:
        return 0
    if is_sym(x.len) or is_sym(y.len):
        raise Unsupported("comparison of strings of symbolic length")
    r = m_memcmp(eng, st, [Ptr(x.buf, 0), Ptr(y.buf, 0), min(x.len, y.len)], ins, name)
    return ite(eq(r, 0, 32), (x.len - y.len) & 0xffffffff, r, 32)


def s_ctor_default(eng, st, a, ins, name):
    str_set(eng, st, a[0], Bytes(0), 0, ins)


def s_ctor_fill(eng, st, a, ins, name):
    p, n, c = a[0], a[1], a[2]
    if is_sym(n):
        st.assume(z3.ULE(n, ALLOC_LIMIT))
    str_set(eng, st, p, Bytes(0).fill(0, n, trunc(c, 8)), n, ins)


def s_ctor_ptr(eng, st, a, ins, name):
    n = m_strlen(eng, st, [a[1]], ins, "strlen")
    str_set(eng, st, a[0], src_bytes(eng, st, a[1], n, ins), n, ins)


def s_ctor_ptrn(eng, st, a, ins, name):
    if is_sym(a[2]):
        st.assume(z3.ULE(a[2], ALLOC_LIMIT))
    str_set(eng, st, a[0], src_bytes(eng, st, a[1], a[2], ins), a[2], ins)


def s_ctor_range(eng, st, a, ins, name):
    p, f, l = a[0], a[1], a[2]
    n = sub(eng.ptr2int(st, l), eng.ptr2int(st, f)) if f.o is None or f.o != l.o else sub(l.off, f.off)
    eng.prove(st, sle(0, n), "string range is ordered", eng._where(ins))
    str_set(eng, st, p, src_bytes(eng, st, f, n, ins), n, ins)


def s_ctor_sv(eng, st, a, ins, name):
    """basic_string(const string_view&, alloc)"""
    sv = a[1]
    n = eng.load(st, sv, T_I64, ins)
    q = eng.load(st, Ptr(sv.o, add(sv.off, 8)), T_PTR, ins)
    str_set(eng, st, a[0], src_bytes(eng, st, q, n, ins), n, ins)


def s_ctor_copy(eng, st, a, ins, name):
    v = str_get(eng, st, a[1], ins)
    if v is None:
        return []
    str_set(eng, st, a[0], str_bytes(st, v), v.len, ins)


def s_ctor_move(eng, st, a, ins, name):
    v = str_get(eng, st, a[1], ins)
    if v is None:
        return []
    str_put(eng, st, a[0], v, ins)
    str_set(eng, st, a[1], Bytes(0), 0, ins, fresh=True)


def s_dtor(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    st.kill(v.buf)
    o = st.wobj(a[0].o)
    o.cells.pop(a[0].off, None)


def s_size(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    return 0 if v is None else v.len


def s_empty(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    return True if v is None else eq(v.len, 0)


def s_begin(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    return NULL if v is None else Ptr(v.buf, 0)


def s_end(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    return NULL if v is None else Ptr(v.buf, v.len)


def s_index(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return NULL
    eng.prove(st, ule(a[1], v.len), "std::string index in range", eng._where(ins))
    return Ptr(v.buf, a[1])


def s_back(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    eng.prove(st, Not(eq(v.len, 0)), "std::string back() on non-empty", eng._where(ins))
    return Ptr(v.buf, sub(v.len, 1))


def s_append_ch(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    b = str_bytes(st, v).store(v.len, trunc(a[1], 8))
    str_set(eng, st, a[0], b, add(v.len, 1), ins, fresh=False)
    return a[0]


def _append(eng, st, p, src, n, ins):
    v = str_get(eng, st, p, ins)
    if v is None:
        return []
    b = str_bytes(st, v).copy(v.len, n, src, 0)
    str_set(eng, st, p, b, add(v.len, n), ins, fresh=False)
    return p


def s_append_ptrn(eng, st, a, ins, name):
    return _append(eng, st, a[0], src_bytes(eng, st, a[1], a[2], ins), a[2], ins)


def s_append_ptr(eng, st, a, ins, name):
    n = m_strlen(eng, st, [a[1]], ins, "strlen")
    return _append(eng, st, a[0], src_bytes(eng, st, a[1], n, ins), n, ins)


def s_append_str(eng, st, a, ins, name):
    v = str_get(eng, st, a[1], ins)
    return _append(eng, st, a[0], str_bytes(st, v), v.len, ins)


def s_append_sv(eng, st, a, ins, name):
    sv = a[1]
    n = eng.load(st, sv, T_I64, ins)
    q = eng.load(st, Ptr(sv.o, add(sv.off, 8)), T_PTR, ins)
    return _append(eng, st, a[0], src_bytes(eng, st, q, n, ins), n, ins)


def s_append_fill(eng, st, a, ins, name):
    return _append(eng, st, a[0], Bytes(trunc(a[2], 8) if not is_sym(a[2]) else 0).fill(0, a[1], trunc(a[2], 8)), a[1], ins)


def s_clear(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    str_set(eng, st, a[0], Bytes(0), 0, ins, fresh=False)


def s_reserve(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    str_set(eng, st, a[0], str_bytes(st, v), v.len, ins, fresh=False)


def s_resize(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    n = a[1]
    c = trunc(a[2], 8) if len(a) > 2 else 0
    if is_sym(n):
        st.assume(z3.ULE(n, ALLOC_LIMIT))
    grow = ult(v.len, n)
    by = str_bytes(st, v).fill(v.len, ite(grow, sub(n, v.len), 0, 64), c)
    str_set(eng, st, a[0], by, n, ins, fresh=False)


def s_erase(eng, st, a, ins, name):
    """erase(pos, n)"""
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    pos, n = a[1], a[2]
    bad = ult(v.len, pos)
    res = []
    if bad is not False:
        s2 = st.fork()
        s2.assume(bad)
        if s2.feasible():
            res.append(eng.throw(s2, "_ZTISt12out_of_range"))
        st.assume(Not(bad))
        if bad is True or not st.feasible():
            return res
    rest = sub(v.len, pos)
    cnt = ite(ult(n, rest), n, rest, 64)
    if is_sym(cnt):
        cnt = norm(cnt)
        if st.entails(eq(cnt, rest)):
            cnt = rest
    b = str_bytes(st, v)
    tail = sub(rest, cnt)
    if is_sym(tail) or tail != 0:
        b = b.copy(pos, tail, b, add(pos, cnt))
    str_set(eng, st, a[0], b, sub(v.len, cnt), ins, fresh=False)
    return res + [(st, ("ret", a[0]))]


def s_pop_back(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    eng.prove(st, Not(eq(v.len, 0)), "std::string pop_back on non-empty", eng._where(ins))
    str_set(eng, st, a[0], str_bytes(st, v), sub(v.len, 1), ins, fresh=False)


def s_assign_copy(eng, st, a, ins, name):
    v = str_get(eng, st, a[1], ins)
    if v is None:
        return []
    if a[0].o == a[1].o and eq(a[0].off, a[1].off) is True:
        return a[0]
    str_set(eng, st, a[0], str_bytes(st, v), v.len, ins, fresh=False)
    return a[0]


def s_assign_move(eng, st, a, ins, name):
    v = str_get(eng, st, a[1], ins)
    if v is None:
        return []
    if a[0].o == a[1].o and eq(a[0].off, a[1].off) is True:
        return a[0]
    str_set(eng, st, a[0], str_bytes(st, v), v.len, ins, fresh=False)
    str_set(eng, st, a[1], Bytes(0), 0, ins, fresh=False)
    return a[0]


def s_assign_ptr(eng, st, a, ins, name):
    n = m_strlen(eng, st, [a[1]], ins, "strlen")
    str_set(eng, st, a[0], src_bytes(eng, st, a[1], n, ins), n, ins, fresh=False)
    return a[0]


def s_assign_ptrn(eng, st, a, ins, name):
    str_set(eng, st, a[0], src_bytes(eng, st, a[1], a[2], ins), a[2], ins, fresh=False)
    return a[0]


def s_swap(eng, st, a, ins, name):
    v, w = str_get(eng, st, a[0], ins), str_get(eng, st, a[1], ins)
    st.wobj(a[0].o).cells[a[0].off] = (32, w)
    st.wobj(a[1].o).cells[a[1].off] = (32, v)


def s_to_sv(eng, st, a, ins, name):
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return (0, NULL)
    return (v.len, Ptr(v.buf, 0))


def _insert(eng, st, p, pos, src, n, ins):
    """insert n bytes of src (a Bytes view starting at 0) before pos; out_of_range if pos > size"""
    v = str_get(eng, st, p, ins)
    if v is None:
        return []
    bad = ult(v.len, pos)
    res = []
    if bad is not False:
        s2 = st.fork()
        s2.assume(bad)
        if s2.feasible():
            res.append(eng.throw(s2, "_ZTISt12out_of_range"))
        st.assume(Not(bad))
        if bad is True or not st.feasible():
            return res
    b = str_bytes(st, v)
    tail = sub(v.len, pos)
    nb = b
    if is_sym(tail) or tail != 0:
        nb = nb.copy(add(pos, n), tail, b, pos)
    nb = nb.copy(pos, n, src, 0)
    str_set(eng, st, p, nb, add(v.len, n), ins, fresh=False)
    return res + [(st, ("ret", p))]


def s_insert_ptr(eng, st, a, ins, name):
    n = m_strlen(eng, st, [a[2]], ins, "strlen")
    return _insert(eng, st, a[0], a[1], src_bytes(eng, st, a[2], n, ins), n, ins)


def s_insert_ptrn(eng, st, a, ins, name):
    return _insert(eng, st, a[0], a[1], src_bytes(eng, st, a[2], a[3], ins), a[3], ins)


def s_insert_str(eng, st, a, ins, name):
    v = str_get(eng, st, a[2], ins)
    return _insert(eng, st, a[0], a[1], str_bytes(st, v), v.len, ins)


def s_insert_it_ch(eng, st, a, ins, name):
    """insert(const_iterator, char) -> iterator"""
    v = str_get(eng, st, a[0], ins)
    if v is None:
        return []
    it = a[1]
    eng.prove(st, And(isinstance(it, Ptr) and it.o == v.buf, ule(it.off, v.len)), "iterator belongs to the string", eng._where(ins))
    r = _insert(eng, st, a[0], it.off, Bytes(0).store(0, trunc(a[2], 8)), 1, ins)
    return [(s, ("ret", Ptr(str_get(eng, s, a[0]).buf, it.off))) if o[0] == "ret" else (s, o) for s, o in r]


def s_substr(eng, st, a, ins, name):
    """sret, this, pos, n"""
    v = str_get(eng, st, a[1], ins)
    pos, n = a[2], a[3]
    bad = ult(v.len, pos)
    res = []
    if bad is not False:
        s2 = st.fork()
        s2.assume(bad)
        if s2.feasible():
            res.append(eng.throw(s2, "_ZTISt12out_of_range"))
        st.assume(Not(bad))
        if bad is True or not st.feasible():
            return res
    rest = sub(v.len, pos)
    cnt = norm(ite(ult(n, rest), n, rest, 64))
    str_set(eng, st, a[0], Bytes(0).copy(0, cnt, str_bytes(st, v), pos), cnt, ins)
    return res + [(st, ("ret", None))]


class _T:
    def __init__(self, k, w, size):
        self.k, self.w, self.size = k, w, size


T_I8, T_I16, T_I32, T_I64, T_PTR, T_I1 = _T("int", 8, 1), _T("int", 16, 2), _T("int", 32, 4), _T("int", 64, 8), _T("ptr", None, 8), _T("int", 1, 1)

BS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"


def noop(eng, st, a, ins, name):
    return None


def ret0(eng, st, a, ins, name):
    return a[0] if a else None


def install(eng):
    M = eng.model
    M(r"operator new(\[\])?\(unsigned long(, std::align_val_t)?\)$", m_new, doc="operator new returns a fresh object of the requested size (allocation failure not modelled unless stated)")
    M(r"operator delete(\[\])?\(void\*.*\)$", m_delete, doc="operator delete releases a live heap object once")
    M(r"^(memcpy|memmove)$", m_memcpy, doc="memcpy/memmove")
    M(r"^memset$", m_memset, doc="memset")
    M(r"^memcmp$", m_memcmp, doc="memcmp")
    M(r"^bcmp$", m_memcmp, doc="memcmp")
    M(r"^strcmp$", m_strcmp, doc="strcmp (concrete strings)")
    M(r"^strlen$", m_strlen, doc="strlen (concrete strings)")
    M(r"^memchr$", m_memchr, doc="memchr finds the first occurrence")
    M(r"^__assert_fail$", m_assert_fail, kind="check", doc="assert failure is an obligation")
    M(r"^std::__glibcxx_assert_fail.*", m_abort, kind="check", doc="libstdc++ assertion is an obligation")
    M(r"^(abort|_ZSt9terminatev|__clang_call_terminate|__cxa_pure_virtual|__cxa_call_unexpected)$", m_abort, kind="check", doc="abort/terminate reached is an obligation")
    M(r"^gsl::details::terminate\(\)$", m_abort, kind="check", doc="gsl contract violation is an obligation")
    M(r"^__cxa_allocate_exception$", m_alloc_exc, doc="C++ exception ABI")
    M(r"^__cxa_free_exception$", m_free_exc, doc="C++ exception ABI")
    M(r"^__cxa_throw$", m_throw, doc="C++ exception ABI")
    M(r"^__cxa_begin_catch$", m_begin_catch, doc="C++ exception ABI")
    M(r"^__cxa_get_exception_ptr$", ret0, doc="C++ exception ABI")
    M(r"^__cxa_end_catch$", m_end_catch, doc="C++ exception ABI")
    M(r"^__cxa_rethrow$", m_rethrow, doc="C++ exception ABI")
    M(r"^__cxa_guard_acquire$", lambda e, s, a, i, n: 1, doc="function-local statics are initialised on first use")
    M(r"^__cxa_guard_release$", m_guard_release, doc="function-local statics are initialised on first use")
    M(r"^malloc$", m_malloc, doc="malloc: a fresh block (allocation succeeds)")
    M(r"^free$", m_delete, doc="free: of null or of a live block, an obligation")
    M(r"^realloc$", m_realloc, doc="realloc: a fresh block with the old contents (allocation succeeds)")
    M(r"^__cxa_guard_abort$", noop, doc="function-local statics are initialised on first use")
    M(r"^(__cxa_atexit|__cxa_thread_atexit)$", lambda e, s, a, i, n: 0, doc="atexit registration")
    for fn, ti in [("__throw_length_error", "_ZTISt12length_error"), ("__throw_logic_error", "_ZTISt11logic_error"),
                   ("__throw_out_of_range_fmt", "_ZTISt12out_of_range"), ("__throw_out_of_range", "_ZTISt12out_of_range"),
                   ("__throw_bad_alloc", "_ZTISt9bad_alloc"), ("__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"),
                   ("__throw_bad_function_call", "_ZTISt17bad_function_call"), ("__throw_bad_cast", "_ZTISt8bad_cast"),
                   ("__throw_invalid_argument", "_ZTISt16invalid_argument")]:
        M(r"^std::%s\(.*\)$" % fn, thrower(ti), doc="libstdc++ throw helpers")
    M(r"^std::(logic_error|runtime_error|out_of_range|invalid_argument|length_error|domain_error|range_error|overflow_error|exception|bad_alloc|bad_cast|bad_function_call)::~?[a-z_]+\(.*\)$", noop, doc="construction and destruction of standard exception objects")
    M(r"^std::system_error::~system_error\(\)$", noop, doc="construction and destruction of standard exception objects")
    D = "std::string (abstract byte-sequence contract of each member)"

    def S(sig, h):
        M("^" + BS + sig + "$", h, doc=D)
    AL = r"(, std::allocator<char> const&)?"
    S(r"basic_string\(\)", s_ctor_default)
    S(r"basic_string\(std::allocator<char> const&\)", s_ctor_default)
    S(r"basic_string(<.*>)?\(unsigned long, char" + AL + r"\)", s_ctor_fill)
    S(r"basic_string(<.*>)?\(char const\*" + AL + r"\)", s_ctor_ptr)
    S(r"basic_string\(char const\*, unsigned long" + AL + r"\)", s_ctor_ptrn)
    M("^" + BS + r"basic_string<(char const\*|char\*|__gnu_cxx::__normal_iterator<.*>), void>\((.*), (.*), std::allocator<char> const&\)$", s_ctor_range, doc=D)
    M("^" + BS + r"basic_string<std::basic_string_view<char, std::char_traits<char> >, void>\(.*\)$", s_ctor_sv, doc=D)
    S(r"basic_string\(std::__cxx11::basic_string<.*> const&\)", s_ctor_copy)
    S(r"basic_string\(std::__cxx11::basic_string<.*>&&\)", s_ctor_move)
    S(r"~basic_string\(\)", s_dtor)
    S(r"compare\(std::__cxx11::basic_string<.*> const&\) const", s_compare)
    S(r"(size|length)\(\) const", s_size)
    S(r"empty\(\) const", s_empty)
    S(r"(c_str|data|begin|cbegin)\(\)( const)?", s_begin)
    S(r"(end|cend)\(\)( const)?", s_end)
    S(r"(operator\[\]|at)\(unsigned long\)( const)?", s_index)
    S(r"front\(\)( const)?", s_begin)
    S(r"back\(\)( const)?", s_back)
    S(r"(operator\+=|push_back)\(char\)", s_append_ch)
    S(r"append\(char const\*, unsigned long\)", s_append_ptrn)
    S(r"(append|operator\+=)\(char const\*\)", s_append_ptr)
    S(r"(append|operator\+=)\(std::__cxx11::basic_string<.*> const&\)", s_append_str)
    S(r"append\(unsigned long, char\)", s_append_fill)
    M(r"^.*" + BS + r"(append|operator\+=)<std::basic_string_view<char, std::char_traits<char> > ?>\(.*\)$", s_append_sv, doc=D)
    S(r"insert\(unsigned long, char const\*\)", s_insert_ptr)
    S(r"insert\(unsigned long, char const\*, unsigned long\)", s_insert_ptrn)
    S(r"insert\(unsigned long, std::__cxx11::basic_string<.*> const&\)", s_insert_str)
    S(r"insert\(__gnu_cxx::__normal_iterator<.*>, char\)", s_insert_it_ch)
    S(r"substr\(unsigned long, unsigned long\) const", s_substr)
    S(r"clear\(\)", s_clear)
    S(r"reserve\(unsigned long\)", s_reserve)
    S(r"reserve\(\)", s_reserve)
    S(r"shrink_to_fit\(\)", s_reserve)
    S(r"resize\(unsigned long(, char)?\)", s_resize)
    S(r"erase\(unsigned long, unsigned long\)", s_erase)
    S(r"pop_back\(\)", s_pop_back)
    S(r"(operator=|assign)\(std::__cxx11::basic_string<.*> const&\)", s_assign_copy)
    S(r"(operator=|assign)\(std::__cxx11::basic_string<.*>&&\)", s_assign_move)
    S(r"(operator=|assign)\(char const\*\)", s_assign_ptr)
    S(r"assign\(char const\*, unsigned long\)", s_assign_ptrn)
    S(r"swap\(std::__cxx11::basic_string<.*>&\)", s_swap)
    S(r"operator std::basic_string_view<char, std::char_traits<char> >\(\) const", s_to_sv)
    M(r"^std::allocator<char>::~?allocator\(.*\)$", noop, doc="std::allocator is stateless")
    M(r"^std::__new_allocator<char>::~?__new_allocator\(.*\)$", noop, doc="std::allocator is stateless")
