"""Modular symbolic executor / VC generator over LLVM IR."""
import os
import re
import struct
import time
import z3
from . import ir
from .sym import *
from .solver import Solver, STAT


class Unsupported(Exception):
    """The code left the verifier's reach (tool limit, never a verdict)."""


class PathLimit(Unsupported):
    pass


class NeedEnum(Unsupported):
    pass


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name


class AbsVal:
    """abstract value living in one memory cell (models): subclasses must provide
    same(o), havoc(eng,st,entry) and nums(st)"""
    size = 0

    def same(self, other):
        return self is other


class Exc:
    __slots__ = ("ptr", "ti", "dtor", "msg")

    def __init__(self, ptr, ti, dtor=None, msg=None):
        self.ptr, self.ti, self.dtor, self.msg = ptr, ti, dtor, msg

    def __repr__(self):
        return "Exc(%s)" % self.ti


class Bytes:
    """functional byte array: base (z3 array | int fill | bytes | None) + persistent op list"""
    __slots__ = ("base", "prev", "op")

    def __init__(self, base=None, prev=None, op=None):
        self.base, self.prev, self.op = base, prev, op

    def store(self, i, v):
        return Bytes(None, self, ("st", i, v))

    def copy(self, dst, n, src, soff):
        return Bytes(None, self, ("cp", dst, n, src, soff))

    def fill(self, dst, n, v):
        return Bytes(None, self, ("fl", dst, n, v))

    def read(self, i, st=None):
        conds = []
        b = self
        res = None
        while True:
            if b.prev is None:
                base = b.base
                if isinstance(base, int):
                    r = base
                elif isinstance(base, (bytes, bytearray)):
                    if not is_sym(i):
                        r = base[i] if i < len(base) else 0
                    else:
                        r = mux(list(base), i, 8)
                else:
                    r = norm(z3.Select(base, bv(i, 64)))
                break
            op = b.op
            if op[0] == "st":
                c = eq(i, op[1])
                v = op[2]
            else:
                d = sub(i, op[1])
                c = ult(d, op[2])
                v = None
            if is_sym(c) and st is not None:
                c2 = st.decide(c)
                if c2 is not None:
                    c = c2
            if c is False:
                b = b.prev
                continue
            if v is None:
                v = op[3].read(add(d, op[4]), st) if op[0] == "cp" else op[3]
            if c is True:
                r = v
                break
            conds.append((c, v))
            b = b.prev
        for c, v in reversed(conds):
            r = ite(c, v, r, 8)
        return r


def mux(vals, idx, w):
    n = len(vals)

    def rec(lo, hi, bit):
        if lo >= n:
            return vals[n - 1]
        if bit < 0:
            return vals[lo]
        half = 1 << bit
        a = rec(lo, lo + half, bit - 1)
        b = rec(lo + half, hi, bit - 1)
        if not is_sym(a) and not is_sym(b) and a == b:
            return a
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        return z3.If(z3.Extract(bit, bit, idx) == 1, bv(b, w), bv(a, w))
    bits = max(1, (n - 1).bit_length())
    return rec(0, 1 << bits, bits - 1)


class Obj:
    __slots__ = ("oid", "name", "size", "kind", "alive", "cells", "by", "default", "tarr", "own", "const", "meta")

    def clone(self, own):
        o = Obj()
        o.oid, o.name, o.size, o.kind, o.alive, o.by, o.default, o.tarr, o.const = self.oid, self.name, self.size, self.kind, self.alive, self.by, self.default, self.tarr, self.const
        o.cells = dict(self.cells)
        o.meta = self.meta
        o.own = own
        return o


_sid = itertools.count(1)
_oid = itertools.count(1)


class State:
    __slots__ = ("eng", "pc", "mem", "ghost", "exc", "caught", "sid", "trace", "addr", "foralls", "model", "mlen")

    def __init__(self, eng):
        self.eng = eng
        self.pc = []
        self.mem = {}
        self.ghost = {}
        self.exc = {}
        self.caught = ()
        self.sid = next(_sid)
        self.trace = ()
        self.addr = frozenset()
        self.model, self.mlen = None, 0    # a model of the first mlen conditions, if known
        self.foralls = ()      # universally quantified facts: closures idx -> Bool, instantiated on demand

    def fork(self):
        s = State(self.eng)
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.exc = dict(self.exc)
        s.caught = self.caught
        s.trace = self.trace
        s.addr = self.addr
        s.foralls = self.foralls
        s.model, s.mlen = self.model, self.mlen
        self.sid = next(_sid)  # both sides lose in-place ownership
        return s

    def assume(self, c):
        c = tb(c)
        if c is True:
            return True
        if c is False:
            self.pc.append(z3.BoolVal(False))
            return False
        if z3.is_and(c):
            for a in c.children():
                self.pc.append(a)
        else:
            self.pc.append(c)
        return True

    def instantiate(self, *idx):
        for q in self.foralls:
            self.assume(q(*idx))

    def const_of(self, t):
        """the only value t can have here, or None"""
        if not is_sym(t):
            return t
        r, m = self.eng.solver.check(self.pc, None)
        if r != "sat" or m is None:
            return None
        v = m.eval(t, model_completion=True)
        if not z3.is_bv_value(v):
            return None
        return v.as_long() if self.entails(t == v) else None

    def witness(self, c):
        """does the model at hand already satisfy the state and c?"""
        m = self.model
        if m is None or len(self.pc) < self.mlen:
            return False
        try:
            while self.mlen < len(self.pc):
                if not z3.is_true(m.eval(self.pc[self.mlen], model_completion=True)):
                    self.model = None
                    return False
                self.mlen += 1
            return c is None or c is True or z3.is_true(m.eval(zb(c), model_completion=True))
        except z3.Z3Exception:
            return False

    def _ask(self, c, need=False):
        if self.witness(c):
            return "sat"
        n = len(self.pc)
        r, m = self.eng.solver.check(self.pc, c, need=need)
        if r == "sat" and m is not None:
            self.model, self.mlen = m, n
        return r

    def feasible(self, c=None):
        if c is not None:
            c = tb(c)
            if isinstance(c, bool):
                if c is False:
                    return False
                c = None
        return self._ask(c) != "unsat"

    def entails(self, c, need=False):
        c = tb(c)
        if isinstance(c, bool):
            return c
        return self._ask(Not(c), need) == "unsat"

    def decide(self, c):
        c = tb(c)
        if isinstance(c, bool):
            return c
        if self.eng.solver.check(self.pc, c, quick=300)[0] == "unsat":
            return False
        if self.eng.solver.check(self.pc, Not(c), quick=300)[0] == "unsat":
            return True
        return None

    # ---- objects
    def new_obj(self, size, kind="heap", name="", default="undef", by=None, tarr=None):
        o = Obj()
        o.oid = next(_oid)
        o.name, o.size, o.kind, o.alive = name, size, kind, True
        o.cells, o.by, o.default, o.tarr = {}, by, default, tarr
        o.const = False
        o.meta = None
        o.own = self.sid
        self.mem[o.oid] = o
        return o.oid

    def obj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            o = self.eng.global_obj(oid)
            if o is None:
                raise Unsupported("unknown object %r" % oid)
            self.mem[oid] = o
        return o

    def wobj(self, oid):
        o = self.obj(oid)
        if o.own != self.sid:
            o = o.clone(self.sid)
            self.mem[oid] = o
        return o

    def kill(self, oid):
        self.wobj(oid).alive = False


class Failure:
    def __init__(self, name, kind, msg, model, st, status):
        self.name, self.kind, self.msg, self.model, self.st, self.status = name, kind, msg, model, st, status

    def __repr__(self):
        return "%s [%s] %s" % (self.name, self.status, self.msg)


class Frame:
    __slots__ = ("fn", "vals", "allocas", "depth")

    def fork(self):
        f = Frame()
        f.fn = self.fn
        f.vals = dict(self.vals)
        f.allocas = list(self.allocas)
        f.depth = self.depth
        return f


def decompose(t):
    """linear decomposition of a BV64 term: (const, [(coeff, term)])"""
    if not is_sym(t):
        return t, []
    t = z3.simplify(t)
    terms = []
    const = 0

    def go(x, c):
        nonlocal const
        if z3.is_bv_value(x):
            const = (const + c * x.as_long()) & mask(64)
        elif x.decl().kind() == z3.Z3_OP_BADD:
            for a in x.children():
                go(a, c)
        elif x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            go(x.arg(1), (c * x.arg(0).as_long()) & mask(64))
        elif x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() > 2 and z3.is_bv_value(x.arg(0)):
            r = x.arg(1)
            for a in x.children()[2:]:
                r = r * a
            terms.append(((c * x.arg(0).as_long()) & mask(64), r))
        else:
            terms.append((c, x))
    go(t, 1)
    return const, terms


def div_exact(off, stride):
    """off = idx*stride + rem (rem const < stride) syntactically; None if not of that shape"""
    if not is_sym(off):
        return off // stride, off % stride
    if stride == 1:
        return off, 0
    const, terms = decompose(off)
    idx = 0
    for c, t in terms:
        cs = sgn(c, 64)
        if cs % stride:
            return None
        idx = add(idx, mul((cs // stride) & mask(64), t))
    cs = sgn(const, 64)
    q, r = cs // stride, cs % stride
    return add(idx, q & mask(64)), r


class _int_t:
    def __init__(self, bits):
        self.k, self.w, self.size = "int", bits, bits // 8


class TArr:
    """typed array content: stride and fields {offset: (size, z3 array BV64->BV)}"""
    __slots__ = ("stride", "fields")

    def __init__(self, stride, fields):
        self.stride, self.fields = stride, fields

    def set(self, fo, idx, v):
        f = dict(self.fields)
        sz, a = f[fo]
        f[fo] = (sz, z3.Store(a, bv(idx, 64), bv(v, sz * 8)))
        return TArr(self.stride, f)

    def get(self, fo, idx):
        sz, a = self.fields[fo]
        return norm(z3.Select(a, bv(idx, 64)))


class Engine:
    def __init__(self, modules):
        self.mods = modules
        self.solver = Solver()
        self.models = []        # (regex, handler, kind, doc)
        self._mcache = {}
        self.failures = []
        self.obligs = {}        # name -> count discharged
        self.trivial = 0
        self.quiet = 0
        self.depth = 0
        self.globals = {}       # name -> oid
        self.gobjs = {}         # oid -> Obj
        self.fn_used = {}
        self.trusted_used = {}
        self.loop_hints = []
        self.cmp_rec = None
        self.max_paths = 20000
        self.max_fail = 8
        self.typeids = {}
        self.check_nsw = True
        self.new_can_throw = False
        self.loop_log = []
        self.fndefs = {}
        self.deadline = None
        self.require_termination = False
        self.loopdepth = 0
        self.unroll_max = 400
        self.paths = 0
        self.on_load = None
        self.region = None      # handler of pointers with symbolic address (linked structures)
        self.shared = None      # handler of cells other threads may change
        self.cex = None
        self.cex_bias = []
        self.mix_unroll = 0
        self.width_unroll = 64
        self.auto_inv = True
        self.merge_pure = False
        self.draft = self.draft_hits = 0
        self.covers = {}
        self.alloc_zero_ok = True
        self.fname_stack = []
        names = [set(m.globals) | set(m.funcs) for m in modules]
        for k, m in enumerate(modules):
            m.rename_internal(set().union(*(names[:k] + names[k + 1:])), "klvm%d" % k)
        for m in modules:
            for n, f in m.funcs.items():
                if n not in self.fndefs or (self.fndefs[n].decl and not f.decl):
                    self.fndefs[n] = f
        for m in modules:
            for n, a in m.aliases.items():
                f = m.funcs.get(m._name(ir.LLVMAliasGetAliasee(a)))
                if f is not None and (n not in self.fndefs or self.fndefs[n].decl):
                    self.fndefs[n] = f

    # ------------------------------------------------------------------ util
    def model(self, rx, handler, kind="trusted", doc=""):
        self.models.append((re.compile(rx), handler, kind, doc))
        self._mcache.clear()

    def find_model(self, name):
        h = self._mcache.get(name, 0)
        if h == 0:
            h = None
            d = ir.demangle(name)
            for rx, hd, kind, doc in reversed(self.models):
                if rx.match(name) or rx.match(d):
                    h = (hd, kind, doc, d)
                    break
            self._mcache[name] = h
        return h

    def fn(self, rx):
        """unique defined function by demangled-name regex (or exact mangled name)"""
        if rx in self.fndefs:
            return self.fndefs[rx]
        c = re.compile(rx)
        r = [f for f in self.fndefs.values() if not f.decl and c.search(f.dname)]
        if len(r) != 1:
            raise Unsupported("extraction: %d functions match %r" % (len(r), rx))
        return r[0]

    def loc(self, ins):
        f = (ins.file or "?").split("/")[-1] if ins is not None else "?"
        return "%s:%s" % (f, ins.line if ins is not None else "?")

    def prove(self, st, cond, kind, where="", msg="", need=True):
        """an obligation"""
        cond = tb(cond)
        name = "%s: %s" % (where or (self.fname_stack[-1] if self.fname_stack else "?"), kind)
        if self.quiet:
            if cond is not True:
                st.assume(cond)
            return cond is not False
        if cond is True:
            self.trivial += 1
            self.obligs[name] = self.obligs.get(name, 0) + 1
            return True
        r, m = self.solver.check(st.pc, Not(cond), need=need)
        if r == "unsat":
            self.obligs[name] = self.obligs.get(name, 0) + 1
            return True
        if callable(msg):
            msg = msg()
        if r == "sat" and self.cex is not None:
            # prefer small counterexamples for replay
            for b in self.cex_bias:
                r2, m2 = self.solver.check(st.pc, And(Not(cond), b))
                if r2 == "sat":
                    m = m2
                    break
        f = Failure(name, kind, msg or str(cond)[:300], m, st.fork(), r)
        f.cases = []
        if self.cex is not None and m is not None:
            try:
                c = self.cex(m)
                f.cases = c if isinstance(c, list) else [c] if c is not None else []
            except Exception:
                f.cases = []
        self.failures.append(f)
        if os.environ.get("KLV_VERBOSE"):
            print("  FAIL", name, r, (msg or str(cond))[:400], flush=True)
        if len(self.failures) >= self.max_fail:
            raise TooManyFailures()
        st.assume(cond)
        return False

    def cover(self, st, name):
        """reachability (vacuity) check"""
        if self.quiet or self.covers.get(name):
            return
        self.covers[name] = self.solver.check(st.pc, None, need=True)[0] == "sat"

    # ------------------------------------------------------------------ globals
    def global_ptr(self, name, mod=None):
        oid = self.globals.get(name)
        if oid is None:
            oid = next(_oid)
            self.globals[name] = oid
            ref, m = None, None
            for mm in ([mod] if mod else []) + self.mods:
                g = mm.globals.get(name)
                if g:
                    ref, m = g, mm
                    if ir.LLVMGetInitializer(g):
                        break
            o = Obj()
            o.oid, o.name, o.kind, o.alive = oid, name, "global", True
            o.cells, o.by, o.default, o.tarr, o.own, o.meta = {}, None, "undef", None, 0, None
            o.const = bool(ref and ir.LLVMIsGlobalConstant(ref))
            t = m.ty(ir.LLVMGlobalGetValueType(ref)) if ref else None
            o.size = t.size if t else 0
            init = ir.LLVMGetInitializer(ref) if ref else None
            if init:
                self.init_cells(o, 0, m.val(init), m)
            elif not init and ref:
                o.kind = "extern"
                if o.size == 0:
                    o.size = 1 << 20
            self.gobjs[oid] = o
        return Ptr(oid, 0)

    def global_obj(self, oid):
        return self.gobjs.get(oid)

    def init_cells(self, o, off, v, m):
        if v.k == "str":
            if off == 0 and len(v.v) == o.size:
                o.by = Bytes(bytes(v.v))
                return
            for i, b in enumerate(v.v):
                o.cells[off + i] = (1, b)
        elif v.k == "agg":
            t = v.ty
            for i, e in enumerate(v.v):
                self.init_cells(o, off + (t.offs[i] if t.k == "struct" else i * t.el.size), e, m)
        elif v.k == "zero":
            if off == 0 and v.ty.size == o.size:
                o.default = 0
            else:
                self._zero(o, off, v.ty)
        elif v.k == "undef":
            pass
        elif v.k == "int":
            o.cells[off] = (v.ty.size, v.v)
        else:
            o.cells[off] = (v.ty.size, self.const(v))

    def _zero(self, o, off, t):
        if t.k == "struct":
            for i, e in enumerate(t.elems):
                self._zero(o, off + t.offs[i], e)
        elif t.k == "array":
            for i in range(t.n):
                self._zero(o, off + i * t.el.size, t.el)
        else:
            o.cells[off] = (t.size, NULL if t.k == "ptr" else 0)

    def zero_of(self, t):
        if t.k == "struct":
            return tuple(self.zero_of(e) for e in t.elems)
        if t.k in ("array", "vector"):
            return tuple(self.zero_of(t.el) for _ in range(t.n))
        return NULL if t.k == "ptr" else 0

    def undef_of(self, t):
        if t.k == "struct":
            return tuple(self.undef_of(e) for e in t.elems)
        if t.k in ("array", "vector"):
            return tuple(self.undef_of(t.el) for _ in range(t.n))
        if t.k == "ptr":
            return Ptr(None, fresh_bv("undefp", 64))
        if t.k == "int" and t.w == 1:
            return fresh_bool("undef")
        return fresh_bv("undef", t.w)

    def const(self, v, mod=None):
        k = v.k
        if k == "int":
            return v.v
        if k == "null":
            return NULL
        if k == "func":
            return FnPtr(v.v)
        if k == "global":
            return self.global_ptr(v.v, mod)
        if k == "undef":
            return self.undef_of(v.ty)
        if k == "zero":
            return self.zero_of(v.ty)
        if k == "agg":
            return tuple(self.const(e, mod) for e in v.v)
        if k == "str":
            return tuple(v.v)
        if k == "fp":
            if v.ty.k == "double":
                return struct.unpack("<Q", struct.pack("<d", v.v))[0]
            if v.ty.k == "float":
                return struct.unpack("<I", struct.pack("<f", v.v))[0]
            return fresh_bv("fp80", 80)
        if k == "expr":
            ops = [self.const(o, mod) for o in v.x[0]]
            if v.v == "getelementptr":
                return self.gep(None, ops[0], v.x[1], ops[1:], [o.ty for o in v.x[0][1:]])
            if v.v in ("bitcast", "addrspacecast"):
                return ops[0]
            if v.v == "inttoptr":
                return Ptr(None, ops[0])
            if v.v == "ptrtoint":
                return self.ptr2int(None, ops[0])
            if v.v in ("sub", "add"):
                return (sub if v.v == "sub" else add)(ops[0], ops[1], v.ty.w)
        raise Unsupported("constant %r" % v)

    # ------------------------------------------------------------------ pointers
    def addr_of(self, st, oid):
        # user addresses fit in 47 bits; objects are at least 16-byte aligned
        v = z3.BitVec("addr_%d" % oid, 43)
        a = z3.Concat(z3.BitVecVal(0, 17), v, z3.BitVecVal(0, 4))
        if st is not None and oid not in st.addr:
            o = st.obj(oid)
            sz = o.size
            if o.alive and not is_sym(sz):
                # objects that are alive at the same time do not overlap
                for q in st.addr:
                    o2 = st.obj(q)
                    if o2.alive and not is_sym(o2.size):
                        b = z3.Concat(z3.BitVecVal(0, 17), z3.BitVec("addr_%d" % q, 43), z3.BitVecVal(0, 4))
                        st.assume(z3.Or(z3.ULE(a + max(sz, 1), b), z3.ULE(b + max(o2.size, 1), a)))
            st.addr = st.addr | {oid}
            st.assume(z3.UGE(v, 256))
            if is_sym(sz):
                st.assume(z3.ULE(sz, 1 << 62))
        return a

    def ptr2int(self, st, p):
        if isinstance(p, FnPtr):
            return z3.BitVec("fnaddr_" + p.name, 64)
        if p.o is None:
            return p.off
        return add(self.addr_of(st, p.o), p.off)

    def int2ptr(self, st, v):
        if not is_sym(v):
            return Ptr(None, v)
        for n in vars_of(v):
            if n.startswith("addr_"):
                b = z3.BitVec(n, 43)
                a = z3.Concat(z3.BitVecVal(0, 17), b, z3.BitVecVal(0, 4))
                r = sub(v, a)
                if not is_sym(r) or n not in vars_of(r):
                    return Ptr(int(n[5:]), r)
                # tagged or masked pointers: guess the offset, then prove it
                r = sub(norm(z3.substitute(v, (b, z3.BitVecVal(1 << 36, 43)))), 1 << 40)
                if st is not None and st.entails(eq(v, add(a, r))):
                    return Ptr(int(n[5:]), r)
            if n.startswith("fnaddr_"):
                return FnPtr(n[7:])
        return Ptr(None, v)

    def gep(self, st, p, src, idx, tys):
        if isinstance(p, FnPtr):
            return p
        off = p.off
        t = src
        for n, (i, ity) in enumerate(zip(idx, tys)):
            if n == 0:
                i = sext(i, ity.w, 64) if ity.w < 64 else i
                off = add(off, mul(i, t.size))
            elif t.k == "struct":
                off = add(off, t.offs[i])
                t = t.elems[i]
            else:
                i = sext(i, ity.w, 64) if ity.w < 64 else i
                t = t.el
                off = add(off, mul(i, t.size))
        return Ptr(p.o, off)

    def ptr_eq(self, st, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return a.name == b.name
            return False
        if a.o is None and b.o is None:
            return eq(a.off, b.off)
        if a.o == b.o:
            return eq(a.off, b.off)
        if a.o is None or b.o is None:
            n = a if a.o is None else b
            if is_sym(n.off):
                # undefined/int pointer: compare addresses
                return eq(self.ptr2int(st, a), self.ptr2int(st, b))
            return False
        return False

    # ------------------------------------------------------------------ memory
    def check_access(self, st, p, n, ins, what):
        if isinstance(p, FnPtr):
            self.prove(st, False, "%s through function pointer" % what, self._where(ins))
            return None
        if not isinstance(p, Ptr):
            raise Unsupported("access through non pointer %r" % (p,))
        if p.o is None:
            self.prove(st, False, "%s through null or invalid pointer" % what, self._where(ins), "pointer %s" % p)
            return None
        o = st.obj(p.o)
        if not o.alive:
            self.prove(st, False, "%s of freed/out-of-scope object" % what, self._where(ins), "object %s(%s)" % (o.name, o.kind))
            return None
        sz = o.size
        if not is_sym(p.off) and not is_sym(sz) and not is_sym(n):
            if p.off + n <= sz:
                self.trivial += 1
                return o
            self.prove(st, False, "%s out of bounds" % what, self._where(ins), "offset %s size %s object %s" % (p.off, sz, o.name))
            return None
        # off + n <= size without wrap
        c = And(ule(n, sz), ule(p.off, sub(sz, n)))
        self.prove(st, c, "%s in bounds" % what, self._where(ins), "offset %s size %s object %s(%s)" % (p.off, sz, o.name, o.kind))
        return o

    def _where(self, ins):
        f = self.fname_stack[-1] if self.fname_stack else "?"
        return "%s @%s" % (f, self.loc(ins)) if ins is not None else f

    def load(self, st, p, t, ins=None):
        if t.k == "struct":
            return tuple(self.load(st, Ptr(p.o, add(p.off, t.offs[i])), e, ins) for i, e in enumerate(t.elems))
        if t.k in ("array", "vector"):
            return tuple(self.load(st, Ptr(p.o, add(p.off, i * t.el.size)), t.el, ins) for i in range(t.n))
        if self.region is not None and isinstance(p, Ptr) and p.o is None and is_sym(p.off):
            return self.as_type(st, self.region.load(self, st, p, t, ins), t)
        o = self.check_access(st, p, t.size, ins, "load")
        if o is None:
            if self.quiet:
                st.assume(False)
            return self.undef_of(t)
        if self.shared is not None:
            v = self.shared(self, st, "load", p, t, None, ins)
            if v is not NotImplemented:
                return v
        v = self.read_raw(st, o, p.off, t.size, t.k == "ptr")
        if self.on_load is not None:
            self.on_load(self, st, p, t, v)
        return self.as_type(st, v, t)

    def as_type(self, st, v, t):
        if isinstance(v, (Ptr, FnPtr)):
            return v if t.k == "ptr" else (trunc(self.ptr2int(st, v), t.w) if t.w < 64 else self.ptr2int(st, v))
        if isinstance(v, AbsVal):
            raise Unsupported("raw access to abstract value %s" % type(v).__name__)
        if t.k == "ptr":
            return self.int2ptr(st, v)
        if t.k == "int":
            if t.w == 1:
                return tb(trunc(v, 1)) if is_sym(v) else v & 1
            return trunc(v, t.w) if t.w < t.size * 8 else v
        return v

    def read_raw(self, st, o, off, n, wantptr=False):
        if o.tarr is not None:
            q = div_exact(off, o.tarr.stride)
            if q is None or q[1] not in o.tarr.fields:
                raise Unsupported("typed array access at %s" % off)
            sz = o.tarr.fields[q[1]][0]
            v = o.tarr.get(q[1], q[0])
            if n != sz:
                if n < sz:
                    return trunc(v, 8 * n)
                raise Unsupported("typed array access size")
            return v
        if o.by is not None:
            return self.read_bytes(st, o.by, off, n)
        if not is_sym(off):
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            return self.gather(st, o, off, n)
        # symbolic offset into a cell object
        if o.const and o.cells or (not is_sym(o.size) and o.size <= 4096 and o.cells and self._uniform(o, n)):
            q = div_exact(off, n)
            if q is not None and not any(isinstance(c[1], (Ptr, FnPtr, AbsVal)) for c in o.cells.values()):
                idx, rem = q
                cnt = (o.size - rem) // n
                vals = [self.gather(st, o, rem + i * n, n) for i in range(cnt)]
                return mux(vals, bv(idx, 64), 8 * n)
        # pointer tables: enumerate feasible offsets
        if wantptr or any(isinstance(c[1], (Ptr, FnPtr, AbsVal)) for c in o.cells.values()):
            raise NeedEnum("symbolic offset into pointer cells (%s)" % o.name)
        o = st.wobj(o.oid)
        self.to_bytes(st, o)
        return self.read_bytes(st, o.by, off, n)

    def _uniform(self, o, n):
        return o.default == 0 and all(c[0] == n and off % n == 0 for off, c in o.cells.items()) or all(c[0] == n and off % n == 0 for off, c in o.cells.items()) and len(o.cells) * n == o.size

    def to_bytes(self, st, o):
        if o.by is not None:
            return
        if o.default == "undef":
            b = Bytes(fresh_arr("undefmem"))
        elif isinstance(o.default, int):
            b = Bytes(o.default)
        else:
            b = Bytes(o.default)
        for off, (sz, v) in sorted(o.cells.items()):
            if isinstance(v, (Ptr, FnPtr)):
                v = self.ptr2int(st, v)
            if isinstance(v, AbsVal):
                raise Unsupported("abstract value in byte object")
            for k in range(sz):
                b = b.store(off + k, (v >> (8 * k)) & 255 if not is_sym(v) else norm(z3.Extract(8 * k + 7, 8 * k, v)))
        o.by = b
        o.cells = {}

    def read_bytes(self, st, b, off, n):
        if n == 1:
            return b.read(off, st)
        vs = [b.read(add(off, k), st) for k in range(n)]
        if not any(is_sym(v) for v in vs):
            r = 0
            for k, v in enumerate(vs):
                r |= v << (8 * k)
            return r
        return norm(z3.Concat(*[bv(v, 8) for v in reversed(vs)]))

    def gather(self, st, o, off, n):
        """read n bytes at concrete offset from cells of mismatching layout"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []
        k = off
        anyc = False
        while k < off + n:
            hit = None
            c = o.cells.get(k)
            if c is not None:
                hit = (k, c)
            else:
                for co, cc in o.cells.items():
                    if co <= k < co + cc[0]:
                        hit = (co, cc)
                        break
            if hit is None:
                # default byte
                d = o.default
                if d == "undef" if isinstance(d, str) else False:
                    nv = fresh_bv("undef", 8)
                elif isinstance(d, int):
                    nv = d
                else:
                    nv = norm(z3.Select(d, z3.BitVecVal(k, 64)))
                parts.append((1, nv))
                k += 1
                continue
            anyc = True
            co, (cs, v) = hit
            if isinstance(v, (Ptr, FnPtr)):
                v = self.ptr2int(st, v)
            if isinstance(v, AbsVal):
                raise Unsupported("raw read of abstract value %s" % type(v).__name__)
            lo = k - co
            hi = min(cs, off + n - co)
            if lo == 0 and hi == cs:
                parts.append((cs, v))
            else:
                parts.append((hi - lo, (v >> (8 * lo)) & mask(8 * (hi - lo)) if not is_sym(v) else norm(z3.Extract(8 * hi - 1, 8 * lo, bv(v, cs * 8)))))
            k = co + hi
        if len(parts) == 1:
            return parts[0][1]
        if not any(is_sym(v) for _, v in parts):
            r, sh = 0, 0
            for s, v in parts:
                r |= v << sh
                sh += 8 * s
            return r
        return norm(z3.Concat(*[bv(v, s * 8) for s, v in reversed(parts)]))

    def store(self, st, p, v, t, ins=None):
        if t.k == "struct":
            for i, e in enumerate(t.elems):
                self.store(st, Ptr(p.o, add(p.off, t.offs[i])), v[i], e, ins)
            return
        if t.k in ("array", "vector"):
            for i in range(t.n):
                self.store(st, Ptr(p.o, add(p.off, i * t.el.size)), v[i], t.el, ins)
            return
        if self.region is not None and isinstance(p, Ptr) and p.o is None and is_sym(p.off):
            self.region.store(self, st, p, v, t, ins)
            return
        o = self.check_access(st, p, t.size, ins, "store")
        if o is None:
            if self.quiet:
                st.assume(False)
            return
        if self.shared is not None and self.shared(self, st, "store", p, t, v, ins) is not NotImplemented:
            return
        if o.const:
            self.prove(st, False, "store to constant", self._where(ins))
            return
        if t.k == "int" and (t.w == 1 or t.w != t.size * 8):
            v = zext(v, t.w, t.size * 8)
        self.write_raw(st, p, t.size, v)

    def write_raw(self, st, p, n, v):
        o = st.wobj(p.o)
        off = p.off
        if o.tarr is not None:
            q = div_exact(off, o.tarr.stride)
            if q is None or q[1] not in o.tarr.fields or o.tarr.fields[q[1]][0] != n:
                raise Unsupported("typed array store at %s" % off)
            if isinstance(v, (Ptr, FnPtr)):
                v = self.ptr2int(st, v)
            o.tarr = o.tarr.set(q[1], q[0], v)
            return
        if o.by is None and is_sym(off):
            self.to_bytes(st, o)
        if o.by is not None:
            if isinstance(v, (Ptr, FnPtr)):
                v = self.ptr2int(st, v)
            if isinstance(v, AbsVal):
                raise Unsupported("abstract value into byte object")
            b = o.by
            for k in range(n):
                b = b.store(add(off, k), (v >> (8 * k)) & 255 if not is_sym(v) else norm(z3.Extract(8 * k + 7, 8 * k, v)) if n > 1 else v)
            o.by = b
            return
        self.clear_range(st, o, off, n)
        o.cells[off] = (n, v)

    def clear_range(self, st, o, off, n):
        """drop/split cells overlapping [off,off+n)"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            del o.cells[off]
            return
        for co in [k for k, cc in o.cells.items() if k < off + n and off < k + cc[0]]:
            cs, v = o.cells.pop(co)
            if co < off or co + cs > off + n:
                if isinstance(v, (Ptr, FnPtr)):
                    v = self.ptr2int(st, v)
                if isinstance(v, AbsVal):
                    raise Unsupported("partial overwrite of abstract value")
                if co < off:
                    k = off - co
                    o.cells[co] = (k, trunc(v, 8 * k))
                if co + cs > off + n:
                    k = off + n - co
                    o.cells[off + n] = (cs - k, (v >> (8 * k)) if not is_sym(v) else norm(z3.Extract(8 * cs - 1, 8 * k, v)))

    def memset(self, st, p, v, n, ins=None):
        if not is_sym(n) and n == 0:
            return
        o = self.check_access(st, p, n, ins, "memset")
        if o is None:
            return
        o = st.wobj(p.o)
        if o.tarr is not None:
            if not is_sym(v) and v == 0 and not is_sym(p.off) and p.off == 0:
                o.tarr = TArr(o.tarr.stride, {k: (s, z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8 * s))) for k, (s, a) in o.tarr.fields.items()})
                return
            raise Unsupported("memset typed array")
        if o.by is None and not is_sym(n) and not is_sym(p.off) and n <= 512:
            self.clear_range(st, o, p.off, n)
            if not is_sym(v) and v == 0 and p.off == 0 and n == o.size:
                o.cells = {}
                o.default = 0
                return
            if not is_sym(v) and n % 8 == 0 and p.off % 8 == 0:
                w = int.from_bytes(bytes([v & 255]) * 8, "little")
                for k in range(0, n, 8):
                    o.cells[p.off + k] = (8, w)
                return
            for k in range(n):
                o.cells[p.off + k] = (1, v)
            return
        self.to_bytes(st, o)
        o.by = o.by.fill(p.off, n, v)

    def content_bytes(self, st, o):
        if o.by is not None:
            return o.by
        o = o.clone(0)
        self.to_bytes(st, o)
        return o.by

    def memcpy(self, st, d, s, n, ins=None):
        if not is_sym(n) and n == 0:
            return
        if is_sym(n) and any(isinstance(x, Ptr) and x.o is None for x in (d, s)) and st.entails(n == 0):
            return      # an empty copy (as for the constant 0)
        so = self.check_access(st, s, n, ins, "memcpy source")
        do = self.check_access(st, d, n, ins, "memcpy destination")
        if so is None or do is None:
            return
        if do.const:
            self.prove(st, False, "store to constant", self._where(ins))
            return
        do = st.wobj(d.o)
        if d.o == s.o:
            so = do
        if so.tarr is not None or do.tarr is not None:
            self.tarr_copy(st, do, d.off, so, s.off, n, ins, d, s)
            return
        if not is_sym(n) and not is_sym(s.off) and not is_sym(d.off) and do.by is None and so.by is None:
            items = []
            k = s.off
            covered = [(co, cc) for co, cc in so.cells.items() if co < s.off + n and s.off < co + cc[0]]
            full = all(co >= s.off and co + cc[0] <= s.off + n for co, cc in covered)
            if full:
                covered.sort(key=lambda x: x[0])
                pos = s.off
                for co, cc in covered:
                    if co > pos and so.default != "undef":
                        items.append((pos, co - pos, None))
                    items.append((co, cc[0], cc[1]))
                    pos = co + cc[0]
                if pos < s.off + n and so.default != "undef":
                    items.append((pos, s.off + n - pos, None))
                out = []
                for co, sz, v in items:
                    if v is None:
                        for b in range(sz):
                            out.append((co - s.off + b, 1, self.gather(st, so, co + b, 1)))
                    else:
                        out.append((co - s.off, sz, v))
                self.clear_range_multi(st, do, d.off, n)
                for ro, sz, v in out:
                    do.cells[d.off + ro] = (sz, v)
                return
            v = self.gather(st, so, s.off, n)
            self.clear_range(st, do, d.off, n)
            do.cells[d.off] = (n, v)
            return
        if not is_sym(n) and n <= 16 and do.by is None and not is_sym(d.off):
            # small read from a byte object into a cell object
            v = self.read_raw(st, so, s.off, n)
            self.clear_range(st, do, d.off, n)
            do.cells[d.off] = (n, v)
            return
        if not is_sym(n) and n <= 16 and so.by is None and not is_sym(s.off):
            v = self.gather(st, so, s.off, n)
            self.write_raw(st, d, n, v)
            return
        src = self.content_bytes(st, so)
        self.to_bytes(st, do)
        do.by = do.by.copy(d.off, n, src, s.off)

    def clear_range_multi(self, st, o, off, n):
        self.clear_range(st, o, off, n)

    def tarr_copy(self, st, do, doff, so, soff, n, ins=None, d=None, s=None):
        """whole fields of one or a few elements between a typed array and anything else"""
        ta = so.tarr if so.tarr is not None else do.tarr
        if is_sym(n) or n > 8 * ta.stride:
            raise Unsupported("memcpy of %s bytes on typed array" % (n,))
        base = soff if so.tarr is not None else doff
        r = div_exact(base, ta.stride)
        if r is None:
            raise Unsupported("memcpy inside a typed array at an unknown place")
        pos, items = 0, []
        while pos < n:
            fo = (r[1] + pos) % ta.stride
            if fo not in ta.fields:
                raise Unsupported("memcpy of part of a typed array element")
            sz = ta.fields[fo][0]
            items.append((pos, sz))
            pos += sz
        if pos != n:
            raise Unsupported("memcpy of part of a typed array element")
        vals = [self.load(st, Ptr(s.o, add(soff, k)), _int_t(8 * sz), ins) for k, sz in items]
        for (k, sz), v in zip(items, vals):
            self.write_raw(st, Ptr(d.o, add(doff, k)), sz, v)

    # ------------------------------------------------------------------ exceptions / type info
    STD_BASES = {
        "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
        "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
        "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
        "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt18bad_variant_access": ["_ZTISt9exception"],
        "_ZTISt19bad_optional_access": ["_ZTISt9exception"], "_ZTISt17bad_function_call": ["_ZTISt9exception"],
        "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
        "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    }

    def ti_bases(self, name):
        if name in self.STD_BASES:
            return self.STD_BASES[name]
        for m in self.mods:
            g = m.globals.get(name)
            if g and ir.LLVMGetInitializer(g):
                v = m.val(ir.LLVMGetInitializer(g))
                if v.k == "agg":
                    return [e.v for e in v.v if e.k == "global" and isinstance(e.v, str) and e.v.startswith("_ZTI")]
        return []

    def ti_is(self, name, base):
        if name == base:
            return True
        return any(self.ti_is(b, base) for b in self.ti_bases(name))

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def throw(self, st, ti, msg=None, size=64):
        oid = st.new_obj(size, "exception", ti)
        e = Exc(Ptr(oid, 0), ti, None, msg)
        st.exc[oid] = e
        return (st, ("exc", e))

    # ------------------------------------------------------------------ execution
    def call_fn(self, st, name, args, ins=None, byval=None):
        """apply contract/model or inline; returns [(state, outcome)]"""
        md = self.find_model(name)
        if md is not None:
            h, kind, doc, d = md
            if not self.quiet:
                key = (kind, doc or d)
                self.trusted_used[key] = self.trusted_used.get(key, 0) + 1
            r = h(self, st, args, ins, name)
            if isinstance(r, list):
                return r
            return [(st, ("ret", r))]
        f = self.fndefs.get(name)
        if f is None or f.decl:
            raise Unsupported("no contract for external function %s" % ir.demangle(name))
        return self.exec_fn(st, f, args, byval)

    def exec_fn(self, st, f, args, byval=None):
        f.mod.load_fn(f)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        if len(self.fname_stack) > 150:
            raise Unsupported("recursion too deep in %s" % f.dname)
        fr = Frame()
        fr.fn = f
        fr.vals = {}
        fr.allocas = []
        fr.depth = len(self.fname_stack)
        for i, pv in enumerate(f.params):
            a = args[i] if i < len(args) else self.undef_of(pv.ty)
            if i in f.byval:
                t = f.byval[i]
                oid = st.new_obj(t.size, "alloca", "byval")
                self.memcpy(st, Ptr(oid, 0), a, t.size)
                fr.allocas.append(oid)
                a = Ptr(oid, 0)
            fr.vals[pv.v] = a
        short = f.dname
        self.fname_stack.append(short)
        if not self.quiet:
            self.fn_used[short] = self.fn_used.get(short, 0) + 1
        base = st.fork() if self.merge_pure else None
        try:
            back, exits, outs = self.run_items([(st, fr, f.blocks[0], None)], None)
        finally:
            self.fname_stack.pop()
        if base is not None and len(outs) > 1:
            return self.merge_outs(base, outs)
        return outs

    def merge_outs(self, base, outs):
        """join the paths of a call that only computes a number"""
        n = len(base.pc)
        val, conds = None, []
        for s, oc in outs:
            v = oc[1]
            if oc[0] != "ret" or v is None or isinstance(v, (Ptr, FnPtr, AbsVal, tuple)):
                return outs
            if s.foralls != base.foralls or s.exc != base.exc or s.caught != base.caught or s.addr != base.addr:
                return outs
            if any(s.mem.get(k) is not o for k, o in base.mem.items()) or any(o.alive and k not in base.mem for k, o in s.mem.items()):
                return outs
            if len(s.ghost) != len(base.ghost) or any(s.ghost.get(k) is not g for k, g in base.ghost.items()):
                return outs
            if len(s.pc) < n or any(not a.eq(b) for a, b in zip(s.pc[:n], base.pc)):
                return outs
        w = next((oc[1].size() for s, oc in outs if is_sym(oc[1]) and z3.is_bv(oc[1])), None)
        for s, oc in outs:
            v = oc[1]
            c = And(*s.pc[n:]) if len(s.pc) > n else True
            conds.append(c)
            if val is None:
                val = v
            elif w is not None:
                val = norm(ite(c, v, val, w))
            elif is_sym(v) or is_sym(val) or isinstance(v, bool):
                val = norm(z3.If(zb(c), zb(v), zb(val)))
            elif v != val:
                return outs
        st = base
        st.assume(Or(*conds))
        return [(st, ("ret", val))]

    def val(self, fr, v):
        if v.k == "local":
            try:
                return fr.vals[v.v]
            except KeyError:
                raise Unsupported("undefined local in %s" % fr.fn.dname)
        return self.const(v, fr.fn.mod)

    def run_items(self, items, L):
        """execute items; with loop L: stop at back edges (back) and at blocks outside (exits)"""
        stack = list(items)
        back, exits, outs = [], [], []
        first = {id(i) for i in items}
        nst = 0
        while stack:
            it = stack.pop()
            st, fr, blk, pred = it
            if L is not None and id(it) not in first:
                if blk is L.header:
                    back.append(it)
                    continue
                if blk.id not in L.blocks:
                    exits.append(it)
                    continue
            first.discard(id(it))
            nst += 1
            self.paths += 1
            if nst > self.max_paths:
                raise PathLimit("path limit in %s" % fr.fn.dname)
            if self.deadline and (nst & 15) == 0 and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            loops = ir.loops_of(fr.fn)
            if blk.id in loops and (L is None or blk is not L.header):
                ex, os_ = self.handle_loop(it, loops[blk.id])
                stack.extend(ex)
                outs.extend(os_)
                continue
            self.enter(st, fr, blk, pred)
            self.exec_block(st, fr, blk, stack, outs, L)
        return back, exits, outs

    def enter(self, st, fr, blk, pred):
        if blk.phis and pred is not None:
            vs = []
            for ph in blk.phis:
                for b, v in ph.x["in"]:
                    if b is pred:
                        vs.append((ph.key, self.val(fr, v)))
                        break
                else:
                    raise Unsupported("phi without predecessor")
            for k, v in vs:
                fr.vals[k] = v

    def finish(self, st, fr):
        for oid in fr.allocas:
            if oid in st.mem:
                st.kill(oid)

    def exec_block(self, st, fr, blk, stack, outs, L, start=0):
        insts = blk.insts
        i = start
        n = len(insts)
        vals = fr.vals
        while i < n:
            ins = insts[i]
            op = ins.op
            if op == "call":
                r = self.do_call(st, fr, ins)
                if r is None:
                    i += 1
                    continue
                if len(r) == 1 and r[0][0] is st and r[0][1][0] == "ret":
                    if ins.ty.k != "void":
                        vals[ins.key] = r[0][1][1]
                    i += 1
                    continue
                multi = len(r) > 1
                for k, (s2, out) in enumerate(r):
                    f2 = fr.fork() if (multi and k < len(r) - 1) else fr
                    if out[0] == "ret":
                        if ins.ty.k != "void":
                            f2.vals[ins.key] = out[1]
                        self.exec_block(s2, f2, blk, stack, outs, L, i + 1)
                    elif out[0] == "exc":
                        self.finish(s2, f2)
                        outs.append((s2, out))
                    # 'dead' outcomes vanish
                return
            if op == "invoke":
                r = self.do_call(st, fr, ins)
                if r is None:
                    r = [(st, ("ret", None))]
                multi = len(r) > 1
                for k, (s2, out) in enumerate(r):
                    f2 = fr.fork() if (multi and k < len(r) - 1) else fr
                    if out[0] == "ret":
                        if ins.ty.k != "void":
                            f2.vals[ins.key] = out[1]
                        stack.append((s2, f2, ins.x["normal"], blk))
                    elif out[0] == "exc":
                        self.unwind(s2, f2, ins, out[1], blk, stack, outs)
                return
            if op == "ret":
                v = self.val(fr, ins.ops[0]) if ins.ops else None
                self.finish(st, fr)
                outs.append((st, ("ret", v)))
                return
            if op == "br":
                if not ins.ops:
                    stack.append((st, fr, ins.x["succs"][0], blk))
                    return
                c = tb(self.val(fr, ins.ops[0]))
                # LLVM-C successors: [true, false]
                t, f = ins.x["succs"]
                self.branch(st, fr, blk, [(c, t), (Not(c), f)], stack, L, ins)
                return
            if op == "switch":
                v = self.val(fr, ins.ops[0])
                w = ins.ops[0].ty.w
                alts = []
                rest = []
                for cv, b in ins.x["cases"]:
                    e = eq(v, cv, w)
                    alts.append((e, b))
                    rest.append(Not(e))
                alts.append((And(*rest), ins.x["default"]))
                self.branch(st, fr, blk, alts, stack, L, ins)
                return
            if op == "unreachable":
                self.prove(st, False, "unreachable reached", self._where(ins))
                return
            if op == "resume":
                v = self.val(fr, ins.ops[0])
                e = st.exc.get(v[0].o)
                if e is None:
                    raise Unsupported("resume of unknown exception")
                self.finish(st, fr)
                outs.append((st, ("exc", e)))
                return
            r = self.do_inst(st, fr, ins)
            if r is not None:
                # list of (state, value)
                for k, (s2, v) in enumerate(r):
                    f2 = fr.fork() if k < len(r) - 1 else fr
                    f2.vals[ins.key] = v
                    self.exec_block(s2, f2, blk, stack, outs, L, i + 1)
                return
            i += 1

    def branch(self, st, fr, blk, alts, stack, L, ins):
        live = []
        for c, b in alts:
            c = tb(c)
            if c is True:
                live = [(True, b)]
                break
            if c is False:
                continue
            live.append((c, b))
        # merge same targets not needed
        feas = []
        if len(live) == 1 and live[0][0] is True:
            feas = live
        else:
            for k, (c, b) in enumerate(live):
                if k == len(live) - 1 and not feas:
                    feas.append((c, b))
                elif st.feasible(c):
                    feas.append((c, b))
        if L is not None:
            inL = [b.id in L.blocks for c, b in alts]
            if any(inL) and not all(inL):
                symx = len({b.id in L.blocks for c, b in feas}) > 1
                if symx:
                    self.loop_flags[id(L)] = self.loop_flags.get(id(L), 0) | 1
                elif all(isinstance(tb(c), bool) for c, b in alts):
                    self.loop_flags[id(L)] = self.loop_flags.get(id(L), 0) | 2
        for k, (c, b) in enumerate(feas):
            if k < len(feas) - 1:
                s2, f2 = st.fork(), fr.fork()
            else:
                s2, f2 = st, fr
            if c is not True:
                s2.assume(c)
            stack.append((s2, f2, b, blk))

    loop_flags = {}

    def unwind(self, st, fr, ins, e, blk, stack, outs):
        u = ins.x["unwind"]
        # find landingpad
        lp = u.insts[0]
        assert lp.op == "landingpad"
        sel = None
        for cl in lp.x["clauses"]:
            if cl.k == "null":
                sel = self.typeid("...") if False else 1 << 20
                break
            if cl.k == "global":
                if self.ti_is(e.ti, cl.v):
                    sel = self.typeid(cl.v)
                    break
            else:
                # filter (dynamic exception spec): empty filter matches everything
                sel = (1 << 32) - 1
                break
        if sel is None:
            if not lp.x["cleanup"]:
                self.finish(st, fr)
                outs.append((st, ("exc", e)))
                return
            sel = 0
        fr.vals[lp.key] = (e.ptr, sel)
        stack.append((st, fr, u, blk))

    def do_call(self, st, fr, ins):
        cal = ins.x["callee"]
        if cal.k == "func":
            name = cal.v
            if name.startswith("llvm."):
                return self.intrinsic(st, fr, ins, name)
        elif cal.k == "asm":
            raise Unsupported("inline asm")
        else:
            p = self.val(fr, cal)
            if not isinstance(p, FnPtr):
                if isinstance(p, Ptr) and p.o is not None and st.obj(p.o).meta and "call" in st.obj(p.o).meta:
                    args = [self.val(fr, a) for a in ins.ops]
                    return st.obj(p.o).meta["call"](self, st, args, ins)
                self.prove(st, False, "call through invalid pointer", self._where(ins), repr(p))
                return []
            name = p.name
        args = [self.val(fr, a) for a in ins.ops]
        return self.call_fn(st, name, args, ins)

    # -- instructions without control flow
    def do_inst(self, st, fr, ins):
        op = ins.op
        V = fr.vals
        x = ins.x
        if op == "load":
            try:
                V[ins.key] = self.load(st, self.val(fr, ins.ops[0]), ins.ty, ins)
            except NeedEnum as e:
                return self.enum_load(st, self.val(fr, ins.ops[0]), ins.ty, ins, e)
        elif op == "store":
            v = self.val(fr, ins.ops[0])
            self.store(st, self.val(fr, ins.ops[1]), v, ins.ops[0].ty, ins)
        elif op == "getelementptr":
            V[ins.key] = self.gep(st, self.val(fr, ins.ops[0]), x["src"], [self.val(fr, o) for o in ins.ops[1:]], [o.ty for o in ins.ops[1:]])
        elif op == "alloca":
            n = self.val(fr, ins.ops[0])
            oid = st.new_obj(x["aty"].size * n, "alloca", "local")
            fr.allocas.append(oid)
            V[ins.key] = Ptr(oid, 0)
        elif op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            a, b = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
            if ins.ty.k == "vector":
                V[ins.key] = tuple(self.binop(st, op, p, q, ins.ty.el.w, x, ins) for p, q in zip(a, b))
            else:
                V[ins.key] = self.binop(st, op, a, b, ins.ty.w, x, ins)
        elif op == "icmp":
            a, b = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
            V[ins.key] = self.icmp(st, x["pred"], a, b, ins.ops[0].ty)
        elif op == "zext":
            V[ins.key] = zext(self.val(fr, ins.ops[0]), ins.ops[0].ty.w, ins.ty.w)
        elif op == "sext":
            V[ins.key] = sext(self.val(fr, ins.ops[0]), ins.ops[0].ty.w, ins.ty.w)
        elif op == "trunc":
            V[ins.key] = trunc(self.val(fr, ins.ops[0]), ins.ty.w)
        elif op == "ptrtoint":
            pv = self.val(fr, ins.ops[0])
            v = self.ptr2int(st, pv)
            if is_sym(v) and isinstance(pv, Ptr) and not is_sym(pv.off):
                v.klv_ptr = pv      # remembered for differences of pointers into one object
            V[ins.key] = trunc(v, ins.ty.w) if ins.ty.w < 64 else v
        elif op == "inttoptr":
            V[ins.key] = self.int2ptr(st, self.val(fr, ins.ops[0]))
        elif op in ("bitcast", "freeze", "addrspacecast"):
            V[ins.key] = self.val(fr, ins.ops[0])
        elif op == "extractvalue":
            v = self.val(fr, ins.ops[0])
            for i in x["idx"]:
                v = v[i]
            V[ins.key] = v
        elif op == "insertvalue":
            V[ins.key] = self.insertv(self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]), x["idx"])
        elif op == "select":
            c = tb(self.val(fr, ins.ops[0]))
            a, b = self.val(fr, ins.ops[1]), self.val(fr, ins.ops[2])
            if isinstance(c, bool):
                V[ins.key] = a if c else b
            elif ins.ty.k == "int":
                V[ins.key] = ite(c, a, b, ins.ty.w)
            elif ins.ty.k == "ptr" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                V[ins.key] = Ptr(a.o, ite(c, a.off, b.off, 64))
            else:
                r = []
                s2 = st.fork()
                s2.assume(c)
                if s2.feasible():
                    r.append((s2, a))
                s3 = st.fork()
                s3.assume(Not(c))
                if s3.feasible():
                    r.append((s3, b))
                return r
        elif op == "landingpad":
            pass
        elif op == "atomicrmw":
            p = self.val(fr, ins.ops[0])
            a = self.val(fr, ins.ops[1])
            b = x["bin"]
            if self.shared is not None and isinstance(p, Ptr) and p.o is not None:
                r = self.shared(self, st, "rmw " + b, p, ins.ty, a, ins)
                if r is not NotImplemented:
                    if isinstance(r, list):
                        return r
                    V[ins.key] = r
                    return None
            old = self.load(st, p, ins.ty, ins)
            V[ins.key] = old
            w = ins.ty.w
            if b == "xchg":
                nv = a
            elif b == "add":
                nv = add(old, a, w)
            elif b == "sub":
                nv = sub(old, a, w)
            elif b in ("and", "or", "xor"):
                nv = self.binop(st, b, old, a, w, {}, ins)
            else:
                raise Unsupported("atomicrmw " + b)
            self.store(st, p, nv, ins.ty, ins)
        elif op == "cmpxchg":
            p = self.val(fr, ins.ops[0])
            cmp_, new = self.val(fr, ins.ops[1]), self.val(fr, ins.ops[2])
            t = ins.ops[1].ty
            if self.shared is not None and isinstance(p, Ptr) and p.o is not None:
                r = self.shared(self, st, "cmpxchg", p, t, (cmp_, new), ins)
                if r is not NotImplemented:
                    return r
            old = self.load(st, p, t, ins)
            e = self.icmp(st, "eq", old, cmp_, t)
            r = []
            for c, s2 in ((e, st.fork()), (Not(e), st)):
                s2.assume(c)
                if s2.feasible():
                    if c is e:
                        self.store(s2, p, new, t, ins)
                    r.append((s2, (old, 1 if c is e else 0)))
            return r
        elif op == "fence":
            pass
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "fcmp"):
            V[ins.key] = self.fpop(st, fr, ins)
        elif op == "extractelement":
            V[ins.key] = self.val(fr, ins.ops[0])[self.val(fr, ins.ops[1])]
        elif op == "insertelement":
            V[ins.key] = self.insertv(self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]), [self.val(fr, ins.ops[2])])
        else:
            raise Unsupported("instruction " + op)
        return None

    def enum_load(self, st, p, t, ins, e):
        """load at a symbolic offset into a table of pointers: one case per feasible entry"""
        o = st.obj(p.o)
        if t.k in ("struct", "array", "vector") or is_sym(o.size) or len(o.cells) > 2000:
            raise e
        out = []
        for off, (sz, v) in sorted(o.cells.items()):
            if sz != t.size:
                continue
            c = eq(p.off, off)
            if c is False:
                continue
            s2 = st.fork()
            s2.assume(c)
            if s2.feasible():
                out.append((s2, self.as_type(s2, v, t)))
        rest = st.fork()
        for off, (sz, v) in o.cells.items():
            if sz == t.size:
                rest.assume(Not(eq(p.off, off)))
        if rest.feasible() and rest.feasible(And(ule(t.size, o.size), ule(p.off, o.size - t.size))):
            raise e
        if not out:
            raise e
        return out

    def insertv(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insertv(l[idx[0]], v, idx[1:])
        return tuple(l)

    def fpop(self, st, fr, ins):
        op = ins.op
        a = self.val(fr, ins.ops[0])
        ow = ins.ops[0].ty.w

        def fp(v, w):
            s = z3.Float64() if w == 64 else z3.Float32()
            return z3.fpBVToFP(bv(v, w), s)
        rm = z3.RNE()
        if ins.ops[0].ty.k == "x86fp80" or ins.ty.k == "x86fp80":
            return fresh_bool("fp80") if op == "fcmp" else fresh_bv("fp80", ins.ty.w)
        if op in ("uitofp", "sitofp"):
            s = z3.Float64() if ins.ty.w == 64 else z3.Float32()
            t = bv(a, ow)
            r = z3.fpSignedToFP(rm, t, s) if op == "sitofp" else z3.fpToFP(rm, t, s) if False else z3.fpUnsignedToFP(rm, t, s)
            return norm(z3.fpToIEEEBV(r))
        if op == "fcmp":
            b = self.val(fr, ins.ops[1])
            f, g = fp(a, ow), fp(b, ow)
            un = z3.Or(z3.fpIsNaN(f), z3.fpIsNaN(g))
            p = ins.x["pred"]
            base = {1: z3.fpEQ(f, g), 2: z3.fpGT(f, g), 3: z3.fpGEQ(f, g), 4: z3.fpLT(f, g), 5: z3.fpLEQ(f, g), 6: z3.And(z3.Not(un), z3.Not(z3.fpEQ(f, g))), 7: z3.Not(un), 8: un}
            if p in base:
                return norm(base[p])
            if 9 <= p <= 14:
                return norm(z3.Or(un, base[p - 8]))
            return p == 15
        if op in ("fptoui", "fptosi"):
            return fresh_bv("fptoint", ins.ty.w)
        if op in ("fpext", "fptrunc"):
            s = z3.Float64() if ins.ty.w == 64 else z3.Float32()
            return norm(z3.fpToIEEEBV(z3.fpToFP(rm, fp(a, ow), s)))
        if op == "fneg":
            return norm(bv(a, ow) ^ (1 << (ow - 1)))
        return fresh_bv(op, ins.ty.w)

    def icmp(self, st, pred, a, b, t):
        if t.k == "ptr":
            if pred in ("eq", "ne"):
                e = self.ptr_eq(st, a, b)
                if self.cmp_rec is not None and is_sym(e) and isinstance(a, Ptr) and isinstance(b, Ptr):
                    self.cmp_rec.append((a.off, b.off, 64))
                return e if pred == "eq" else Not(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = a.off, b.off
                w = 64
            else:
                a, b = self.ptr2int(st, a), self.ptr2int(st, b)
                w = 64
        else:
            w = t.w
        if w == 1:
            a, b = tb(a), tb(b)
            if pred == "eq":
                return Iff(a, b)
            if pred == "ne":
                return Not(Iff(a, b))
            a, b = bv(a, 1), bv(b, 1)
        if self.cmp_rec is not None and (is_sym(a) or is_sym(b)):
            self.cmp_rec.append((a, b, w))
        if pred == "eq":
            return eq(a, b, w)
        if pred == "ne":
            return Not(eq(a, b, w))
        if pred == "ult":
            return ult(a, b, w)
        if pred == "ule":
            return ule(a, b, w)
        if pred == "ugt":
            return ult(b, a, w)
        if pred == "uge":
            return ule(b, a, w)
        if pred == "slt":
            return slt(a, b, w)
        if pred == "sle":
            return sle(a, b, w)
        if pred == "sgt":
            return slt(b, a, w)
        if pred == "sge":
            return sle(b, a, w)
        raise Unsupported(pred)

    def binop(self, st, op, a, b, w, x, ins):
        if op == "sub" and w == 64:
            pa, pb = getattr(a, "klv_ptr", None), getattr(b, "klv_ptr", None)
            if pa is not None and pb is not None and pa.o == pb.o:
                return sub(pa.off, pb.off)
        if w == 1:
            a, b = tb(a), tb(b)
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op in ("xor", "add", "sub"):
                return Not(Iff(a, b))
            raise Unsupported("i1 " + op)
        conc = not is_sym(a) and not is_sym(b)
        if x and x.get("nsw") and self.check_nsw and op in ("add", "sub", "mul"):
            if conc:
                sa, sb = sgn(a, w), sgn(b, w)
                r = sa + sb if op == "add" else sa - sb if op == "sub" else sa * sb
                ok = -(1 << (w - 1)) <= r < (1 << (w - 1))
            else:
                A, B = bv(a, w), bv(b, w)
                if op == "add":
                    ok = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                elif op == "sub":
                    ok = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                ok = norm(ok)
            self.prove(st, ok, "no signed overflow", self._where(ins), lambda: "%s %s %s" % (op, a, b))
        if op == "add":
            return add(a, b, w)
        if op == "sub":
            return sub(a, b, w)
        if op == "mul":
            return mul(a, b, w)
        if op in ("shl", "lshr", "ashr"):
            self.prove(st, ult(b, w, w), "shift amount in range", self._where(ins))
            if conc:
                if b >= w:
                    return 0
                return (a << b) & mask(w) if op == "shl" else a >> b if op == "lshr" else (sgn(a, w) >> b) & mask(w)
            A, B = bv(a, w), bv(b, w)
            return norm(A << B if op == "shl" else z3.LShR(A, B) if op == "lshr" else A >> B)
        if op == "and":
            return a & b if conc else norm(bv(a, w) & bv(b, w))
        if op == "or":
            return a | b if conc else norm(bv(a, w) | bv(b, w))
        if op == "xor":
            return a ^ b if conc else norm(bv(a, w) ^ bv(b, w))
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.prove(st, Not(eq(b, 0, w)), "division by zero", self._where(ins))
            if conc:
                if b == 0:
                    return 0
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return q & mask(w) if op == "sdiv" else (sa - q * sb) & mask(w)
            if op in ("sdiv", "srem"):
                self.prove(st, Not(And(eq(a, 1 << (w - 1), w), eq(b, mask(w), w))), "no signed overflow", self._where(ins))
                if not is_sym(b) and sgn(b, w) > 0:
                    q, r = self.udivrem(st, ite(slt(a, 0, w), sub(0, a, w), a, w), b, w) if not st.entails(sle(0, a, w)) else self.udivrem(st, a, b, w)
                    if st.entails(sle(0, a, w)):
                        return q if op == "sdiv" else r
                    neg = slt(a, 0, w)
                    v = q if op == "sdiv" else r
                    return norm(ite(neg, sub(0, v, w), v, w))
                A, B = bv(a, w), bv(b, w)
                return norm(A / B if op == "sdiv" else z3.SRem(A, B))
            if not is_sym(b):
                q, r = self.udivrem(st, a, b, w)
                return q if op == "udiv" else r
            A, B = bv(a, w), bv(b, w)
            return norm(z3.UDiv(A, B) if op == "udiv" else z3.URem(A, B))
        raise Unsupported(op)

    _divmemo = {}

    def udivrem(self, st, a, c, w):
        if not is_sym(a):
            return a // c, a % c
        if c & (c - 1) == 0:
            A = bv(a, w)
            k = c.bit_length() - 1
            return norm(z3.LShR(A, k)), norm(A & (c - 1))
        a = z3.simplify(a)
        # exact multiples: (c*t + r0) handled syntactically only for constants; otherwise definitional
        key = (a.get_id(), c, w)
        m = self._divmemo.get(key)
        if m is None:
            q, r = fresh_bv("q", w), fresh_bv("r", w)
            m = (q, r, a, z3.And(a == q * c + r, z3.ULT(r, c), z3.ULE(q, mask(w) // c), z3.ULE(q * c, a)))
            self._divmemo[key] = m
        if not any(p is m[3] for p in st.pc):
            st.pc.append(m[3])
        return m[0], m[1]

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, ins, name):
        a = [self.val(fr, o) for o in ins.ops if o.k != "metadata"] if not name.startswith("llvm.dbg") else []
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.prefetch", "llvm.stackrestore")):
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, a[0], a[1], a[2], ins)
            return None
        if name.startswith("llvm.memset"):
            self.memset(st, a[0], a[1], a[2], ins)
            return None
        if name.startswith("llvm.eh.typeid.for"):
            p = a[0]
            nm = next(n for n, o in self.globals.items() if o == p.o)
            return [(st, ("ret", self.typeid(nm)))]
        if name.startswith("llvm.trap"):
            self.prove(st, False, "trap reached", self._where(ins))
            return []
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow", name)
        if m:
            w = ins.ops[0].ty.w
            x, y = a
            s = m.group(1) == "s"
            k = m.group(2)
            r = (add if k == "add" else sub if k == "sub" else mul)(x, y, w)
            if not is_sym(x) and not is_sym(y):
                if s:
                    x, y = sgn(x, w), sgn(y, w)
                f = x + y if k == "add" else x - y if k == "sub" else x * y
                ov = f != (sgn(r, w) if s else r)
            else:
                A, B = bv(x, w), bv(y, w)
                if k == "add":
                    ov = z3.Not(z3.And(z3.BVAddNoOverflow(A, B, s), z3.BVAddNoUnderflow(A, B) if s else True))
                elif k == "sub":
                    ov = z3.ULT(A, B) if not s else z3.Not(z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)))
                else:
                    ov = z3.Not(z3.BVMulNoOverflow(A, B, s) if not s else z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)))
                ov = norm(ov)
            return [(st, ("ret", (r, ov)))]
        if name.startswith("llvm.expect"):
            return [(st, ("ret", a[0]))]
        m = re.match(r"llvm\.([us])(max|min)\.", name)
        if m:
            w = ins.ty.w
            lt = (ult if m.group(1) == "u" else slt)(a[0], a[1], w)
            return [(st, ("ret", ite(lt, a[1], a[0], w) if m.group(2) == "max" else ite(lt, a[0], a[1], w)))]
        if name.startswith("llvm.abs"):
            w = ins.ty.w
            return [(st, ("ret", ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w)))]
        if name.startswith("llvm.is.constant"):
            return [(st, ("ret", 0))]
        if name.startswith("llvm.objectsize"):
            return [(st, ("ret", mask(64)))]
        if name.startswith("llvm.threadlocal.address"):
            return [(st, ("ret", a[0]))]
        if name.startswith("llvm.bswap"):
            w = ins.ty.w
            v = bv(a[0], w)
            return [(st, ("ret", norm(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(w // 8)]))))]
        m = re.match(r"llvm\.ct(l|t)z\.", name)
        if m:
            w = ins.ty.w
            r = w
            for k in (range(w) if m.group(1) == "l" else reversed(range(w))):
                bit = (a[0] >> k) & 1 if not is_sym(a[0]) else z3.Extract(k, k, a[0]) == 1
                r = ite(bool(bit) if not is_sym(a[0]) else bit, w - 1 - k if m.group(1) == "l" else k, r, w)
            return [(st, ("ret", r))]
        raise Unsupported("intrinsic " + name)

    from .loops import handle_loop, unroll_loop, inv_loop, havoc_state, diff_state, loc_get


class TooManyFailures(Exception):
    pass
