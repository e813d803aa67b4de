"""Bit-vector conditions as linear integer conditions (an over-approximation: only `unsat` is used).

A w-bit term becomes an integer in [0, 2^w).  Sums, differences and products with constants wrap with an
explicit integer quotient, so the translation is exact for them; array reads and uninterpreted functions
become uninterpreted functions over the integers; bitwise operations become uninterpreted functions.
Every bit-vector model therefore gives an integer model, and an unsatisfiable integer problem refutes the
bit-vector one.
"""
import z3

K = z3
_fresh = [0]


def _fi(p):
    _fresh[0] += 1
    return z3.Int("%s!%d" % (p, _fresh[0]))


class Lia:
    def __init__(self):
        self.num = {}      # ast id -> (ast, Int expr, side constraints, child ids)
        self.boo = {}
        self.ufs = {}
        self.sel = {}

    # ---- numbers
    def _lin(self, t, coef, acc):
        """t*coef as linear combination into acc (dict id -> [ast, coef]); returns constant"""
        k = t.decl().kind()
        if z3.is_bv_value(t):
            return coef * t.as_long()
        if k == z3.Z3_OP_BADD:
            return sum(self._lin(c, coef, acc) for c in t.children())
        if k == z3.Z3_OP_BSUB:
            ch = t.children()
            return self._lin(ch[0], coef, acc) + sum(self._lin(c, -coef, acc) for c in ch[1:])
        if k == z3.Z3_OP_BNEG:
            return self._lin(t.arg(0), -coef, acc)
        if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            return self._lin(t.arg(1), coef * t.arg(0).as_long(), acc)
        e = acc.setdefault(t.get_id(), [t, 0])
        e[1] += coef
        return 0

    def n(self, t):
        i = t.get_id()
        r = self.num.get(i)
        if r is not None and r[0].eq(t):
            return r[1]
        e, side, kids = self._n(t)
        self.num[i] = (t, e, side, kids)
        return e

    def _n(self, t):
        w = t.size()
        M = 1 << w
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long()), (), ()
        k = t.decl().kind()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            acc = {}
            c = self._lin(t, 1, acc)
            lo = hi = 0
            terms = []
            kids = []
            h = M >> 1
            for a, cf in acc.values():
                cf = ((cf + h) % M) - h
                if cf == 0:
                    continue
                terms.append(cf * self.n(a))
                kids.append(a)
                if cf > 0:
                    hi += cf
                else:
                    lo += cf
            c = ((c + h) % M) - h
            q = _fi("q")
            v = _fi("s")
            side = (v == z3.Sum(terms + [z3.IntVal(c)]) - M * q, v >= 0, v < M, q >= lo - 1, q <= hi + 1)
            return v, side, tuple(kids)
        if k == z3.Z3_OP_ITE:
            a, b = self.n(t.arg(1)), self.n(t.arg(2))
            return z3.If(self.b(t.arg(0)), a, b), (), tuple(t.children())
        if k == z3.Z3_OP_ZERO_EXT:
            return self.n(t.arg(0)), (), (t.arg(0),)
        if k == z3.Z3_OP_SIGN_EXT:
            x = t.arg(0)
            m = 1 << x.size()
            e = self.n(x)
            return z3.If(e >= m // 2, e + (M - m), e), (), (x,)
        if k == z3.Z3_OP_CONCAT:
            e = None
            for c in t.children():
                x = self.n(c)
                e = x if e is None else e * (1 << c.size()) + x
            return e, (), tuple(t.children())
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            x = t.arg(0)
            e = self.n(x)
            q, r, v = _fi("h"), _fi("l"), _fi("x")
            top = 1 << (x.size() - hi - 1)
            side = [e == q * (1 << (hi + 1)) + v * (1 << lo) + r, v >= 0, v < M, q >= 0, q < top, r >= 0, r < (1 << lo)]
            return v, tuple(side), (x,)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            e = self.n(t.arg(0))
            q, v = _fi("q"), _fi("s")
            s = t.arg(1).as_long()
            return v, (v == e * (1 << s) - M * q, v >= 0, v < M, q >= 0, q < (1 << s)), (t.arg(0),)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            e = self.n(t.arg(0))
            r, v = _fi("r"), _fi("s")
            s = t.arg(1).as_long()
            return v, (e == v * (1 << s) + r, v >= 0, v < M, r >= 0, r < (1 << s)), (t.arg(0),)
        if k == z3.Z3_OP_SELECT:
            a, i = t.arg(0), t.arg(1)
            ak = a.decl().kind()
            if ak == z3.Z3_OP_STORE and z3.is_bv(i):
                ii, jj = self.n(a.arg(1)), self.n(i)
                rest = a.arg(0)[i]
                return z3.If(ii == jj, self.n(a.arg(2)), self.n(rest)), (), (a.arg(1), i, a.arg(2), rest)
            if ak == z3.Z3_OP_CONST_ARRAY:
                return self.n(a.arg(0)), (), (a.arg(0),)
            if ak == z3.Z3_OP_ITE:
                x, y = a.arg(1)[i], a.arg(2)[i]
                return z3.If(self.b(a.arg(0)), self.n(x), self.n(y)), (), (a.arg(0), x, y)
            if z3.is_bv(i):
                f = self.sel.get(a.get_id())
                if f is None or not f[0].eq(a):
                    _fresh[0] += 1
                    f = (a, z3.Function("sel!%d" % _fresh[0], z3.IntSort(), z3.IntSort()))
                    self.sel[a.get_id()] = f
                e = f[1](self.n(i))
                return e, (e >= 0, e < M), (i,)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            v = z3.Int("v!" + t.decl().name() + "!%d" % w)
            return v, (v >= 0, v < M), ()
        if t.num_args() > 0 and all(z3.is_bv(c) for c in t.children()):
            key = (t.decl().name(), tuple(c.size() for c in t.children()), tuple(t.params()) if k != z3.Z3_OP_UNINTERPRETED else ())
            f = self.ufs.get(key)
            if f is None:
                _fresh[0] += 1
                f = z3.Function("uf!%d" % _fresh[0], *([z3.IntSort()] * (t.num_args() + 1)))
                self.ufs[key] = f
            e = f(*[self.n(c) for c in t.children()])
            side = [e >= 0, e < M]
            if k == z3.Z3_OP_BAND:
                side += [e <= self.n(c) for c in t.children()]
            return e, tuple(side), tuple(t.children())
        v = _fi("o")
        return v, (v >= 0, v < M), ()

    # ---- conditions
    def b(self, t):
        i = t.get_id()
        r = self.boo.get(i)
        if r is not None and r[0].eq(t):
            return r[1]
        e, kids = self._b(t)
        self.boo[i] = (t, e, kids)
        return e

    def _signed(self, x):
        e = self.n(x)
        h = 1 << (x.size() - 1)
        return z3.If(e >= h, e - 2 * h, e)

    def _b(self, t):
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_true(t) or z3.is_false(t):
            return t, ()
        ch = t.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            f = z3.And if k == z3.Z3_OP_AND else z3.Or
            return f(*[self.b(c) for c in ch]), tuple(ch)
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0])), tuple(ch)
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1])), tuple(ch)
        if k == z3.Z3_OP_ITE and z3.is_bool(ch[1]):
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2])), tuple(ch)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
            return self.b(ch[0]) == self.b(ch[1]), tuple(ch)
        if k == z3.Z3_OP_EQ and z3.is_bv(ch[0]):
            return self.n(ch[0]) == self.n(ch[1]), tuple(ch)
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_bv(ch[0]):
            return self.n(ch[0]) != self.n(ch[1]), tuple(ch)
        U = {z3.Z3_OP_ULEQ: 0, z3.Z3_OP_ULT: 1, z3.Z3_OP_UGEQ: 2, z3.Z3_OP_UGT: 3}
        S = {z3.Z3_OP_SLEQ: 0, z3.Z3_OP_SLT: 1, z3.Z3_OP_SGEQ: 2, z3.Z3_OP_SGT: 3}
        if k in U or k in S:
            a, b = (self.n(ch[0]), self.n(ch[1])) if k in U else (self._signed(ch[0]), self._signed(ch[1]))
            o = U.get(k, S.get(k))
            return (a <= b if o == 0 else a < b if o == 1 else a >= b if o == 2 else a > b), tuple(ch)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            return z3.Bool("b!" + t.decl().name()), ()
        _fresh[0] += 1
        return z3.Bool("opaque!%d" % _fresh[0]), ()

    def problem(self, asserts):
        out, seen, stack = [], set(), []
        for a in asserts:
            out.append(self.b(a))
            stack.append(a)
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_bool(x):
                r = self.boo.get(i)
                if r is not None:
                    stack.extend(r[2])
            else:
                r = self.num.get(i)
                if r is not None:
                    out.extend(r[2])
                    stack.extend(r[3])
        return out

    def refutes(self, asserts, rlimit=2000000, ms=5000):
        s = z3.Solver()
        s.set("rlimit", rlimit)
        s.set("timeout", ms)
        s.add(self.problem(asserts))
        return s.check() == z3.unsat
