"""Symbolic values: python ints when concrete, z3 terms otherwise."""
import itertools
import z3

_cnt = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_cnt))


def fresh_bv(p, w):
    return z3.BitVec(fresh_name(p), w)


def fresh_bool(p):
    return z3.Bool(fresh_name(p))


def fresh_arr(p, vw=8):
    return z3.Array(fresh_name(p), z3.BitVecSort(64), z3.BitVecSort(vw))


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def bv(x, w):
    """to z3 BV"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def tb(x):
    """to z3 Bool or python bool"""
    if isinstance(x, (bool, int)):
        return bool(x)
    if z3.is_bv(x):
        return norm(x == 1) if x.size() == 1 else norm(x != 0)
    return x


def zb(x):
    x = tb(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def norm(t):
    """simplify; fold literals to python"""
    if not isinstance(t, z3.ExprRef):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    x &= mask(w)
    return x - (1 << w) if x >> (w - 1) else x


def add(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return (int(a) + int(b)) & mask(w)
    if not is_sym(a) and a == 0:
        return b
    if not is_sym(b) and b == 0:
        return a
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return (int(a) - int(b)) & mask(w)
    return norm(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return (int(a) * int(b)) & mask(w)
    return norm(bv(a, w) * bv(b, w))


def eq(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return int(a) == int(b)
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        return norm(zb(a) == zb(b))
    return norm(bv(a, w) == bv(b, w))


def ult(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return (a & mask(w)) < (b & mask(w))
    return norm(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return (a & mask(w)) <= (b & mask(w))
    return norm(z3.ULE(bv(a, w), bv(b, w)))


def slt(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return sgn(a, w) < sgn(b, w)
    return norm(bv(a, w) < bv(b, w))


def sle(a, b, w=64):
    if not is_sym(a) and not is_sym(b):
        return sgn(a, w) <= sgn(b, w)
    return norm(bv(a, w) <= bv(b, w))


def And(*xs):
    r = []
    for x in xs:
        x = tb(x)
        if x is False:
            return False
        if x is not True:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        x = tb(x)
        if x is True:
            return True
        if x is not False:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    x = tb(x)
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = tb(a), tb(b)
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def ite(c, a, b, w):
    c = tb(c)
    if isinstance(c, bool):
        return a if c else b
    if not is_sym(a) and not is_sym(b) and a == b:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, bv(a, w), bv(b, w))


def zext(x, w0, w1):
    if not is_sym(x):
        return int(x) & mask(w0)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
    return norm(z3.ZeroExt(w1 - w0, x)) if w1 > w0 else x


def sext(x, w0, w1):
    if not is_sym(x):
        return sgn(int(x), w0) & mask(w1)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(mask(w1), w1), z3.BitVecVal(0, w1))
    return norm(z3.SignExt(w1 - w0, x)) if w1 > w0 else x


def trunc(x, w1):
    if not is_sym(x):
        return int(x) & mask(w1)
    if z3.is_bool(x):
        return x if w1 == 1 else bv(x, w1)
    if w1 == 1:
        return norm(z3.Extract(0, 0, x) == 1)
    return norm(z3.Extract(w1 - 1, 0, x))


def vars_of(t, acc=None, seen=None):
    if acc is None:
        acc = set()
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, z3.ExprRef):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
        else:
            if z3.is_quantifier(x):
                st.append(x.body())
            else:
                st.extend(x.children())
    return acc
