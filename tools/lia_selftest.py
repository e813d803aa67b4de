"""random cross-check: whatever the integer translation refutes must be unsatisfiable as bit-vectors"""
import random, sys
sys.path.insert(0, "/verif")
import z3
from klv.lia import Lia
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
W = 8
vs = [z3.BitVec("x%d" % i, W) for i in range(4)]
A = z3.Array("A", z3.BitVecSort(W), z3.BitVecSort(W))
F = z3.Function("F", z3.BitVecSort(W), z3.BitVecSort(W))


def term(d):
    k = R.randrange(16) if d > 0 else R.randrange(2)
    if k == 0:
        return z3.BitVecVal(R.choice([0, 1, 2, 3, 127, 128, 255, R.randrange(256)]), W)
    if k == 1:
        return R.choice(vs)
    a = term(d - 1)
    if k == 2: return a + term(d - 1)
    if k == 3: return a - term(d - 1)
    if k == 4: return z3.BitVecVal(R.randrange(256), W) * a
    if k == 5: return -a
    if k == 6: return z3.If(cond(d - 1), a, term(d - 1))
    if k == 7: return z3.ZeroExt(3, z3.Extract(5, 1, a))
    if k == 8: return z3.SignExt(4, z3.Extract(4, 1, a))
    if k == 9: return z3.Concat(z3.Extract(3, 0, a), z3.Extract(6, 3, term(d - 1)))
    if k == 10: return a << R.randrange(8)
    if k == 11: return z3.LShR(a, R.randrange(8))
    if k == 12: return z3.Store(A, term(d - 1), term(d - 1))[a]
    if k == 13: return A[a]
    if k == 14: return F(a)
    return a & term(d - 1)


def cond(d):
    k = R.randrange(12)
    a, b = term(max(d - 1, 0)), term(max(d - 1, 0))
    if k == 0: return a == b
    if k == 1: return z3.ULE(a, b)
    if k == 2: return z3.ULT(a, b)
    if k == 3: return a <= b
    if k == 4: return a < b
    if k == 5: return a != b
    if k == 6: return z3.UGE(a, b)
    if k == 7: return a > b
    if d > 0:
        if k == 8: return z3.And(cond(d - 1), cond(d - 1))
        if k == 9: return z3.Or(cond(d - 1), cond(d - 1))
        if k == 10: return z3.Not(cond(d - 1))
        return z3.Implies(cond(d - 1), cond(d - 1))
    return a == b


n = ref = uns = 0
for i in range(int(sys.argv[2]) if len(sys.argv) > 2 else 2000):
    fs = [cond(2) for _ in range(R.randrange(3, 9))]
    if R.random() < .5:
        fs = [z3.simplify(f) for f in fs]
    s = z3.Solver(); s.add(fs)
    r = s.check()
    x = Lia().refutes(fs)
    n += 1; ref += x; uns += r == z3.unsat
    if x and r != z3.unsat:
        print("UNSOUND", fs); sys.exit(1)
print("formulas", n, "unsat", uns, "refuted", ref)
