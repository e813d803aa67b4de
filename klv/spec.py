"""helpers shared by property contracts"""
import z3
from .sym import *
from .core import *
from .models import *


def input_buffer(st, name, n=None, limit=ALLOC_LIMIT):
    """arbitrary readable buffer of symbolic length; returns (Ptr, n, array)"""
    arr = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))
    if n is None:
        n = z3.BitVec(name + "_len", 64)
    if is_sym(n):
        st.assume(z3.ULE(n, limit))
    oid = st.new_obj(n, "input", name, by=Bytes(arr))
    st.obj(oid).const = True
    return Ptr(oid, 0), n, arr


def local_obj(st, size, name="obj", by=None, kind="input"):
    return Ptr(st.new_obj(size, kind, name, by=by), 0)


def mint(m, t, default=0):
    """concrete value of a term in a model"""
    if not is_sym(t):
        return int(t)
    v = m.eval(t, model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return default


def model_bytes(m, arr, n, cap=4096):
    k = min(mint(m, n), cap)
    return bytes(mint(m, z3.Select(arr, z3.BitVecVal(i, 64))) for i in range(k))
