"""shared by C05 and C06: the path object, its string and its segment table"""
from klv.spec import *

SRC = ["harness/c05.cpp", "repo:src/path.cpp"]


class PathObj:
    """a kl::path built by its own constructor, then given an arbitrary state"""

    def __init__(self, eng, st):
        self.eng = eng
        r = eng.call_fn(st.fork(), "klv_path_sizeof", [])
        self.size = r[0][1][1]
        self.p = local_obj(st, self.size, "path")
        r = eng.call_fn(st, "klv_path_ctor", [self.p])
        if len(r) != 1 or r[0][1][0] != "ret":
            raise Unsupported("path() forks")
        st = self.st = r[0][0]
        cells = st.obj(self.p.o).cells
        self.sv = [o for o, (sz, v) in cells.items() if isinstance(v, StrVal)]
        self.start = [o for o, (sz, v) in cells.items() if isinstance(v, Ptr) and v.o == self.p.o]
        ints = [(o, v) for o, (sz, v) in sorted(cells.items()) if sz == 8 and not isinstance(v, (Ptr, FnPtr, AbsVal)) and not is_sym(v)]
        self.cap = [o for o, v in ints if v > 0]
        self.cnt = [o for o, v in ints if v == 0]
        if not (len(self.sv) == len(self.start) == len(self.cap) == len(self.cnt) == 1):
            raise Unsupported("path layout not recognised: %s" % {o: v[1] for o, v in cells.items()})
        self.sv, self.start, self.cap, self.cnt = self.sv[0], self.start[0], self.cap[0], self.cnt[0]

        def m_grow(eng, s, a, ins, name):
            """growth: the elements stay, capacity becomes larger, the new element is appended"""
            ret, vec, pos, k = a[:4]
            src = a[4]
            eng.prove(s, eq(k, 1), "growth by one element", name)
            o = s.wobj(self.p.o)
            c = self.count(s)
            cap = fresh_bv("cap", 64)
            s.assume(z3.And(z3.UGT(cap, bv(c, 64)), z3.ULT(cap, 1 << 42)))
            o.cells[self.cap] = (8, cap)
            o.cells[self.cnt] = (8, add(c, 1))
            for f in (0, 8):
                v = eng.load(s, Ptr(src.o, add(src.off, f)), T_I64, ins)
                eng.write_raw(s, Ptr(self.buf, add(mul(c, 16), f)), 8, v)
            eng.write_raw(s, ret, 8, Ptr(self.buf, mul(c, 16)))
            return None
        eng.model(r"^.*boost::container::vector<kl::path_segment, .*>::priv_insert_forward_range_no_capacity<.*>\(.*\)$", m_grow, doc="boost::container::vector growth: existing elements are kept, the new element is appended")

    def arbitrary(self, st, tag=""):
        """any text, any number of segments"""
        o = st.wobj(self.p.o)
        ln = fresh_bv("pathlen" + tag, 64)
        self.buf = st.new_obj(1 << 47, "heap", "segment table", tarr=TArr(16, {0: (8, fresh_arr("segoff", 64)), 8: (8, fresh_arr("seglen", 64))}))
        st.kill(o.cells[self.sv][1].buf)
        sv = mkstr(st, Bytes(fresh_arr("pathtext")).store(ln, 0), ln)
        c, cap = fresh_bv("nseg" + tag, 64), fresh_bv("cap" + tag, 64)
        st.assume(z3.And(z3.ULE(c, cap), z3.ULT(cap, 1 << 42)))
        o = st.wobj(self.p.o)
        o.cells[self.sv] = (32, sv)
        o.cells[self.start] = (8, Ptr(self.buf, 0))
        o.cells[self.cnt] = (8, c)
        o.cells[self.cap] = (8, cap)
        return sv, c

    def str_(self, st):
        c = st.obj(self.p.o).cells.get(self.sv)
        return c[1] if c is not None and isinstance(c[1], StrVal) else None

    def count(self, st):
        c = st.obj(self.p.o).cells.get(self.cnt)
        return c[1] if c is not None else None

    def tab(self, st):
        return st.obj(self.buf).tarr

    def off(self, st, j):
        return self.tab(st).get(0, j)

    def len(self, st, j):
        return self.tab(st).get(8, j)

    def byte(self, st, i):
        return str_bytes(st, self.str_(st)).read(i, None)

    # ---- the representation invariant: the text is the segments joined with '/'
    def layout(self, st, j):
        c, vl = self.count(st), self.str_(st).len
        o, l = self.off(st, j), self.len(st, j)
        o2 = self.off(st, add(j, 1))
        return Implies(ult(j, c), And(
            ule(o, vl), ule(l, vl), ule(1, l), ule(add(o, l), vl),
            Implies(eq(j, 0), eq(o, 0)),
            Implies(Not(eq(j, 0)), And(ule(2, o), eq(self.byte(st, sub(o, 1)), ord("/"), 8))),
            Implies(eq(add(j, 1), c), eq(add(o, l), vl)),
            Implies(ult(add(j, 1), c), eq(o2, add(add(o, l), 1)))))

    def order(self, st, j, k):
        c, vl = self.count(st), self.str_(st).len
        return Implies(And(ult(j, k), ult(k, c)), And(ule(add(add(self.off(st, j), self.len(st, j)), 1), self.off(st, k)), ule(self.off(st, k), vl), ule(self.off(st, j), vl), ule(self.len(st, j), vl)))

    def bounds(self, st):
        c, vl = self.count(st), self.str_(st).len
        return And(Iff(eq(c, 0), eq(vl, 0)), ule(c, 1 << 42))
