"""C18: tokenizing/splitting returns exactly the pieces between delimiters."""
from klv.spec import *

SRC = ["harness/c18.cpp"]
D = z3.Function("is_delimiter", z3.BitVecSort(8), z3.BoolSort())
W = z3.Function("delimiter_index", z3.BitVecSort(8), z3.BitVecSort(64))


def run(eng, fn, mode):
    st = State(eng)
    sp, n, s = input_buffer(st, "text")
    dp, nd, d = input_buffer(st, "delims")
    K = z3.BitVec("K", 64)      # an arbitrary position
    eng.require_termination = True

    def ch(i):
        return z3.Select(s, bv(i, 64))

    def isdef(c):
        # D(c) := exists j < nd. d[j] == c, with witness W(c)
        return z3.Implies(D(c), z3.And(z3.ULT(W(c), nd), z3.Select(d, W(c)) == c))
    st.assume(isdef(ch(K)))
    text, delims = [sp.o], [dp.o]

    def on_load(eng, x, q, t, v):
        if t.size == 1 and is_sym(v):
            if q.o in text:
                x.assume(isdef(ch(q.off)))
            elif q.o in delims:
                x.assume(Implies(ult(q.off, nd), D(z3.Select(d, bv(q.off, 64)))))
    eng.on_load = on_load
    skip = mode in ("default", "split1")
    st.ghost["next"] = 0          # where the next piece starts
    st.ghost["closed"] = False    # a piece reaching the end was reported

    def piece(eng, x, f, l, ins, where):
        nx = x.ghost["next"]
        eng.prove(x, Not(x.ghost["closed"]), "no piece after the one that reaches the end", where)
        eng.prove(x, And(ule(nx, f), ule(f, l), ule(l, n)), "piece lies after the previous one and inside the text", where)
        eng.prove(x, Implies(Not(skip), eq(f, nx)), "piece starts right after the previous delimiter", where)
        eng.prove(x, Implies(Not(skip), ult(f, n)), "no piece after a final delimiter", where)
        eng.prove(x, Implies(skip, ult(f, l)), "no empty piece reported when skipping", where)
        eng.prove(x, Implies(And(ule(nx, K), ult(K, f)), D(ch(K))), "only empty pieces are left out", where)
        eng.prove(x, Implies(And(ule(f, K), ult(K, l)), Not(D(ch(K)))), "piece contains no delimiter", where)
        eng.prove(x, Or(eq(l, n), D(ch(l))), "piece ends at a delimiter or at the end", where)
        x.ghost["closed"] = eq(l, n)
        x.ghost["next"] = norm(ite(eq(l, n), n, add(l, 1), 64))
        eng.cover(x, "piece")

    def m_token(eng, x, a, ins, name):
        ok = eng.prove(x, isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o in text and a[1].o in text, "piece refers to the text", fn)
        if ok:
            piece(eng, x, a[0].off, a[1].off, ins, fn)

    def m_emplace2(eng, x, a, ins, name):
        f, l = (eng.load(x, q, T_PTR, ins) for q in a[1:3])
        m_token(eng, x, [f, l], ins, name)
        return NULL

    def m_push(eng, x, a, ins, name):
        """push_back/emplace_back of a std::string whose content is a copy out of the text"""
        v = str_get(eng, x, a[1], ins)
        b = str_bytes(x, v)
        off = None
        while b is not None and b.prev is not None:
            if b.op[0] == "cp":
                off = b.op[4]
                break
            b = b.prev
        if off is None:
            if not eng.prove(x, eq(v.len, 0), "piece is a copy out of the text", fn):
                return NULL
            off = x.ghost["next"]
        else:
            eng.prove(x, And(eq(b.op[1], 0), eq(b.op[2], v.len), any(b.op[3] is x.obj(o).by for o in text)), "piece is a copy out of the text", fn)
        piece(eng, x, off, add(off, v.len), ins, fn)
        return NULL
    def m_ffo(eng, x, a, ins, name):
        """std::find_first_of: the first element of [f,l) equal to an element of [sf,sl), else l"""
        f, l, sf, sl = a
        ok = all(isinstance(q, Ptr) for q in a) and f.o == l.o and sf.o == sl.o
        if not eng.prove(x, ok, "find_first_of is given ranges", eng._where(ins)):
            return []
        eng.prove(x, And(ule(f.off, l.off), ule(l.off, x.obj(f.o).size), ule(sf.off, sl.off), ule(sl.off, x.obj(sf.o).size)) if f.o is not None and sf.o is not None else And(eq(f.off, l.off) if f.o is None else True, eq(sf.off, sl.off) if sf.o is None else True),
                  "find_first_of is given valid ranges", eng._where(ins))
        if f.o is None:
            return f
        whole = sf.o in delims and x.entails(And(eq(sf.off, 0), eq(sl.off, nd)))
        P = D if whole else z3.Function(fresh_name("matches"), z3.BitVecSort(8), z3.BoolSort())
        b = eng.content_bytes(x, x.obj(f.o))
        pos = fresh_bv("first_of", 64)
        x.assume(z3.And(z3.ULE(bv(f.off, 64), pos), z3.ULE(pos, bv(l.off, 64))))
        x.assume(Or(eq(pos, l.off), P(bv(b.read(pos), 8))))
        x.assume(Implies(And(ule(f.off, K), ult(K, pos)), Not(P(bv(b.read(K), 8)))))
        return Ptr(f.o, pos)
    eng.model(r"^(char const\*|__gnu_cxx::__normal_iterator<.*>) std::find_first_of<.*>\(.*\)$", m_ffo, doc="std::find_first_of returns the first position holding one of the given elements, or the end")
    VEC = r"^(std::__cxx11::basic_string<.*>& |void )?std::vector<std::__cxx11::basic_string<char, .*>, std::allocator<std::__cxx11::basic_string<char, .*> > >::"
    DOC = "std::vector<std::string>: appends one element"
    eng.model("^klv_token$", m_token, kind="specification", doc="receives the pieces")
    eng.model(VEC + r"emplace_back<.*>\(.*\)$", lambda e, x, a, i, nm: m_emplace2(e, x, a, i, nm) if len(a) == 3 else m_push(e, x, a, i, nm), doc=DOC)
    eng.model(VEC + r"push_back\(.*\)$", m_push, doc=DOC)

    def hint(eng, fr, L, head, entry):
        res = []
        cs = set()
        for key in list(head.fr.vals):
            v = head.fr.vals[key]
            if isinstance(v, Ptr) and v.o in text:
                cs.add(key)
        for idx, x in enumerate(head.nums):
            if x[5] in text:
                def at(v, idx=idx):
                    return v.nums[idx][3]

                def start(v, idx=idx):
                    return v.nums[idx][4]
                res.append(("scanned part has no delimiter", lambda v, at=at, b=start: Implies(And(ule(b(v), K), ult(K, at(v))), Not(D(ch(K))))))
                res.append(("skipped part is delimiters", lambda v, at=at: Implies(And(ule(v.st.ghost["next"], K), ult(K, at(v))), D(ch(K)))))
                res.append(("position tracks the pieces", lambda v, at=at: Implies(Not(skip), eq(at(v), v.st.ghost["next"]))))
                res.append(("position is not behind the pieces", lambda v, at=at: ule(v.st.ghost["next"], at(v))))
            if x[5] in delims:
                for key in cs:
                    def f(v, idx=idx, key=key):
                        c = ch(v.fr.vals[key].off)
                        return Implies(D(c), ule(v.nums[idx][3], W(c)))
                    res.append(("delimiters before this one differ", f))
                res.append(("delimiters before this one differ from K", lambda v, idx=idx: Implies(D(ch(K)), ule(v.nums[idx][3], W(ch(K))))))
        res.append(("open", lambda v: Not(v.st.ghost["closed"])))
        res.append(("next in range", lambda v: ule(v.st.ghost["next"], n)))
        return res
    eng.loop_hints = [hint]
    eng.cex = lambda m: "%s %s %s" % (mode, model_bytes(m, s, n, 64).hex() or "-", model_bytes(m, d, nd, 64).hex() or "-")
    eng.cex_bias = [And(ule(n, 3), ule(nd, 2)), And(ule(n, 40), ule(nd, 40))]
    if mode == "tok":
        args = [sp, n, dp, nd]
    elif fn.endswith("_str"):
        so, do = local_obj(st, 32, "str"), local_obj(st, 32, "dels")
        sv = str_set(eng, st, so, Bytes(s), n)
        dv = str_set(eng, st, do, Bytes(d), nd)
        text[0], delims[0] = sv.buf, dv.buf
        args = [local_obj(st, 24, "out"), so, do, skip]
    else:
        args = [local_obj(st, 24, "out"), sp, n, dp, nd] + ([skip] if mode != "default" else [])
    for x, oc in eng.call_fn(st, fn, args):
        if oc[0] != "ret":
            eng.prove(x, False, "does not throw", fn, str(oc))
            continue
        eng.cover(x, "returns")
        nx = x.ghost["next"]
        eng.prove(x, Implies(Not(skip), eq(nx, n)), "POST every piece was reported", fn)
        eng.prove(x, Implies(And(ule(nx, K), ult(K, n)), D(ch(K))), "POST no non-empty piece is missing at the end", fn)


def unit(name, fn, mode):
    return (name, SRC, lambda e: run(e, fn, mode))


UNITS = [unit("for_each_token", "klv_tokens", "tok"), unit("split keeping empty pieces", "klv_split", "split0"), unit("split skipping empty pieces", "klv_split", "split1"), unit("split, default flag", "klv_split_default", "default"),
         unit("split of std::string keeping empty pieces", "klv_split_str", "split0"), unit("split of std::string skipping empty pieces", "klv_split_str", "split1")]
DRIVER_SECONDS = 4
ASSUMPTIONS = ["the tokenizer is verified for character sequences given by pointers and by std::string iterators; other iterator types run the same template text", "memory allocation succeeds"]
