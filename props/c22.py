"""C22: deferred actions run exactly once on every way out, last first."""
from klv.spec import *

SRC = ["harness/c22.cpp"]


def install(eng, counters=False):
    def ev(eng, st, a, ins, name):
        if counters:
            k = "cnt_%s" % a[0]
            st.ghost[k] = add(st.ghost.get(k, 0), 1)
        else:
            st.ghost["trace"] = st.ghost.get("trace", ()) + (a[0],)

    def cond(eng, st, a, ins, name):
        return fresh_bool("cond")

    def may_throw(eng, st, a, ins, name):
        s2 = st.fork()
        s2.ghost["threw"] = 1
        return [(st, ("ret", None)), eng.throw(s2, "_ZTI9klv_error")]
    eng.model("^klv_ev$", ev, kind="environment", doc="observed event of the test program")
    eng.model("^klv_cond$", cond, kind="environment", doc="arbitrary decision of the enclosing code")
    eng.model("^klv_may_throw$", may_throw, kind="environment", doc="arbitrary user code: returns or throws")


def run(eng, fn, args, want):
    """want(outcome kind, threw, trace) -> (Bool, msg)"""
    install(eng)
    st = State(eng)
    seen = set()
    for s, oc in eng.call_fn(st, fn, args):
        tr = s.ghost.get("trace", ())
        w = want(s, oc[0], s.ghost.get("threw", 0), oc[1] if oc[0] == "ret" else None)
        ok = len(tr) == len(w) and And(*[eq(x, y, 32) for x, y in zip(tr, w)])
        eng.prove(s, ok, "POST events are exactly the actions in reverse order", fn, "trace %s want %s" % (tr, w))
        eng.cover(s, "%s %s %s" % (fn, oc[0], len(seen)))
        seen.add((oc[0], tr))
    return seen


def exits(eng):
    k = z3.BitVec("k", 32)
    base = {0: [100, 1], 1: [100, 101, 2, 1], 2: [100, 101, 2, 1], 3: [100, 101, 102, 4, 5, 3, 2, 1], 4: [100, 101, 102, 4, 5, 3, 2, 1],
            5: [100, 101, 102, 4, 5, 3, 105, 2, 1]}
    throws = {2, 4}
    rets = {0: 5, 1: 6, 3: 7, 5: 8}
    install(eng)
    for kk in list(base) + [None]:
        st = State(eng)
        if kk is None:
            st.assume(z3.And([k != x for x in base]))
        else:
            st.assume(k == kk)
        for s, oc in eng.call_fn(st, "klv_exits", [k]):
            tr = list(s.ghost.get("trace", ()))
            if kk is None:
                w = [100, 101, 102, 4, 5, 3, 2, 1] if s.ghost.get("threw") else [100, 101, 102, 103, 4, 5, 3, 104, 105, 2, 1]
                how = "exc" if s.ghost.get("threw") else "ret"
                rv = 8
            else:
                w = base[kk]
                how = "exc" if kk in throws else "ret"
                rv = rets.get(kk)
            eng.prove(s, tr == w and oc[0] == how, "POST actions run once, in reverse order, on this exit", "klv_exits", "exit %s: %s want %s" % (kk, tr, w))
            if how == "ret":
                eng.prove(s, eq(oc[1], rv, 32), "POST return value kept", "klv_exits")
            eng.cover(s, "exit %s %s" % (kk, oc[0]))


def values(eng):
    a, b, k = z3.BitVec("a", 32), z3.BitVec("b", 32), z3.BitVec("k", 32)
    run(eng, "klv_values", [a, b, k], lambda s, oc, t, r: [norm(z3.If(z3.ULE(k, 1), b, b ^ 12345))])
    st = State(eng)
    for s, oc in eng.call_fn(st, "klv_retval", [a]):
        eng.prove(s, eq(oc[1], a, 32), "POST result computed before the action", "klv_retval")
        eng.prove(s, s.ghost.get("trace") == (1,), "POST action ran once", "klv_retval")


def loop(eng):
    install(eng, True)
    n = z3.BitVec("n", 64)
    st = State(eng)
    for k in (1, 200, 201, 202):
        st.ghost["cnt_%d" % k] = 0

    def hint(eng, fr, L, head, entry):
        return [("every entered iteration ran its action", lambda v: eq(v.st.ghost["cnt_1"], v.st.ghost["cnt_200"]))]
    eng.loop_hints = [hint]
    kinds = set()
    for s, oc in eng.call_fn(st, "klv_loop", [n]):
        eng.prove(s, eq(s.ghost["cnt_1"], s.ghost["cnt_200"]), "POST one action per entered iteration", "klv_loop")
        eng.cover(s, "klv_loop " + oc[0] + str(len(kinds)))
        kinds.add(oc[0])
    eng.prove(State(eng), kinds == {"ret", "exc"}, "all exits analysed", "klv_loop", str(kinds))


def nested(eng):
    def want(s, oc, t, r):
        w = ([1, 101] if t else [100, 1]) + [102]
        tr = s.ghost["trace"]
        return w + [tr[3] if len(tr) == 6 and tr[3] in (4, 5) else 4, 2, 3]
    seen = run(eng, "klv_nested", [], want)
    eng.prove(State(eng), {t[3] for _, t in seen if len(t) == 6} == {4, 5} and all(o == "ret" for o, t in seen), "both branches of the action reachable", "klv_nested")


def simple(eng):
    run(eng, "klv_fall", [], lambda s, oc, t, r: [100, 101, 1, 102])
    run(eng, "klv_same_line", [], lambda s, oc, t, r: [3, 2, 1] if t else [100, 3, 2, 1])


UNITS = [("scope falls through", SRC, simple), ("return/throw/goto exits", SRC, exits), ("values at exit", SRC, values), ("loop exits", SRC, loop), ("nested scopes", SRC, nested)]
ASSUMPTIONS = ["the macro is verified in the seven scope shapes of harness/c22.cpp (fall-through, return, throw, goto, break, continue, nested, several per scope), each with arbitrary decisions, throwing user code and any number of iterations; scope_exit_t itself is verified through every one of them"]
DRIVER_SECONDS = 2
