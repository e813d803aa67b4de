"""C16: file_view for every outcome of open/fstat/mmap/munmap/close."""
from klv.spec import *

SRC = ["harness/c16.cpp", "repo:src/file_view_unix.cpp"]
DRIVER_SRC = ["repo:src/file_view_unix.cpp"]
DRIVER_FLAGS = ["-Wl,--wrap=open,--wrap=fstat,--wrap=mmap,--wrap=munmap,--wrap=close,--wrap=open64,--wrap=fstat64,--wrap=mmap64"]
MAPF = mask(64)
ST_SIZE_OFF = 48   # struct stat, x86-64


def install(eng, case):
    def errno_set(st, v):
        eng.write_raw(st, Ptr(st.ghost["errno"], 0), 4, v)

    def fail(st, what):
        s2 = st.fork()
        e = fresh_bv("errno_" + what, 32)
        s2.assume(z3.And(e > 0, e < 134))
        errno_set(s2, e)
        s2.ghost["failed"] = e
        s2.ghost["failed_call"] = what
        return s2

    def m_errno(eng, st, a, ins, name):
        return Ptr(st.ghost["errno"], 0)

    def m_open(eng, st, a, ins, name):
        eng.prove(st, st.ghost["failed"] is None, "no further system call after a failed one (other than releasing)", eng._where(ins))
        eng.prove(st, eng.ptr_eq(st, a[0], st.ghost["path"]), "opens the given path", eng._where(ins))
        eng.prove(st, eq(norm(bv(a[1], 32) & 3), 0, 32), "opens read-only", eng._where(ins))
        s2 = fail(st, "open")
        fd = fresh_bv("fd", 32)
        st.assume(fd >= 0)
        for t in st.ghost["open"]:
            st.assume(fd != t)
        st.ghost["open"] = st.ghost["open"] + (fd,)
        st.ghost["opened"] = st.ghost["opened"] + 1
        return [(st, ("ret", fd)), (s2, ("ret", mask(32)))]

    def is_open(st, fd):
        return Or(*[eq(fd, t, 32) for t in st.ghost["open"]]) if st.ghost["open"] else False

    def m_fstat(eng, st, a, ins, name):
        eng.prove(st, st.ghost["failed"] is None, "no further system call after a failed one (other than releasing)", eng._where(ins))
        eng.prove(st, is_open(st, a[0]), "fstat on the open descriptor", eng._where(ins))
        s2 = fail(st, "fstat")
        eng.check_access(st, a[1], 144, "store", ins) if hasattr(eng, "check_access") else None
        o = st.wobj(a[1].o)
        o.cells = {k: v for k, v in o.cells.items()}
        eng.write_raw(st, Ptr(a[1].o, add(a[1].off, ST_SIZE_OFF)), 8, case["size"])
        st.ghost["statted"] = 1
        return [(st, ("ret", 0)), (s2, ("ret", mask(32)))]

    def m_mmap(eng, st, a, ins, name):
        eng.prove(st, st.ghost["failed"] is None, "no further system call after a failed one (other than releasing)", eng._where(ins))
        eng.prove(st, is_open(st, a[4]), "mmap of the open descriptor", eng._where(ins))
        eng.prove(st, eq(a[5], 0), "mmap from the start of the file", eng._where(ins))
        eng.prove(st, eq(norm(bv(a[2], 32) & 1), 1, 32), "mapping is readable", eng._where(ins))
        eng.prove(st, eq(norm(bv(a[3], 32) & 0x30), 0, 32), "mapping is neither anonymous nor fixed", eng._where(ins))
        s2 = fail(st, "mmap")
        out = []
        st.assume(Not(eq(a[1], 0)))
        if st.feasible():
            oid = st.new_obj(a[1], "mmap", "mapping", by=Bytes(z3.Array("file", z3.BitVecSort(64), z3.BitVecSort(8))))
            st.obj(oid).const = True
            st.ghost["maps"] = st.ghost["maps"] + ((oid, a[1]),)
            out.append((st, ("ret", Ptr(oid, 0))))
        out.append((s2, ("ret", Ptr(None, MAPF))))
        return out

    def m_munmap(eng, st, a, ins, name):
        live = [x for x in st.ghost["maps"] if isinstance(a[0], Ptr) and x[0] == a[0].o]
        ok = eng.prove(st, len(live) == 1, "munmap of a live mapping", eng._where(ins), str(a[0]))
        if ok:
            eng.prove(st, And(eq(a[0].off, 0), eq(a[1], live[0][1])), "munmap of exactly the mapping", eng._where(ins))
            st.ghost["maps"] = tuple(x for x in st.ghost["maps"] if x[0] != a[0].o)
            st.kill(a[0].o)
        errno_set(st, fresh_bv("errno", 32))
        return 0

    def m_close(eng, st, a, ins, name):
        fds = st.ghost["open"]
        hit = [t for t in fds if st.entails(eq(a[0], t, 32))]
        if eng.prove(st, len(hit) == 1, "close of an open descriptor", eng._where(ins), str(a[0])):
            st.ghost["open"] = tuple(t for t in fds if t is not hit[0])
        errno_set(st, fresh_bv("errno", 32))     # close may change errno, and may fail
        r = fresh_bv("closed", 32)
        st.assume(z3.Or(r == 0, r == -1))
        return r

    def m_message(eng, st, a, ins, name):
        str_set(eng, st, a[0], Bytes(b"\0"), 0)

    def m_cat(eng, st, a, ins, name):
        return eng.global_ptr("klv_system_category")
    E = "environment"
    eng.model("^__errno_location$", m_errno, kind=E, doc="thread-local errno")
    eng.model("^open(64)?$", m_open, kind=E, doc="fails with any errno or returns a fresh descriptor")
    eng.model("^fstat(64)?$", m_fstat, kind=E, doc="fails with any errno or reports any non-negative size")
    eng.model("^mmap(64)?$", m_mmap, kind=E, doc="fails with any errno (always for length 0) or maps the file")
    eng.model("^munmap$", m_munmap, kind=E, doc="removes the mapping")
    eng.model("^close$", m_close, kind=E, doc="closes the descriptor, may fail, may change errno")
    eng.model(r"^std::error_code::message", m_message, doc="error text (content irrelevant)")
    eng.model(r"^std::_V2::(system|generic)_category\(\)$", m_cat, doc="error category singleton")


def run(eng):
    st = State(eng)
    size = z3.BitVec("size", 64)
    st.assume(size >= 0)
    st.assume(z3.ULE(size, ALLOC_LIMIT))
    path = local_obj(st, 16, "path")
    view = local_obj(st, 16, "view")
    code = local_obj(st, 4, "code")
    st.ghost.update(errno=local_obj(st, 4, "errno").o, path=path, open=(), opened=0, maps=(), failed=None, failed_call="", statted=0)
    install(eng, {"size": size})
    cur = [None]
    eng.cex = lambda m: [("%d %s %d %d" % (min(mint(m, size), 70000) if mint(m, size) < 70000 else 70000, c, e, x)) for c in ("none", "open", "fstat", "mmap") for e in (13, 5) for x in (0, 1)]
    kinds = set()
    for s, oc in eng.call_fn(st, "klv_open_view", [path, view, code]):
        fn = "file_view::file_view"
        if oc[0] != "ret":
            eng.prove(s, False, "POST only std::system_error is thrown", fn)
            continue
        for s, r in [(s, oc[1])]:
            f = s.ghost["failed"]
            eng.prove(s, len(s.ghost["open"]) == 0, "POST every opened descriptor was closed exactly once", fn, str(s.ghost["open"]))
            if r == 0:
                eng.prove(s, f is None, "POST a failed system call is reported", fn, s.ghost["failed_call"])
                eng.prove(s, s.ghost["opened"] == 1 and s.ghost["statted"] == 1, "POST the file was opened and measured", fn)
                sz = eng.call_fn(s, "klv_size", [view])[0][1][1]
                eng.prove(s, eq(sz, size), "POST the view has the size of the file", fn)
                d = eng.call_fn(s, "klv_data", [view])[0][1][1]
                maps = s.ghost["maps"]
                if maps:
                    eng.prove(s, len(maps) == 1 and isinstance(d, Ptr) and d.o == maps[0][0] and And(eq(d.off, 0), eq(maps[0][1], size)), "POST the view is the mapping of the file", fn)
                    eng.prove(s, Not(eq(sz, 0)), "POST a mapping is kept only for a non-empty view", fn)
                else:
                    eng.prove(s, eq(sz, 0), "POST nothing is exposed without a mapping", fn)
                eng.cover(s, "view of a%s file" % (" non-empty" if maps else "n empty"))
                kinds.add("map" if maps else "empty")
                for s2, oc2 in eng.call_fn(s, "klv_close_view", [view]):
                    eng.prove(s2, oc2[0] == "ret", "POST destructor does not throw", "file_view::~file_view")
                    eng.prove(s2, len(s2.ghost["maps"]) == 0, "POST the mapping was removed exactly once", "file_view::~file_view", str(s2.ghost["maps"]))
                    eng.prove(s2, len(s2.ghost["open"]) == 0, "POST no descriptor left", "file_view::~file_view")
            elif r == 1:
                eng.prove(s, f is not None, "POST throws only when a system call failed", fn)
                eng.prove(s, len(s.ghost["maps"]) == 0, "POST no mapping left behind by a failed construction", fn)
                if f is not None:
                    eng.prove(s, eq(eng.load(s, code, T_I32), f, 32), "POST the error carries the code of the failing call (%s)" % s.ghost["failed_call"], fn)
                    kinds.add(s.ghost["failed_call"])
                    eng.cover(s, "failing " + s.ghost["failed_call"])
            else:
                eng.prove(s, False, "POST only std::system_error is thrown", fn)
    eng.prove(State(eng), kinds >= {"map", "empty", "open", "fstat", "mmap"}, "every outcome of the system calls is analysed", "file_view", str(kinds))


UNITS = [("file_view life cycle", SRC, run)]
DRIVER_SECONDS = 4
ASSUMPTIONS = ["open, fstat, mmap, munmap, close and errno follow their documented contracts (any of open/fstat/mmap may fail with any error code; close always releases the descriptor and may change errno; munmap of an existing mapping succeeds)",
               "fstat reports a non-negative size and the file does not change while it is mapped", "file_view is neither copyable nor movable (checked by the compiler: deleted copy operations); the Windows implementation is not compiled here"]
