"""C09: read-only members and child keys."""
from props.reslib import *


def unit(eng, shape, verb, paths, force=None, many=False):
    w = World(eng)
    w.many = many
    eng.width_unroll = 4000 if many else 64
    w.force = force
    for path in paths:
        for s, o in w.run(shape, verb, path):
            where = VERBS[verb]
            st = sint(o["status"])
            if is_sym(st):
                raise Unsupported("symbolic status")
            note = "%s %s status %s" % (path, s.ghost["trace"], st)
            ok = 200 <= st < 300
            if (path, verb) in PROTECTED:
                eng.prove(s, not ok, "POST an operation on a read-only node does not succeed", where, note)
                eng.prove(s, Not(eq(o["same"], 0, 32)), "POST an operation on a read-only node modifies nothing", where, note)
            eng.prove(s, Not(eq(o["unique"], 0, 32)), "POST child keys stay unique", where, note)
            if path.count("/") >= 2 and verb in (PUT, PATCH):
                eng.prove(s, Not(eq(o["keys"], 0, 32)), "POST an operation on a child leaves the keys of its collection as they were", where, note)
            if path.count("/") >= 4 and verb in (PUT, PATCH):
                eng.prove(s, Not(eq(o["toys"], 0, 32)), "POST an operation on a grandchild leaves the keys of its collection as they were", where, note)
            eng.cover(s, "run")


UNITS = []
for _v in (PUT, PATCH):
    for _sh in (2, 0):
        for _f in (3, 5):
            UNITS.append(("%s root, member %d, shape %d" % (VERBS[_v], _f, _sh), SRC, lambda e, v=_v, s=_sh, f=_f: unit(e, s, v, ["/"], f)))
        UNITS.append(("%s kids, shape %d" % (VERBS[_v], _sh), SRC, lambda e, v=_v, s=_sh: unit(e, s, v, ["/kids"])))
    for _sh in (0, 2):
        for _k in range(3):
            UNITS.append(("%s, shape %d, part %d" % (VERBS[_v], _sh, _k), SRC, lambda e, v=_v, s=_sh, k=_k: unit(e, s, v, [p for p in GUARDED if p != "/kids"][k::3])))
    UNITS.append(("%s many kids" % VERBS[_v], SRC, lambda e, v=_v: unit(e, 1, v, ["/kids"], many=True)))
    UNITS.append(("%s many kids at the root" % VERBS[_v], SRC, lambda e, v=_v: unit(e, 0, v, ["/"], 3, many=True)))
    UNITS.append(("%s a kid with toys" % VERBS[_v], SRC, lambda e, v=_v: unit(e, 2, v, ["/kids/a"], many=True)))
UNITS.append(("post a kid with toys", SRC, lambda e: unit(e, 2, POST, ["/kids", "/kids/a/toys"], many=True)))
for _v in (POST, DEL):
    for _sh in (0, 1, 2):
        UNITS.append(("%s, shape %d" % (VERBS[_v], _sh), SRC, lambda e, v=_v, s=_sh: unit(e, s, v, GUARDED)))
LEVEL = "other"
DRIVER_SECONDS = 10
