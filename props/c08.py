"""C08: resource verbs are atomic and notify once."""
from props.reslib import *


def unit(eng, shape, verb, paths, force=None):
    w = World(eng)
    w.force = force
    for path in paths:
        pre = ((path.rsplit("/", 1)[0] or "/", 1),) if len(path) % 2 else ()
        for s, o in w.run(shape, verb, path, pre):
            where = VERBS[verb]
            st = sint(o["status"])
            if is_sym(st):
                raise Unsupported("symbolic status")
            note = "%s %s status %s" % (path, s.ghost["trace"], st)
            ok = 200 <= st < 300
            if not ok or verb == GET:
                eng.prove(s, Not(eq(o["same"], 0, 32)), "POST a failed operation (and GET) leaves the value as it was", where, note)
                eng.prove(s, Not(eq(o["untouched"], 0, 32)), "POST a failed operation (and GET) leaves the change tracker as it was", where, note)
            else:
                eng.prove(s, not s.ghost["failed"], "POST an operation whose document or validation fails does not succeed", where, note)
                eng.prove(s, eq(o["advance"], 1, 32), "POST a successful operation advances the generation once", where, note)
                eng.prove(s, And(Not(eq(o["at"], 0, 32)), Not(eq(o["root"], 0, 32))), "POST the addressed path and the root report the change", where, note)
                if (SUB[path] and path not in ("/maybe", "/rmaybe")) or verb == POST:
                    eng.prove(s, Not(eq(o["below"], 0, 32)), "POST descendants of a replaced or removed subtree report the change", where, note)
                eng.prove(s, Not(eq(o["reported"], 0, 32)), "POST elements that moved because another was added or removed report the change", where, note)
                eng.cover(s, "success")
            eng.cover(s, "run")


NODES = sorted(SUB)
REST = [n for n in NODES if n not in ("/", "/kids")]
UNITS = []
for _v in (PUT, PATCH):
    for _sh in (2, 0):
        for _f in (3, 5, 0, 1, 2, 4, 6):
            UNITS.append(("%s root, member %d, shape %d" % (VERBS[_v], _f, _sh), SRC, lambda e, v=_v, s=_sh, f=_f: unit(e, s, v, ["/"], f)))
        UNITS.append(("%s kids, shape %d" % (VERBS[_v], _sh), SRC, lambda e, v=_v, s=_sh: unit(e, s, v, ["/kids"])))
        for _k in range(4 if _sh else 1):
            UNITS.append(("%s, shape %d, part %d" % (VERBS[_v], _sh, _k), SRC, lambda e, v=_v, s=_sh, n=REST[_k::4 if _sh else 1]: unit(e, s, v, n)))
for _v in (GET, POST, DEL):
    for _sh in (0, 1, 2):
        UNITS.append(("%s, shape %d" % (VERBS[_v], _sh), SRC, lambda e, v=_v, s=_sh: unit(e, s, v, NODES)))
LEVEL = "other"
DRIVER_SECONDS = 15
