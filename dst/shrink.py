"""Minimise a failing scenario: drop actors, operations, faults and schedule entries, then shrink documents."""
import copy
import json

from . import common, kernel as K


def variants(scn, level):
    """Smaller scenarios, in the order in which they should be tried."""
    if level == 0:
        if scn.get("sched"):
            s = copy.deepcopy(scn)
            s["sched"] = []
            yield "no schedule", s
        if len(scn.get("actors", [])) > 1:
            for i in range(len(scn["actors"])):
                s = copy.deepcopy(scn)
                del s["actors"][i]
                s["sched"] = []
                yield "drop actor %d, no schedule" % i, s
                s = copy.deepcopy(scn)
                del s["actors"][i]
                yield "drop actor %d" % i, s
        for i, a in enumerate(scn.get("actors", [])):
            for j in range(len(a["ops"]) - 1, -1, -1):
                s = copy.deepcopy(scn)
                del s["actors"][i]["ops"][j]
                yield "drop op %d.%d" % (i, j), s
        for key in ("setup", "after", "corrupt"):
            for j in range(len(scn.get(key) or []) - 1, -1, -1):
                s = copy.deepcopy(scn)
                del s[key][j]
                yield "drop %s %d" % (key, j), s
        for i, a in enumerate(scn.get("actors", [])):
            for j, op in enumerate(a["ops"]):
                if op.get("f"):
                    s = copy.deepcopy(scn)
                    del s["actors"][i]["ops"][j]["f"]
                    yield "drop fault %d.%d" % (i, j), s
    elif level == 1:
        n = len(scn.get("sched") or [])
        size = n
        while size >= 1:
            for at in range(0, n, size):
                s = copy.deepcopy(scn)
                del s["sched"][at:at + size]
                if len(s["sched"]) < n:
                    yield "drop schedule %d+%d" % (at, size), s
            size //= 2
            if n > 64 and size < n // 64:
                break
    else:
        for d in sorted(scn.get("docs", {})):
            doc = scn["docs"][d]
            for p in paths(doc):
                s = copy.deepcopy(scn)
                x = s["docs"][d]
                for k in p[:-1]:
                    x = x[k]
                del x[p[-1]]
                if common.valid_doc(s["docs"][d]):
                    yield "drop %s%s" % (d, p), s
        for i, a in enumerate(scn.get("actors", [])):
            for j, op in enumerate(a["ops"]):
                if isinstance(op.get("names"), list) and len(op["names"]) > 1:
                    for k in range(len(op["names"])):
                        s = copy.deepcopy(scn)
                        del s["actors"][i]["ops"][j]["names"][k]
                        yield "drop name", s


def paths(doc):
    """Deletable places of a document, largest first."""
    out = []

    def walk(x, p, depth):
        if isinstance(x, dict):
            for k, v in x.items():
                if p or k not in ("skeleton", "bones", "slots", "skins"):
                    out.append((len(json.dumps(v)), p + [k]))
                if depth < 7:
                    walk(v, p + [k], depth + 1)
        elif isinstance(x, list):
            for i in range(len(x)):
                if isinstance(x[i], (dict, list)):
                    out.append((len(json.dumps(x[i])), p + [i]))
                    if depth < 7:
                        walk(x[i], p + [i], depth + 1)
    walk(doc, [], 0)
    out.sort(key=lambda t: -t[0])
    return [p for _, p in out if not (len(p) == 2 and p[0] == "skeleton" and p[1] in ("spine",))]


def shrink(scn, run, cls, seconds):
    """run(scn) -> violation class or None.  Greedy, bounded by time."""
    clock = K.REAL["monotonic"]
    end = clock() + seconds
    tried = kept = 0
    progress = True
    while progress and clock() < end:
        progress = False
        for level in (0, 1, 2):
            again = True
            while again and clock() < end:
                again = False
                for what, s in variants(scn, level):
                    if clock() >= end:
                        break
                    tried += 1
                    if run(s) == cls:
                        scn = s
                        kept += 1
                        again = progress = True
                        break
    return scn, {"tried": tried, "accepted": kept}
