"""C23: long use does not wear a process out.

A cycle of operations that leaves the document as it is (some of them rejected, interrupted or hit by disk errors, at the
same place in every cycle) is repeated; open files, locks, files on disk, memory reachable from the sessions and the
library's modules, and the steps each operation takes must not grow with the number of cycles."""
import gc
import json
import sys
import types

from .. import app, common, docgen, kernel as K, model
from ..common import Viol
from .sessions import clean, counts_of, read_op

CYCLES = 9
MEASURE = (3, 5, 9)


def build(rng, tier, prop):
    scn = {"prop": prop, "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192])}
    cfg = common.small(rng) if rng.random() < 0.7 else docgen.default_cfg(rng)
    doc = scn["docs"]["d0"] = docgen.gen_doc(rng, cfg)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        if r < 0.12:
            ops += [{"op": "scale", "x": 2, "y": 0.5}, {"op": "scale", "x": 0.5, "y": 2}]
        elif r < 0.24:
            ops.append({"op": "clean"})
        elif r < 0.4:
            e = app.gen_bad(rng, list(doc.get("animations", {})), [s["name"] for s in doc["skins"]])
            if e["op"] == "scale" or isinstance(e["names"], dict) or "no such animation" in e["names"] or "no such skin" in e["names"]:
                ops.append(e)
        elif r < 0.48:
            ops.append({"op": "anims", "names": ["no such"] if rng.random() < 0.5 else [], "strict": False, "safe": rng.random() < 0.5})
        elif r < 0.53:
            ops.append({"op": "skins", "names": [], "safe": rng.random() < 0.5})
        elif r < 0.63:
            ops.append({"op": "open", "path": "/work/d0.json", "s": "t"})
        elif r < 0.68:
            ops.append({"op": "new", "doc": "d0", "s": "t"})
        elif r < 0.73:
            ops.append({"op": "open", "path": rng.choice(["/work/missing.json", "/work/bad.json"]), "s": "u"})
        else:
            ops.append(read_op(rng, 0, doc, 2))
    if not ops:
        ops.append({"op": "save", "path": "/work/out.json"})
    scn["actors"].append({"ops": ops, "doc": "d0", "start": rng.random() < 0.7})
    c = execute(scn, dry=True).get("counts", {})
    pf = rng.choice([0, 0.3, 0.6])
    for j, op in enumerate(ops):
        o = c.get(str(j))
        if o is None or not o["ok"] or rng.random() >= pf:
            continue
        if op["op"] in ("save", "saveimg"):
            f = common.save_fault(rng, o["trace"], o["lines"], ["err", "kbd", "mem", "short"])
        elif op["op"] == "scale":
            f = None                    # only the pair leaves the document as it is
        elif app.is_edit(op):
            f = common.edit_fault(rng, o)
        elif op["op"] == "open" and o["trace"] and rng.random() < 0.6:
            f = common.save_fault(rng, o["trace"], o["lines"], ["err", "kbd", "mem"])
        else:
            f = {"at": "line", "n": rng.randrange(1, max(2, o["lines"] + 1)), "do": rng.choice(["kbd", "mem"])}
        if f:
            op["f"] = [f]
    return scn


def footprint(proc):
    """Number and bytes of the objects reachable from the sessions and the library's modules."""
    names = set(proc.mods)
    skip = {id(m.__dict__.get("__builtins__")) for m in proc.mods.values()}
    stack = list(proc.mods.values()) + list(proc.sess.values())
    seen = set()
    n = size = 0
    while stack:
        o = stack.pop()
        i = id(o)
        if i in seen or i in skip:
            continue
        seen.add(i)
        if isinstance(o, types.ModuleType):
            if o.__name__ in names:
                stack.append(o.__dict__)
            continue
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)):
            if getattr(o, "__module__", None) not in names:
                continue
        elif isinstance(o, (types.CodeType, types.FrameType, types.MethodDescriptorType, types.GetSetDescriptorType,
                            types.WrapperDescriptorType, types.MemberDescriptorType)):
            continue
        elif (type(o).__module__ or "").startswith("dst"):
            continue
        n += 1
        size += sys.getsizeof(o, 0)
        if isinstance(o, (str, bytes, int, float, bool, type(None))):
            continue
        stack.extend(gc.get_referents(o))
    return n, size


def execute(scn, dry=False):
    w = common.world(scn)
    docs = json.loads(json.dumps(scn["docs"]))
    args = app.Args(docs)
    w.fs.put("/work/d0.json", app.jbytes(scn["docs"]["d0"]))
    w.fs.put("/work/bad.json", app.jbytes(scn["docs"]["d0"])[:-7])
    w.fs.settle()
    proc = w.new_proc()
    spec = scn["actors"][0]
    viols, counts = [], {}
    st = {"discard": None, "cost": {}, "foot": [], "files": []}

    def tidy(a, op, o):
        gc.collect()
        if a.proc.fds:
            raise Viol("open file left", "%s (%s) left %d file(s) open: %s" %
                       (op["op"], o.get("exc", "ok"), len(a.proc.fds), sorted(str(f.path) for f in a.proc.fds.values())[:3]))
        for l in w.__dict__.get("locks", ()):
            if l.owner is a:
                raise Viol("lock left", "%s (%s) left a lock held" % (op["op"], o.get("exc", "ok")))

    def run(a):
        start = {"op": "open", "path": "/work/d0.json"} if spec["start"] else {"op": "new", "doc": "d0"}
        o = app.do(a, start, args)
        if "ok" not in o:
            st["discard"] = "open failed: %s" % o.get("exc")
            return
        for n in range(1, (1 if dry else CYCLES) + 1):
            for j, op in enumerate(spec["ops"]):
                if op["op"] == "open" and n == 1 and not op.get("f") and "d0" not in op["path"]:
                    w.probe("failing opens repeated")
                o = app.do(a, clean(op, dry), args)
                if n == 1:
                    counts[str(j)] = counts_of(a, o)
                if o.get("hang"):
                    raise Viol("hang", "%s did not finish within %d steps" % (op["op"], w.line_budget))
                if w.deadlock or o.get("dead"):
                    raise Viol("deadlock", "%s waits for a lock for ever" % op["op"])
                out = (o.get("exc", "ok"), o["lines"], o["sys"])
                o = {k: o[k] for k in ("exc",) if k in o}
                w.hist.clear()
                tidy(a, op, o)
                if dry:
                    continue
                st["cost"].setdefault(n, []).append(out)
            a.proc.objs.clear()
            if n in MEASURE:
                gc.collect()
                st["foot"].append(footprint(a.proc))
                st["files"].append(len(list(w.fs.files())))
                st.setdefault("doc", []).append(app.observe(a, None, "direct"))
        if dry:
            return
        d1, d2, d3 = st["doc"]
        if "broken" in d3 or "broken" in d1 or model.diff(d1["doc"], d2["doc"]) or model.diff(d2["doc"], d3["doc"]):
            st["discard"] = "the cycle changes the document"
            return
        (n1, b1), (n2, b2), (n3, b3) = st["foot"]
        d, e = MEASURE[1] - MEASURE[0], MEASURE[2] - MEASURE[1]
        if n2 - n1 >= d and n3 - n2 >= e or b2 - b1 >= 8 * d and b3 - b2 >= 8 * e:
            raise Viol("memory grows", "after %d, %d and %d repetitions of the same operations the library holds %d, %d and %d "
                       "objects (%d, %d and %d bytes) for the same document" % (MEASURE + (n1, n2, n3, b1, b2, b3)))
        f1, f2, f3 = st["files"]
        if f1 < f2 < f3:
            raise Viol("files grow", "after %d, %d and %d repetitions there are %d, %d and %d files" % (MEASURE + (f1, f2, f3)))
        for j, op in enumerate(spec["ops"]):
            (r1, l1, s1), (r2, l2, s2), (r3, l3, s3) = (st["cost"][m][j] for m in MEASURE)
            if r1 == r2 == r3 == "ok" and (l1 < l2 < l3 and l3 - l1 > 0.02 * l1 or s1 < s2 < s3):
                raise Viol("cost grows", "%s takes %d, %d and %d steps (%d, %d and %d system calls) in repetitions %d, %d and %d, for "
                           "the same document" % ((op["op"], l1, l2, l3, s1, s2, s3) + MEASURE))
        w.probe("cycles compared")

    def body(a):
        a.skey = "s"
        try:
            run(a)
        except Viol as v:
            viols.append({"class": v.cls, "detail": v.detail})
            w.ev("violation", v.cls)
    w.run_phase([(proc, body)])
    if w.deadlock and not viols:
        viols.append({"class": "deadlock", "detail": "an operation waits for a lock for ever"})
    if st["discard"] and not viols:
        return dict(common.discard(st["discard"]), counts=counts)
    return common.result(w, viols[0] if viols else None, bool(w.fired) or not any(o.get("f") for o in spec["ops"]), extra={"counts": counts})


RULE = ("One run = a generated document and a cycle of 2-5 operations that leaves it as it is (reads, saves, idempotent edits, "
        "inverse scalings, openings, rejected requests), some hit in every cycle by the same interrupt, allocation failure or disk error; the "
        "cycle is repeated nine times. After every call no file may be open and no lock held; between repetitions 3, 5 and 9 the "
        "objects and bytes reachable from the sessions and the library's modules, the files on disk and the steps and system "
        "calls of every operation must not grow. Non-trivial: the planned faults struck, or none were planned. Distinct: by "
        "the hash of the full event log.")
