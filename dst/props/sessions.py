"""C06, C07: sessions are isolated from each other and from the caller; reading has no side effects."""
import copy
import json

from .. import app, common, docgen, kernel as K, model
from ..common import Viol

READS = ["export", "export", "images", "unused", "graph", "graph", "lookup", "save", "saveimg"]
QUERIES = ["heads", "tails", "leafs", "hoft", "json", "validate", "order"]


def build(rng, tier, prop):
    return build_c06(rng, tier) if prop == "C06" else build_c07(rng, tier)


def execute(scn, dry=False):
    return exec_c06(scn, dry) if scn["prop"] == "C06" else exec_c07(scn, dry)


def clean(op, dry):
    return {k: v for k, v in op.items() if not (dry and k == "f")}


def counts_of(a, o):
    common.note_counts(a, o)
    return dict({k: o.get(k, 0) for k in ("lines", "sys", "nout", "ndc", "trace")}, ok="ok" in o)


def outcome(o):
    """What the caller of an operation sees."""
    if "ok" in o:
        return {"ok": o["ok"]}
    if "exc" in o:
        return {"exc": o["exc"], "msg": o["msg"]}
    return {k: 1 for k in ("dead", "hang", "skip") if k in o}


def read_op(rng, i, doc, n):
    k = rng.choice(READS)
    op = {"op": k}
    if k == "graph":
        op["q"] = rng.choice(QUERIES)
    elif k == "lookup":
        op["names"] = [s["name"] for s in doc["slots"][:3]] + [b["name"] for b in doc["bones"][:3]] + ["default", "no such"]
    elif k in ("save", "saveimg"):
        op["path"] = "/work/%s%d-%d.json" % ("out" if k == "save" else "img", i, rng.randrange(n))
    return op


def scramble(x, depth=0):
    """Spoil a structure in place, as a careless owner might."""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k], depth + 1)
            if not isinstance(x[k], (dict, list)):
                x[k] = "spoiled"
        x["spoiled"] = depth
    elif isinstance(x, list):
        for i in range(len(x)):
            scramble(x[i], depth + 1)
            if not isinstance(x[i], (dict, list)):
                x[i] = "spoiled"
        x.append({"name": "spoiled"})
        x.reverse()


# ================================================================================================ C06
def build_c06(rng, tier):
    nact = rng.choice([2, 2, 2, 3, 3, 4])
    scn = {"prop": "C06", "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192])}
    shared = rng.random() < 0.6
    for i in range(nact):
        d = "d0" if shared and (i < 2 or rng.random() < 0.5) else "d%d" % i
        if d not in scn["docs"]:
            cfg = docgen.default_cfg(rng) if rng.random() < 0.4 else common.small(rng)
            scn["docs"][d] = docgen.gen_doc(rng, cfg)
        doc = scn["docs"][d]
        start = {"op": "new", "doc": d} if rng.random() < 0.7 else {"op": "open", "path": "/work/in/%s.json" % d}
        ops = [start]
        edits = app.gen_edits(rng, doc, rng.choice([1, 2, 2, 3]), bad=rng.choice([0, 0.2]), weights={"scale": 3})
        for n, e in enumerate(edits):
            if e["op"] == "anims" and rng.random() < 0.4:
                e["keepres"] = "r%d.%d" % (i, n)
            if rng.random() < 0.35:
                ops.append(read_op(rng, i, doc, 2))
            if rng.random() < 0.3:
                key = "x%d.%d" % (i, n)
                ops.append({"op": "export", "keep": key})
                ops.append({"op": "scramble", "key": key})
            ops.append(e)
            if "keepres" in e and rng.random() < 0.8:
                ops.append({"op": "scramble", "key": e["keepres"]})
        if start["op"] == "new" and rng.random() < 0.4:
            ops.insert(rng.randrange(1, len(ops) + 1), {"op": "spoil", "doc": d})
        ops.append(read_op(rng, i, doc, 2))
        ops.append({"op": "export"})
        scn["actors"].append({"ops": ops, "doc": d})
    # the caller may spoil an input only when no other session is still to be made from it
    uses = {}
    for i, a in enumerate(scn["actors"]):
        if a["ops"][0]["op"] == "new":
            uses.setdefault(a["doc"], set()).add(i)
    for a in scn["actors"]:
        a["ops"] = [o for o in a["ops"] if o["op"] != "spoil" or len(uses[o["doc"]]) == 1]
    dry = execute(scn, dry=True)
    c = dry.get("counts", {})
    if not c:
        return scn
    if rng.random() < 0.5:
        i = rng.randrange(nact)
        ops = scn["actors"][i]["ops"]
        for j in range(len(ops)):
            o = c.get("%d.%d" % (i, j))
            if o is None or not o["ok"] or rng.random() < 0.5:
                continue
            if app.is_edit(ops[j]):
                f = common.edit_fault(rng, o)
            elif ops[j]["op"] in ("save", "saveimg"):
                f = common.save_fault(rng, o["trace"], o["lines"], ["err", "kbd", "mem", "short"])
            else:
                f = {"at": "line", "n": rng.randrange(1, max(2, o["lines"] + 1)), "do": rng.choice(["kbd", "mem"])}
            if f:
                ops[j]["f"] = [f]
    scn["sched"] = common.gen_sched(rng, nact, sum(o["lines"] for o in c.values()))
    return scn


def run_c06(scn, dry, only=None):
    """Run all sessions in one process under the schedule, or one of them alone, undisturbed and unspoiled."""
    w = common.world(scn)
    for k, v in scn["docs"].items():
        w.fs.put("/work/in/%s.json" % k, app.jbytes(v))
    w.fs.settle()
    proc = w.new_proc()
    args = app.Args(json.loads(json.dumps(scn["docs"])))
    spoiled = set()
    counts, seen, changed = {}, {}, []

    def body_of(i, spec):
        def body(a):
            a.skey = "s%d" % i
            out = seen[i] = []
            faulted = False
            for j, op in enumerate(spec["ops"]):
                if op["op"] in ("scramble", "spoil"):
                    out.append(None)
                    if only is not None:
                        continue
                    if op["op"] == "spoil":
                        spoiled.add(op["doc"])
                        scramble(args.docs[op["doc"]])
                        w.probe("inputs spoiled by their owner")
                    else:
                        x = a.proc.objs.pop(op["key"], None)
                        if x is not None:
                            scramble(x)
                            w.probe("exports spoiled by their owner")
                    continue
                o = app.do(a, clean(op, dry), args)
                counts["%d.%d" % (i, j)] = counts_of(a, o)
                if op.get("f") and not dry and any(f["do"] != "short" for f in op["f"]):
                    faulted = True
                r = outcome(o)
                if "path" in op and op["op"] != "open" and "ok" in o:
                    data = w.fs.get(op["path"])
                    r["file"] = data
                if r.get("ok") is not None:
                    r["ok"] = copy.deepcopy(r["ok"]) if isinstance(r["ok"], (dict, list)) else r["ok"]
                out.append("faulted" if faulted else r)
                for d in args.docs:
                    if d not in spoiled:
                        e = model.diff(scn["docs"][d], args.docs[d])
                        if e:
                            changed.append("after %s of session %d: %s" % (op["op"], i, e))
                            return
        return body
    acts = [(i, s) for i, s in enumerate(scn["actors"]) if only is None or i == only]
    w.run_phase([(proc, body_of(i, s)) for i, s in acts], scn["sched"] if only is None and not dry else [])
    return w, seen, counts, changed


def exec_c06(scn, dry):
    w, seen, counts, changed = run_c06(scn, dry)
    if dry:
        return common.result(w, None, False, extra={"counts": counts})
    viol = None
    if w.deadlock:
        viol = {"class": "deadlock", "detail": "all threads are blocked"}
    elif changed:
        viol = {"class": "input modified", "detail": "the caller's input structure was modified " + changed[0]}
    compared = 0
    for i in range(len(scn["actors"])):
        if viol:
            break
        if not seen[i] or seen[i][0] == "faulted":
            continue
        _, solo, _, _ = run_c06(strip(scn, i), False, only=i)
        K.set_world(w)
        for j, (x, y) in enumerate(zip(seen[i], solo[i])):
            if x == "faulted":
                break
            e = differ(x, y)
            if e:
                viol = {"class": "not isolated", "detail": "session %d, operation %d (%s), together vs alone: %s" %
                        (i, j, scn["actors"][i]["ops"][j]["op"], e)}
                break
            compared += 1
    w.probe("operations compared with a solo run", compared)
    return common.result(w, viol, w.switches > 0 and len(scn["actors"]) > 1 and compared > 0, extra={"counts": counts})


def strip(scn, i):
    """The scenario without faults in session i's undisturbed run."""
    s = dict(scn)
    s["actors"] = [{"doc": a["doc"], "ops": [clean(o, True) for o in a["ops"]]} if k == i else a
                   for k, a in enumerate(scn["actors"])]
    return s


def differ(x, y):
    if x is None or y is None:
        return None
    for k in sorted(set(x) | set(y)):
        if k not in x or k not in y:
            return "%s: %.150r / %.150r" % (k, x.get(k), y.get(k))
        if k == "file":
            if x[k] != y[k]:
                return "saved files differ (%d and %d bytes)" % (len(x[k] or b""), len(y[k] or b""))
            continue
        e = model.diff(x[k], y[k]) if isinstance(x[k], (dict, list)) else None if x[k] == y[k] else "%.150r / %.150r" % (x[k], y[k])
        if e:
            return "%s %s" % (k, e)
    return None


# ================================================================================================ C07
def build_c07(rng, tier):
    nact = rng.choice([2, 2, 2, 3, 3, 4])
    doc = docgen.gen_doc(rng, None if rng.random() < 0.6 else common.small(rng))
    scn = {"prop": "C07", "docs": {"d0": doc}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192])}
    hist = app.gen_edits(rng, doc, rng.choice([0, 1, 2, 3, 4]), bad=0.1)
    cut = rng.randrange(len(hist) + 1)
    scn["setup"] = hist[:cut]
    scn["after"] = hist[cut:] + [{"op": "clean"}]
    if rng.random() < 0.3:
        scn["after"].append({"op": "saveimg", "path": "/work/final.img"})
    for i in range(nact):
        scn["actors"].append({"ops": [read_op(rng, i, doc, 1) for _ in range(rng.choice([1, 2, 3, 4]))]})
    c = execute(scn, dry=True).get("counts", {})
    if not c:
        return scn
    pf = rng.choice([0, 0.3, 0.6])
    for i in range(nact):
        for j, op in enumerate(scn["actors"][i]["ops"]):
            o = c.get("%d.%d" % (i, j))
            if o is None or rng.random() >= pf:
                continue
            if op["op"] in ("save", "saveimg") and rng.random() < 0.5:
                f = common.save_fault(rng, o["trace"], o["lines"], ["err", "kbd", "mem", "short"])
            elif o["ndc"] and rng.random() < 0.2:
                f = {"at": "deepcopy", "n": rng.randrange(1, o["ndc"] + 1), "do": rng.choice(["mem", "kbd"])}
            else:
                f = {"at": "line", "n": rng.randrange(1, max(2, o["lines"] + 1)), "do": rng.choice(["kbd", "mem"])}
            if f:
                op["f"] = [f]
    scn["sched"] = common.gen_sched(rng, nact, sum(o["lines"] for o in c.values()))
    return scn


def answer(a, op):
    """The answer a read gives in a forked copy of the process, where nothing else runs."""
    return K.peek(lambda: app.perform(a, op))


def exec_c07(scn, dry):
    w = common.world(scn)
    w.fs.put("/work/in/d0.json", app.jbytes(scn["docs"]["d0"]))
    w.fs.settle()
    proc = w.new_proc()
    viols, counts, st = [], {}, {}
    setup = [{"op": "open", "path": "/work/in/d0.json"}] + scn["setup"]
    pure = {}

    def key(op):
        return json.dumps({k: v for k, v in op.items() if k != "f"}, sort_keys=True)

    def prepare(a):
        for op in setup:
            o = app.do(a, op)
            if op["op"] == "open" and "ok" not in o:
                st["failed"] = o.get("exc")
                return
        st["before"] = app.observe(a)
        if "broken" in st["before"]:
            st["failed"] = st["before"]["broken"]
            return
        if not dry:
            for spec in scn["actors"]:
                for op in spec["ops"]:
                    if op["op"] not in ("save", "saveimg") and key(op) not in pure:
                        pure[key(op)] = answer(a, op)
    w.run_phase([(proc, prepare)])
    if "failed" in st:
        return common.discard("set-up failed: %s" % st["failed"])

    def reader(i, spec):
        def body(a):
            for j, op in enumerate(spec["ops"]):
                o = app.do(a, clean(op, dry))
                counts["%d.%d" % (i, j)] = counts_of(a, o)
                if dry:
                    continue
                hit = any(f["do"] != "short" for f in op.get("f", ()))
                if "ok" not in o:
                    if not hit and not (op["op"] not in ("save", "saveimg") and pure[key(op)][0] == "exc"):
                        viols.append({"class": "read failed", "detail": "%s in reader %d failed: %s %s" %
                                      (op["op"], i, o.get("exc") or sorted(o), o.get("msg"))})
                        return
                    continue
                if op["op"] in ("save", "saveimg"):
                    want = st["before"]["doc" if op["op"] == "save" else "img"]
                    try:
                        got = json.loads(w.fs.get(op["path"]).decode("utf-8"))
                    except Exception as e:
                        viols.append({"class": "wrong answer", "detail": "%s in reader %d wrote no JSON: %s" % (op["op"], i, e)})
                        return
                    e = model.diff(got, want)
                else:
                    kind, want = pure[key(op)]
                    e = "answered, but alone it raises %s" % want if kind == "exc" else \
                        differ({"ok": o["ok"]}, {"ok": want})
                if e:
                    viols.append({"class": "wrong answer", "detail": "%s in reader %d, together vs alone: %s" % (key(op), i, e)})
                    return
                w.probe("answers compared")
        return body
    w.run_phase([(proc, reader(i, s)) for i, s in enumerate(scn["actors"])], [] if dry else scn["sched"])
    switches = w.switches
    if dry:
        return common.result(w, None, False, extra={"counts": counts})

    def later(a):
        if not viols:
            v = app.observe(a)
            e = model.diff(st["before"], v)
            if e:
                viols.append({"class": "session changed", "detail": "before vs after the reads: %s" % e})
                return
            for op in ({"op": "graph", "q": q} for q in QUERIES):
                if key(op) in pure and answer(a, op) != pure[key(op)]:
                    viols.append({"class": "session changed", "detail": "graph query %r answers differently after the reads" % op["q"]})
                    return
        st["after"] = [outcome(app.do(a, op)) for op in scn["after"]]
        st["end"] = app.observe(a)
        st["file"] = w.fs.get("/work/final.img")
    w.run_phase([(proc, later)])
    if w.deadlock and not viols:
        viols.append({"class": "deadlock", "detail": "all threads are blocked"})
    if not viols:
        # control: the same history without the reads
        w2 = common.world(scn)
        w2.fs.put("/work/in/d0.json", app.jbytes(scn["docs"]["d0"]))
        w2.fs.settle()
        p2 = w2.new_proc()
        ct = {}

        def control(a):
            for op in setup:
                app.do(a, op)
            ct["after"] = [outcome(app.do(a, op)) for op in scn["after"]]
            ct["end"] = app.observe(a)
            ct["file"] = w2.fs.get("/work/final.img")
        w2.run_phase([(p2, control)])
        K.set_world(w)
        for j, (x, y) in enumerate(zip(st["after"], ct["after"])):
            e = differ(x, y)
            if e:
                viols.append({"class": "later edit differs", "detail": "%s after the reads vs without them: %s" %
                              (scn["after"][j]["op"], e)})
                break
        e = model.diff(st["end"], ct["end"]) or (st["file"] != ct["file"] and "saved index")
        if e and not viols:
            viols.append({"class": "later edit differs", "detail": "final state after the reads vs without them: %s" % e})
    return common.result(w, viols[0] if viols else None, switches > 0, extra={"counts": counts})


RULE = {
    "C06": "One run = 2-4 sessions in threads of one process, made from files or from one shared input structure, each with a "
           "history of edits, reads and saves under a random line-level schedule; optionally one of them gets interrupts, "
           "allocation failures and disk errors, and owners spoil exported documents and inputs they no longer need. Every "
           "outcome, saved file and export is compared with a run of that session alone; shared inputs must stay unmodified. "
           "Non-trivial: at least two sessions, one preemption and one comparison. Distinct: by the hash of the full event log.",
    "C07": "One run = one session (after 0-4 edits) read by 2-4 threads at once (export, save, image references, unused sets, "
           "graph and name queries) under a random line-level schedule with interrupts, allocation failures and disk errors in "
           "some reads; every uninterrupted answer is compared with the answer in a forked copy, the session with its state "
           "before, and later edits with a run without the reads. Non-trivial: at least one preemption. Distinct: by the hash of "
           "the full event log.",
}
