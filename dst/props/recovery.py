"""C09: killing the process anywhere and going on from the newest saved document is transparent to editing."""
import json

from .. import app, common, docgen, kernel as K, model
from ..common import Viol
from .sessions import clean, counts_of


def build(rng, tier, prop):
    nact = rng.choice([1, 1, 1, 2])
    scn = {"prop": prop, "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192]),
           "obs": rng.choice(["fork", "direct", "direct"])}
    for i in range(nact):
        d = "d%d" % i
        r = rng.random()
        cfg = docgen.default_cfg(rng) if r < 0.4 else common.bias(rng, rng.choice(["C11", "C12", "C13", "C14", "C15", "C16"]))
        doc = scn["docs"][d] = docgen.gen_doc(rng, cfg)
        edits = app.gen_edits(rng, doc, rng.choice([1, 2, 2, 3, 4, 5]), bad=rng.choice([0, 0.1]), again=rng.choice([0.05, 0.2]),
                              weights=rng.choice([None, None, {"scale": 5}]))
        ops = [{"op": "open", "path": "/work/in/%s.json" % d}]
        ps = rng.choice([0.3, 0.6, 0.9])
        paths = rng.choice([["out%d.json"], ["/work/new/out%d.json"], ["a%d.json", "b%d.json"]])

        def between():
            if rng.random() < ps:
                ops.append({"op": "save", "path": rng.choice(paths) % i})
            if rng.random() < 0.15:
                ops.append({"op": "saveimg", "path": "img%d.json" % i})
            if rng.random() < 0.15:
                ops.append({"op": rng.choice(["export", "images", "unused"])})
            if rng.random() < 0.2:
                ops.append({"op": "exit"})
        between()
        for e in edits:
            ops.append(e)
            between()
        scn["actors"].append({"ops": ops, "doc": d})
    c = execute(scn, dry=True).get("counts", {})
    pk = rng.choice([0.15, 0.3, 0.6])
    for i, a in enumerate(scn["actors"]):
        for j, op in enumerate(a["ops"]):
            o = c.get("%d.%d" % (i, j))
            if o is None or rng.random() >= pk:
                continue
            if op["op"] in ("save", "saveimg"):
                f = common.save_fault(rng, o["trace"], o["lines"], ["kill"])
            else:
                f = {"at": "line", "n": rng.randrange(1, max(2, o["lines"] + 1)), "do": "kill"}
            if f:
                op["f"] = [f]
    if nact > 1:
        scn["sched"] = common.gen_sched(rng, nact, sum(o["lines"] for o in c.values()))
    return scn


def baseline(scn, i):
    """The document and image index after every edit of session i, in one uninterrupted session that only edits."""
    w = common.world(scn)
    spec = scn["actors"][i]
    w.fs.put("/work/in/%s.json" % spec["doc"], app.jbytes(scn["docs"][spec["doc"]]))
    w.fs.settle()
    out = []

    def body(a):
        o = app.do(a, {"op": "open", "path": "/work/in/%s.json" % spec["doc"]})
        if "ok" not in o:
            return
        out.append((True, app.observe(a, None, "direct")))
        for op in spec["ops"]:
            if app.is_edit(op):
                o = app.do(a, clean(op, True))
                out.append(("ok" in o, app.observe(a, None, "direct")))
                if "broken" in out[-1][1]:
                    return
    w.run_phase([(w.new_proc(), body)])
    return out


def execute(scn, dry=False):
    base = {} if dry else {i: baseline(scn, i) for i in range(len(scn["actors"]))}
    if any(not b for b in base.values()):
        return common.discard("the document cannot be opened")
    w = common.world(scn)
    for k, v in scn["docs"].items():
        w.fs.put("/work/in/%s.json" % k, app.jbytes(v))
    w.fs.settle()
    proc = w.new_proc()
    viols, counts = [], {}
    st = {"rec": 0, "done": 0}

    def body_of(i, spec):
        def body(a):
            a.skey = "s%d" % i
            try:
                run(w, a, i, spec, scn, dry, base.get(i), counts, st)
            except Viol as v:
                viols.append({"class": v.cls, "detail": "session %d: %s" % (i, v.detail)})
                w.ev("violation", v.cls)
        return body
    w.run_phase([(proc, body_of(i, s)) for i, s in enumerate(scn["actors"])], [] if dry else scn["sched"])
    if w.deadlock:
        viols.append({"class": "deadlock", "detail": "all threads are blocked"})
    return common.result(w, viols[0] if viols else None, st["rec"] > 0 and st["done"] > 0, extra={"counts": counts})


def run(w, a, i, spec, scn, dry, base, counts, st):
    ops = spec["ops"]
    orig = "/work/in/%s.json" % spec["doc"]
    edits_before = [sum(app.is_edit(o) for o in ops[:j]) for j in range(len(ops) + 1)]
    used, exited = set(), set()
    newest = None                  # (path, bytes, position to go on from) of the newest saved document
    pos = 0

    def compare(j, what):
        """The session against the uninterrupted one after the edits of ops[:j]."""
        if dry:
            return
        n = edits_before[j]
        if n >= len(base):
            return
        v = app.observe(a, None, scn["obs"])
        if "broken" in base[n][1]:
            return
        if v is None or "broken" in v:
            raise Viol("unusable", "%s: the session cannot be exported: %s" % (what, v))
        e = model.diff(v["doc"], base[n][1]["doc"])
        if e:
            raise Viol("document differs", "%s: restarted vs uninterrupted session: %s" % (what, e))
        e = model.diff(v["img"], base[n][1]["img"])
        if e:
            raise Viol("image index differs", "%s: restarted vs uninterrupted session: %s" % (what, e))

    def recover(pos, why):
        """Start a new process and reopen the newest saved document, or the original one."""
        w.replace_proc(a)
        if newest is None:
            w.probe("restarted from the original document")
            return 0
        path, data, at = newest
        if w.fs.get(path) != data:
            raise Viol("saved document lost", "%s: the newest saved document, %r, no longer has its content" % (why, path))
        o = app.do(a, {"op": "open", "path": path})
        if o.get("dead"):
            return recover(pos, why)
        if "ok" not in o:
            raise Viol("not reopenable", "%s: reopening the saved document failed: %s %s" % (why, o.get("exc"), o.get("msg")))
        st["rec"] += 1
        w.probe("restarted from a saved document")
        compare(at, "%s, reopened" % why)
        return at
    while pos < len(ops):
        op = ops[pos]
        q = clean(op, dry or pos in used)
        used.add(pos)
        if op["op"] == "exit":
            if dry:
                pos += 1
                continue
            if pos in exited:
                pos += 1
                continue
            exited.add(pos)
            pos = recover(pos, "exit")
            continue
        if a.proc.dead:
            pos = recover(pos, "killed together with the other thread")
            continue
        before = w.fs.get(op["path"]) if op["op"] == "save" else None
        want = None
        if op["op"] == "save" and not dry and (q.get("f") or len(scn["actors"]) > 1):
            v = app.observe(a, None, scn["obs"])
            want = v.get("doc") if v else None
        o = app.do(a, q)
        if "%d.%d" % (i, pos) not in counts:
            counts["%d.%d" % (i, pos)] = counts_of(a, o)
        if o.get("skip"):
            return
        if o.get("dead"):
            why = "killed in " + op["op"]
            if op["op"] == "save":
                data = w.fs.get(op["path"])
                if data != before:
                    try:
                        e = model.diff(json.loads(data.decode("utf-8")), want)
                    except Exception as x:
                        e = "no complete JSON document (%s)" % type(x).__name__
                    if e:
                        raise Viol("saved document lost", "%s: %r is neither the previous nor the new document: %s" %
                                   (why, op["path"], e))
                    newest = (op["path"], data, pos + 1)
            pos = recover(pos, why)
            continue
        if app.is_edit(op):
            st["done"] += 1
            n = edits_before[pos + 1]
            if not dry and n < len(base) and ("ok" in o) != base[n][0]:
                raise Viol("edit outcome differs", "%s: %r, in the uninterrupted session it %s" %
                           (op["op"], o.get("exc", "accepted"), "succeeds" if base[n][0] else "fails"))
            compare(pos + 1, "after " + op["op"])
        elif "ok" not in o:
            if op["op"] == "open":
                raise Viol("not reopenable", "opening the original document failed: %s" % o.get("exc"))
            if op["op"] in ("save", "saveimg"):
                raise Viol("save failed", "%s failed without a fault: %s %s" % (op["op"], o.get("exc"), o.get("msg")))
        elif op["op"] == "save":
            newest = (op["path"], w.fs.get(op["path"]), pos + 1)
        pos += 1
    compare(len(spec["ops"]), "at the end")


RULE = ("One run = a generated document (or two, in two threads of one process), a history of 1-5 edits with saves, reads and clean "
        "exits in between, and kills at any line of edits, reads and opens and at any system call or written byte of saves. After "
        "every kill a new process reopens the newest saved document (the original when there is none) and goes on with the "
        "edits that follow it. After every edit and every reopening, document and image index are compared with an "
        "uninterrupted session that only edits. Non-trivial: at least one restart from a saved document and one edit. Distinct: by "
        "the hash of the full event log.")
