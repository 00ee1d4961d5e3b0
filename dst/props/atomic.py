"""C10: an edit that raises, for whatever reason, leaves no trace."""
import json

from .. import app, common, docgen, kernel as K, model
from ..common import Viol
from .sessions import counts_of, differ, outcome, read_op

FAULT_KEYS = ("f", "g")


def build(rng, tier, prop):
    scn = {"prop": prop, "docs": {}, "actors": [], "sched": [], "bufsz": 8192, "out": rng.choice(["utf-8", "utf-8", "ascii"])}
    cfg = docgen.default_cfg(rng) if rng.random() < 0.4 else common.bias(rng, rng.choice(["C11", "C12", "C13", "C14", "C15", "C16"]))
    doc = scn["docs"]["d0"] = docgen.gen_doc(rng, cfg)
    edits = app.gen_edits(rng, doc, rng.choice([1, 1, 2, 3, 4]), bad=rng.choice([0, 0.2, 0.5]))
    ops = [{"op": "open", "path": "/work/d0.json"} if rng.random() < 0.7 else {"op": "new", "doc": "d0"}]
    for n, e in enumerate(edits):
        ops.append(e)
        if rng.random() < 0.35:
            ops.append(read_op(rng, 0, doc, 1))
    scn["actors"].append({"ops": ops})
    c = execute(scn, dry=True).get("counts", {})
    pf = rng.choice([0.3, 0.7, 1])
    for j, op in enumerate(ops):
        o = c.get("0.%d" % j)
        if o is None or not app.is_edit(op) or not o["ok"]:
            continue           # one failure per call: no fault while a rejected request is being undone
        if rng.random() < pf:
            f = common.edit_fault(rng, o)
            if f:
                op["f"] = [f]
                if rng.random() < 0.2:
                    g = common.edit_fault(rng, o)
                    if g:
                        op["g"] = [g]
    return scn


def session(scn, mode, rejected=()):
    """mode 'all': every operation, no faults; 'only good': without those that are rejected; 'faults': the simulation proper."""
    w = common.world(scn)
    w.fs.put("/work/d0.json", app.jbytes(scn["docs"]["d0"]))
    w.fs.settle()
    args = app.Args(json.loads(json.dumps(scn["docs"])))
    seen, viols, counts = {}, [], {}
    st = {"failed": 0}

    def record(a, j, op, o):
        r = outcome(o)
        if op["op"] in ("save", "saveimg") and "ok" in o:
            r["file"] = w.fs.get(op["path"])
        seen[j] = r

    def body(a):
        for j, op in enumerate(scn["actors"][0]["ops"]):
            q = {k: v for k, v in op.items() if k not in FAULT_KEYS}
            if j in rejected:
                continue
            if "names" in op and app.is_edit(op):
                q["obj"] = app.thaw(op["names"])      # the caller repeats the call with the very same argument
            if mode == "faults" and app.is_edit(op):
                for k in FAULT_KEYS:
                    if not op.get(k):
                        continue
                    pre = app.observe(a)
                    o = app.do(a, dict(q, f=op[k]), args)
                    if "ok" in o:
                        break
                    if not fail(a, op, o, pre, k):
                        return
                else:
                    pre = app.observe(a)
                    o = app.do(a, q, args)
                    if "ok" not in o and not fail(a, op, o, pre):
                        return
            else:
                o = app.do(a, q, args)
            counts["0.%d" % j] = counts_of(a, o)
            record(a, j, op, o)
            if j == 0 and "ok" not in o:
                return
        seen["end"] = {"ok": app.observe(a)}

    def fail(a, op, o, pre, k=None):
        post = app.observe(a)
        st["failed"] += 1
        w.probe("failed edits checked (%s)" % o.get("exc", sorted(o)))
        if pre is None or post is None:
            return True
        if "broken" in post and "broken" not in pre:
            viols.append({"class": "unusable", "detail": "%s raised %s and the session cannot be exported any more: %s" %
                          (op["op"], o.get("exc"), post["broken"])})
        else:
            e = model.diff(pre, post)
            if e and k and app.came_late(a, {**op, "f": op[k], "g": None}, pre, post):
                w.probe("interrupted when returning")
                st["late"] = True
                return False
            if e:
                viols.append({"class": "not atomic", "detail": "%s raised %s but changed the session: %s" % (op["op"], o.get("exc"), e)})
        return not viols
    w.run_phase([(w.new_proc("utf-8", scn.get("out", "utf-8")), body)])
    return w, seen, viols, counts, st


def execute(scn, dry=False):
    w, plain, _, counts, _ = session(scn, "all")
    if dry:
        return common.result(w, None, False, extra={"counts": counts})
    if "ok" not in plain.get(0, {}):
        return common.discard("the document cannot be opened")
    edit = {j for j, op in enumerate(scn["actors"][0]["ops"]) if app.is_edit(op)}
    rejected = {j for j in edit if "ok" not in plain.get(j, {"ok": 1})}
    w, seen, viols, counts, st = session(scn, "faults")
    if not viols:
        runs = [("failed attempts", seen)]
        if rejected:
            runs.append(("rejected requests", plain))
        _, good, _, _, _ = session(scn, "only good", rejected)
        K.set_world(w)
        for what, got in runs:
            for j in sorted(good, key=lambda x: (x == "end", x if x != "end" else 0)):
                if j not in got and st.get("late") and got is seen:
                    continue
                e = differ(got.get(j), good[j]) if j in got else "not reached"
                if e:
                    n = "final state" if j == "end" else "%s (operation %d)" % (scn["actors"][0]["ops"][j]["op"], j)
                    viols.append({"class": "trace left", "detail": "%s with %s before it vs without them: %s" % (n, what, e)})
                    break
            if viols:
                break
        for j in sorted(rejected):
            if not viols and "ok" in seen.get(j, {}):
                viols.append({"class": "trace left", "detail": "operation %d is rejected, but accepted after failed attempts" % j})
    return common.result(w, viols[0] if viols else None, st["failed"] > 0, extra={"counts": counts})


RULE = ("One run = a generated document and a history of 1-4 edits mixed with rejected requests, reads and saves. Accepted edits get "
        "one fault per attempt (interrupt or allocation failure at any line, failing or closed standard output, failing copies), "
        "at positions measured on the fault-free run, and are repeated without it. The session seen from a forked copy must be the "
        "same before and after every attempt that raised, and every later outcome, saved file and the final state must be those "
        "of a session without the failed attempts and rejected requests. Non-trivial: at least one edit raised. Distinct: by the "
        "hash of the full event log.")
