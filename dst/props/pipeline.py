"""C11-C16, C22: invariants of a session's document after every step of a history of edits, rejected and interrupted edits,
saves, disk errors, crashes and restarts, in one or two threads.

Each oracle is a relation between the documents before and after a step, computed by the independent model."""
import json

from .. import app, common, docgen, kernel as K, model
from ..common import Viol


class St:
    """What the harness knows about one session."""

    def __init__(self, doc):
        self.orig = doc
        self.draw = model.draw_baseline(doc)
        self.dang = model.dangling(doc)
        self.base = model.scales(doc)
        self.aff = model.scaled_bones(doc)
        self.fx = self.fy = 1.0
        self.cur = None
        self.saved = {}          # path -> (bytes, fx, fy, doc)


def build(rng, tier, prop):
    nact = 2 if rng.random() < 0.25 else 1
    scn = {"prop": prop, "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192, 8192]),
           "obs": rng.choice(["fork", "direct", "direct"])}
    for i in range(nact):
        cfg = common.bias(rng, prop)
        doc = docgen.gen_doc(rng, cfg)
        d = "d%d" % i
        scn["docs"][d] = doc
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        wt = {"C13": {"scale": 0.5}, "C16": {"scale": 6}, "C22": {"scale": 0.3, "skins": 5}}.get(prop)
        edits = app.gen_edits(rng, doc, n, weights=wt, bad=rng.choice([0, 0.1, 0.3]))
        ops = [{"op": "open", "path": "/work/%s.json" % d} if rng.random() < 0.8 else {"op": "new", "doc": d}]
        for e in edits:
            ops.append(e)
            r = rng.random()
            if r < 0.3:
                ops.append({"op": "save", "path": "/work/out%d.json" % i})
            elif r < 0.4:
                ops.append({"op": "saveimg", "path": "/work/img%d.json" % i})
            elif r < 0.5:
                ops.append({"op": rng.choice(["export", "images", "unused"])})
            elif r < 0.6:
                ops.append({"op": "reopen"})
        scn["actors"].append({"ops": ops, "doc": d, "out": "/work/out%d.json" % i})
    # fault-free run: counts for placing faults
    dry = execute(scn, dry=True)
    if dry.get("discard") or dry.get("viol"):
        return scn                  # already decided without any fault
    counts = dry["counts"]
    pf = rng.choice([0, 0.2, 0.5])
    for i, a in enumerate(scn["actors"]):
        for j, op in enumerate(a["ops"]):
            o = counts.get("%d.%d" % (i, j))
            if o is None or rng.random() > pf or op["op"] == "reopen":
                continue
            f = None
            if app.is_edit(op):
                if not o["ok"]:
                    continue        # one failure per call: no fault while a rejected request is being undone
                f = common.edit_fault(rng, o, ("kbd", "mem", "stdout", "deepcopy", "kill"))
            elif op["op"] in ("save", "saveimg"):
                f = common.save_fault(rng, o["trace"], o["lines"], ("err", "kill", "kbd", "short"))
            if f:
                op["f"] = [f]
    if nact > 1:
        scn["sched"] = common.gen_sched(rng, nact, sum(o["lines"] for o in counts.values()))
    return scn


def execute(scn, dry=False):
    prop = scn["prop"]
    w = common.world(scn)
    args = app.Args({k: json.loads(json.dumps(v)) for k, v in scn["docs"].items()})
    for k, v in scn["docs"].items():
        w.fs.put("/work/%s.json" % k, app.jbytes(v))
    w.fs.settle()
    proc = w.new_proc(scn.get("enc", "utf-8"), scn.get("out", "utf-8"))
    res = {"counts": {}, "edits": 0, "discard": None}
    viols = []

    def body_of(i, spec):
        st = St(scn["docs"][spec["doc"]])

        def obs(a):
            v = app.observe(a, None, scn["obs"])
            if v is not None and "broken" in v:
                raise Viol("unusable", "the session can no longer be exported: %s" % v["broken"])
            return v

        def reopen(a, why):
            """Open the newest saved document (or the original) in a fresh process."""
            if a.proc.dead:
                w.replace_proc(a)
            a.proc.sess.pop(a.skey, None)
            path = spec["out"] if w.fs.get(spec["out"]) is not None else "/work/%s.json" % spec["doc"]
            data = w.fs.get(path)
            exp = None
            if path == spec["out"]:
                exp = st.saved.get(data)
                if exp is None:
                    w.probe("saved file unknown")       # torn or foreign content: other properties' business
                    return False
            o = app.do(a, {"op": "open", "path": path}, args)
            if o.get("dead"):
                return reopen(a, why)
            if "ok" not in o:
                w.probe("reopen failed")
                return False
            w.probe("reopened after " + why)
            v = obs(a)
            st.fx, st.fy, doc = exp if exp else (1.0, 1.0, st.orig)
            pre = {"doc": doc}
            check(prop, st, {"op": "reopen"}, {"ok": None}, pre, v, w)
            st.cur = v
            return True

        def run(a):
            for j, op in enumerate(spec["ops"]):
                if a.proc.dead and a.proc.sess is not None and not dry:
                    if not reopen(a, "kill of the other thread"):
                        return
                if op["op"] == "reopen":
                    if a.proc.sess.get(a.skey) is not None and not reopen(a, "exit"):
                        return
                    continue
                if op["op"] not in ("open", "new") and a.proc.sess.get(a.skey) is None:
                    return
                path = op.get("path")
                before = w.fs.get(path) if path else None
                pre = st.cur
                o = app.do(a, {k: v for k, v in op.items() if not (dry and k == "f")}, args)
                common.note_counts(a, o)
                res["counts"]["%d.%d" % (i, j)] = dict({k: o.get(k, 0) for k in ("lines", "sys", "nout", "ndc", "trace")},
                                                       ok="ok" in o)
                if op["op"] in ("open", "new"):
                    if o.get("dead"):
                        if not reopen(a, "kill while opening"):
                            return
                        continue
                    if "ok" not in o:
                        res["discard"] = "open failed: %s %s" % (o.get("exc"), o.get("msg"))
                        return
                    st.cur = obs(a)
                    check(prop, st, op, o, {"doc": st.orig}, st.cur, w)
                    continue
                if o.get("hang"):
                    raise Viol("hang", "%s did not finish within %d steps" % (op["op"], w.line_budget))
                if op["op"] == "save":
                    data = w.fs.get(path)
                    if data is not None and data != before:
                        st.saved[data] = (st.fx, st.fy, pre["doc"])
                if o.get("dead"):
                    if not reopen(a, "kill in " + op["op"]):
                        return
                    continue
                if "ok" in o and op["op"] == "scale":
                    if not all(isinstance(op[k], (int, float)) for k in "xy"):
                        return                         # accepted: what it means is nobody's promise
                    st.fx *= op["x"]
                    st.fy *= op["y"]
                if app.is_edit(op):
                    res["edits"] += 1
                    if "ok" not in o:
                        w.probe("edit failed: " + o["exc"])
                        if not (op.get("f") and not dry) and refused_wrongly(prop, op, pre["doc"]):
                            raise Viol("edit refused", "%s of a valid request failed without a fault: %s %s" %
                                       (op["op"], o["exc"], o.get("msg")))
                post = obs(a)
                if "exc" in o and not dry and model.diff(pre, post) and app.came_late(a, op, pre, post):
                    w.probe("interrupted when returning")
                    if op["op"] == "scale":
                        st.fx *= op["x"]
                        st.fy *= op["y"]
                    if prop in ("C14", "C15", "C22"):          # relations between the documents before and after
                        st.cur = post
                        continue
                check(prop, st, op, o, pre, post, w)
                if prop == "C11" and op["op"] == "saveimg" and "ok" in o:
                    try:
                        idx = json.loads(w.fs.get(path).decode("utf-8"))
                    except Exception as e:
                        raise Viol("saved index", "saved image index is unreadable: %s" % e)
                    e = model.check_index(idx, post["doc"])
                    if e:
                        raise Viol("saved index", e)
                st.cur = post

        def body(a):
            a.skey = "s%d" % i
            try:
                run(a)
            except Viol as v:
                viols.append({"class": v.cls, "detail": "session %d: %s" % (i, v.detail)})
                w.ev("violation", v.cls)
        return body

    w.run_phase([(proc, body_of(i, s)) for i, s in enumerate(scn["actors"])], [] if dry else scn["sched"])
    if res["discard"] and not viols:
        return common.discard(res["discard"])
    if w.deadlock:
        viols.append({"class": "deadlock", "detail": "all threads are blocked"})
    return common.result(w, viols[0] if viols else None, res["edits"] > 0, extra={"counts": res["counts"]})


def refused_wrongly(prop, op, doc):
    """Is this failed edit one that the property says takes effect?"""
    if op["op"] == "scale":
        return prop in ("C14", "C16") and isinstance(op["x"], (int, float)) and isinstance(op["y"], (int, float))
    if prop == "C15" and op.get("safe") or prop not in ("C14", "C15", "C22"):
        return False
    if op["op"] == "clean":
        return True
    n = names_of(op)
    if n is None or len(set(n)) != len(n) or not n:
        return False
    if op["op"] == "anims" and op.get("strict") is False:
        return True
    return set(n) <= (set(doc.get("animations", {})) if op["op"] == "anims" else {s["name"] for s in doc["skins"]})


def names_of(op):
    x = app.thaw(op["names"])
    return x if isinstance(x, list) else None


def expected(op, pre):
    """The document after the named animations/skins are taken out, or None if the request is outside the model."""
    doc = pre["doc"]
    if op["op"] == "clean":
        return doc
    n = names_of(op)
    if n is None:
        return None
    if op["op"] == "anims":
        return model.erase_anims(doc, n)
    if len(set(n)) != len(n) or not set(n) <= {s["name"] for s in doc["skins"]}:
        return None
    return model.erase_skins(doc, n)


def check(prop, st, op, out, pre, post, w):
    what = op["op"] + (" (failed: %s)" % out.get("exc") if "ok" not in out else "")
    doc = post["doc"]
    if prop == "C11":
        e = model.check_index(post["img"], doc)
        if e:
            raise Viol("index", "after %s: %s" % (what, e))
    elif prop == "C12":
        x = sorted(model.dangling(doc) - st.dang)
        if x:
            raise Viol("dangling " + " ".join(x[0].split()[:1]), "after %s: dangling reference: %s" % (what, x[0]))
        x = model.lost_defaults(pre["doc"], doc)
        if x:
            raise Viol("dangling default", "after %s: %s" % (what, x))
    elif prop == "C13":
        e = model.check_draw(st.draw, doc)
        if e:
            raise Viol("draw order", "after %s: %s" % (what, e))
        if any(k.get("offsets") for a in doc.get("animations", {}).values() for k in a.get("drawOrder", [])):
            w.probe("draw keys with offsets checked")
            if len(doc.get("slots", [])) < len(st.draw[None]):
                w.probe("draw keys checked after slot removal")
    elif prop == "C14":
        check_c14(op, out, pre, post, what, w)
    elif prop == "C15":
        if "ok" in out and op["op"] in ("anims", "skins", "clean") and not op.get("safe"):
            p = expected(op, pre)
            if p is None:
                return
            e = model.check_cleanup(p, doc, out["ok"]["slots"])
            if e:
                raise Viol("cleanup", "after %s: %s" % (what, e))
            if len(p.get("slots", [])) > len(doc.get("slots", [])):
                w.probe("cleanup removed slots")
            elif doc.get("slots"):
                w.probe("cleanup kept all slots")
    elif prop == "C22":
        check_report(op, out, pre, post, what, w)
    elif prop == "C16":
        e = model.check_scales(doc, st.base, st.aff, st.fx, st.fy)
        if e:
            raise Viol("scale", "after %s: %s" % (what, e))
        if st.fx != 1 or st.fy != 1:
            w.probe("scaled state checked after " + op["op"])


def check_report(op, out, pre, post, what, w):
    if "ok" not in out or op["op"] not in ("anims", "skins", "clean"):
        return
    r, doc = out["ok"], post["doc"]
    if op["op"] == "anims":
        e = model.diff(json.loads(json.dumps(r["doc"])), doc)
        if e:
            raise Viol("returned document", "after %s: returned vs exported document: %s" % (what, e))
    n = names_of(op) if op["op"] != "clean" else []
    have = pre["doc"].get("animations", {}) if op["op"] == "anims" else {s["name"] for s in pre["doc"]["skins"]}
    lost = [x for x in n or [] if x not in have]
    if lost and (op["op"] == "skins" or op.get("strict", True)):
        raise Viol("accepted", "%s was accepted although there is no %r" % (what, lost[0]))
    p = expected(op, pre)
    if p is None:
        return
    if op.get("safe"):
        if r["slots"] or r["atts"]:
            raise Viol("reported slots", "safe %s reports removals: %r %r" % (what, r["slots"], r["atts"]))
    else:
        gone = {s["name"] for s in p.get("slots", [])} - {s["name"] for s in doc.get("slots", [])}
        if r["slots"] != sorted(gone):
            raise Viol("reported slots", "after %s: reported removed slots %r, actually removed %r" % (what, r["slots"], sorted(gone)))
        was, now = model.entries_of(p), model.entries_of(doc)
        rep = set(r["atts"])
        for x in sorted(now):
            if x[2] in rep:
                raise Viol("reported attachments", "after %s: attachment %r was reported as removed, but is still there: %r" % (what, x[2], x))
        x = sorted(rep - {n for _, _, n in was})
        if x:
            raise Viol("reported attachments", "after %s: attachment %r was reported as removed, but did not exist" % (what, x[0]))
        for x in sorted(was - now):
            if x[1] not in gone and x[2] not in rep:
                raise Viol("reported attachments", "after %s: attachment %r was removed, but not reported" % (what, x))
        if rep:
            w.probe("reported attachments checked")
        if gone:
            w.probe("reported slots checked")
    if op["op"] == "skins":
        n = set(names_of(op))
        gone = {model.image_of(a, k) for s in pre["doc"]["skins"] if s["name"] in n
                for m in (s.get("attachments") or {}).values() for k, a in m.items() if a.get("type") != "path"}
        want = gone - set(model.image_index(p))
        if set(r["imgs"]) != want:
            raise Viol("reported images", "after %s: reported unused images %r, but the erased skins leave %r unused" %
                       (what, sorted(set(r["imgs"]) - want) or "lack some", sorted(want - set(r["imgs"])) or "none of these"))
        if want:
            w.probe("reported images checked")


def check_c14(op, out, pre, post, what, w):
    k = op["op"]
    e = model.check_order(pre["doc"], post["doc"])
    if e:
        raise Viol("order after " + k, "after %s the %s" % (what, e))
    if "ok" not in out or not app.is_edit(op):
        e = model.diff(model.canon(pre["doc"]), model.canon(post["doc"]))
        if e:
            raise Viol("changed by " + k, "%s changed the document: %s" % (what, e))
        return
    if k == "scale":
        def noscale(d):
            d = model.canon(d)
            d["bones"] = [{x: y for x, y in b.items() if x not in ("scaleX", "scaleY")} for b in d["bones"]]
            return d
        e = model.diff(noscale(pre["doc"]), noscale(post["doc"]))
        if e:
            raise Viol("changed by scale", "scale changed more than bone scales: %s" % e)
        return
    p = expected(op, pre)
    if p is None:
        return
    if op.get("safe"):
        e = model.diff(model.canon(p), model.canon(post["doc"]))
        if e:
            raise Viol("safe " + k, "safe-mode %s: document should be %s" % (k, e))
        w.probe("safe mode checked")
        return
    e = model.check_rest(p, post["doc"])
    if e:
        raise Viol("rest " + k, "after %s, expected vs actual remaining content: %s" % (what, e))
    if k == "skins" and any(a.get("type") == "mesh" and b.get("type") == "linkedmesh"
                            for a, b in pairs(p, pre["doc"])):
        w.probe("linked mesh kept geometry of an erased skin")


def pairs(p, q):
    b = {s["name"]: s.get("attachments") or {} for s in q.get("skins", [])}
    for s in p.get("skins", []):
        for sl, m in (s.get("attachments") or {}).items():
            for n, a in m.items():
                o = b.get(s["name"], {}).get(sl, {}).get(n)
                if o:
                    yield a, o


RULE = ("One run = a generated document (or two, in two threads), a history of 1-5 edits mixed with rejected requests, saves, "
        "index saves, reads and restarts, and faults (interrupts and allocation failures at any line, failing standard "
        "output, kills, disk errors) placed at positions measured on the fault-free run; the invariant is evaluated after "
        "every operation and every restart. Non-trivial: at least one edit was executed. Distinct: by the hash of the full "
        "event log.")
