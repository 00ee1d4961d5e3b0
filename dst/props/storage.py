"""C01-C05: saving and opening files under kills, power loss, interrupts, disk errors and concurrency."""
import json

from .. import app, common, docgen, kernel as K, model
from ..common import Viol

PATHS = ["/work/out.json", "out.json", "./out.json", "/work/new/deep/out.json", "sub/new/out.json", "/work/sub/out.json",
         "sub/out.json", "../home/out.json", "/abs/x/../out.json", "/work//sub/out.json", "näme ü.json", "/work/new dir/o.x",
         "/work/out", "link/out.json"]


def build(rng, tier, prop):
    return BUILD[prop](rng, tier)


def execute(scn, dry=False):
    return EXEC[scn["prop"]](scn, dry)


def setup_fs(w, scn):
    fs = w.fs
    for d in scn.get("dirs", []):
        fs._mkdir_p(d)
    links = dict(scn.get("links") or {})
    for p in [p for p, t in links.items() if not t.endswith(".json")]:
        fs.put_link(p, links.pop(p))
    for k, v in scn["docs"].items():
        fs.put("/work/in/%s.json" % k, app.jbytes(v))
    for p, txt in (scn.get("files") or {}).items():
        fs.put(p, txt.encode("utf-8"))
    for p, t in links.items():
        fs.put_link(p, t)
    fs.settle()


def parse(data):
    """Strictly read JSON bytes (None when they are not one complete JSON document)."""
    if data is None:
        return None
    try:
        return {"v": json.loads(data.decode("utf-8"))}
    except (ValueError, UnicodeError):
        return None


def expect_file(data, want, what):
    if data is None:
        raise Viol("save lost", "%s: there is no file" % what)
    p = parse(data)
    if p is None:
        raise Viol("save incomplete", "%s: the file is not a complete JSON document (%d bytes: %r ... %r)" %
                   (what, len(data), data[:30], data[-30:]))
    d = model.diff(p["v"], want)
    if d:
        raise Viol("save content", "%s: file vs session: %s" % (what, d))


def run_body(viols, w, fn, i):
    def body(a):
        a.skey = "s%d" % i
        try:
            fn(a, i)
        except Viol as v:
            viols.append({"class": v.cls, "detail": "actor %d: %s" % (i, v.detail)})
            w.ev("violation", v.cls)
    return body


def finish(w, viols, nontrivial, counts):
    if w.deadlock:
        viols.append({"class": "deadlock", "detail": "all threads are blocked"})
    return common.result(w, viols[0] if viols else None, nontrivial, extra={"counts": counts})


def counts_of(a, o):
    common.note_counts(a, o)
    return {k: o.get(k, 0) for k in ("lines", "sys", "nout", "ndc", "trace")}


def clean_op(op, dry):
    return {k: v for k, v in op.items() if not (dry and k == "f")}


# ================================================================================================ C01
def build_c01(rng, tier):
    nact = rng.choice([1, 1, 1, 2])
    scn = {"prop": "C01", "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192, 8192]), "files": {},
           "dirs": ["/work/sub", "/abs/x"], "links": {"/work/link": "/home"}}
    for i in range(nact):
        doc = docgen.gen_doc(rng, None if rng.random() < 0.5 else common.small(rng))
        d = "d%d" % i
        scn["docs"][d] = doc
        paths = [rng.choice(PATHS) + ("" if nact == 1 else str(i)) for _ in range(2)]
        ipath = rng.choice(PATHS) + ".img%d" % i
        for p in paths + [ipath]:
            if rng.random() < 0.5:
                # an earlier, usually longer, file is already there
                scn["files"][norm(p)] = rng.choice(["{}", "old" * 9000, json.dumps(doc) + " " * 5000])
        ops = [{"op": "open", "path": "/work/in/%s.json" % d} if rng.random() < 0.8 else {"op": "new", "doc": d}]
        for e in app.gen_edits(rng, doc, rng.choice([0, 1, 2, 3, 4]), bad=0):
            ops.append(e)
        body, k = [], 0
        for e in ops[1:] + [None]:
            for _ in range(rng.choice([0, 0, 1, 2])):
                r = rng.random()
                if r < 0.6:
                    body.append({"op": "save", "path": rng.choice(paths)})
                elif r < 0.75:
                    body.append({"op": "saveimg", "path": ipath})
                elif r < 0.9:
                    body.append({"op": rng.choice(["export", "images", "unused"])})
                else:
                    body.append({"op": "open", "path": "/work/in/%s.json" % d, "s": "other"})
            if e is not None:
                body.append(e)
        if not any(o["op"] == "save" for o in body):
            body.append({"op": "save", "path": paths[0]})
        scn["actors"].append({"ops": ops[:1] + body, "doc": d})
    dry = execute(scn, dry=True)
    c = dry.get("counts", {})
    if rng.random() < 0.6:
        i = rng.randrange(nact)
        ops = scn["actors"][i]["ops"]
        j = rng.randrange(len(ops))
        o = c.get("%d.%d" % (i, j))
        if o:
            if ops[j]["op"] in ("save", "saveimg"):
                f = common.save_fault(rng, o["trace"], o["lines"], ["kill"])
            else:
                f = {"at": "line", "n": rng.randrange(1, max(2, o["lines"] + 1)), "do": "kill"}
            if f:
                ops[j]["f"] = [f]
    if rng.random() < 0.25:
        # short writes are not errors: the save must still be complete
        for i, a in enumerate(scn["actors"]):
            for j, op in enumerate(a["ops"]):
                o = c.get("%d.%d" % (i, j))
                if o and op["op"] in ("save", "saveimg") and not op.get("f") and rng.random() < 0.5:
                    f = common.save_fault(rng, o["trace"], o["lines"], ["short"])
                    if f:
                        op["f"] = [f]
    if nact > 1:
        scn["sched"] = common.gen_sched(rng, nact, sum(o["lines"] for o in c.values()))
    return scn


def norm(p):
    return p if p.startswith("/") else "/work/" + p


def exec_c01(scn, dry):
    w = common.world(scn)
    setup_fs(w, scn)
    args = app.Args(json.loads(json.dumps(scn["docs"])))
    proc = w.new_proc()
    shadowp = w.new_proc(name="shadow")
    viols, counts, acked = [], {}, {}
    busy = {}

    def fn(a, i):
        spec = scn["actors"][i]
        shadow = {}
        want = None
        alive = True
        for j, op in enumerate(spec["ops"]):
            if a.proc.dead:
                alive = False
                break
            o = app.do(a, clean_op(op, dry), args)
            counts["%d.%d" % (i, j)] = counts_of(a, o)
            path = op.get("path")
            if op["op"] in ("save", "saveimg") and not o.get("skip"):
                if "ok" not in o and not o.get("dead"):
                    raise Viol("save failed", "%s to %r failed without a fault: %s %s" % (op["op"], path, o.get("exc"), o.get("msg")))
            if o.get("dead"):
                if op["op"] in ("save", "saveimg"):
                    acked.pop(w.fs.path_key(path), None)
                break
            if op["op"] in ("open", "new") and "s" not in op:
                if "ok" not in o:
                    w.probe("open failed")
                    return
                want = shadow_do(a, op, shadow)
            elif app.is_edit(op) and "ok" in o:
                want = shadow_do(a, op, shadow)
            elif op["op"] in ("save", "saveimg") and "ok" in o:
                if want is None or "broken" in want:
                    w.probe("shadow session unusable")
                    continue
                data = w.fs.get(path)
                expect_file(data, want["doc"] if op["op"] == "save" else want["img"], "%s to %r" % (op["op"], path))
                if w.fs.mode_of(path) & 0o444 != 0o444:
                    raise Viol("save unreadable", "%s to %r: file mode %o" % (op["op"], path, w.fs.mode_of(path)))
                acked[w.fs.path_key(path)] = (data, op["op"], i, path)
                w.probe("acknowledged saves")
        return

    def shadow_do(a, op, st):
        """The same edit in a session of another process that never saves; observed from outside."""
        keep = a.proc
        a.proc = shadowp
        shadowp.activate()
        try:
            q = {k: v for k, v in op.items() if k != "f"}
            o = app.do(a, q, args)
            if "ok" not in o:
                return {"broken": "edit failed in the shadow session: %s" % o.get("exc")}
            return app.observe(a)
        finally:
            a.proc = keep
            keep.activate()

    w.run_phase([(proc, run_body(viols, w, fn, i)) for i in range(len(scn["actors"]))], [] if dry else scn["sched"])
    saves = len(acked)
    if not viols and not w.deadlock and not dry:
        # everything acknowledged is still there, and every document can be reopened
        p2 = w.new_proc(name="fresh")

        def fin(a, i):
            for path, (data, kind, who, raw) in sorted(acked.items()):
                if w.fs.get(raw) != data:
                    raise Viol("save undone", "%r no longer holds the acknowledged content" % raw)
                if kind != "save":
                    continue
                a.skey = "re" + path
                o = app.do(a, {"op": "open", "path": raw})
                if "ok" not in o:
                    raise Viol("not reopenable", "acknowledged document %r cannot be reopened: %s %s" %
                               (raw, o.get("exc") or "killed", o.get("msg")))
                v = app.observe(a)
                if "broken" in v:
                    raise Viol("not reopenable", "reopened document %r cannot be exported: %s" % (raw, v["broken"]))
                d = model.diff(json.loads(data.decode("utf-8")), v["doc"])
                if d:
                    raise Viol("reopened differs", "saved vs reopened %r: %s" % (raw, d))
                w.probe("reopened acknowledged saves")
        w.run_phase([(p2, run_body(viols, w, fin, 99))])
    return finish(w, viols, saves > 0, counts)


# ================================================================================================ C02
def build_c02(rng, tier):
    doc = docgen.gen_doc(rng, common.small(rng) if rng.random() < 0.75 else None)
    scn = {"prop": "C02", "docs": {"d0": doc}, "actors": [], "sched": [], "bufsz": rng.choice([64, 256, 1024, 8192]), "files": {},
           "dirs": ["/work/sub", "/abs/x"], "links": {"/work/link": "/home"}}
    path = rng.choice(PATHS)
    r = rng.random()
    if r < 0.7:
        old = rng.choice([json.dumps(doc, indent=4), json.dumps(doc), "{}", "x" * 50000, "previous", ""])
        if rng.random() < 0.15 and "link" not in path:
            scn["files"]["/abs/real.json"] = old
            scn["links"][norm(path)] = "/abs/real.json"
        else:
            scn["files"][norm(path)] = old
    kind = "save" if rng.random() < 0.75 else "saveimg"
    ops = [{"op": "open", "path": "/work/in/d0.json"}]
    edits = app.gen_edits(rng, doc, rng.choice([0, 1, 2, 3]), bad=0)
    for e in edits:
        ops += [e] if rng.random() < 0.6 else [{"op": kind, "path": path}, e]
    ops.append({"op": kind, "path": path})
    if rng.random() < 0.3:
        ops.append({"op": kind, "path": path})
    scn["actors"] = [{"ops": ops, "doc": "d0"}]
    c = execute(scn, dry=True).get("counts", {})
    many = rng.random() < 0.4
    idx = [j for j, op in enumerate(ops) if op["op"] == kind]
    for j in idx:
        o = c.get("0.%d" % j)
        if o and (many or j == idx[-1]):
            f = common.save_fault(rng, o["trace"], o["lines"], ["kill", "power", "power", "kbd", "mem", "err", "err"])
            if f:
                ops[j]["f"] = [f]
                if f["do"].startswith("err") and rng.random() < 0.3:
                    g = common.save_fault(rng, o["trace"], o["lines"], ["kill", "power", "err"])
                    if g:
                        ops[j]["f"].append(g)
    return scn


def exec_c02(scn, dry):
    w = common.world(scn)
    setup_fs(w, scn)
    proc = w.new_proc()
    viols, counts = [], {}
    nt = [0]

    def fn(a, i):
        ops = scn["actors"][0]["ops"]
        ever = {}              # path -> every complete content it has legitimately had
        shadow = None
        for j, op in enumerate(ops):
            q = clean_op(op, dry)
            if op["op"] not in ("save", "saveimg"):
                o = app.do(a, q)
                counts["0.%d" % j] = counts_of(a, o)
                if "ok" not in o:
                    w.probe("edit failed")
                    if not app.is_edit(op):
                        return
                continue
            path = op["path"]
            v = app.observe(a)
            if v is None or "broken" in v:
                w.probe("session unusable")
                return
            want = v["doc"] if op["op"] == "save" else v["img"]
            old = w.fs.get(path)
            seen = ever.setdefault(path, [])
            if old not in seen:
                seen.append(old)
            w.fs.watch_path(path)
            o = app.do(a, q)
            rec = w.fs.watch.pop(path)
            counts["0.%d" % j] = counts_of(a, o)
            if op.get("f") and not dry:
                nt[0] += 1
            power = False
            for seq, who, content in rec:
                power = power or who == "power"
                if content == old:
                    continue
                if power and content in seen:
                    continue
                p = parse(content)
                if content is not None and p is not None and model.diff(p["v"], want) is None:
                    if content not in seen:
                        seen.append(content)
                    continue
                if content is None:
                    raise Viol("target vanished", "%s to %r: %s the file is gone, previously %d bytes" %
                               (op["op"], path, "after power loss" if who == "power" else "during the save", len(old)))
                raise Viol("target damaged", "%s to %r: %s the file holds neither the previous nor the new content (%d bytes: "
                           "%r ... %r)" % (op["op"], path, "after power loss" if who == "power" else "during the save",
                                           len(content), content[:20], content[-20:]))
            if o.get("dead"):
                w.probe("killed or lost power during save")
                w.replace_proc(a)
                a.skey = "s0"
                for p in ([path] if op["op"] == "save" else []) + ["/work/in/d0.json"]:
                    if w.fs.get(p) is not None and parse(w.fs.get(p)) is not None:
                        r = app.do(a, {"op": "open", "path": p})
                        if "ok" in r:
                            break
                        w.probe("reopen failed")
                else:
                    return
            elif "ok" in o:
                w.probe("saves that completed")
            else:
                w.probe("saves that failed")

    w.run_phase([(proc, run_body(viols, w, fn, 0))])
    return finish(w, viols, nt[0] > 0, counts)


# ================================================================================================ C03
def build_c03(rng, tier):
    doc = docgen.gen_doc(rng, common.small(rng) if rng.random() < 0.75 else None)
    scn = {"prop": "C03", "docs": {"d0": doc}, "actors": [], "sched": [], "bufsz": rng.choice([64, 256, 1024, 8192]), "files": {},
           "dirs": ["/work/sub", "/abs/x"], "links": {"/work/link": "/home"}}
    paths = [rng.choice(PATHS) for _ in range(rng.choice([1, 2]))]
    for p in paths:
        if rng.random() < 0.5:
            scn["files"][norm(p)] = rng.choice([json.dumps(doc, indent=4), "{}", "x" * 9000])
    ops = [{"op": "open", "path": "/work/in/d0.json"}]
    for e in app.gen_edits(rng, doc, rng.choice([0, 1, 1, 2]), bad=0) + [None]:
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"op": "save" if rng.random() < 0.7 else "saveimg", "path": rng.choice(paths)})
        if e:
            ops.append(e)
    scn["actors"] = [{"ops": ops, "doc": "d0"}]
    c = execute(scn, dry=True).get("counts", {})
    for j, op in enumerate(ops):
        o = c.get("0.%d" % j)
        if o and op["op"] in ("save", "saveimg") and rng.random() < 0.75:
            f = common.save_fault(rng, o["trace"], o["lines"], ["err", "err", "err", "err", "short", "kbd", "mem"])
            if f:
                op["f"] = [f]
                if rng.random() < 0.15:
                    g = common.save_fault(rng, o["trace"], o["lines"], ["err"])
                    if g and g.get("n") != f.get("n"):
                        op["f"].append(g)
    return scn


def exec_c03(scn, dry):
    w = common.world(scn)
    setup_fs(w, scn)
    proc = w.new_proc()
    viols, counts = [], {}
    nt = [0]

    def fn(a, i):
        for j, op in enumerate(scn["actors"][0]["ops"]):
            q = clean_op(op, dry)
            if op["op"] not in ("save", "saveimg"):
                o = app.do(a, q)
                counts["0.%d" % j] = counts_of(a, o)
                if "ok" not in o and not app.is_edit(op):
                    return
                continue
            pre = app.observe(a)
            if pre is None or "broken" in pre:
                w.probe("session unusable")
                return
            want = pre["doc"] if op["op"] == "save" else pre["img"]
            tree = w.fs.tree()
            fired = sum(w.fired.values())
            unl, look = fired_at(w, ("unlink",)), fired_at(w, K.LOOK)
            o = app.do(a, q)
            counts["0.%d" % j] = counts_of(a, o)
            hit = sum(w.fired.values()) - fired
            nt[0] += 1 if hit else 0
            if "ok" in o:
                expect_ok(w, op, want, "acknowledged" + (" after a fault" if hit else ""))
            else:
                if not hit:
                    raise Viol("save failed", "%s to %r failed although nothing was wrong: %s %s" %
                               (op["op"], op["path"], o.get("exc") or sorted(o), o.get("msg")))
                w.probe("failed saves")
            post = app.observe(a)
            if "broken" in post:
                raise Viol("session broken", "after a failed %s the session cannot be exported: %s" % (op["op"], post["broken"]))
            d = model.diff(pre, post)
            if d:
                raise Viol("session changed", "%s to %r (%s) changed the session: %s" %
                           (op["op"], op["path"], "ok" if "ok" in o else o.get("exc"), d))
            if "ok" in o or debris_counts(op.get("f"), a, fired_at(w, ("unlink",)) > unl or (hit > 1 and fired_at(w, K.LOOK) > look)):
                new = [p for p, k in sorted(w.fs.tree().items()) if p not in tree and k != "d"]
                tgt = w.fs.path_key(op["path"])
                new = [p for p in new if p != tgt]
                if new:
                    raise Viol("stray files", "%s to %r (%s) left %r behind" %
                               (op["op"], op["path"], "ok" if "ok" in o else "failed with " + o["exc"], new[:3]))
                w.probe("directory listings compared")
            if "ok" not in o:
                r = app.do(a, {"op": op["op"], "path": op["path"]})
                if "ok" not in r:
                    raise Viol("retry failed", "retrying %s to %r after the fault was gone failed: %s %s" %
                               (op["op"], op["path"], r.get("exc") or sorted(r), r.get("msg")))
                expect_ok(w, op, want, "retry")
                w.probe("successful retries")

    def expect_ok(w, op, want, what):
        expect_file(w.fs.get(op["path"]), want, "%s %s to %r" % (what, op["op"], op["path"]))

    w.run_phase([(proc, run_body(viols, w, fn, 0))])
    return finish(w, viols, nt[0] > 0, counts)


def fired_at(w, calls):
    return sum(v for k, v in w.fired.items() if k.split("@")[-1] in calls)


def debris_counts(faults, a, unlink_hit):
    """Stray files are the save's fault only if it had the chance to delete them: deleting (and, after a first
    failure, looking) worked, and either calls failed or one interrupt was delivered while the save was writing, syncing or renaming."""
    if not faults or unlink_hit:
        return False
    if all(f["do"].startswith("err") or f["do"] == "short" for f in faults):
        return True
    if len(faults) != 1:
        return False
    f = faults[0]
    name = a.trace[f["n"] - 1] if f["at"] == "sys" and len(a.trace) >= f["n"] else f["at"]
    return f["at"] == "sys" and name in ("write", "fsync", "fdatasync", "rename", "replace") and not f.get("post")


# ================================================================================================ C04
def build_c04(rng, tier, prop="C04"):
    mode = rng.choice(["faithful", "faithful", "fault", "corrupt", "corrupt", "corrupt", "replace", "replace"] if prop == "C04" else
                      ["faithful", "fault", "fault", "corrupt", "corrupt", "replace", "threads", "threads"])

    def opening(path="/work/doc.json"):
        if prop == "C04":
            return {"op": "open", "path": path}
        op = {"op": "gload", "path": path, "via": rng.choice(["parser", "dag"])}
        if rng.random() < 0.3:
            op["again"] = 1
        return op
    scn = {"prop": prop, "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 512, 8192, 8192]), "mode": mode, "files": {}}
    big = rng.random() < 0.5
    doc = docgen.gen_doc(rng, None if big and mode != "replace" else common.small(rng))
    scn["docs"]["d0"] = doc
    style = rng.choice([None, 4, 1])
    data = json.dumps(doc, ensure_ascii=rng.random() < 0.4, indent=style).encode("utf-8")
    scn["style"] = style
    scn["files"]["/work/doc.json"] = data.decode("utf-8")
    scn["actors"] = [{"ops": [opening()]}]
    if mode == "fault":
        c = execute(scn, dry=True)["counts"].get("0.0")
        t, n = c["trace"], c["lines"]
        fs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            i = rng.randrange(len(t))
            if r < 0.4:
                fs.append({"at": "sys", "n": i + 1, "do": "err:" + rng.choice(common.ERRS.get(t[i], ["EIO"]))})
            elif r < 0.7 and "read" in t:
                j = rng.choice([k for k, x in enumerate(t) if x == "read"])
                fs.append({"at": "sys", "n": j + 1, "do": "short", "part": round(rng.random(), 2)})
            elif r < 0.85:
                fs.append({"at": "line", "n": rng.randrange(1, n + 1), "do": rng.choice(["kbd", "mem"])})
            else:
                fs.append({"at": "deepcopy", "n": rng.randrange(1, max(2, c["ndc"])), "do": "mem"})
        scn["actors"][0]["ops"][0]["f"] = fs
        if prop != "C04" and rng.random() < 0.5:
            scn["actors"][0]["ops"].append(opening())
    elif mode == "corrupt":
        scn["corrupt"] = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            if r < 0.25:
                scn["corrupt"].append(["trunc", rng.randrange(len(data))])
            elif r < 0.6:
                scn["corrupt"].append(["flip", rng.randrange(len(data)), 1 << rng.randrange(8)])
            elif r < 0.7:
                at = rng.randrange(len(data))
                scn["corrupt"].append(["zero", at, rng.choice([1, 16, 64, 512])])
            elif r < 0.8:
                at = rng.randrange(len(data))
                scn["corrupt"].append(["dup", at, rng.choice([1, 2, 8, 40])])
            elif r < 0.84:
                scn["corrupt"].append(["parent", rng.randrange(1 << 16), rng.randrange(1 << 16)])
            elif r < 0.9:
                # the end of a longer previous version left behind by a writer that did not truncate
                scn["corrupt"].append(["tail", rng.choice([1, 2, 3, rng.randrange(1, len(data) + 1)])])
            elif r < 0.96:
                # a document from another producer: an attribute is missing, misspelt or unheard of
                scn["corrupt"].append([rng.choice(["del", "ren", "add"]), rng.randrange(1 << 16), rng.randrange(1 << 16), rng.randrange(1 << 16)])
            else:
                # a stale or misdirected block: one string value overwritten by another
                scn["corrupt"].append(["name", rng.randrange(1 << 16), rng.randrange(1 << 16)])
    elif mode == "replace":
        n = rng.choice([1, 2])
        ops = []
        for k in range(n):
            d = docgen.gen_doc(rng, common.small(rng) if rng.random() < 0.7 else None)
            scn["docs"]["d%d" % (k + 1)] = d
            ops.append({"op": "replace", "path": "/work/doc.json", "doc": "d%d" % (k + 1)})
        scn["actors"][0]["ops"] = [opening() for _ in range(rng.choice([1, 2]))]
        scn["actors"].append({"ops": ops})
        c = execute(scn, dry=True)["counts"]
        tot = sum(x["lines"] for x in c.values())
        scn["sched"] = common.gen_sched(rng, 2, min(tot, 4000) if rng.random() < 0.6 else 300)
        if rng.random() < 0.6:
            # most interesting switches are around the system calls of the open
            scn["sched"] = [[rng.randrange(2), rng.choice([0, 0, 0, 1, -1])] for _ in range(rng.randrange(3, 30))]
    elif mode == "threads":
        n = rng.choice([2, 2, 3])
        for k in range(1, n):
            d = docgen.gen_doc(rng, common.small(rng) if rng.random() < 0.7 else None)
            scn["docs"]["d%d" % k] = d
            scn["files"]["/work/doc%d.json" % k] = json.dumps(d, indent=style)
        files = ["/work/doc.json"] + ["/work/doc%d.json" % k for k in range(1, n)]
        scn["actors"] = [{"ops": [opening(rng.choice(files)) for _ in range(rng.choice([1, 2]))]} for _ in range(rng.choice([2, 2, 3]))]
        c = execute(scn, dry=True).get("counts")
        if c:
            scn["sched"] = common.gen_sched(rng, len(scn["actors"]), min(sum(x["lines"] for x in c.values()), rng.choice([200, 1000, 4000])),
                                            nsys=max(4, sum(x["sys"] for x in c.values())))
            if rng.random() < 0.3:
                x = rng.choice(scn["actors"])["ops"][0]
                x["f"] = [{"at": "line", "n": rng.randrange(1, 400), "do": rng.choice(["kbd", "mem"])}]
    return scn


STRINGS = __import__("re").compile(rb'"((?:[^"\\]|\\.)*)"')


PARENTS = __import__("re").compile(rb'"parent":\s*("(?:[^"\\]|\\.)*")')
NAMES = __import__("re").compile(rb'"name":\s*("(?:[^"\\]|\\.)*")')


def restructure(data, st):
    """Removes, renames or adds one attribute of one object of the document."""
    try:
        doc = json.loads(data)
    except ValueError:
        return data
    dicts, keys = [], []

    def walk(x):
        if isinstance(x, dict):
            dicts.append(x)
            keys.extend(k for k in x if k not in keys)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(doc)
    d = dicts[st[1] % len(dicts)]
    new = (keys + ["zzz", "softness", "uniform", "vertexCount", "timelines", "sequence"])[st[3] % (len(keys) + 6)]
    items = list(d.items())
    if st[0] == "add" or not items:
        if new in d:
            return data
        items.insert(st[2] % (len(items) + 1), (new, [1, "x", True, 0.5][st[2] % 4]))
    else:
        i = st[2] % len(items)
        if st[0] == "del":
            del items[i]
        elif new not in d:
            items[i] = (new, items[i][1])
    d.clear()
    d.update(items)
    return json.dumps(doc, ensure_ascii=False).encode("utf-8")


def corrupt(data, steps):
    for st in steps or ():
        if not data:
            return data
        if st[0] == "trunc":
            data = data[:st[1]]
        elif st[0] == "flip":
            i = st[1] % len(data)
            data = data[:i] + bytes([data[i] ^ st[2]]) + data[i + 1:]
        elif st[0] == "zero":
            i = st[1] % len(data)
            data = data[:i] + b"\0" * min(st[2], len(data) - i) + data[i + st[2]:]
        elif st[0] == "tail":
            data = data + data[-st[1]:]
        elif st[0] in ("del", "ren", "add"):
            data = restructure(data, st)
        elif st[0] == "dup":
            i = st[1] % len(data)
            data = data[:i] + data[i:i + st[2]] + data[i:]
        elif st[0] == "name":
            m = list(STRINGS.finditer(data))
            if len(m) > 1:
                a, b = m[st[1] % len(m)], m[st[2] % len(m)]
                data = data[:a.start()] + b.group() + data[a.end():]
        elif st[0] == "parent":
            # the parent of a bone (or mesh) overwritten by the name of another bone, slot, ...
            m, n = list(PARENTS.finditer(data)), list(NAMES.finditer(data))
            if m and n:
                a, b = m[st[1] % len(m)], n[st[2] % min(len(n), len(m) + 1)]
                data = data[:a.start(1)] + b.group(1) + data[a.end(1):]
    return data


class Unclear(Exception):
    pass


def strict_json(data):
    """-> ("doc", value) | ("bad", None); raises Unclear where JSON readers legitimately differ."""
    def pairs(ps):
        d = {}
        for k, v in ps:
            if k in d:
                raise Unclear("duplicate key")
            d[k] = v
        return d

    def const(c):
        raise Unclear("non-finite number")
    try:
        txt = data.decode("utf-8")
    except UnicodeError:
        return "bad", None
    if txt.startswith("\ufeff"):
        raise Unclear("byte order mark")
    try:
        v = json.loads(txt, object_pairs_hook=pairs, parse_constant=const)
    except Unclear:
        raise
    except (ValueError, RecursionError):
        return "bad", None

    def walk(x):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            raise Unclear("number out of range")
        if isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(v)
    return "doc", v


def explicit_nulls(x):
    """null-valued attributes other than an attachment keyframe's name: the format has none."""
    if isinstance(x, dict):
        return any((v is None and k != "name") or explicit_nulls(v) for k, v in x.items())
    if isinstance(x, list):
        return any(explicit_nulls(v) for v in x)
    return False


def exec_c04(scn, dry):
    w = common.world(scn)
    setup_fs(w, scn)
    mode = scn["mode"]
    data = corrupt(w.fs.get("/work/doc.json"), scn.get("corrupt"))
    w.fs.put("/work/doc.json", data)
    w.fs.settle()
    try:
        kind, val = strict_json(data)
    except Unclear as e:
        return common.discard("ambiguous JSON: %s" % e)
    versions = [val] + [scn["docs"]["d%d" % (k + 1)] for k in range(len(scn["docs"]) - 1)]
    p1 = w.new_proc()
    p2 = w.new_proc(name="writer")
    w.line_budget = 60000 + 40 * len(data)
    viols, counts = [], {}
    done = [0]
    note = {}
    seen = {"lo": 0, "hi": 0}      # the file holds one of the versions lo..hi

    def fn(a, i):
        for j, op in enumerate(scn["actors"][i]["ops"]):
            if op["op"] == "replace":
                seen["hi"] = int(op["doc"][1:])
                tmp = "/work/other-writer-%d.tmp" % j

                def wr(doc=scn["docs"][op["doc"]], tmp=tmp, path=op["path"]):
                    import os
                    with open(tmp, "w", encoding="utf-8") as f:
                        json.dump(doc, f, ensure_ascii=False, indent=scn.get("style"))
                    os.replace(tmp, path)
                o = a.call(wr)
                counts["%d.%d" % (i, j)] = counts_of(a, o)
                if "ok" not in o:
                    raise K.HarnessError("writer failed: %r" % o)
                seen["lo"] = int(op["doc"][1:])
                w.probe("file replaced during the run")
                continue
            muts = len([x for x in w.fs.mut_log if x == a.idx])
            fired = sum(w.fired.values())
            oldest = seen["lo"]
            o = app.do(a, clean_op(op, dry))
            possible = versions[oldest:seen["hi"] + 1]
            counts["%d.%d" % (i, j)] = counts_of(a, o)
            hit = [f for f in op.get("f", ()) if f["do"] != "short"] if sum(w.fired.values()) > fired else []
            done[0] += 1
            if len([x for x in w.fs.mut_log if x == a.idx]) != muts:
                raise Viol("open wrote", "opening the file wrote to disk")
            if o.get("hang"):
                raise Viol("open hangs", "opening did not finish within %d steps" % w.line_budget)
            if "ok" not in o:
                w.probe("opens refused (%s)" % mode)
                if mode in ("faithful", "replace") or (mode in ("fault", "threads") and not hit):
                    raise Viol("open failed", "opening an intact document failed: %s %s" % (o.get("exc"), o.get("msg")))
                continue
            w.probe("opens accepted (%s)" % mode)
            if op["op"] == "gload":
                judge_graph(a, op, o, kind, val, possible if mode != "threads" else [versions[file_no(op["path"])]], mode, scn)
                w.probe("graphs compared (%s)" % mode)
                continue
            v = app.observe(a)
            if mode == "corrupt":
                if kind == "bad":
                    raise Viol("accepted garbage", "a file that is not complete JSON was opened: %r" % (scn["corrupt"],))
                if explicit_nulls(val):
                    note["discard"] = "explicit null attributes"
                    return
            if "broken" in v:
                if mode == "corrupt":
                    note["discard"] = "damaged document exports with an error"
                    return
                raise Viol("unusable", "the opened session cannot be exported: %s" % v["broken"])
            errs = []
            got = None
            for ver in possible:
                try:
                    want = model.canon(ver)
                except Exception as e:
                    note["discard"] = "document outside the model"
                    return
                if got is None:
                    try:
                        got = model.canon(v["doc"])
                    except Exception as e:
                        note["discard"] = "export outside the model"
                        return
                e = model.diff(want, got)
                if e is None:
                    break
                errs.append(e)
            else:
                raise Viol("unfaithful", "file vs opened session (%s): %s" % (mode, errs[0]))
            w.probe("exports compared (%s)" % mode)

    bodies = [(p1, run_body(viols, w, fn, 0))]
    if mode == "threads":
        bodies = [(p1, run_body(viols, w, fn, i)) for i in range(len(scn["actors"]))]
    elif len(scn["actors"]) > 1:
        bodies.append((p2, run_body(viols, w, fn, 1)))
    w.run_phase(bodies, [] if dry else scn["sched"])
    if note.get("discard") and not viols:
        return common.discard(note["discard"])
    return finish(w, viols, done[0] > 0, counts)


def file_no(path):
    return int(path[len("/work/doc"):-len(".json")] or 0)


def judge_graph(a, op, o, kind, val, possible, mode, scn):
    """A graph loaded from the file, and what is written back from it, against the file."""
    from . import graphs
    if mode == "corrupt":
        if kind == "bad":
            raise Viol("accepted garbage", "a file that is not complete JSON was loaded: %r" % (scn["corrupt"],))
        if not isinstance(val, dict) or any(not isinstance(val.get(k, []), list) for k in ("bones", "slots", "ik")):
            if not isinstance(val, dict):
                raise Viol("accepted garbage", "a file without a document was loaded")
            return
    err = None
    for text in o["ok"]:
        got = parse(text.encode("utf-8"))
        if got is None:
            raise Viol("unusable", "the graph is written back as no JSON document: %r" % text[:80])
        for ver in possible:
            err = model.diff({k: ver.get(k, []) for k in ("bones", "slots", "ik")}, got["v"])
            if err is None:
                break
        else:
            raise Viol("unfaithful", "file vs graph written back (%s): %s" % (mode, err))
    if mode == "corrupt":
        return
    nodes, edges = graphs.expected(ver)
    d = graphs.dump(a.proc.objs["graph " + a.skey], nodes | {"None_BONE", "None_SLOT", "None_IMAGE"} | {str(n) for n in range(1, 40)})
    for k, want in (("nodes", nodes), ("edges", edges)):
        if set(d[k]) != want:
            raise Viol("document graph", "%s only in one of file and graph (%s): %r" % (k, mode, sorted(set(d[k]) ^ want)[:4]))


# ================================================================================================ C05
def build_c05(rng, tier):
    nsess = rng.choice([1, 2, 2, 3, 3])
    scn = {"prop": "C05", "docs": {}, "actors": [], "sched": [], "bufsz": rng.choice([64, 256, 1024, 8192]), "files": {},
           "dirs": ["/work/sub", "/abs/x"], "links": {"/work/link": "/home"}}
    shape = rng.choice(["threads", "procs", "mixed"])
    base = rng.choice(["/work/", "/work/sub/", "/work/new/", "/work/new/deep/dir/", "", "link/"])
    npaths = rng.choice([1, 1, 2, 3])
    paths = [base + "f%d.json" % k for k in range(npaths)]
    if rng.random() < 0.3:
        paths[-1] = rng.choice(["/work/new/other/f.json", "/work/new/f.json", "/work/f.json"])
    docs = []
    for i in range(nsess):
        c = common.small(rng)
        doc = docgen.gen_doc(rng, c)
        doc["skeleton"]["hash"] = "session %d " % i + "x" * rng.choice([0, 0, 300])
        scn["docs"]["d%d" % i] = doc
    for p in paths:
        if rng.random() < 0.35:
            scn["files"][norm(p)] = json.dumps(dict(scn["docs"]["d0"], skeleton={"spine": "3.8.55", "hash": "old"}))
    nact = rng.choice([2, 2, 3, 4])
    scn["share"] = nsess == 1 or rng.random() < 0.2
    for i in range(nact):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.7:
                ops.append({"op": "save", "path": rng.choice(paths)})
            elif r < 0.8:
                ops.append({"op": "saveimg", "path": base + "img%d.json" % rng.randrange(2)})
            else:
                ops.append({"op": "open", "path": rng.choice(paths), "s": "r%d" % i})
        scn["actors"].append({"ops": ops, "doc": "d%d" % (i % nsess),
                              "proc": 0 if shape == "threads" or scn["share"] else i if shape == "procs" else i // 2})
    dry = execute(scn, dry=True)
    if dry.get("discard"):
        return scn                     # the documents do not open: nothing to interleave
    c = dry["counts"]
    tot = sum(x["lines"] for x in c.values())
    nsys = max(4, sum(x["sys"] for x in c.values()))
    scn["sched"] = common.gen_sched(rng, nact, min(tot, rng.choice([200, 1500, tot])), nsys=nsys)
    if rng.random() < 0.15:
        i = rng.randrange(nact)
        if shape == "procs" and not scn["share"]:
            j = rng.randrange(len(scn["actors"][i]["ops"]))
            o = c.get("%d.%d" % (i, j))
            if o and scn["actors"][i]["ops"][j]["op"] != "open":
                f = common.save_fault(rng, o["trace"], o["lines"], ["kill"])
                if f:
                    scn["actors"][i]["ops"][j]["f"] = [f]
    return scn


def exec_c05(scn, dry):
    w = common.world(scn)
    setup_fs(w, scn)
    procs = {}
    for a in scn["actors"]:
        if a["proc"] not in procs:
            procs[a["proc"]] = w.new_proc(name="p%d" % a["proc"])
    viols, counts = [], {}
    hist = {}                  # path -> [(inv, ret, "w"/"r", value)]
    sessions = {}

    def setup(a, i):
        for k, spec in enumerate(scn["actors"]):
            a.proc = procs[spec["proc"]]
            a.proc.activate()
            a.skey = "shared" + spec["doc"] if scn["share"] else "s%d" % k
            if a.skey not in a.proc.sess:
                o = app.do(a, {"op": "open", "path": "/work/in/%s.json" % spec["doc"]})
                if "ok" not in o:
                    sessions["failed"] = o.get("exc")
                    return
            v = app.observe(a)
            if "broken" in v:
                sessions["failed"] = v["broken"]
                return
            sessions[k] = v
    w.run_phase([(procs[min(procs)], run_body(viols, w, setup, 0))])
    if "failed" in sessions:
        return common.discard("open failed: %s" % sessions["failed"])
    ids = {}

    def value(doc):
        """A small name for a document's content."""
        try:
            doc = model.canon(doc)
        except Exception:
            pass                       # an image index
        return ids.setdefault(json.dumps(number(doc), sort_keys=True), len(ids))

    def fn(a, i):
        spec = scn["actors"][i]
        for j, op in enumerate(spec["ops"]):
            a.skey = "shared" + spec["doc"] if scn["share"] else "s%d" % i
            o = app.do(a, clean_op(op, dry))
            counts["%d.%d" % (i, j)] = counts_of(a, o)
            if o.get("skip"):
                continue
            path = norm(op["path"])
            h = hist.setdefault(path, [])
            if op["op"] == "open":
                if "ok" in o:
                    a.skey = op["s"]
                    v = app.observe(a)
                    if "broken" in v:
                        raise Viol("mixture", "the document read from %r cannot be exported: %s" % (op["path"], v["broken"]))
                    h.append((o["inv"], o["ret"], "r", value(v["doc"]), "actor %d open" % i))
                elif o.get("exc") == "FileNotFoundError":
                    h.append((o["inv"], o["ret"], "r", None, "actor %d open" % i))
                else:
                    raise Viol("mixture", "opening %r while it was being saved failed: %s %s" %
                               (op["path"], o.get("exc"), o.get("msg")))
                continue
            want = sessions[i]["doc"] if op["op"] == "save" else sessions[i]["img"]
            if o.get("dead"):
                h.append((o["inv"], None, "w", value(want), "actor %d killed save" % i))
                return
            if "ok" not in o:
                raise Viol("save failed", "concurrent %s to %r failed: %s %s" % (op["op"], op["path"], o.get("exc"), o.get("msg")))
            h.append((o["inv"], o["ret"], "w", value(want), "actor %d save" % i))

    init = {}
    for s in scn["actors"]:
        for op in s["ops"]:
            data = w.fs.get(op["path"])
            p = parse(data)
            init[norm(op["path"])] = (op["path"], None if p is None else value(p["v"]))
    w.run_phase([(procs[s["proc"]], run_body(viols, w, fn, i)) for i, s in enumerate(scn["actors"])],
                [] if dry else scn["sched"])
    if not viols and not w.deadlock:
        for path, h in sorted(hist.items()):
            raw, iv = init[path]
            data = w.fs.get(raw)
            p = parse(data)
            if data is not None and p is None:
                viols.append({"class": "mixture", "detail": "finally %r is not a complete document (%d bytes)" % (raw, len(data))})
                break
            end = w.tick()
            h = h + [(end, w.tick(), "r", None if p is None else value(p["v"]), "final content")]
            e = linearizable(h, iv)
            if e:
                viols.append({"class": "not linearizable", "detail": "%r: %s" % (raw, e)})
                break
            w.probe("register histories checked")
            if len(h) > 3:
                w.probe("register histories with 3 or more operations")
    if w.switches:
        w.probe("runs with preemptions")
    return finish(w, viols, w.switches > 0, counts)


def number(x):
    """1 and 1.0 are the same number."""
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, dict):
        return {k: number(v) for k, v in x.items()}
    if isinstance(x, list):
        return [number(v) for v in x]
    return x


def linearizable(h, init):
    """Wing-Gong search for one register.  h: (inv, ret or None if it may never have happened, kind, value, label)."""
    n = len(h)
    if n > 16:
        return None
    seen = set()

    def go(done, val):
        if all(done & (1 << i) or h[i][1] is None for i in range(n)):
            return True
        if (done, val) in seen:
            return False
        seen.add((done, val))
        first = min((h[i][1] for i in range(n) if not done & (1 << i) and h[i][1] is not None), default=None)
        for i in range(n):
            if done & (1 << i) or (first is not None and h[i][0] > first):
                continue
            if h[i][2] == "w":
                if go(done | 1 << i, h[i][3]):
                    return True
            elif h[i][3] == val and go(done | 1 << i, val):
                return True
        return False
    if go(0, init):
        return None
    return "no order of the operations explains what was read: initially %r, %s" % (
        init, "; ".join("[%s..%s] %s %s" % (x[0], x[1], x[4], "nothing" if x[3] is None else "v%d" % x[3])
                        for x in sorted(h, key=lambda t: t[0])))


BUILD = {"C01": build_c01, "C02": build_c02, "C03": build_c03, "C04": build_c04, "C05": build_c05,
         "C24": lambda rng, tier: build_c04(rng, tier, "C24")}
EXEC = {"C01": exec_c01, "C02": exec_c02, "C03": exec_c03, "C04": exec_c04, "C05": exec_c05, "C24": exec_c04}

RULE = {
    "C01": "One run = 1-2 sessions (threads) with generated documents and histories of edits, reads and saves to new or existing "
           "paths, optionally one kill at a random line or system call, or short writes; after every acknowledged save the file "
           "is compared with a shadow session in another process that made the same edits and never saved, and at the end every "
           "acknowledged file is re-read and reopened in a fresh process. Non-trivial: at least one acknowledged save still in "
           "force at the end. Distinct: by the hash of the full event log.",
    "C02": "One run = a history of edits and saves to one path (absent, present, long, symbolic link, new directory) with a kill, "
           "power cut, interrupt, allocation failure or disk error placed on a system call or line of a save; the content visible "
           "at the path is checked after every file-system event and after the power cut. Non-trivial: at least one save with a "
           "planned fault was executed. Distinct: by the hash of the full event log.",
    "C03": "One run = a history of edits and saves with errors, sticky errors, short writes and interrupts on their system calls, "
           "each failure followed by a fault-free retry; exceptions, file content, session content and directory listing are "
           "checked after every save. Non-trivial: at least one fault fired. Distinct: by the hash of the full event log.",
    "C04": "One run = opening a generated document file intact, with read faults, with stored corruption (truncation, flipped "
           "bits, zeroed, duplicated or misdirected data) or while another process replaces it; the export is compared with the "
           "file's strict JSON reading modulo the format's defaults. Non-trivial: at least one open was executed and judged. "
           "Distinct: by the hash of the full event log.",
    "C24": "One run = loading generated document files as node graphs (through the parser or the graph class) intact, with read "
           "faults, with stored corruption, while another process replaces the file, or in 2-3 threads with interrupts; the JSON "
           "written back from the graph, its nodes and both ends of its edges are compared with the file. Non-trivial: at least "
           "one load was executed and judged. Distinct: by the hash of the full event log.",
    "C05": "One run = 2-4 threads or processes saving and opening 1-3 paths under a random schedule (line and system-call "
           "preemption), optionally one of them killed; every save must succeed and every path's history must be linearizable as "
           "a register. Non-trivial: at least one preemption happened. Distinct: by the hash of the full event log.",
}
ASSUMPTIONS = ["disk model: data is durable after fsync of the file, directory operations survive a power cut as a prefix of "
               "their order, un-synced data may be kept, lost, torn or zero-filled"]
