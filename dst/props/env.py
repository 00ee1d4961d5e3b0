"""C08: the same history gives the same bytes in every process environment.

Every scenario runs once in every lane; lanes are OS processes with different string-hash seeds (hence different iteration
orders of sets of strings) whose simulated processes have different default text encodings, standard-output encodings, process
ids, clocks and random sources.  The coordinator compares what the lanes report."""
import hashlib
import json

from .. import app, common, docgen


def build(rng, tier, prop):
    cfg = docgen.default_cfg(rng)
    if rng.random() < 0.6:
        cfg.update(slots=rng.choice([3, 5, 8, 10]), odd=rng.choice([0.3, 0.9]), share=rng.choice([0.2, 0.6]))
    doc = docgen.gen_doc(rng, cfg)
    ascii_file = rng.random() < 0.3
    ops = [{"op": "open", "path": "/work/in.json"}]
    if rng.random() < 0.5:
        ops.append({"op": "save", "path": "/work/out0.json"})
        ops.append({"op": "saveimg", "path": "/work/img0.json"})
    for n, e in enumerate(app.gen_edits(rng, doc, rng.choice([1, 2, 3, 4]), bad=0.1)):
        ops.append(e)
        if rng.random() < 0.7:
            ops.append({"op": "save", "path": "/work/out%d.json" % rng.randrange(2)})
        if rng.random() < 0.4:
            ops.append({"op": "saveimg", "path": "/work/img%d.json" % rng.randrange(2)})
        if rng.random() < 0.2:
            ops.append({"op": "unused"})
        if rng.random() < 0.25:
            ops.append({"op": "open", "path": "/work/out%d.json" % rng.randrange(2)})
    ops += [{"op": "save", "path": "/work/end.json"}, {"op": "saveimg", "path": "/work/endimg.json"}]
    return {"prop": prop, "docs": {"d0": doc}, "actors": [{"ops": ops}], "sched": [], "ascii": ascii_file,
            "bufsz": rng.choice([64, 8192])}


def execute(scn, dry=False):
    w = common.world(scn)
    doc = scn["docs"]["d0"]
    w.fs.put("/work/in.json", json.dumps(doc, ensure_ascii=scn["ascii"]).encode("utf-8"))
    w.fs.settle()
    for _ in range(len(scn.get("enc", "")) % 5):
        w.nproc += 1                       # another process id
    proc = w.new_proc(scn.get("enc", "utf-8"), scn.get("out", "utf-8"))
    steps = []
    edits = [0]

    def body(a):
        for op in scn["actors"][0]["ops"]:
            o = app.do(a, op)
            if o.get("skip"):
                steps.append([op["op"], "skip"])
                continue
            if "ok" not in o:
                # the kind of error must agree; its text may list a set
                steps.append([op["op"], o.get("exc") or sorted(k for k in ("dead", "hang") if k in o)[0]])
                continue
            edits[0] += app.is_edit(op)
            r = o["ok"]
            s = [op["op"], "ok"]
            if isinstance(r, dict):
                s += [r[k] for k in ("slots", "atts", "imgs", "zero", "invis") if k in r]
            if op["op"] in ("save", "saveimg"):
                data = w.fs.get(op["path"])
                s += [op["path"], None if data is None else hashlib.sha256(data).hexdigest()]
            steps.append(s)

    w.run_phase([(proc, body)])
    steps = json.loads(json.dumps(steps))
    digest = hashlib.sha256(json.dumps(steps).encode()).hexdigest()
    w.probe("saved files hashed", sum(1 for s in steps if s[0] in ("save", "saveimg") and s[1] == "ok"))
    return common.result(w, None, edits[0] > 0, sig=digest, extra={"digest": digest, "steps": steps})


RULE = ("One run = one generated document (names with non-ASCII letters and odd suffixes) and a history of edits, rejected "
        "requests, saves and reopenings, executed in one of eight process environments (string-hash seed, default text encoding, "
        "standard-output encoding, process id); evaluations counts scenario x environment. The hashes of all saved files, the "
        "reported removal sets and the kinds of errors must agree among the eight. Non-trivial: at least one edit succeeded. "
        "Distinct: by the hash of the reported steps.")
