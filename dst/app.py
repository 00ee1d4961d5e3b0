"""Operations of the simulated applications: everything goes through the library's public API."""
import contextlib
import io
import json

from . import kernel as K, model
from .kernel import HarnessError


def jbytes(doc):
    return json.dumps(doc, ensure_ascii=False).encode("utf-8")


def names(x):
    return sorted(str(i) for i in x)


class NoSession(Exception):
    pass


def sess(a, op):
    s = a.proc.sess.get(op.get("s", a.skey))
    if s is None:
        raise NoSession(op.get("s", a.skey))
    return s


class Args:
    """Input structures shared by the sessions of one process (created once, by the caller)."""

    def __init__(self, docs):
        self.docs = docs


def has_session(a, op):
    return op["op"] in ("open", "new", "gload") or a.proc.sess.get(op.get("s", a.skey)) is not None


def perform(a, op, args=None):
    """The library call(s) of one operation.  Runs inside a.call()."""
    k = op["op"]
    p = a.proc
    if k == "open":
        e = p.lib("spine_animation_editor").SpineAnimationEditor.from_json_file(op["path"])
        p.sess[op.get("s", a.skey)] = e
        return None
    if k == "new":
        e = p.lib("spine_animation_editor").SpineAnimationEditor(json_data=args.docs[op["doc"]])
        p.sess[op.get("s", a.skey)] = e
        return None
    if k == "gload":
        m = p.lib("deserializer.spine_nodes")
        dag = p.lib("graph.dagraph").DAGraph
        kw = {"json_file": op["path"], "node_factory": m.SpineNodeFactory()}
        g = m.SpineGraphParser.create_from_json_file(**kw) if op.get("via") == "parser" else \
            dag.create_from_json_file(graph_parser_cls=m.SpineGraphParser, **kw)
        p.objs["graph " + a.skey] = g
        r = [m.SpineGraphParser.to_json(graph=g) if op.get("via") == "parser" else g.to_json(m.SpineGraphParser)]
        if op.get("again"):
            r.append(json.dumps(g.to_json_data(m.SpineGraphParser)))
        return r
    e = sess(a, op)
    if k == "anims":
        kw = {k: op[f] for k, f in (("strict_mode", "strict"), ("is_safe_mode", "safe")) if f in op}
        r = e.erase_animations(animations_to_erase=op["obj"] if "obj" in op else thaw(op["names"]), **kw)
        if op.get("keepres"):
            p.objs[op["keepres"]] = r.result_data_json
        return {"doc": r.result_data_json, "slots": names(r.result_summary[0]), "atts": names(r.result_summary[1])}
    if k == "skins":
        kw = {"is_safe_mode": op["safe"]} if "safe" in op else {}
        r = e.erase_skins(op["obj"] if "obj" in op else thaw(op["names"]), **kw)
        return {"slots": names(r[0][0]), "atts": names(r[0][1]), "imgs": names(r[1])}
    if k == "clean":
        r = e.clean_animation()
        return {"slots": names(r[0]), "atts": names(r[1])}
    if k == "scale":
        e.scale_animation(scaleX=op["x"], scaleY=op["y"])
        return None
    if k == "save":
        e.to_json(op["path"])
        return None
    if k == "saveimg":
        e.save_images_json(op["path"])
        return None
    if k == "export":
        d = e.to_json_data()
        if op.get("keep"):
            p.objs[op["keep"]] = d
        return d
    if k == "images":
        return e.get_images_references()
    if k == "unused":
        d = e.spine_anim_data.data
        s, t = d.get_unused_slots_and_attachments()
        return {"slots": names(s), "atts": names(t), "zero": names(d.get_slots_with_alpha_zero()),
                "invis": names(d.get_slots_not_visible_in_setup_pose())}
    if k == "graph":
        g = e.spine_graph
        gr = g.graph
        q = op["q"]
        if q == "heads":
            return names(gr.get_heads_id())
        if q == "tails":
            return names(gr.get_tails_id())
        if q == "leafs":
            return {t: names(g.get_leafs_of_type(t)) for t in ("SLOT", "ATTACHMENT", "BONE")}
        if q == "hoft":
            return {t: names(g.get_heads_with_type(t)) for t in ("BONE", "IMAGE", "ATTACHMENT")}
        if q == "json":
            return json.loads(json.dumps(gr.to_json_data(p.lib("deserializer.spine_nodes").SpineGraphParser)))
        if q == "validate":
            return len(gr.validate().errors) >= 0
        if q == "order":
            return sorted(gr.sequential_order_of_execution())
        raise HarnessError(q)
    if k == "lookup":
        d = e.spine_anim_data.data
        r = []
        for n in op["names"]:
            for f in (d.get_slot, d.get_bone, d.get_skin):
                o = f(n)
                r.append(None if o is None else o.name)
        return r
    raise HarnessError("unknown op %r" % k)


def thaw(x):
    """Arguments are given to the library as fresh objects; {"$": ...} encodes deliberately wrong ones."""
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict) and "$" in x:
        t = x["$"]
        return {"tuple": tuple(x.get("v", ())), "str": "".join(x.get("v", "x")), "none": None, "int": 7,
                "set": frozenset(x.get("v", ()))}[t]
    return x


def do(a, op, args=None, budget=0):
    """Run one operation of an actor with its faults.  Returns the outcome; records it in the history."""
    w = a.w
    if not has_session(a, op):
        return {"skip": 1}
    inv = w.tick()
    w.ev("op", a.idx, op["op"], op.get("s"), op.get("path"))
    out = a.call(lambda: perform(a, op, args), op.get("f"), budget)
    out["inv"], out["ret"] = inv, w.tick()
    w.ev("done", a.idx, "ok" if "ok" in out else out.get("exc") or [k for k in ("dead", "hang") if k in out])
    w.hist.append((a.idx, op, out))
    return out


# ---------------------------------------------------------------------------------------------- observation
def view(e):
    """Document and image index of a session, as the harness sees them."""
    return {"doc": json.loads(json.dumps(e.to_json_data())), "img": json.loads(json.dumps(e.images_references))}


def observe(a, s=None, how="fork"):
    e = a.proc.sess.get(s or a.skey)
    if e is None:
        return None
    if how == "fork":
        kind, v = K.peek(lambda: view(e))
    else:
        try:
            kind, v = "ok", view(e)
        except Exception as x:
            kind, v = "exc", type(x).__name__ + ": " + str(x)[:200]
    if kind != "ok":
        return {"broken": v}
    return v


def came_late(a, op, pre, post):
    """Did the interrupt of this edit strike when everything was done and only the return to the caller was left?  No Python
    function can undo that: the caller sees the interrupt, and the session what the completed edit leaves."""
    f = op.get("f") or op.get("g")
    if not is_edit(op) or not f or any(x["at"] != "line" or x["do"] not in ("kbd", "mem") for x in f):
        return False
    q = {k: v for k, v in op.items() if k not in ("f", "g", "obj", "s")}
    old = a.proc.sess.get(a.skey)

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            a.proc.sess[a.skey] = type(old)(json_data=pre["doc"])
            perform(a, q)
            return view(a.proc.sess[a.skey])
    kind, v = K.peek(go)
    return kind == "ok" and not model.diff(v, post)


# ---------------------------------------------------------------------------------------------- edits for a document
def gen_edits(rng, doc, n, bad=0.15, safe=0.25, weights=None, scale=True, again=0.05):
    """A history of n edits that mostly makes sense for doc."""
    anims = list(doc.get("animations", {}))
    skins = [s["name"] for s in doc.get("skins", [])]
    w = {"anims": 4, "skins": 2.5, "clean": 2.5, "scale": 2 if scale else 0}
    w.update(weights or {})
    kinds = [k for k in w if w[k] > 0]
    ops = []
    for _ in range(n):
        if rng.random() < bad:
            ops.append(gen_bad(rng, anims, skins))
            continue
        if again and rng.random() < again:
            prev = [o for o in ops if o["op"] in ("anims", "skins") and isinstance(o["names"], list)]
            if prev:                               # a request made before, or one naming what it erased
                op = dict(rng.choice(prev))
                if op["op"] == "anims" and rng.random() < 0.5:
                    op["names"] = op["names"] + (rng.sample(anims, 1) if anims and rng.random() < 0.5 else [])
                    op["strict"] = True
                ops.append(op)
                continue
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        if k == "anims" and (not anims or (len(anims) == 1 and rng.random() < 0.7)):
            k = "clean"
        if k == "skins" and len(skins) < 2:
            k = "clean"
        if k == "anims":
            m = 1 if rng.random() < 0.6 else rng.randrange(1, len(anims) + 1)
            if m == len(anims) and len(anims) > 1 and rng.random() < 0.8:
                m -= 1
            x = rng.sample(anims, m)
            for i in x:
                anims.remove(i)
            op = {"op": "anims", "names": x}
            if rng.random() < 0.2:
                op["strict"] = False
                if rng.random() < 0.7:
                    op["names"] = x + ["no such"]
            if rng.random() < safe:
                op["safe"] = True
        elif k == "skins":
            m = 1 if rng.random() < 0.7 else rng.randrange(1, len(skins))
            x = rng.sample(skins, m)
            for i in x:
                skins.remove(i)
            op = {"op": "skins", "names": x}
            if rng.random() < safe:
                op["safe"] = True
        elif k == "clean":
            op = {"op": "clean"}
        elif rng.random() < 0.3 and any(o["op"] == "scale" for o in ops):
            op = dict([o for o in ops if o["op"] == "scale"][-1])
        else:
            op = {"op": "scale", "x": rng.choice([0.5, 2, 1, 3, 0.25, 1.5, -1, 0.1, 0] if rng.random() < 0.3 else [0.5, 2, 1, 3, 0.25, 1.5, -1]), "y": rng.choice([0.5, 2, 1, 0.1, 7])}
        ops.append(op)
    return ops


def gen_bad(rng, anims, skins):
    r = rng.randrange(6)
    if r == 0:
        x = rng.sample(anims, min(len(anims), rng.choice([0, 1, 2]))) + ["no such animation"]
        rng.shuffle(x)
        op = {"op": "anims", "names": x, "safe": rng.random() < 0.3}
        if rng.random() < 0.5:
            op["strict"] = True
        return op
    if r == 1:
        x = rng.sample(skins, min(len(skins), rng.choice([0, 1, 2]))) + ["no such skin"]
        if rng.random() < 0.3:
            rng.shuffle(x)
        return {"op": "skins", "names": x, "safe": rng.random() < 0.3}
    if r == 2:
        return {"op": "anims", "names": {"$": rng.choice(["tuple", "str", "none", "int", "set"]), "v": anims[:1]}}
    if r == 3 and skins:
        s = rng.choice(skins)
        return {"op": "skins", "names": [s, s]}
    if r == 4:
        return {"op": "scale", "x": rng.choice([2, 0.5, None]), "y": None}
    if anims:
        s = rng.choice(anims)
        return {"op": "anims", "names": [s, s]}
    return {"op": "skins", "names": {"$": "none"}}


def is_edit(op):
    return op["op"] in ("anims", "skins", "clean", "scale")
