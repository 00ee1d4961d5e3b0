"""Independent reference model of the Spine 3.8 JSON documents and of what the editing operations must do to them.

Written from the Spine JSON format description and the property statements; shares no code with the library.
"""
import copy
import os
import re

MISSING = object()


# ---------------------------------------------------------------------------------------------- generic comparison
def diff(a, b, path=""):
    """First difference between two JSON values, or None.  1 == 1.0, but True != 1.  Objects are unordered."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if type(a) is type(b) and a == b:
            return None
        return "%s: %.80r != %.80r" % (path or "/", a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s/%s: missing on the right (left: %.80r)" % (path, k, a[k])
            d = diff(a[k], b[k], path + "/" + str(k))
            if d:
                return d
        for k in b:
            if k not in a:
                return "%s/%s: missing on the left (right: %.80r)" % (path, k, b[k])
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if a == b else "%s: %r != %r" % (path, a, b)
    return "%s: %.80r != %.80r" % (path, a, b)


# ---------------------------------------------------------------------------------------------- canonical form
BONE = {"length": 0, "transform": "normal", "x": 0, "y": 0, "rotation": 0, "scaleX": 1, "scaleY": 1, "shearX": 0,
        "shearY": 0, "parent": None, "color": None}
SLOT = {"color": None, "dark": None, "attachment": None, "blend": None}
IK = {"order": 0, "softness": 0, "bendPositive": True, "compress": False, "stretch": False, "uniform": False, "mix": 1}
TRANSFORM = {"order": 0, "rotation": 0, "x": 0, "y": 0, "scaleX": 0, "scaleY": 0, "shearX": 0, "shearY": 0,
             "rotateMix": 1, "translateMix": 1, "scaleMix": 1, "shearMix": 1, "local": False, "relative": False}
PATHC = {"order": 0, "positionMode": "percent", "spacingMode": "length", "rotateMode": "tangent", "rotation": 0,
         "position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1, "skin": False}
REGION = {"x": 0, "y": 0, "rotation": 0, "scaleX": 1, "scaleY": 1}
MESH = {"uvs": [], "vertices": [], "edges": [], "triangles": []}
LINKED = {"deform": True}
PATHA = {"lengths": [], "vertexCount": 0, "vertices": [], "closed": False, "constantSpeed": True}
EVENT = {"int": 0, "float": 0, "string": ""}
CURVE = {"time": 0, "c2": 0, "c3": 1, "c4": 1, "curve": None}
K_ROT = dict(CURVE, angle=0)
K_XY0 = dict(CURVE, x=0, y=0)
K_XY1 = dict(CURVE, x=1, y=1)
K_ATT = {"time": 0, "name": None}
K_COL = dict(CURVE, name=None)
K_IK = dict(CURVE, mix=1, softness=0, bendPositive=True, compress=False, stretch=False)
K_TR = dict(CURVE, rotateMix=1, translateMix=1, scaleMix=1, shearMix=1)
K_POS = dict(CURVE, position=0)
K_SPA = dict(CURVE, spacing=0)
K_MIX = dict(CURVE, rotateMix=1, translateMix=1)
K_DEF = dict(CURVE, vertices=[], offset=0)


def same(v, d):
    return v == d                 # true for 1, as a damaged file may say, is the default as well


def strip(o, defaults):
    """Attributes that differ from the format's default."""
    return {k: v for k, v in o.items() if not (k in defaults and same(v, defaults[k]))}


def _nonempty(d):
    return {k: v for k, v in d.items() if v not in ({}, [])}


def canon(doc):
    """What the document says, with attributes holding the format's default value left out."""
    out = {"skeleton": doc.get("skeleton")}
    out["bones"] = [strip(b, BONE) for b in doc.get("bones", [])]
    out["slots"] = [strip(s, SLOT) for s in doc.get("slots", [])]
    out["ik"] = [strip(x, IK) for x in doc.get("ik", [])]
    out["transform"] = [strip(x, TRANSFORM) for x in doc.get("transform", [])]
    out["path"] = [strip(x, PATHC) for x in doc.get("path", [])]
    evs = doc.get("events", {})
    out["events"] = {k: strip(v, EVENT) for k, v in evs.items()}
    skins = []
    for s in doc.get("skins", []):
        atts = {}
        for slot, m in (s.get("attachments") or {}).items():
            r = {}
            for n, a in m.items():
                t = a.get("type")
                r[n] = strip(a, MESH if t == "mesh" else PATHA if t == "path" else LINKED if t == "linkedmesh" else
                             REGION if t in (None, "region") else {})
                if t == "linkedmesh" and r[n].get("skin") == "default":
                    del r[n]["skin"]
            if r:
                atts[slot] = r
        skins.append(dict({k: v for k, v in s.items() if k != "attachments"}, attachments=atts))
    out["skins"] = skins
    an = {}
    for name, a in doc.get("animations", {}).items():
        an[name] = canon_anim(a, evs)
    out["animations"] = an
    for k in doc:
        if k not in out:
            out[k] = doc[k]
    return out


def canon_anim(a, evs):
    c = {}
    bt = {}
    for b, tl in a.get("bones", {}).items():
        r = {}
        for kind, keys in tl.items():
            d = K_ROT if kind == "rotate" else K_XY1 if kind == "scale" else K_XY0
            r[kind] = [strip(k, d) for k in keys]
        bt[b] = _nonempty(r)
    c["bones"] = _nonempty(bt)
    stl = {}
    for s, tl in a.get("slots", {}).items():
        r = {}
        for kind, keys in tl.items():
            r[kind] = [strip(k, K_ATT if kind == "attachment" else K_COL) for k in keys]
        stl[s] = _nonempty(r)
    c["slots"] = _nonempty(stl)
    c["ik"] = _nonempty({n: [strip(k, K_IK) for k in ks] for n, ks in a.get("ik", {}).items()})
    c["transform"] = _nonempty({n: [strip(k, K_TR) for k in ks] for n, ks in a.get("transform", {}).items()})
    p = {}
    for n, tl in a.get("path", {}).items():
        p[n] = _nonempty({kind: [strip(k, K_POS if kind == "position" else K_SPA if kind == "spacing" else K_MIX)
                                 for k in ks] for kind, ks in tl.items()})
    c["path"] = _nonempty(p)
    d = {}
    for sk, m in a.get("deform", {}).items():
        r = {}
        for s, mm in m.items():
            r[s] = _nonempty({n: [canon_deform(k) for k in ks] for n, ks in mm.items()})
        d[sk] = _nonempty(r)
    c["deform"] = _nonempty(d)
    c["drawOrder"] = [dict(strip(k, {"time": 0}), offsets=k.get("offsets") or []) for k in a.get("drawOrder", [])]
    es = []
    for k in a.get("events", []):
        ev = evs.get(k.get("name"), {})
        e = {x: k.get(x, ev.get(x, EVENT[x])) for x in EVENT}
        e.update({x: v for x, v in k.items() if x not in EVENT and not (x, v) in
                  (("time", 0), ("audio", ""), ("volume", 1), ("balance", 0))})
        es.append(e)
    c["events"] = es
    for k in a:
        if k not in c:
            c[k] = a[k]
    return c


def canon_deform(k):
    r = strip(k, K_DEF)
    return r


# ---------------------------------------------------------------------------------------------- image index
TAG = re.compile(r"\[\s*scale\s*:\s*([0-9.]+)\s*\]")


def tag_scale(name):
    m = TAG.search(name)
    return float(m.group(1)) if m else 1.0


def image_of(att, key):
    return att.get("path") or att.get("name") or key


def image_index(doc):
    """image -> (path, set of admissible scales)"""
    folder = doc["skeleton"].get("images", "./images/")
    bones = {b["name"]: b for b in doc["bones"]}
    slots = {s["name"]: s for s in doc.get("slots", [])}
    out = {}
    for skin in doc.get("skins", []):
        for sname, atts in (skin.get("attachments") or {}).items():
            s = slots.get(sname)
            if s is None:
                continue
            sc = tag_scale(sname)
            b = bones.get(s["bone"])
            while b is not None and b["name"] != "root":
                sc *= tag_scale(b["name"])
                b = bones.get(b.get("parent"))
            for key, a in atts.items():
                if a.get("type") == "path":
                    continue
                im = image_of(a, key)
                out.setdefault(im, (os.path.join(folder, im), []))[1].append(sc)
    return out


def check_index(index, doc):
    if not isinstance(index, dict):
        return "image index is %.60r" % (index,)
    want = image_index(doc)
    extra = sorted(set(index) - set(want), key=str)
    miss = sorted(set(want) - set(index), key=str)
    if extra:
        return "index lists %r, which no attachment of the document uses" % extra[:3]
    if miss:
        return "index lacks %r, which the document uses" % miss[:3]
    for im, (path, scales) in want.items():
        e = index[im]
        if not isinstance(e, dict) or e.get("path") != path:
            return "index entry of %r is %r, expected path %r" % (im, e, path)
        sc = e.get("scale", 1.0)
        if isinstance(sc, bool) or not isinstance(sc, (int, float)) or \
                not any(abs(sc - s) <= 1e-9 * max(1, abs(s)) for s in scales):
            return "index entry of %r has scale %r, expected one of %r" % (im, sc, sorted(set(scales)))
        if set(e) - {"path", "scale"}:
            return "index entry of %r has unexpected fields %r" % (im, e)
    return None


# ---------------------------------------------------------------------------------------------- draw order
def decode_draw(slots, offsets):
    """-> list of slot names in draw order; raises ValueError if the key is malformed."""
    n = len(slots)
    pos = {s: i for i, s in enumerate(slots)}
    order = [None] * n
    moved = set()
    last = -1
    for o in offsets:
        i = pos.get(o.get("slot"))
        if i is None:
            raise ValueError("names unknown slot %r" % o.get("slot"))
        if i <= last:
            raise ValueError("slots not in slot order at %r" % o.get("slot"))
        last = i
        off = o.get("offset")
        if isinstance(off, bool) or not isinstance(off, int):
            raise ValueError("offset %r" % (off,))
        p = i + off
        if p < 0 or p >= n:
            raise ValueError("slot %r moved to position %d of %d" % (o.get("slot"), p, n))
        if order[p] is not None:
            raise ValueError("two slots at position %d" % p)
        order[p] = slots[i]
        moved.add(slots[i])
    rest = iter([s for s in slots if s not in moved])
    return [x if x is not None else next(rest) for x in order]


def draw_orders(doc):
    """animation -> list of (time, decoded order or error text)"""
    slots = [s["name"] for s in doc.get("slots", [])]
    out = {}
    for n, a in doc.get("animations", {}).items():
        r = []
        for k in a.get("drawOrder", []):
            try:
                r.append((k.get("time", 0), decode_draw(slots, k.get("offsets") or [])))
            except ValueError as e:
                r.append((k.get("time", 0), "malformed key: %s" % e))
        out[n] = r
    return out


def check_draw(orig, doc):
    """orig: draw_orders(original document), orig slots list under key None."""
    slots = [s["name"] for s in doc.get("slots", [])]
    left = set(slots)
    want = [s for s in orig[None] if s in left]
    if slots != want:
        return "setup draw order is %r, expected %r" % (slots, want)
    for n, keys in draw_orders(doc).items():
        o = orig.get(n)
        if o is None:
            return "animation %r did not exist" % n
        if len(o) != len(keys):
            return "animation %r has %d draw-order keys, originally %d" % (n, len(keys), len(o))
        for i, ((t, order), (ot, oorder)) in enumerate(zip(keys, o)):
            if t != ot:
                return "animation %r draw-order key %d at time %r, originally %r" % (n, i, t, ot)
            if isinstance(order, str):
                return "animation %r draw-order key %d: %s" % (n, i, order)
            want = [s for s in oorder if s in left]
            if order != want:
                return "animation %r draw-order key %d draws %r, originally %r" % (n, i, order, want)
    return None


def draw_baseline(doc):
    d = draw_orders(doc)
    d[None] = [s["name"] for s in doc.get("slots", [])]
    return d


# ---------------------------------------------------------------------------------------------- references
def dangling(doc):
    out = set()
    bones = {b["name"] for b in doc.get("bones", [])}
    slots = {s["name"] for s in doc.get("slots", [])}
    skins = {s["name"]: (s.get("attachments") or {}) for s in doc.get("skins", [])}
    iks = {x.get("name") for x in doc.get("ik", [])}
    trs = {x.get("name") for x in doc.get("transform", [])}
    pcs = {x.get("name") for x in doc.get("path", [])}
    evs = set(doc.get("events", {}))

    def need(ok, *what):
        if not ok:
            out.add(" ".join(str(w) for w in what))
    for b in doc.get("bones", []):
        need(b.get("parent") is None or b["parent"] in bones, "bone", b["name"], "parent", b.get("parent"))
    for s in doc.get("slots", []):
        need(s.get("bone") in bones, "slot", s["name"], "bone", s.get("bone"))
    for kind in ("ik", "transform", "path"):
        for c in doc.get(kind, []):
            for b in c.get("bones") or ([c["bone"]] if c.get("bone") else []):
                need(b in bones, kind, c.get("name"), "bone", b)
            need(c.get("target") in (slots if kind == "path" else bones), kind, c.get("name"), "target", c.get("target"))
    for sk, m in skins.items():
        for s, atts in m.items():
            if not atts:
                continue
            need(s in slots, "skin", sk, "slot", s)
            for n, a in atts.items():
                if a.get("type") == "linkedmesh":
                    ps = a.get("skin") or "default"
                    p = skins.get(ps, {}).get(s, {}).get(a.get("parent"))
                    need(p is not None and p.get("type") in ("mesh", "linkedmesh"), "linked mesh", sk, s, n, "parent",
                         ps, a.get("parent"))
    for an, a in doc.get("animations", {}).items():
        for b in a.get("bones", {}):
            need(b in bones, "anim", an, "bone", b)
        for s in a.get("slots", {}):
            need(s in slots, "anim", an, "slot timeline", s)
        for i in a.get("ik", {}):
            need(i in iks, "anim", an, "ik", i)
        for i in a.get("transform", {}):
            need(i in trs, "anim", an, "transform", i)
        for i in a.get("path", {}):
            need(i in pcs, "anim", an, "path", i)
        for sk, m in a.get("deform", {}).items():
            for s, mm in m.items():
                for n, ks in mm.items():
                    if not ks:
                        continue
                    need(sk in skins, "anim", an, "deform skin", sk)
                    need(s in slots, "anim", an, "deform slot", s)
                    need(n in skins.get(sk, {}).get(s, {}), "anim", an, "deform attachment", sk, s, n)
        for k in a.get("drawOrder", []):
            for o in k.get("offsets") or []:
                need(o.get("slot") in slots, "anim", an, "draw order slot", o.get("slot"))
        for k in a.get("events", []):
            need(k.get("name") in evs, "anim", an, "event", k.get("name"))
    return out


def lost_defaults(pre, post):
    """A slot whose default attachment cleanup took out of the remaining skins, or None."""
    kept = {s["name"] for s in post.get("skins", [])}
    names = [{}, {}]
    for d, out in ((pre, names[0]), (post, names[1])):
        for sk in d.get("skins", []):
            if sk["name"] in kept:
                for s, m in (sk.get("attachments") or {}).items():
                    out.setdefault(s, set()).update(m)
    for s in post.get("slots", []):
        a = s.get("attachment")
        if a in names[0].get(s["name"], ()) and a not in names[1].get(s["name"], ()):
            return "slot %r keeps %r as its default attachment, which was removed" % (s["name"], a)
    return None


# ---------------------------------------------------------------------------------------------- scaling
NOINHERIT = ("noScale", "noScaleOrReflection", "onlyTranslation")


def scales(doc):
    return {b["name"]: (b.get("scaleX", 1), b.get("scaleY", 1)) for b in doc.get("bones", [])}


def scaled_bones(doc):
    return {b["name"] for b in doc.get("bones", []) if b["name"] == "root" or b.get("transform") in NOINHERIT}


def check_scales(doc, base, affected, fx, fy):
    now = scales(doc)
    if set(now) != set(base):
        return "bones changed: %r" % sorted(set(now) ^ set(base))[:3]
    for n, (x, y) in base.items():
        wx, wy = (x * fx, y * fy) if n in affected else (x, y)
        gx, gy = now[n]
        for g, w_, ax in ((gx, wx, "X"), (gy, wy, "Y")):
            if isinstance(g, bool) or not isinstance(g, (int, float)) or abs(g - w_) > 1e-9 * max(abs(w_), abs(g)):
                return "bone %r has scale%s %r, expected %r" % (n, ax, g, w_)
    return None


# ---------------------------------------------------------------------------------------------- edits
def erase_anims(doc, names):
    d = dict(doc)
    d["animations"] = {k: v for k, v in doc.get("animations", {}).items() if k not in set(names)}
    return d


def erase_skins(doc, names):
    d = copy.deepcopy(doc)
    for name in names:
        gone = [s for s in d["skins"] if s["name"] == name][0]
        d["skins"] = [s for s in d["skins"] if s["name"] != name]
        for sk in d["skins"]:
            for slot, atts in (sk.get("attachments") or {}).items():
                for n, a in list(atts.items()):
                    if a.get("type") == "linkedmesh" and (a.get("skin") or "default") == name:
                        p = ((gone.get("attachments") or {}).get(slot) or {}).get(a.get("parent"))
                        if p is None or p.get("type") != "mesh":
                            continue
                        m = {k: v for k, v in p.items() if k not in ("name", "path", "width", "height", "color")}
                        for k in ("name", "path", "width", "height", "color"):
                            if k in a:
                                m[k] = a[k]
                        atts[n] = m
        for a in d.get("animations", {}).values():
            if a.get("deform"):
                a["deform"].pop(name, None)
    return d


def alpha0(color):
    return color is not None and int(color, 16) & 0xFF == 0


KEEP, HIDDEN, FUZZY = "keep", "hidden", "fuzzy"


NOTHING = (None, "None")      # what an attachment key says to show nothing (the library's own files use both)


def visibility(slot, tl):
    """Can this animation show anything in this slot?  FUZZY where the rule of thumb used by cleanup and true
    visibility differ (nothing is ever shown, but cleanup may keep the slot)."""
    a0 = alpha0(slot.get("color"))
    noatt = slot.get("attachment") is None
    plain = slot.get("color") is None and slot.get("dark") is None and slot.get("blend") is None
    ak = (tl or {}).get("attachment") or []
    ck = ((tl or {}).get("color") or []) + ((tl or {}).get("twoColor") or [])
    if not ak and not ck:
        if a0 or (noatt and plain):
            return HIDDEN
        return FUZZY if noatt else KEEP
    keyed = [k.get("name") for k in ak if k.get("name") not in NOTHING]
    if not ck and len(ak) == 1 and not keyed and ak[0].get("time", 0) == 0:
        return HIDDEN
    if a0 and not ck:
        return HIDDEN
    if noatt and not keyed:
        return HIDDEN if plain else FUZZY
    if not keyed and ak and ak[0].get("time", 0) == 0:
        return FUZZY
    colors = [k.get("color") or k.get("light") for k in ck]
    if colors and all(alpha0(c) for c in colors):
        if a0 or (ck and ck[0].get("time", 0) == 0):
            return FUZZY
    return KEEP


def cleanup_bounds(doc):
    """-> dict of what cleanup must keep and must remove in doc (which has the named animations/skins already out)."""
    anims = doc.get("animations", {})
    skins = doc.get("skins", [])
    entries = [(sk["name"], s, n, a) for sk in skins for s, m in (sk.get("attachments") or {}).items()
               for n, a in m.items()]
    by_slot = {}
    for sk, s, n, a in entries:
        by_slot.setdefault(s, []).append((sk, n, a))
    vis = {}
    used = {}            # slot -> names that must stay
    upper = set()        # names cleanup may regard as used
    for s in doc.get("slots", []):
        v = []
        for an in anims.values():
            tl = an.get("slots", {}).get(s["name"])
            r = visibility(s, tl)
            v.append(r)
            names = [k.get("name") for k in ((tl or {}).get("attachment") or [])
                     if k.get("name") not in NOTHING]
            if s.get("attachment") is not None:
                names.append(s["attachment"])
            if r == KEEP:
                used.setdefault(s["name"], set()).update(names)
            if r != HIDDEN:
                upper.update(names)
        vis[s["name"]] = KEEP if KEEP in v else FUZZY if FUZZY in v else HIDDEN
    pathslots = {p.get("target") for p in doc.get("path", [])}
    keep_entries, drop_entries = set(), set()
    mesh_names = {n for sk, s, n, a in entries if a.get("type") == "mesh" and (vis.get(s) != HIDDEN or s in pathslots)}
    # a linked mesh that stays needs its parent mesh
    linked_parents = {a.get("parent") for sk, s, n, a in entries if a.get("type") == "linkedmesh"}
    for sk, s, n, a in entries:
        t = a.get("type")
        if vis.get(s) == KEEP and (n in used.get(s, ()) or t == "mesh") or t == "path" and s in pathslots:
            keep_entries.add((sk, s, n))
        elif vis.get(s) == HIDDEN and s not in pathslots:
            drop_entries.add((sk, s, n))
        elif t != "mesh" and n not in upper and n not in mesh_names and n not in linked_parents and \
                not (t == "path" and s in pathslots):
            if s not in pathslots:
                drop_entries.add((sk, s, n))
    keep_slots, drop_slots = set(), set()
    for s in doc.get("slots", []):
        n = s["name"]
        ents = [(sk, n, x) for sk, x, a in by_slot.get(n, [])]
        if n in pathslots:
            keep_slots.add(n)
        elif any(e in keep_entries for e in ents):
            keep_slots.add(n)
        elif vis[n] == HIDDEN or all(e in drop_entries for e in ents):
            drop_slots.add(n)
    return {"keep_slots": keep_slots, "drop_slots": drop_slots, "keep_entries": keep_entries,
            "drop_entries": drop_entries}


def entries_of(doc):
    return {(sk["name"], s, n) for sk in doc.get("skins", []) for s, m in (sk.get("attachments") or {}).items()
            for n in m}


def check_cleanup(pre, post, reported=None):
    """pre: document with the named animations/skins taken out; post: document after cleanup."""
    if not pre.get("animations"):
        return None
    b = cleanup_bounds(pre)
    slots = {s["name"] for s in post.get("slots", [])}
    was = {s["name"] for s in pre.get("slots", [])}
    ents = entries_of(post)
    x = sorted(b["keep_slots"] - slots)
    if x:
        return "slot %r was removed although a remaining animation shows it (or a path constraint needs it)" % x[0]
    x = sorted(b["keep_entries"] - ents)
    if x:
        return "attachment %r (skin, slot, name) was removed although a remaining animation can show it" % (x[0],)
    x = sorted(b["drop_slots"] & slots)
    if x:
        return "slot %r was kept although every remaining animation keeps it hidden or it has no attachment" % x[0]
    x = sorted(b["drop_entries"] & ents)
    if x:
        return "attachment %r (skin, slot, name) was kept although no remaining animation uses it" % (x[0],)
    if reported is not None:
        if sorted(reported) != sorted(was - slots):
            return "reported removed slots %r, actually removed %r" % (sorted(reported), sorted(was - slots))
    return None


def check_rest(pre, post):
    """post must be pre with some slots and attachments (and what belongs to them) taken out; nothing else changed."""
    a, b = canon(pre), canon(post)
    left = {s["name"] for s in b["slots"]}
    was = [s["name"] for s in a["slots"]]
    gone = set(was) - left
    skinents = {(sk["name"], s, n) for sk in b["skins"] for s, m in sk["attachments"].items() for n in m}
    old = {(sk["name"], s, n) for sk in a["skins"] for s, m in sk["attachments"].items() for n in m}
    a["slots"] = [s for s in a["slots"] if s["name"] not in gone]
    # a default attachment that no longer exists may be dropped from its slot
    have = {(s, n) for _, s, n in skinents}
    for x, y in zip(a["slots"], b["slots"]):
        if "attachment" in x and "attachment" not in y and (x["name"], x["attachment"]) not in have:
            del x["attachment"]
    for sk in a["skins"]:
        sk["attachments"] = {s: m2 for s, m2 in
                             ((s, {n: v for n, v in m.items() if (sk["name"], s, n) in skinents})
                              for s, m in sk["attachments"].items() if s not in gone) if m2}
    for an in a["animations"].values():
        an["slots"] = {k: v for k, v in an["slots"].items() if k not in gone}
        d = {}
        for sk, m in an["deform"].items():
            r = {}
            for s, mm in m.items():
                r[s] = {n: v for n, v in mm.items() if s not in gone and
                        ((sk, s, n) in skinents or (sk, s, n) not in old)}
            d[sk] = _nonempty(r)
        an["deform"] = _nonempty(d)
        an["drawOrder"] = [{k: v for k, v in x.items() if k != "offsets"} for x in an["drawOrder"]]
    for an in b["animations"].values():
        an["drawOrder"] = [{k: v for k, v in x.items() if k != "offsets"} for x in an["drawOrder"]]
    return diff(a, b)


def check_order(pre, post):
    """The animations and events that both documents have come in the same order in both."""
    for sec in ("animations", "events"):
        a, b = pre.get(sec) or {}, post.get(sec) or {}
        x, y = [n for n in a if n in b], [n for n in b if n in a]
        if x != y:
            return "%s come as %s, were %s" % (sec, y, x)
    return None
