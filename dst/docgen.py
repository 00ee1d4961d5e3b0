"""Seeded generator of Spine 3.8 documents: small, but using every feature the library can open.

Pure function of the random.Random it is given.  Documents are valid: references resolve, parents come first,
linked meshes have a mesh parent in the same slot, draw-order keys are in slot order, names are unique per kind.
"""

import copy

ODD = ["arm", "arm_r", "head", "fx/smoke", "b c", "\u9aa8", "\u00e9t\u00e9", "x_SLOT_y", "a_IMAGE", "my_IMAGE_2",
       "_SLOT", "p_ATTACHMENT_q", "front_BONE_l", "None_", "1", "22", "tag-like", "sm\u00f6ke.png", "dir/sub/img",
       "quote\"d", "back\\slash", "tab\there", "UPPER", "upper", "_IMAGE_IMAGE", "IK_x", "\U0001f600"]


class Names:
    def __init__(self, rng, odd):
        self.rng, self.odd, self.used = rng, odd, {}

    def new(self, kind, prefix, tag=False):
        used = self.used.setdefault(kind, set())
        for _ in range(50):
            if used and self.rng.random() < (0.25 if kind in ("skin", "anim") else 0.08):
                # a variation of another name of the same kind
                b = self.rng.choice(sorted(used)).split("[")[0]
                n = self.rng.choice([b + "0", b + "_2", b + "/x", b + " ", b + ".1", "x" + b, b.upper(), b[:-1] or "x", b.split("/")[0]])
            elif self.rng.random() < self.odd:
                n = self.rng.choice(ODD)
                if self.rng.random() < 0.2 and any(self.used.values()):
                    # another element's name with a node type appended
                    k = self.rng.choice([x for x in sorted(self.used) if self.used[x]])
                    n = self.rng.choice(sorted(self.used[k])).split("[")[0] + self.rng.choice(["_ATTACHMENT", "_SLOT", "_IMAGE", "_BONE", "_IK"])
                elif self.rng.random() < 0.5:
                    n += str(self.rng.randrange(4))
            else:
                n = prefix + str(len(used))
            if tag and self.rng.random() < 0.15:
                n += self.rng.choice(["[scale:0.5]", "[scale:2]", "[ scale : 3 ]", "[scale:0.25]", "[scale:1]"])
            if n not in used:
                used.add(n)
                return n
        n = "%s_u%d" % (prefix, len(used))
        used.add(n)
        return n


def num(rng, lo=-100, hi=100):
    r = rng.random()
    if r < 0.35:
        return rng.randrange(int(lo), int(hi) + 1)
    return round(rng.uniform(lo, hi), rng.choice([1, 2, 4, 5]))


def maybe(rng, p):
    return rng.random() < p


def curve(rng, key, p=0.3):
    if maybe(rng, p):
        c = rng.randrange(3)
        if c == 0:
            key["curve"] = "stepped"
        else:
            key["curve"] = round(rng.random(), 3)
            for f, d in (("c2", 0), ("c3", 1), ("c4", 1)):
                if maybe(rng, 0.6):
                    key[f] = d if maybe(rng, 0.15) else round(rng.random(), 3)
    return key


def times(rng, n, zero_first=0.7):
    whole = maybe(rng, 0.3)

    def step(a, b):
        return rng.choice([1, 1, 2, 0.5, 1.0]) if whole else round(rng.uniform(a, b), 4)

    t = 0 if maybe(rng, zero_first) else step(0.05, 0.5)
    out = []
    for _ in range(n):
        out.append(t)
        t = round(t + step(0.05, 0.7), 4)
    return out


def keyed(rng, t, extra=None):
    k = {}
    if t != 0 or maybe(rng, 0.1):
        k["time"] = t
    k.update(extra or {})
    return k


COLORS = ["ffffffff", "ffffff00", "00000000", "ff0000ff", "12345600", "000000ff", "abcdef80", "ffffff01", "FFFFFF00"]


def default_cfg(rng):
    """Swarm-style configuration: each document stresses a random subset of features."""
    return {
        "bones": rng.choice([1, 2, 3, 4, 6, 8]) if maybe(rng, 0.95) else 13,
        "slots": rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if maybe(rng, 0.9) else rng.choice([10, 13]),
        "skins": rng.choice([1, 1, 2, 2, 3, 4]),
        "anims": rng.choice([0, 1, 2, 2, 3, 3, 4]),
        "odd": rng.choice([0, 0.1, 0.5, 0.9]),
        "share": rng.choice([0, 0.2, 0.6]),
        "mesh": rng.choice([0, 0.3, 0.7]),
        "linked": rng.choice([0, 0.4, 0.8]),
        "path": rng.choice([0, 0.15, 0.4]),
        "color": rng.choice([0, 0.2, 0.6]),
        "dark": rng.choice([0, 0.1, 0.3]),
        "noatt": rng.choice([0.1, 0.3, 0.6]),
        "slot_tl": rng.choice([0.1, 0.4, 0.8]),
        "hide": rng.choice([0.1, 0.4, 0.8]),
        "deform": rng.choice([0, 0.4, 0.9]),
        "draw": rng.choice([0, 0.4, 0.9]),
        "constr": rng.choice([0, 0.4, 0.9]),
        "bone_tl": rng.choice([0.1, 0.5]),
        "events": rng.choice([0, 0.5]),
        "unnamed": rng.choice([0.2, 0.6, 1.0]),
        "noinherit": rng.choice([0.1, 0.5]),
        "default_vals": rng.choice([0, 0.1, 0.3]),
        "special": rng.choice([0, 0, 0.03, 0.15, 0.4]),
        "dense": rng.choice([0, 0, 0, 0.5, 0.9]),
        "roles": rng.choice([0, 0, 0.4, 0.9]),
        "twins": rng.choice([0, 0, 0.2, 0.5, 0.9]),
    }


# attributes whose value is free: any number (or truth value) keeps the document valid
FREE = {"x", "y", "width", "height", "length", "rotation", "scaleX", "scaleY", "shearX", "shearY", "mix", "softness",
        "rotateMix", "translateMix", "scaleMix", "shearMix", "position", "spacing", "angle", "curve", "c2", "c3", "c4",
        "int", "float", "volume", "balance", "order", "vertices", "lengths", "uvs", "offset"}


def specialise(rng, node, p, key=None, keep=(), same=None):
    """Replaces free attribute values with the ones that are default somewhere, or extreme, with probability p
    (same: all with this value)."""
    if isinstance(node, dict):
        for k in node:
            if k in keep:
                continue
            v = node[k]
            if isinstance(v, (dict, list)):
                specialise(rng, v, p, k, ("offset",) if k == "offsets" else keep if key == "drawOrder" else (), same)
            elif same is not None and k in FREE and k not in ("order", "int", "offset") and type(v) in (int, float):
                if maybe(rng, max(p, 0.6)):
                    node[k] = same
            elif k in FREE and type(v) in (int, float) and maybe(rng, p):
                node[k] = rng.choice([0, 1]) if maybe(rng, 0.7) else rng.choice(
                    [-1, 0.0, 1.0, 2, 2, 3, 10, 100, 0.5, 1e-7, 1e9, 123456789012345678901, -0.0, 3.141592653589793, 1e300])
                if k in ("order", "int"):
                    node[k] = rng.choice([0, 1, 2, -1, 100000])
                if k == "offset":
                    node[k] = rng.choice([0, 1, 2, 7])
    else:
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                specialise(rng, v, p, key, keep, same)
            elif key in ("vertices", "uvs", "lengths") and maybe(rng, p * 0.3):
                node[i] = rng.choice([0, 1, -1, 0.0, 1e-7, 1e9, -0.0])


def gen_doc(rng, cfg=None, **over):
    c = dict(cfg or default_cfg(rng))
    c.update(over)
    N = Names(rng, c["odd"])
    dv = c["default_vals"]

    dense = c.get("dense", 0)

    def put(d, k, default, mk, p):
        if maybe(rng, p + (1 - p) * dense):
            d[k] = default if maybe(rng, dv) else mk()

    # ------------------------------------------------------------------ skeleton header
    sk = {"spine": rng.choice(["3.8.59", "3.8.99", "3.8.0", "3.8", "3.9.1", "3.8.75"])}
    if maybe(rng, 0.8):
        sk["hash"] = "h%08x" % rng.getrandbits(32)
    for k in ("x", "y", "width", "height"):
        if maybe(rng, 0.7):
            sk[k] = num(rng)
    if maybe(rng, 0.7):
        sk["images"] = rng.choice(["./images/", "./images", "", "../art/", "/abs/img/", "im\u00e4ges/", "./a b//", "/"])
    if maybe(rng, 0.3):
        sk["audio"] = rng.choice(["", "/Users/x/audio", "./snd"])

    # ------------------------------------------------------------------ bones
    bones = [{"name": "root"}]
    N.used.setdefault("bone", set()).add("root")
    for _ in range(c["bones"] - 1):
        bones.append({"name": N.new("bone", "b", tag=True), "parent": rng.choice(bones)["name"]})
    for i, b in enumerate(bones):
        put(b, "length", 0, lambda: num(rng, 1, 90), 0.4)
        put(b, "x", 0, lambda: num(rng), 0.5)
        put(b, "y", 0, lambda: num(rng), 0.5)
        put(b, "rotation", 0, lambda: num(rng, -180, 180), 0.5)
        put(b, "scaleX", 1, lambda: rng.choice([0.5, 2, -1, 1.37, 3]), 0.3)
        put(b, "scaleY", 1, lambda: rng.choice([0.5, 2, -1, 0.001, 3]), 0.3)
        put(b, "shearX", 0, lambda: num(rng), 0.15)
        put(b, "shearY", 0, lambda: num(rng), 0.15)
        if maybe(rng, c["noinherit"] if i else c["noinherit"] * 0.3):
            b["transform"] = rng.choice(["normal", "onlyTranslation", "noRotationOrReflection", "noScale",
                                         "noScaleOrReflection"])
        if maybe(rng, 0.1):
            b["color"] = rng.choice(COLORS)
    bnames = [b["name"] for b in bones]

    # ------------------------------------------------------------------ slots
    slots = []
    for _ in range(c["slots"]):
        slots.append({"name": N.new("slot", "s", tag=True), "bone": rng.choice(bnames)})
    snames = [s["name"] for s in slots]

    # ------------------------------------------------------------------ skins
    skin_names = ["default"] if maybe(rng, 0.9) else [N.new("skin", "skin")]
    while len(skin_names) < c["skins"]:
        n = N.new("skin", "skin")
        if n not in skin_names:
            skin_names.append(n)
    img_pool = [N.new("image", "img") for _ in range(6)]
    shared_att = [N.new("att", "a") for _ in range(3)]
    slot_atts = {}
    for s in snames:
        pool = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            pool.append(rng.choice(shared_att) if maybe(rng, c["share"]) else N.new("att", "a"))
        slot_atts[s] = list(dict.fromkeys(pool))

    def image_of(a):
        if maybe(rng, c["unnamed"]):
            return
        r = rng.randrange(3)
        if r != 0:
            a["name"] = rng.choice(img_pool)
        if r != 1:
            a["path"] = rng.choice(img_pool)

    def region():
        a = {}
        image_of(a)
        for k in ("x", "y", "rotation"):
            put(a, k, 0, lambda: num(rng), 0.4)
        for k in ("scaleX", "scaleY"):
            put(a, k, 1, lambda: round(rng.uniform(0.2, 3), 3), 0.2)
        for k in ("width", "height"):
            if maybe(rng, 0.9):
                a[k] = rng.randrange(1, 400)
        if maybe(rng, 0.1):
            a["color"] = rng.choice(COLORS)
        return a

    def mesh():
        n = rng.choice([3, 4])
        a = {"type": "mesh", "uvs": [round(rng.random(), 3) for _ in range(2 * n)],
             "triangles": [0, 1, 2] if n == 3 else [0, 1, 2, 0, 2, 3],
             "vertices": [num(rng) for _ in range(2 * n)], "hull": n}
        if maybe(rng, 0.5):
            a["edges"] = [0, 2, 2, 4]
        image_of(a)
        for k in ("width", "height"):
            if maybe(rng, 0.8):
                a[k] = rng.randrange(1, 400)
        if maybe(rng, 0.15):
            a["color"] = rng.choice(COLORS)
        return a

    path_no = [0]

    def path():
        path_no[0] += 1
        a = {"type": "path", "lengths": [num(rng, 1, 50), num(rng, 51, 90)], "vertexCount": 6,
             "vertices": [num(rng) for _ in range(12)]}
        put(a, "closed", False, lambda: True, 0.3)
        put(a, "constantSpeed", True, lambda: False, 0.3)
        if maybe(rng, 0.2):
            a["color"] = "ff7f00ff"
        return a

    skins = [{"name": n, "attachments": {}} for n in skin_names]
    default = skins[0]["name"] == "default"
    path_slots = []
    for s in snames:
        is_path_slot = maybe(rng, c["path"])
        paths = []
        if is_path_slot:
            paths = [N.new("att", "pth")]
            slot_atts[s] = paths + (slot_atts[s] if maybe(rng, 0.3) else [])      # a path slot may show images as well
        for i, skin in enumerate(skins):
            if not maybe(rng, 0.8 if i == 0 else 0.55):
                continue
            for a in slot_atts[s]:
                if not maybe(rng, 0.85):
                    continue
                if a in paths:
                    att = path()
                elif maybe(rng, c["mesh"]):
                    att = mesh()
                else:
                    att = region()
                skin["attachments"].setdefault(s, {})[a] = att
        if is_path_slot and any(s in k["attachments"] for k in skins):
            path_slots.append(s)
    # linked meshes: same slot, parent a mesh of some skin
    for skin in skins:
        for s in snames:
            if s in path_slots or not maybe(rng, c["linked"]):
                continue
            parents = [(k["name"], a) for k in skins for a, v in k["attachments"].get(s, {}).items()
                       if v.get("type") == "mesh"]
            if not parents:
                continue
            pskin, pname = rng.choice(parents)
            free = [a for a in slot_atts[s] + [N.new("att", "lm")] if a not in skin["attachments"].get(s, {})]
            name = pname if pname in free and maybe(rng, 0.5) else rng.choice(free)
            lm = {"type": "linkedmesh", "parent": pname, "width": rng.randrange(1, 99), "height": rng.randrange(1, 99)}
            if pskin != "default":
                lm["skin"] = pskin
            image_of(lm)
            if maybe(rng, 0.3):
                lm["deform"] = maybe(rng, 0.3)
            if maybe(rng, 0.4):
                lm["color"] = rng.choice(COLORS)
            skin["attachments"].setdefault(s, {})[name] = lm
            if name not in slot_atts[s]:
                slot_atts[s].append(name)
    for skin in skins:
        if not skin["attachments"] and maybe(rng, 0.5):
            del skin["attachments"]

    for s in slots:
        avail = [a for a in slot_atts[s["name"]]]
        if avail and not maybe(rng, c["noatt"]):
            s["attachment"] = rng.choice(avail)
        if maybe(rng, c["color"]):
            s["color"] = rng.choice(COLORS)
        if maybe(rng, c["dark"]):
            s["dark"] = rng.choice(["000000", "ff00ff"])
        if maybe(rng, c["dark"]):
            s["blend"] = rng.choice(["additive", "multiply", "screen"])

    doc = {"skeleton": sk, "bones": bones, "slots": slots, "skins": skins}

    # ------------------------------------------------------------------ constraints and events
    iks, trs, pths = [], [], []
    if len(bnames) > 2 and maybe(rng, c["constr"]):
        for _ in range(rng.choice([1, 1, 2, 3])):
            ik = {"name": N.new("ik", "ik"), "bones": rng.sample(bnames[1:], 1 if maybe(rng, 0.5) or len(bnames) < 4 else 2),
                  "target": rng.choice(bnames)}
            while ik["target"] in ik["bones"]:
                ik["target"] = rng.choice(bnames)
            put(ik, "order", 0, lambda: len(iks) + 1, 0.6)
            put(ik, "mix", 1, lambda: round(rng.random(), 2), 0.4)
            put(ik, "softness", 0, lambda: num(rng, 1, 50), 0.3)
            put(ik, "bendPositive", True, lambda: False, 0.5)
            for k in ("compress", "stretch", "uniform"):
                put(ik, k, False, lambda: True, 0.2)
            iks.append(ik)
    for _ in range(rng.choice([1, 1, 1, 2]) if len(bnames) > 1 and maybe(rng, c["constr"]) else 0):
        tr = {"name": N.new("tr", "tr"), "bones": [rng.choice(bnames[1:])], "target": rng.choice(bnames)}
        if maybe(rng, 0.2):
            tr["bones"] = rng.sample(bnames[1:], rng.randrange(1, len(bnames)))
        put(tr, "order", 0, lambda: 3, 0.6)
        for k in ("rotation", "x", "y", "scaleX", "scaleY", "shearY"):
            put(tr, k, 0, lambda: rng.choice([1, 0.5, num(rng)]), 0.3)
        for k in ("rotateMix", "translateMix", "scaleMix", "shearMix"):
            put(tr, k, 1, lambda: round(rng.random(), 2), 0.4)
        for k in ("local", "relative"):
            if maybe(rng, 0.2):
                tr[k] = maybe(rng, 0.7)
        trs.append(tr)
    for _ in range(rng.choice([1, 1, 1, 2]) if path_slots and maybe(rng, max(0.3, c["constr"])) else 0):
        p = {"name": N.new("pc", "pc"), "bones": [rng.choice(bnames)], "target": rng.choice(path_slots)}
        if maybe(rng, 0.2):
            p["bones"] = rng.sample(bnames, rng.randrange(1, len(bnames) + 1))
        put(p, "skin", False, lambda: True, 0.1)
        put(p, "order", 0, lambda: 4, 0.6)
        put(p, "positionMode", "percent", lambda: "fixed", 0.3)
        put(p, "spacingMode", "length", lambda: rng.choice(["fixed", "percent"]), 0.3)
        put(p, "rotateMode", "tangent", lambda: rng.choice(["chain", "chainScale"]), 0.3)
        put(p, "rotation", 0, lambda: num(rng), 0.3)
        put(p, "position", 0, lambda: num(rng), 0.3)
        put(p, "spacing", 0, lambda: rng.choice([1, 2, 0.5, num(rng)]), 0.4)
        put(p, "rotateMix", 1, lambda: round(rng.random(), 2), 0.3)
        put(p, "translateMix", 1, lambda: round(rng.random(), 2), 0.3)
        pths.append(p)
    for k, v in (("ik", iks), ("transform", trs), ("path", pths)):
        if v or maybe(rng, 0.05):
            doc[k] = v
    evs = {}
    if maybe(rng, c["events"]):
        for _ in range(rng.choice([1, 2])):
            e = {}
            put(e, "int", 0, lambda: rng.randrange(1, 9), 0.5)
            put(e, "float", 0, lambda: num(rng), 0.3)
            put(e, "string", "", lambda: "str", 0.3)
            evs[N.new("event", "ev")] = e
    if evs:
        doc["events"] = evs

    # ------------------------------------------------------------------ animations
    anims = {}
    # what a slot does in all the animations together (None: each animation decides for itself)
    role = {s["name"]: rng.choice(ROLES) if maybe(rng, c.get("roles", 0)) else None for s in slots}
    star = {s["name"]: rng.randrange(max(1, c["anims"])) for s in slots}
    for r_, s in zip(role.values(), slots):
        if r_ in ("keyed in one", "coloured in one", "two-coloured in one") and maybe(rng, 0.8):
            s.pop("attachment", None) if r_ == "keyed in one" or maybe(rng, 0.5) else s.update(color="ffffff00")
    for ai in range(c["anims"]):
        a = {}
        bt = {}
        for b in bnames:
            if not maybe(rng, c["bone_tl"]):
                continue
            tl = {}
            for kind in ("rotate", "translate", "scale", "shear"):
                if maybe(rng, 0.35):
                    keys = []
                    for t in times(rng, rng.choice([1, 2, 3])):
                        k = keyed(rng, t)
                        if kind == "rotate":
                            put(k, "angle", 0, lambda: num(rng), 0.8)
                        else:
                            for f in ("x", "y"):
                                put(k, f, 1 if kind == "scale" else 0, lambda: rng.choice([0, 1, num(rng)]), 0.7)
                        keys.append(curve(rng, k))
                    tl[kind] = keys
            bt[b] = tl
        if bt:
            a["bones"] = bt
        st = {}
        for s in slots:
            if role[s["name"]]:
                tl = play(rng, role[s["name"]], star[s["name"]] == ai, slot_atts[s["name"]])
                if tl:
                    st[s["name"]] = tl
                continue
            if not maybe(rng, c["slot_tl"]):
                continue
            tl = {}
            names = slot_atts[s["name"]]
            r = rng.random()
            if r < c["hide"] * 0.6:
                tl["attachment"] = [keyed(rng, times(rng, 1, 0.8)[0], {"name": None})]
            elif r < 0.85:
                ks = []
                for t in times(rng, rng.choice([1, 1, 2, 3])):
                    nm = rng.choice(names) if names and maybe(rng, 0.6) else None
                    ks.append(keyed(rng, t, {"name": nm}))
                tl["attachment"] = ks
            if maybe(rng, c["color"]) or not tl:
                tl["color"] = [curve(rng, keyed(rng, t, {"color": rng.choice(COLORS)}))
                               for t in times(rng, rng.choice([1, 2]))]
            if maybe(rng, c["dark"] * 0.5):
                tl["twoColor"] = [curve(rng, keyed(rng, t, {"light": rng.choice(COLORS), "dark": "112233"}))
                                  for t in times(rng, 1)]
            st[s["name"]] = tl
        if st:
            a["slots"] = st
        if iks and maybe(rng, 0.5):
            ks = []
            for t in times(rng, rng.choice([1, 2])):
                k = keyed(rng, t)
                put(k, "mix", 1, lambda: round(rng.random(), 2), 0.5)
                put(k, "bendPositive", True, lambda: False, 0.5)
                for f in ("compress", "stretch"):
                    put(k, f, False, lambda: True, 0.2)
                ks.append(curve(rng, k))
            a["ik"] = {rng.choice(iks)["name"]: ks}
        if trs and maybe(rng, 0.5):
            ks = []
            for t in times(rng, rng.choice([1, 2])):
                k = keyed(rng, t)
                for f in ("rotateMix", "translateMix", "scaleMix", "shearMix"):
                    put(k, f, 1, lambda: round(rng.random(), 2), 0.5)
                ks.append(curve(rng, k))
            a["transform"] = {rng.choice(trs)["name"]: ks}
        if pths and maybe(rng, 0.6):
            pt = {}
            for kind in ("position", "spacing", "mix"):
                if maybe(rng, 0.5):
                    ks = []
                    for t in times(rng, rng.choice([1, 2])):
                        k = keyed(rng, t)
                        if kind == "mix":
                            for f in ("rotateMix", "translateMix"):
                                put(k, f, 1, lambda: round(rng.random(), 2), 0.6)
                        else:
                            put(k, kind, 0, lambda: rng.choice([1, 0.5, num(rng)]), 0.8)
                        ks.append(curve(rng, k))
                    pt[kind] = ks
            if pt:
                a["path"] = {rng.choice(pths)["name"]: pt}
        df = {}
        for skin in skins:
            for s, atts in skin.get("attachments", {}).items():
                for n, v in atts.items():
                    if v.get("type") in ("mesh", "path", "linkedmesh") and maybe(rng, c["deform"] * 0.6):
                        ks = []
                        for t in times(rng, rng.choice([1, 2])):
                            k = keyed(rng, t)
                            if maybe(rng, 0.8):
                                k["vertices"] = [num(rng) for _ in range(rng.choice([2, 4]))]
                                if maybe(rng, 0.5):
                                    k["offset"] = rng.choice([1, 2, 3])
                            ks.append(curve(rng, k))
                        df.setdefault(skin["name"], {}).setdefault(s, {})[n] = ks
        if df:
            a["deform"] = df
        if len(snames) > 1 and maybe(rng, c["draw"]):
            a["drawOrder"] = gen_draworder(rng, snames)
        if evs and maybe(rng, 0.6):
            ks = []
            for t in times(rng, rng.choice([1, 2])):
                k = keyed(rng, t, {"name": rng.choice(list(evs))})
                put(k, "int", 0, lambda: rng.randrange(1, 9), 0.4)
                put(k, "float", 0, lambda: num(rng), 0.2)
                put(k, "string", "", lambda: "s2", 0.2)
                put(k, "audio", "", lambda: "snd.wav", 0.1)
                put(k, "volume", 1, lambda: 0.5, 0.1)
                put(k, "balance", 0, lambda: -0.5, 0.1)
                ks.append(k)
            a["events"] = ks
        if maybe(rng, 0.25):
            # animations that use few kinds of timelines, or none
            keep = rng.sample(["bones", "slots", "ik", "transform", "path", "deform", "drawOrder", "events"], rng.choice([0, 1, 2, 3]))
            a = {k: v for k, v in a.items() if k in keep}
        anims[N.new("anim", "anim")] = a
    if anims or maybe(rng, 0.5):
        doc["animations"] = anims
    if c.get("twins"):
        twins(rng, doc, c["twins"], img_pool, N)
    if maybe(rng, 0.15):
        for a in anims.values():
            for tl in a.get("slots", {}).values():
                for k in tl.get("attachment", []):
                    if k.get("name") is None and maybe(rng, 0.5):
                        k["name"] = "None"
    if c.get("special"):
        specialise(rng, doc, c["special"], same=rng.choice([2, 2, 0.5, -1, 10, 1, 0]) if maybe(rng, 0.3) else None)
    if maybe(rng, 0.5):
        ks = list(doc)
        rng.shuffle(ks)
        doc = {k: doc[k] for k in ks}
    return doc


def twins(rng, doc, p, images, N):
    """Makes elements that are the same but for one attribute, or for nothing."""
    def vary(a):
        r = rng.randrange(7)
        if r < 2:
            a["path"] = rng.choice(images)
        elif r == 2:
            a["name"] = rng.choice(images)
        elif r == 3:
            a["color"] = rng.choice(COLORS)
        elif r == 4:
            a.pop(rng.choice(["path", "name", "color"]), None)
        elif r == 5 and "width" in a:
            a["width"] += 1
        if a.get("type") == "path":
            a.pop("path", None)
        return a

    skins = [k for k in doc["skins"] if k.get("attachments")]
    for skin in skins:
        for s, atts in skin["attachments"].items():
            for n in list(atts):
                if atts[n].get("type") == "linkedmesh" or not maybe(rng, p):
                    continue
                like = [o["attachments"][s][m] for o in skins if s in o["attachments"] for m in o["attachments"][s]
                        if (m == n or maybe(rng, 0.2)) and o["attachments"][s][m] is not atts[n]
                        and o["attachments"][s][m].get("type") == atts[n].get("type")]
                if like:
                    atts[n] = vary(copy.deepcopy(rng.choice(like)))
    anims = doc.get("animations") or {}
    for n in list(anims):
        if len(anims) < 6 and maybe(rng, p * 0.3):
            a = copy.deepcopy(anims[n])
            if maybe(rng, 0.6) and a:
                k = rng.choice(sorted(a))
                if isinstance(a[k], dict) and a[k] and maybe(rng, 0.8):
                    a[k].pop(rng.choice(sorted(a[k])))
                else:
                    a.pop(k)
            anims[N.new("anim", "anim")] = a
        for ks in ([anims[n]["drawOrder"]] if anims[n].get("drawOrder") else []):
            if maybe(rng, p):
                k = copy.deepcopy(rng.choice(ks))
                k["time"] = round(ks[-1].get("time", 0) + 0.25, 4)
                ks.append(k)
    bones = doc["bones"]
    for b in bones[1:]:
        if maybe(rng, p * 0.3):
            o = rng.choice(bones)
            for k in [k for k in b if k not in ("name", "parent")]:
                del b[k]
            b.update({k: v for k, v in o.items() if k not in ("name", "parent")})
    for s in doc["slots"]:
        if maybe(rng, p * 0.3):
            o = rng.choice(doc["slots"])
            for k in ("color", "dark", "blend"):
                s.pop(k, None)
                if k in o:
                    s[k] = o[k]


ROLES = ["untouched", "hidden", "hidden late", "hidden but one", "keyed in one", "coloured in one", "two-coloured in one",
         "hidden then shown", "all hidden, one coloured"]


def play(rng, role, star, names):
    """The timeline of a slot with this role in one animation (the slot's special one, if star)."""
    hide = {"attachment": [keyed(rng, 0, {"name": None})]}
    late = {"attachment": [keyed(rng, round(rng.uniform(0.1, 2), 3), {"name": None})]}
    show = {"attachment": [keyed(rng, t, {"name": rng.choice(names) if names else None}) for t in times(rng, 1, 0.5)]}
    color = [keyed(rng, t, {"color": rng.choice(COLORS)}) for t in times(rng, rng.choice([1, 2]))]
    two = [keyed(rng, t, {"light": rng.choice(COLORS), "dark": "112233"}) for t in times(rng, 1)]
    if role == "untouched":
        return None
    if role == "hidden":
        return hide
    if role == "hidden late":
        return late
    if role == "hidden but one":
        return (None if maybe(rng, 0.5) else show) if star else hide
    if role == "keyed in one":
        return show if star else None
    if role == "coloured in one":
        return {"color": color} if star else None
    if role == "two-coloured in one":
        return {"twoColor": two} if star else None
    if role == "hidden then shown":
        hide["attachment"] += show["attachment"] if show["attachment"][0].get("time") else [
            {"time": 1, "name": rng.choice(names) if names else None}]
        return hide if star else (None if maybe(rng, 0.5) else {"attachment": hide["attachment"][:1]})
    return dict(hide, color=color) if star else hide


def gen_draworder(rng, snames):
    keys = []
    n = len(snames)
    for t in times(rng, rng.choice([1, 1, 2, 3])):
        if maybe(rng, 0.15):
            keys.append(keyed(rng, t) if maybe(rng, 0.5) else keyed(rng, t, {"offsets": []}))
            continue
        perm = list(range(n))
        if maybe(rng, 0.4):
            rng.shuffle(perm)
        else:
            for _ in range(rng.choice([1, 1, 2])):
                i = perm.pop(rng.randrange(n))
                perm.insert(rng.randrange(n), i)
        pos = {s: i for i, s in enumerate(perm)}
        # the unmentioned slots must keep their relative order: choose an increasing subsequence of positions
        keep, last = set(), -1
        order = list(range(n))
        if maybe(rng, 0.5):
            best = lis([pos[i] for i in order])
            keep = {order[i] for i in best}
        else:
            for i in order:
                if pos[i] > last and maybe(rng, 0.6):
                    keep.add(i)
                    last = pos[i]
        offs = [{"slot": snames[i], "offset": pos[i] - i} for i in order if i not in keep]
        # Spine's exporter mentions a slot only if the key moves it or other mentioned slots cross it
        keys.append(keyed(rng, t, {"offsets": offs}))
    return keys


def lis(seq):
    best = [[i] for i in range(len(seq))]
    for i in range(len(seq)):
        for j in range(i):
            if seq[j] < seq[i] and len(best[j]) + 1 > len(best[i]):
                best[i] = best[j] + [i]
    return max(best, key=len) if best else []
