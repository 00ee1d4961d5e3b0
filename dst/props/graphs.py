"""C17: the node graph against a small reference model, through accepted, rejected and failing calls, in several threads."""
import json

from .. import app, common, docgen, kernel as K
from ..common import Viol

TYPES = ["A", "B", "C", None, 1]
FAIL = ["RuntimeError", "ValueError", "KeyError", "MemoryError", "KeyboardInterrupt"]


def build(rng, tier, prop):
    nact = rng.choice([1, 1, 2, 2, 3, 4])
    scn = {"prop": prop, "docs": {}, "actors": [], "sched": []}
    for i in range(nact):
        if rng.random() < 0.25:
            scn["docs"]["d%d" % i] = docgen.gen_doc(rng, docgen.default_cfg(rng) if rng.random() < 0.3 else common.small(rng))
            scn["actors"].append({"kind": "spine", "doc": "d%d" % i, "ops": spine_ops(rng, scn["docs"]["d%d" % i])})
            continue
        ids = [str(k) for k in range(1, rng.choice([3, 5, 8]))] + ["n%d" % k for k in range(rng.choice([0, 2, 4]))]
        forbid = {}
        for t in ("A", "B", "C"):
            if rng.random() < 0.4:
                forbid[t] = rng.sample(["A", "B", "C"], rng.choice([1, 2]))
        n = rng.choice([3, 6, 10, 15, 25, 40])
        wt = [rng.choice([3, 5]), rng.choice([3, 6]), rng.choice([1, 3]), rng.choice([0.5, 2])]
        ops = []
        for _ in range(n):
            k = rng.choices(["node", "edge", "unedge", "unnode"], wt)[0]
            if k == "node":
                op = {"op": "node", "type": rng.choice(TYPES)}
                if rng.random() < 0.6:
                    op["id"] = rng.choice(ids) if rng.random() < 0.95 else rng.choice(["", "x y", "é"])
                if rng.random() < 0.3:
                    op["data"] = {"v": rng.randrange(9)}
                if rng.random() < 0.15:
                    op["fail"] = rng.choice(FAIL)
            else:
                op = {"op": k, "a": pick(rng, ids)}
                if k != "unnode":
                    op["b"] = pick(rng, ids)
            ops.append(op)
        scn["actors"].append({"kind": "plain", "ops": ops, "forbid": forbid})
    if nact > 1:
        scn["sched"] = common.gen_sched(rng, nact, rng.choice([200, 1000, 3000]))
    return scn


def pick(rng, ids):
    r = rng.random()
    if r < 0.85:
        return rng.choice(ids)
    return rng.choice(["no such", "99", "", None, "1", "2", "3"])


def spine_ops(rng, doc):
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        r = rng.random()
        if r < 0.3:
            ops.append({"op": "leafs", "type": rng.choice(["SLOT", "ATTACHMENT", "IMAGE", "BONE"])})
        elif r < 0.5:
            ops.append({"op": "heads", "type": rng.choice(["IMAGE", "ATTACHMENT", "BONE"])})
        elif r < 0.75:
            ops.append({"op": "slots", "n": rng.randrange(1, 4), "at": rng.randrange(100)})
        else:
            ops.append({"op": "unnode", "at": rng.randrange(100)})
    return ops


# ------------------------------------------------------------------------------------------------ reference model
class Model:
    def __init__(self):
        self.nodes = {}              # id -> (type, data), in insertion order
        self.edges = set()

    def dump(self):
        return {"nodes": list(self.nodes), "edges": sorted(self.edges),
                "heads": sorted(n for n in self.nodes if not any(b == n for _, b in self.edges)),
                "tails": sorted(n for n in self.nodes if not any(a == n for a, _ in self.edges))}

    def remove(self, n):
        del self.nodes[n]
        self.edges = {e for e in self.edges if n not in e}

    def acyclic(self):
        inc = {n: 0 for n in self.nodes}
        for _, b in self.edges:
            inc[b] += 1
        todo = [n for n in inc if inc[n] == 0]
        k = 0
        while todo:
            x = todo.pop()
            k += 1
            for a, b in self.edges:
                if a == x:
                    inc[b] -= 1
                    if inc[b] == 0:
                        todo.append(b)
        return k == len(self.nodes)


def dump(g, ids):
    """The real graph, both ends of every edge, seen through look-ups of every id that was ever used."""
    try:
        return dump_(g, ids)
    except Viol:
        raise
    except Exception as e:
        raise Viol("broken graph", "looking at the graph fails: %s: %s" % (type(e).__name__, str(e)[:150]))


def dump_(g, ids):
    out, inn, nodes = set(), set(), set()
    todo = sorted({i for i in ids if isinstance(i, str)})
    seen = set(todo)
    while todo:
        k = todo.pop(0)
        n = g.get_node(k)
        if n is None:
            continue
        if n.id != k:
            raise Viol("lookup", "the node looked up as %r has id %r" % (k, n.id))
        nodes.add(k)
        for what, there, edges in (("child", n.children, out), ("parent", n.parents, inn)):
            for c, x in there.items():
                if x is None or g.get_node(c) is not x:
                    raise Viol("edge to nowhere", "%r has %s %r, which is not a node of the graph" % (k, what, c))
                edges.add((k, c) if what == "child" else (c, k))
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
    if out != inn:
        raise Viol("one-sided edge", "edges recorded at one end only: %r" % sorted(out ^ inn)[:3])
    return {"nodes": sorted(nodes), "edges": sorted(out)}


def execute(scn, dry=False):
    w = common.world(scn)
    proc = w.new_proc()
    viols = []
    done = [0]

    def body_of(i, spec):
        def body(a):
            try:
                (run_plain if spec["kind"] == "plain" else run_spine)(w, a, spec, scn, done)
            except Viol as v:
                viols.append({"class": v.cls, "detail": "graph %d: %s" % (i, v.detail)})
                w.ev("violation", v.cls)
        return body
    w.run_phase([(proc, body_of(i, s)) for i, s in enumerate(scn["actors"])], scn["sched"])
    if w.deadlock:
        viols.append({"class": "deadlock", "detail": "all threads are blocked"})
    return common.result(w, viols[0] if viols else None, done[0] > 1, extra={"counts": {}})


def compare(g, m, what, ids):
    ids |= set(m.nodes)
    d = dump(g, ids)
    e = m.dump()
    for k in ("nodes", "edges"):
        x, y = (d[k], sorted(e[k]))
        if x != y:
            raise Viol("graph " + k, "after %s: %s are %r, expected %r" % (what, k, x, y))


def queries(a, g, m, what):
    """Heads, tails and look-ups (through the library, inside the simulation)."""
    for n, (t, data) in m.nodes.items():
        o = a.call(lambda: g.get_node(n))
        x = o.get("ok")
        if x is None or x.id != n or x.data != data or (t is not None and x.node_type != t):
            raise Viol("lookup", "after %s: looking up %r gives %r" % (what, n, o if x is None else (x.id, x.node_type, x.data)))
    if not m.acyclic():
        return
    e = m.dump()
    for k, f in (("heads", g.get_heads_id), ("tails", g.get_tails_id)):
        o = a.call(f)
        if "ok" not in o or sorted(o["ok"]) != e[k]:
            raise Viol("graph " + k, "after %s: %s are %r, expected %r" % (what, k, o.get("ok", o), e[k]))


def run_plain(w, a, spec, scn, done):
    node_cls = a.proc.lib("graph.spamnode").SpamNode
    base = a.proc.lib("graph.factories").INodeFactory
    armed = {}

    class Factory(base):
        def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
            f = armed.pop("fail", None)
            if f:
                w.fired["%s@factory" % f] = w.fired.get("%s@factory" % f, 0) + 1
                import builtins
                raise getattr(builtins, f)("factory failed")
            return node_cls(id_value=node_id, data=node_data, node_type=node_type, order=order,
                            children_types_forbidden=spec["forbid"].get(node_type))

    o = a.call(lambda: a.proc.lib("graph.dagraph").DAGraph(Factory()))
    if "ok" not in o:
        raise Viol("cannot create", "creating a graph failed: %r" % o)
    g, m = o["ok"], Model()
    ids = set(str(x) for op in spec["ops"] for x in (op.get("id"), op.get("a"), op.get("b"))) | {str(n) for n in range(1, 60)}
    for op in spec["ops"]:
        k = op["op"]
        what = json.dumps(op)
        w.ev("gop", a.idx, what)
        if k == "node":
            armed.clear()
            if op.get("fail"):
                armed["fail"] = op["fail"]
            kw = {"node_type": op["type"], "node_data": op.get("data")}
            if "id" in op:
                kw["node_id"] = op["id"]
            o = a.call(lambda: g.add_node(**kw))
            armed.clear()
            if "ok" in o:
                if op.get("fail"):
                    raise Viol("accepted", "%s was accepted although the node could not be made" % what)
                n = o["ok"]
                if n is None:
                    raise Viol("lookup", "%s returned no node" % what)
                if n.id in m.nodes:
                    raise Viol("duplicate id", "%s created a second node with id %r" % (what, n.id))
                if op.get("id") and n.id != op["id"]:
                    raise Viol("lookup", "%s created a node with id %r" % (what, n.id))
                m.nodes[n.id] = (op["type"], op.get("data"))
                done[0] += 1
            else:
                w.probe("rejected add_node")
                legit = op.get("fail") or (op.get("id") in m.nodes) or op.get("id") == ""
                if not legit:
                    raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
        elif k == "edge":
            x, y = op["a"], op["b"]
            o = a.call(lambda: g.add_edge(x, y))
            legal = x in m.nodes and y in m.nodes and x != y and \
                m.nodes[y][0] not in (spec["forbid"].get(m.nodes[x][0]) or ())
            if "ok" in o:
                if not legal:
                    raise Viol("accepted", "%s was accepted" % what)
                m.edges.add((x, y))
                done[0] += 1
            else:
                w.probe("rejected add_edge")
                if legal and (x, y) not in m.edges and (y, x) not in m.edges and not creates_cycle(m, x, y):
                    raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
        elif k == "unedge":
            x, y = op["a"], op["b"]
            o = a.call(lambda: g.remove_edge(x, y))
            if "ok" in o:
                if x not in m.nodes or y not in m.nodes:
                    raise Viol("accepted", "%s was accepted" % what)
                m.edges.discard((x, y))
                done[0] += 1
            else:
                w.probe("rejected remove_edge")
                if (x, y) in m.edges:
                    raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
        else:
            x = op["a"]
            o = a.call(lambda: g.remove_node_by_id(x))
            if "ok" in o:
                if x not in m.nodes:
                    raise Viol("accepted", "%s was accepted" % what)
                if o["ok"].id != x:
                    raise Viol("lookup", "%s returned node %r" % (what, o["ok"].id))
                m.remove(x)
                done[0] += 1
            else:
                w.probe("rejected remove_node_by_id")
                if x in m.nodes:
                    raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
        compare(g, m, what, ids)
        queries(a, g, m, what)
        o = a.call(lambda: g.get_node("no such"))
        if o.get("ok", 0) is not None:
            raise Viol("lookup", "looking up an unknown id gives %r" % (o,))


def creates_cycle(m, x, y):
    seen, todo = set(), [y]
    while todo:
        n = todo.pop()
        if n == x:
            return True
        if n not in seen:
            seen.add(n)
            todo += [b for a, b in m.edges if a == n]
    return False


def run_spine(w, a, spec, scn, done):
    """Graphs of documents: removing nodes by kind keeps the rest intact."""
    doc = scn["docs"][spec["doc"]]
    lib = a.proc.lib
    o = a.call(lambda: lib("spine_animation_editor").SpineAnimationEditor(json_data=json.loads(json.dumps(doc))).spine_graph)
    if "ok" not in o:
        w.probe("document refused")
        return
    c = o["ok"]
    g = c.graph
    m = Model()
    nodes, edges = expected(doc)
    d = dump(g, nodes | {"None_BONE", "None_SLOT", "None_ATTACHMENT", "None_IMAGE", "None_IK"} | {str(n) for n in range(1, 60)})
    for k, want in (("nodes", nodes), ("edges", edges)):
        if set(d[k]) != want:
            raise Viol("document graph", "%s only in one: %r" % (k, sorted(set(d[k]) ^ want)[:4]))
    for n in sorted(nodes):
        x = g.get_node(n)
        m.nodes[n] = (x.node_type, x.data)
        if x.node_type != n.rpartition("_")[2]:
            raise Viol("document graph", "node %r has type %r" % (n, x.node_type))
    m.edges = edges
    ids = set(nodes)
    for op in spec["ops"]:
        what = json.dumps(op)
        w.ev("gop", a.idx, what)
        k = op["op"]
        if k in ("leafs", "heads"):
            t = op["type"]
            want = []
            while True:
                ends = [n for n in m.nodes if m.nodes[n][0] == t and
                        not any(e[0 if k == "leafs" else 1] == n for e in m.edges)]
                if not ends:
                    break
                want += ends
                for n in ends:
                    m.remove(n)
            o = a.call(lambda: (c.remove_leafs_of_type if k == "leafs" else c.remove_heads_of_type)(t))
            if "ok" not in o:
                raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
            if sorted(o["ok"]) != sorted(n[:-len(t) - 1] for n in want):
                raise Viol("removed", "%s reports %r, expected %r" % (what, sorted(o["ok"]), sorted(want)))
            done[0] += 1
        elif k == "slots":
            have = [n for n in m.nodes if m.nodes[n][0] == "SLOT"]
            if not have:
                continue
            take = [have[(op["at"] + x) % len(have)] for x in range(min(op["n"], len(have)))]
            o = a.call(lambda: c.remove_slots([n[:-5] for n in take]))
            if "ok" not in o:
                raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
            for n in take:
                m.remove(n)
            done[0] += 1
        else:
            if not m.nodes:
                continue
            n = list(m.nodes)[op["at"] % len(m.nodes)]
            o = a.call(lambda: g.remove_node_by_id(n))
            if "ok" not in o:
                raise Viol("refused", "%s failed: %s %s" % (what, o.get("exc"), o.get("msg")))
            m.remove(n)
            done[0] += 1
        compare(g, m, what, ids)
        queries(a, g, m, what)


def expected(doc):
    """Nodes and edges of a freshly opened document's graph."""
    nodes, edges = set(), set()
    for b in doc["bones"]:
        nodes.add(b["name"] + "_BONE")
        if b.get("parent") is not None:
            edges.add((b["parent"] + "_BONE", b["name"] + "_BONE"))
    for s in doc.get("slots", []):
        nodes.add(s["name"] + "_SLOT")
        edges.add((s["bone"] + "_BONE", s["name"] + "_SLOT"))
        for sk in doc["skins"]:
            for n, at in ((sk.get("attachments") or {}).get(s["name"]) or {}).items():
                im = at.get("path") or at.get("name") or n
                nodes |= {n + "_ATTACHMENT", im + "_IMAGE"}
                edges |= {(s["name"] + "_SLOT", n + "_ATTACHMENT"), (n + "_ATTACHMENT", im + "_IMAGE")}
    for x in doc.get("ik", []):
        nodes.add(x["name"] + "_IK")
        edges |= {(x["name"] + "_IK", b + "_BONE") for b in x["bones"]}
        edges.add((x["target"] + "_BONE", x["name"] + "_IK"))
    return nodes, edges


RULE = ("One run = 1-4 threads, each with its own graph (plain, or that of a generated document) and a history of 2-40 calls - adding "
        "and removing nodes and edges, with valid, unknown, duplicate and forbidden arguments and node factories that raise - under "
        "a random line-level schedule. After every call all edges are checked at both ends and the graph, look-ups, heads and "
        "tails are compared with a reference model. Non-trivial: at least two accepted calls. Distinct: by the hash of the full "
        "event log.")
