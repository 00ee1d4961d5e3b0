"""Shared pieces of the property modules: building worlds, planning faults and schedules, results."""
import hashlib
import json
import random

from . import app, docgen, kernel as K, model

SPACE = ["ENOSPC", "EDQUOT", "EIO"]
ERRS = {
    "open": ["ENOSPC", "EACCES", "EMFILE", "EROFS", "EIO", "ENFILE"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "read": ["EIO", "EISDIR", "ESTALE"],
    "fsync": ["EIO", "ENOSPC"],
    "fdatasync": ["EIO", "ENOSPC"],
    "close": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EIO", "ENOSPC", "EACCES", "EROFS"],
    "replace": ["EIO", "ENOSPC", "EACCES", "EROFS"],
    "mkdir": ["ENOSPC", "EACCES", "EROFS", "EIO"],
    "stat": ["EIO", "EACCES"],
    "lstat": ["EIO", "EACCES"],
    "link": ["EIO", "EMLINK", "ENOSPC"],
    "unlink": ["EIO", "EACCES"],
    "chmod": ["EPERM", "EIO"],
    "ftruncate": ["EIO", "ENOSPC"],
}


class Viol(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls + ": " + detail)
        self.cls, self.detail = cls, detail


def world(scn):
    w = K.World({k: scn[k] for k in ("bufsz", "line_budget", "keep_log") if scn.get(k)})
    K.set_world(w)
    return w


def result(w, viol=None, nontrivial=False, sig=None, extra=None):
    r = {"viol": viol, "stats": w.stats() if w is not None else {}, "nontrivial": bool(nontrivial),
         "sig": sig or (w.log.hexdigest() if w is not None else "")}
    if w is not None and w.keep_log:
        r["log"] = w.text
    if extra:
        r.update(extra)
    return r


def discard(why):
    return {"discard": why, "viol": None, "stats": {}, "nontrivial": False, "sig": ""}


def guard(fn, w):
    """Run the oracle part; turn Viol into the result's violation record."""
    try:
        fn()
    except Viol as v:
        return {"class": v.cls, "detail": v.detail}
    return None


# ---------------------------------------------------------------------------------------------- schedules
def gen_sched(rng, n_actors, total_steps, nsys=50):
    """Explicit list of [pick, quantum].  Mixes few-switch schedules at random depths, switches at system calls and
    dense random switching."""
    mode = rng.randrange(5)
    out = []
    if mode == 0:                                  # a few preemptions anywhere (PCT-like)
        for _ in range(rng.choice([1, 2, 3, 5])):
            out.append([rng.randrange(n_actors), rng.randrange(1, max(2, total_steps))])
        for _ in range(3 * n_actors):
            out.append([rng.randrange(n_actors), rng.choice([-1, rng.randrange(1, max(2, total_steps))])])
    elif mode == 1:                                # switch at every system call
        for _ in range(rng.randrange(2, nsys * n_actors)):
            out.append([rng.randrange(n_actors), 0])
    elif mode == 2:                                # dense
        m = rng.choice([1, 3, 10, 50])
        for _ in range(min(3000, 1 + 2 * total_steps // (m + 1))):
            out.append([rng.randrange(n_actors), rng.randrange(1, m + 2)])
    elif mode == 3:                                # geometric quanta
        m = max(2, total_steps // rng.choice([3, 10, 40, 150]))
        for _ in range(rng.randrange(2, 200)):
            out.append([rng.randrange(n_actors), 1 + int(rng.expovariate(1.0 / m))])
    else:                                          # mixture
        m = max(2, total_steps // rng.choice([5, 30]))
        for _ in range(rng.randrange(2, 120)):
            q = rng.choice([0, 0, 1, 2, 5, 1 + int(rng.expovariate(1.0 / m))])
            out.append([rng.randrange(n_actors), q])
    return out


def power(rng):
    return {"meta": rng.choice([0.0, 1.0, round(rng.random(), 3)]),
            "data": [rng.choice([0, 1, rng.randrange(2, 300)]) for _ in range(3)]}


def save_fault(rng, trace, lines, kinds):
    """One fault for a save whose fault-free run made the system calls in trace."""
    k = rng.choice(kinds)
    n = len(trace)
    if k == "short":
        wr = [i for i, t in enumerate(trace) if t == "write"]
        if wr:
            return {"at": "sys", "n": rng.choice(wr) + 1, "do": "short", "part": round(rng.random(), 2)}
        k = "err"
    if k == "err":
        c = [i for i, t in enumerate(trace) if t in ERRS and t != "unlink"]
        if not c:
            return None
        i = rng.choice(c)
        f = {"at": "sys", "n": i + 1, "do": "err:" + rng.choice(ERRS[trace[i]])}
        if rng.random() < 0.3:
            f["sticky"] = 1
        if trace[i] == "write" and rng.random() < 0.4:
            f["part"] = round(rng.random(), 2)
            f.pop("sticky", None)
        elif trace[i] == "close":
            f["post"] = 1
            f.pop("sticky", None)
        return f
    if k in ("kill", "power", "kbd", "mem"):
        if rng.random() < 0.7 and n:
            i = rng.randrange(n)
            f = {"at": "sys", "n": i + 1, "do": k}
            if trace[i] == "write" and rng.random() < 0.5 and k in ("kill", "power"):
                f["part"] = round(rng.random(), 2)
            elif rng.random() < 0.4:
                f["post"] = 1
        else:
            f = {"at": "line", "n": rng.randrange(1, max(2, lines + 1)), "do": k}
        if k == "power":
            f.update(power(rng))
        return f
    return None


def edit_fault(rng, out, kinds=("kbd", "mem", "stdout", "deepcopy")):
    """One fault for an edit whose fault-free outcome (counts) is out."""
    k = rng.choice(kinds)
    if k == "stdout" and out.get("nout"):
        return {"at": "stdout", "n": rng.randrange(1, out["nout"] + 1),
                "do": rng.choice(["err:EPIPE", "err:ENOSPC", "err:EIO", "exc:ValueError", "kbd"])}
    if k == "deepcopy" and out.get("ndc"):
        return {"at": "deepcopy", "n": rng.randrange(1, out["ndc"] + 1), "do": rng.choice(["mem", "kbd", "mem"])}
    d = k if k in ("kbd", "mem", "kill") else rng.choice(["kbd", "mem"])
    n = max(1, out.get("lines", 1))
    # the interesting lines of an edit are few and spread over the call: mix uniform positions with its two ends
    r = rng.random()
    if r < 0.6:
        i = rng.randrange(1, n + 1)
    elif r < 0.75:
        i = rng.randrange(1, min(n, 60) + 1)
    else:
        i = n - rng.randrange(0, min(n, 400))
    return {"at": "line", "n": max(1, i), "do": d}


def note_counts(a, out):
    out["nout"] = a.counts.get("stdout", 0)
    out["ndc"] = a.counts.get("deepcopy", 0)
    out["trace"] = list(a.trace)
    return out


def bias(rng, prop):
    c = docgen.default_cfg(rng)
    hi = {"C11": {"odd": [0, .5, .9], "share": [0.2, 0.6], "unnamed": [0.2, 0.6]},
          "C12": {"linked": [0.4, 0.8], "mesh": [0.3, 0.7], "path": [0.15, 0.4], "constr": [0.4, 0.9],
                  "deform": [0.4, 0.9], "draw": [0.4, 0.9]},
          "C13": {"draw": [0.9, 0.9, 0.6], "slots": [3, 4, 5, 6, 8, 10], "anims": [2, 3, 3, 4]},
          "C14": {"mesh": [0.3, 0.7], "linked": [0.4, 0.8], "constr": [0.4, 0.9], "events": [0.5]},
          "C15": {"slots": [2, 3, 4, 5, 6, 8], "color": [0, 0.2, 0.6], "anims": [1, 2, 2, 3, 3, 4],
                  "path": [0, 0.15, 0.4]},
          "C22": {"unnamed": [0.3, 0.7], "share": [0.2, 0.6], "skins": [2, 3, 4], "mesh": [0.3, 0.6], "path": [0.15, 0.4]},
          "C16": {"noinherit": [0.5, 0.8], "slots": [0, 1, 2, 3], "bones": [2, 3, 4, 6, 8]}}
    for k, v in hi.get(prop, {}).items():
        if rng.random() < 0.75:
            c[k] = rng.choice(v)
    return c


def small(rng):
    """A small document for workloads where the document's content matters little."""
    c = docgen.default_cfg(rng)
    c.update(bones=rng.choice([1, 2, 3]), slots=rng.choice([0, 1, 2, 3]), skins=rng.choice([1, 2]),
             anims=rng.choice([0, 1, 2]))
    return c


def valid_doc(doc):
    try:
        if model.dangling(doc):
            return False
        if any(isinstance(o, str) for ks in model.draw_orders(doc).values() for _, o in ks):
            return False
        for kind in ("bones", "slots", "skins"):
            n = [x["name"] for x in doc[kind]]
            if len(set(n)) != len(n):
                return False
        seen = set()
        for b in doc["bones"]:
            if b.get("parent") is not None and b["parent"] not in seen:
                return False
            if b.get("parent") is None and b["name"] != "root":
                return False
            seen.add(b["name"])
        for s in doc["slots"]:
            if not isinstance(s["bone"], str):
                return False
        return isinstance(doc["skeleton"]["spine"], str) and doc["skeleton"]["spine"].startswith("3.")
    except (KeyError, TypeError, AttributeError):
        return False
