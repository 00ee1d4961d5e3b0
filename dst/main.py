"""Command line: check a property, replay a file, self-test determinism.

  python -m dst.main check C11 [--runs N] [--first N] [--lanes N]
  python -m dst.main replay FILE
  python -m dst.main lane ...        (internal: one worker process)
  python -m dst.main one ...         (internal: one scenario in this process's hash seed, scenario on stdin)
"""
import argparse
import hashlib
import json
import os
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES = 8                      # logical lanes: fixed, so that results do not depend on the number of processors
RUN_TIMEOUT = 150.0
KNOWN = os.path.join(HERE, "known-findings.json")


def hashseed(lane, seed):
    return str(int.from_bytes(hashlib.sha256(b"%d/%d" % (lane, seed)).digest()[:4], "big") % 4294967295)


def envs_of(lane, seed):
    """Default text encoding and standard-output encoding of the simulated processes of a lane (C08)."""
    encs = ["utf-8", "ascii", "latin-1", "cp1252", "utf-8", "cp932", "latin-1", "ascii"]
    outs = ["utf-8", "utf-8", "ascii", "cp1252", "latin-1", "utf-8", "ascii", "cp932"]
    return encs[(lane + seed) % 8], outs[(lane * 3 + seed) % 8]


def start():
    sys.dont_write_bytecode = True
    from dst import kernel as K, simfs
    simfs.install()
    K.load_code()
    K.warm_up()
    from dst import registry
    for m in set(registry.MODULES.values()):
        __import__("dst.props." + m)
    import gc
    gc.collect()
    gc.freeze()
    return K


def make(prop, seed, i, tier):
    from dst import registry
    rng = random.Random("%s/%d/%d" % (prop, seed, i))
    scn = registry.module(prop).build(rng, tier, prop)
    scn["prop"] = prop
    scn["seed"] = "%s/%d/%d" % (prop, seed, i)
    return scn


def spread(prop):
    """C08 runs every scenario in every lane; the others divide the scenarios among the lanes."""
    return prop == "C08"


# ------------------------------------------------------------------------------------------------ worker
def lane_main(a):
    K = start()
    from dst import registry
    mod = registry.module(a.prop)
    known = load_known(a.prop)
    enc, out = envs_of(a.lane, a.seed)
    t0 = K.REAL["monotonic"]()
    mine = range(a.first, a.first + a.runs) if spread(a.prop) else range(a.first + a.lane, a.first + a.runs, a.lanes)
    o = sys.stdout
    for i in mine:
        if K.REAL["monotonic"]() - t0 > a.limit:
            o.write(json.dumps({"cut": i}) + "\n")
            break

        def go():
            scn = make(a.prop, a.seed, i, a.tier)
            if spread(a.prop):
                scn["enc"], scn["out"] = enc, out
            r = mod.execute(scn)
            r["scn_size"] = len(json.dumps(scn))
            if r.get("viol") or i < a.first + 3 * LANES:
                r["scn"] = scn
            return r
        try:
            r = K.isolated(go, RUN_TIMEOUT)
        except K.HarnessError as e:
            o.write(json.dumps({"i": i, "error": str(e)[-3000:]}) + "\n")
            o.flush()
            continue
        r["i"] = i
        r.pop("counts", None)
        if r.get("viol") and known_match(known, r["viol"]):
            r["known"] = r["viol"]
            r["viol"] = None
        o.write(json.dumps(r) + "\n")
        o.flush()
        if r.get("viol"):
            break
    o.flush()


def load_known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == prop]
    except FileNotFoundError:
        return []


def known_match(known, viol):
    for k in known:
        if k["class"] == viol["class"] and re.search(k["match"], viol["detail"]):
            return k
    return None


def one_main(a):
    """Run one scenario given on standard input; print its result."""
    K = start()
    from dst import registry
    scn = json.load(sys.stdin)
    mod = registry.module(scn["prop"])
    if a.log:
        scn["keep_log"] = 1
    try:
        r = K.isolated(lambda: mod.execute(scn), RUN_TIMEOUT)
    except K.HarnessError as e:
        r = {"error": str(e)[-3000:]}
    print(json.dumps(r))


# ------------------------------------------------------------------------------------------------ coordinator
def python(hs):
    env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, PYTHONUTF8="1")
    return [sys.executable, "-B", "-m", "dst.main"], env


def run_one(scn, hs, log=False):
    cmd, env = python(hs)
    p = subprocess.run(cmd + ["one"] + (["--log"] if log else []), input=json.dumps(scn), text=True, env=env, cwd=HERE,
                       stdout=subprocess.PIPE, timeout=RUN_TIMEOUT + 60)
    if p.returncode != 0 or not p.stdout.strip():
        return {"error": "worker exited with %d" % p.returncode}
    return json.loads(p.stdout.strip().splitlines()[-1])


def shrink_main(a):
    """Internal: minimise the scenario on standard input within this process's hash seed."""
    K = start()
    from dst import registry, shrink
    x = json.load(sys.stdin)
    mod = registry.module(x["scn"]["prop"])

    def run(s):
        try:
            r = K.isolated(lambda: mod.execute(s), 60)
        except K.HarnessError:
            return None
        return r["viol"]["class"] if r.get("viol") else None
    scn, info = shrink.shrink(x["scn"], run, x["cls"], a.limit)
    print(json.dumps({"scn": scn, "info": info}))


def shrink_one(scn, hs, cls, seconds):
    cmd, env = python(hs)
    p = subprocess.run(cmd + ["shrink", "--limit", str(seconds)], input=json.dumps({"scn": scn, "cls": cls}), text=True,
                       env=env, cwd=HERE, stdout=subprocess.PIPE, timeout=seconds + 200)
    if p.returncode != 0 or not p.stdout.strip():
        return scn, {"failed": p.returncode}
    r = json.loads(p.stdout.strip().splitlines()[-1])
    return r["scn"], r["info"]


def write_replay(prop, scn, hs, viol, extra=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump(dict({"property": prop, "hashseed": hs, "violation": viol, "scenario": scn}, **(extra or {})), f, indent=1)
        f.write("\n")
    return p


def check(a):
    from dst import registry
    prop, tier = a.prop, a.tier
    runs = a.runs or registry.QUICK[prop] * (registry.THOROUGH_FACTOR if tier == "thorough" else 1)
    limit = a.limit or (600 if tier == "quick" else 6 * 3600)
    t0 = time.monotonic()
    procs = []
    for lane in range(LANES):
        cmd, env = python(hashseed(lane, a.seed))
        procs.append(subprocess.Popen(
            cmd + ["lane", prop, "--lane", str(lane), "--lanes", str(LANES), "--runs", str(runs), "--seed", str(a.seed),
                   "--tier", tier, "--limit", str(limit), "--first", str(a.first)],
            env=env, cwd=HERE, stdout=subprocess.PIPE, text=True))
    import threading
    agg = Agg(prop)
    viols, errors, known = [], [], {}
    lock = threading.Lock()
    sigs = {}
    lane_no = {}
    stopped = set()

    def reader(lane, p):
        for line in p.stdout:
            if lane in stopped:
                continue
            r = json.loads(line)
            with lock:
                if "cut" in r:
                    agg.cut += 1
                    continue
                if "error" in r:
                    errors.append((r["i"], lane, r["error"]))
                    continue
                agg.add(r, lane)
                if r.get("known"):
                    known.setdefault(r["known"]["class"], r["known"]["detail"])
                if r.get("viol"):
                    viols.append((r["i"], lane, r["viol"], r.get("scn")))
                if viols and lane not in stopped and r["i"] > min(viols, key=lambda t: t[:2])[0]:
                    stopped.add(lane)              # the first violation is what is reported: nothing left to find here
                    p.terminate()
                if spread(prop) and not r.get("discard"):
                    sigs.setdefault(r["i"], {})[lane] = r.get("digest")
        lane_no[lane] = p.wait()
    ths = [threading.Thread(target=reader, args=(i, p)) for i, p in enumerate(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    bad = [l for l, c in lane_no.items() if c != 0 and l not in stopped]
    code, line, replay = 0, None, None
    if spread(prop) and not viols:
        for i in sorted(sigs):
            if len(set(sigs[i].values())) > 1:
                line, replay = report_env(a, prop, tier, i, sigs[i])
                if line:
                    code = 1
                    break
                errors.append((i, 0, "digest mismatch did not reproduce"))
    if viols:
        i, lane, v, scn = min(viols, key=lambda t: t[:2])
        hs = hashseed(lane, a.seed)
        r = run_one(scn, hs)
        if not r.get("viol"):
            errors.append((i, lane, "violation %r did not reproduce: %r" % (v, r.get("viol") or r.get("error"))))
        else:
            cls = r["viol"]["class"]
            small, info = (scn, {}) if a.no_shrink else shrink_one(scn, hs, cls, 45 if tier == "quick" else 120)
            r2 = run_one(small, hs, log=True)
            r3 = run_one(small, hs)
            if not r2.get("viol") or not r3.get("viol") or r2["stats"]["log"] != r3["stats"]["log"]:
                small, r2, info = scn, run_one(scn, hs, log=True), {"failed": "minimised run not reproducible"}
            replay = write_replay(prop, small, hs, r2["viol"],
                                  {"log_digest": r2["stats"]["log"], "shrink": info, "trace": r2.get("log", [])[-400:]})
            print("violated: %s" % r2["viol"]["detail"])
            print("  class %r, scenario %s, hash seed %s; minimised: %s" % (r2["viol"]["class"], scn["seed"], hs, info))
            print("  replay: ./run.sh replay %s" % replay)
            line = "VIOLATION property=%s replay=%s" % (prop, replay)
            code = 1
    for k in load_known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.monotonic() - t0
    agg.evidence(a, runs, wall, len(viols) + (1 if code and not viols else 0), len(errors))
    if line:
        print(line)
    elif errors or bad:
        for i, lane, e in errors[:3]:
            print("harness error in run %s (lane %d): %s" % (i, lane, e), file=sys.stderr)
        if bad:
            print("lanes %r failed" % bad, file=sys.stderr)
        code = 2
    elif agg.n and agg.discards > 0.9 * agg.n:
        print("%d of %d runs were discarded: %r" % (agg.discards, agg.n, agg.reasons), file=sys.stderr)
        code = 2
    elif not agg.n:
        code = 2
    print("%s: %d runs, %d non-trivial and distinct, %d discarded, %.1f s, exit %d" %
          (prop, agg.n, len(agg.distinct), agg.discards, wall, code))
    sys.exit(code)


def selftest(a):
    """The same seed gives the same execution: two scenarios of every property, each run in two processes."""
    from dst import registry
    K = start()
    bad = []
    for prop in sorted(registry.QUICK):
        for i in (0, 1):
            scn = json.loads(json.dumps(K.isolated(lambda: make(prop, 1, i, "quick"), RUN_TIMEOUT)))
            x, y = run_one(scn, "7"), run_one(scn, "7")
            if x.get("error") or x != y:
                bad.append("%s/%d: %s" % (prop, i, x.get("error") or "two runs of one seed differ"))
    print("\n".join(bad) or "%d properties: repeated runs are identical" % len(registry.QUICK))
    sys.exit(1 if bad else 0)


def report_env(a, prop, tier, i, by_lane):
    """Two environments disagree: find a pair, confirm, write the replay file."""
    from dst import kernel as K
    first = min(by_lane)
    other = [l for l in sorted(by_lane) if by_lane[l] != by_lane[first]][0]
    K = start()
    scn = K.isolated(lambda: make(prop, a.seed, i, tier), RUN_TIMEOUT)
    envs = []
    for l in (first, other):
        e, o = envs_of(l, a.seed)
        envs.append({"hashseed": hashseed(l, a.seed), "enc": e, "out": o})

    def pair(s):
        rs = [run_one(dict(s, enc=e["enc"], out=e["out"]), e["hashseed"]) for e in envs]
        if any(r.get("error") or r.get("discard") for r in rs):
            return None
        return compare(rs)
    v = pair(scn)
    if v is None:
        return None, None
    if not a.no_shrink:
        from dst import shrink
        scn, info = shrink.shrink(scn, lambda s: "differ" if pair(s) else None, "differ", 60)
        v = pair(scn)
    p = write_replay(prop, scn, envs[0]["hashseed"], {"class": "differ", "detail": v}, {"envs": envs})
    print("violated: %s" % v)
    return "VIOLATION property=%s replay=%s" % (prop, p), p


def compare(rs):
    a, b = rs[0]["steps"], rs[1]["steps"]
    for x, y in zip(a, b):
        if x != y:
            return "environments disagree: %.300s / %.300s" % (x, y)
    if len(a) != len(b):
        return "environments disagree: %d / %d steps" % (len(a), len(b))
    return None


def replay(a):
    with open(a.file) as f:
        x = json.load(f)
    prop = x["property"]
    if "envs" in x:
        rs = [run_one(dict(x["scenario"], enc=e["enc"], out=e["out"]), e["hashseed"]) for e in x["envs"]]
        v = compare(rs) if not any(r.get("error") or r.get("discard") for r in rs) else None
        print(v or "no violation")
        if v:
            print("VIOLATION property=%s replay=%s" % (prop, a.file))
        sys.exit(1 if v else 0)
    r = run_one(x["scenario"], x["hashseed"], log=True)
    if a.verbose:
        for t in r.get("log", []):
            print("  ", t)
    if r.get("error"):
        print(r["error"])
        sys.exit(2)
    if r.get("viol"):
        print("violated: %s" % r["viol"]["detail"])
        print("execution identical to the recorded one: %s" % (r["stats"]["log"] == x.get("log_digest")))
        print("VIOLATION property=%s replay=%s" % (prop, a.file))
        sys.exit(1)
    print("no violation")
    sys.exit(0)


# ------------------------------------------------------------------------------------------------ evidence
class Agg:
    def __init__(self, prop):
        self.prop = prop
        self.n = self.discards = self.cut = 0
        self.reasons = {}
        self.distinct = set()
        self.inter = set()
        self.logs = set()
        self.steps = self.switches = self.events = self.kills = self.power = 0
        self.fired = {}
        self.probes = {}
        self.samples = []
        self.faulty = 0

    def add(self, r, lane):
        self.n += 1
        if r.get("discard"):
            self.discards += 1
            k = r["discard"][:80]
            self.reasons[k] = self.reasons.get(k, 0) + 1
            return
        s = r["stats"]
        self.steps += s["steps"]
        self.switches += s["switches"]
        self.events += s["events"]
        self.kills += s["kills"]
        self.power += s["power"]
        self.logs.add(s["log"])
        if s["switches"]:
            self.inter.add(s["inter"])
        if s["fired"]:
            self.faulty += 1
        for k, v in s["fired"].items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in s["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        if r.get("nontrivial"):
            self.distinct.add(r["sig"])
        if r.get("scn") is not None and len(self.samples) < 2 and r.get("nontrivial") and r.get("scn_size", 0) < 6000:
            self.samples.append({"lane": lane, "scenario": r["scn"], "violation": r.get("viol")})

    def evidence(self, a, runs, wall, viols, errors):
        from dst import registry
        mod = registry.module(self.prop)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        if not self.samples:
            self.samples = [{"note": "no small non-trivial scenario among the first runs of this check"}]
        cov = {
            "evaluations": self.n,
            "distinct_nontrivial": len(self.distinct),
            "rule": mod.RULE[self.prop] if isinstance(mod.RULE, dict) else mod.RULE,
            "samples": self.samples,
            "seeds": "scenario generator seeded with '%s/%d/i' for i in [%d, %d)" % (self.prop, a.seed, a.first, a.first + runs),
            "runs_per_hour": int(self.n / wall * 3600) if wall else 0,
            "runs_with_faults_fired": self.faulty,
            "faults_fired_by_kind": dict(sorted(self.fired.items())),
            "process_kills": self.kills,
            "power_cuts": self.power,
            "simulated_steps": self.steps,
            "simulated_seconds": round(self.steps * 1e-6, 3),
            "simulated_system_events": self.events,
            "context_switches": self.switches,
            "distinct_interleavings": len(self.inter),
            "distinct_interleavings_measure": "hash of the sequence (thread, code location) of all context switches",
            "distinct_executions": len(self.logs),
            "distinct_executions_measure": "hash of the full event log (system calls, faults, switches, operation outcomes)",
            "reachability_probes": dict(sorted(self.probes.items())),
            "discarded": self.discards,
            "discard_reasons": self.reasons,
            "harness_errors": errors,
            "lanes_cut_by_time_limit": self.cut,
            "real_components": "all library modules of /repo/spine_json_lib (compiled from the working tree), json, io "
                               "buffering and text layers, os.path, copy, tempfile",
            "stub_components": "file system and system calls, standard output, process ids, clocks, temporary names, "
                               "thread scheduler and locks, process memory (killed with the process)",
        }
        ev = {"property": self.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "preemption and asynchronous exceptions occur at source-line boundaries of library code and at system "
                  "calls, not inside C functions or between the bytecodes of one line"],
              "wall_s": round(wall, 2), "violations": viols}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest="cmd", required=True)
    for name in ("check", "lane"):
        q = sub.add_parser(name)
        q.add_argument("prop")
        q.add_argument("--runs", type=int, default=0)
        q.add_argument("--first", type=int, default=0)
        q.add_argument("--lane", type=int, default=0)
        q.add_argument("--lanes", type=int, default=LANES)
        q.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        q.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        q.add_argument("--limit", type=float, default=0)
        q.add_argument("--no-shrink", action="store_true")
    sub.add_parser("selftest")
    q = sub.add_parser("one")
    q.add_argument("--log", action="store_true")
    q = sub.add_parser("shrink")
    q.add_argument("--limit", type=float, default=45)
    q = sub.add_parser("replay")
    q.add_argument("file")
    q.add_argument("-v", "--verbose", action="store_true")
    a = p.parse_args()
    {"check": check, "lane": lane_main, "one": one_main, "replay": replay, "shrink": shrink_main, "selftest": selftest}[a.cmd](a)


if __name__ == "__main__":
    main()
