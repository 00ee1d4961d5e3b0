"""Deterministic simulation kernel.

Simulated processes ("Proc": own pid, own copy of the library's modules, own default text encoding and standard
output) contain simulated threads ("Actor").  Actors are real threads, but exactly one runs at any time and the kernel
alone decides which: every source line of library code and every simulated system call is a possible preemption point,
fault point, or both.  All decisions come from the scenario, so a run is a pure function of scenario + library code.
"""
import builtins
import copy
import errno
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time
import warnings
import _thread

LIB = "spine_json_lib"
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = 3
mon = sys.monitoring


class SimCrash(BaseException):
    """The simulated process is dead.  Re-raised at every line and system call of a dead process."""


class SimHang(BaseException):
    """The operation used up its step budget."""


class HarnessError(Exception):
    pass


REAL = {}          # original functions, filled in by simfs.install()
W = None           # the world being simulated (one per OS process at a time)


def world():
    return W


def set_world(w):
    global W
    W = w


# ---------------------------------------------------------------------------------------------- library code
CODE = {}          # module name -> (code object, file, is_package)


def load_code():
    """Compile the library's non-test modules from the working tree and put line events on all their code objects."""
    if CODE:
        return
    root = os.path.join(REPO, LIB)
    for d, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "__pycache__"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)[:-3].split(os.sep)
            pkg = rel[-1] == "__init__"
            if pkg:
                rel = rel[:-1]
            with open(p, "rb") as fh:
                CODE[".".join(rel)] = (compile(fh.read(), p, "exec", dont_inherit=True), p, pkg)
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, on_line)

    def walk(c):
        mon.set_local_events(TOOL, c, mon.events.LINE)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                walk(k)
    for c, _, _ in CODE.values():
        walk(c)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name in CODE:
            c, p, pkg = CODE[name]
            spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
            spec.has_location = True
            if pkg:
                spec.submodule_search_locations = [os.path.dirname(p)]
            return spec
        if name == LIB or name.startswith(LIB + "."):
            raise ModuleNotFoundError("no module named %r in simulation" % name, name=name)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(CODE[module.__name__][0], module.__dict__)


FINDER = _Finder()


def _lib_modules():
    return {k: v for k, v in sys.modules.items() if k == LIB or k.startswith(LIB + ".")}


def fresh_modules():
    """A new copy of the library, as a newly started process has it."""
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    saved = _lib_modules()
    for k in saved:
        del sys.modules[k]
    W.loading = True
    try:
        for name in CODE:
            importlib.import_module(name)
        mods = _lib_modules()
    finally:
        W.loading = False
        for k in _lib_modules():
            del sys.modules[k]
        sys.modules.update(saved)
    return mods


def warm_up():
    """Import a throw-away copy so that everything the library imports from elsewhere is loaded before forking."""
    set_world(World())
    fresh_modules()
    set_world(None)


# ---------------------------------------------------------------------------------------------- processes, actors
class Proc:
    def __init__(self, w, enc="utf-8", out="utf-8", name=None):
        w.nproc += 1
        self.w, self.pid, self.enc, self.out = w, 4000 + w.nproc, enc, out
        self.name = name if name is not None else w.nproc
        self.dead = False
        self.fds = {}
        self.urandom = 0
        self.sess = {}
        self.objs = {}
        self.printed = []
        self.mods = fresh_modules()
        self.stderr = []
        self.tids = {}                      # live threads: actor -> index in this process

    def tid(self, a):
        """Thread numbers start anew in every process: forked processes have the same ones."""
        return self.tids.setdefault(a.idx, len(self.tids))

    def lib(self, name=None):
        return self.mods[LIB if name is None else LIB + "." + name]

    def activate(self):
        if self.w.active is not self:
            for k in _lib_modules():
                if k not in self.mods:
                    del sys.modules[k]
            sys.modules.update(self.mods)
            self.w.active = self


class Actor:
    def __init__(self, w, idx, proc, body, name=None):
        self.w, self.idx, self.proc, self.body = w, idx, proc, body
        self.name = name or "a%d" % idx
        self.skey = "s"                     # key of the session this actor works on
        self.baton = REAL["allocate_lock"]()
        self.baton.acquire()
        self.in_lib = False
        self.quantum = -1
        self.done = False
        self.lock = None
        self.reset(None)
        self.error = None

    # ---- per-operation counters and faults
    def reset(self, faults, budget=0):
        self.lines = 0
        self.nsys = 0
        self.counts = {}
        self.faults = list(faults or ())
        self.fstate = {}
        self.fline = min((f["n"] for f in self.faults if f["at"] == "line"), default=-1)
        self.budget = budget or self.w.line_budget
        self.trace = []

    def blocked(self):
        return self.lock is not None and self.lock.owner is not None and not self.proc.dead

    def ident(self):
        return 140000000000 + 4096 * self.proc.tid(self)

    def name_thread(self):
        t, k = threading.current_thread(), self.proc.tid(self)
        t._ident, t._name = self.ident(), "Thread-%d" % k if k else "MainThread"

    def main(self):
        self.baton.acquire()
        self.name_thread()
        try:
            self.body(self)
        except SimCrash:
            pass
        except BaseException as e:          # harness failure: reported, never confused with a violation
            import traceback
            self.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        finally:
            self.in_lib = False
            self.done = True
            self.w.ctl.release()

    def yield_(self, where):
        w = self.w
        w.note_switch(self, where)
        w.ctl.release()
        self.baton.acquire()
        if self.proc.dead and self.in_lib:
            raise SimCrash

    def step(self, where, sys=False):
        """One schedulable step outside of line events (system call, operation boundary)."""
        w = self.w
        w.steps += 1
        if w.steps > w.step_limit:
            raise HarnessError("run exceeded %d steps" % w.step_limit)
        q = self.quantum
        if q > 0:
            self.quantum = q - 1
            if q == 1:
                self.yield_(where)
        elif q == -2 and sys:
            self.yield_(where)

    # ---- calling the library
    def call(self, fn, faults=None, budget=0):
        """Run fn (library code) with the given faults armed.  Returns an outcome dict."""
        w = self.w
        self.reset(faults, budget)
        self.quiet = False
        self.in_lib = True
        out = None
        try:
            try:
                self.step("op")
                out = {"ok": fn()}
            finally:
                self.in_lib = False
        except SimCrash:
            out = {"dead": 1}
        except SimHang:
            out = {"hang": 1}
        except HarnessError:
            raise
        except BaseException as e:
            if self.lines > self.budget:
                out = {"hang": 1}
            else:
                out = {"exc": type(e).__name__, "msg": str(e)[:300]}
            clear_tb(e)
            del e
        if self.proc.dead:
            out = {"dead": 1}
        out["lines"] = self.lines
        out["sys"] = self.nsys
        return out


def clear_tb(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        nxt = e.__context__
        e.__cause__ = None
        e.__context__ = None
        e = nxt


def on_line(code, line):
    w = W
    if w is None:
        return
    a = w.cur
    if a is None or not a.in_lib:
        return
    if a.proc.dead:
        raise SimCrash
    n = a.lines = a.lines + 1
    w.steps += 1
    w.log_lines += 1
    if n == a.fline:
        a.w.fire_line(a, code, line)
    if n > a.budget:
        raise SimHang
    q = a.quantum
    if q > 0:
        a.quantum = q - 1
        if q == 1:
            a.yield_((code.co_name, line - code.co_firstlineno))


# ---------------------------------------------------------------------------------------------- world
SPACE_CALLS = frozenset(["open", "write", "mkdir", "rename", "replace", "fsync", "fdatasync", "link", "symlink",
                         "ftruncate", "pwrite"])

# calls that keep failing once a lasting error condition is there (others: every call)
STICKY = {"ENOSPC": SPACE_CALLS, "EDQUOT": SPACE_CALLS, "EROFS": SPACE_CALLS, "EFBIG": ("write", "pwrite", "ftruncate"),
          "EMFILE": ("open",), "ENFILE": ("open",)}
LOOK = ("stat", "lstat", "access", "readlink", "listdir", "scandir")


class World:
    def __init__(self, knobs=None):
        self.knobs = knobs or {}
        self.cur = None
        self.active = None
        self.loading = False
        self.ctl = REAL["allocate_lock"]()
        self.ctl.acquire()
        self.steps = 0
        self.log_lines = 0
        self.seq = 0
        self.nproc = 0
        self.line_budget = self.knobs.get("line_budget", 400000)
        self.step_limit = self.knobs.get("step_limit", 20000000)
        self.fired = {}
        self.switches = 0
        self.inter = hashlib.blake2b(digest_size=8)
        self.log = hashlib.blake2b(digest_size=16)
        self.events = 0
        self.names = {}
        self.nactors = 0
        self.deadlock = False
        self.power_cuts = 0
        self.kills = 0
        self.hist = []
        self.nrand = 0
        self.probes = {}
        self.keep_log = self.knobs.get("keep_log")
        self.text = []
        from . import simfs
        self.fs = simfs.SimFS(self)

    # ---- log
    def ev(self, *parts):
        self.events += 1
        t = repr(parts)
        self.log.update(t.encode("utf-8", "backslashreplace"))
        if self.keep_log:
            self.text.append(t)

    def tick(self):
        self.seq += 1
        return self.seq

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note_switch(self, a, where):
        self.switches += 1
        self.inter.update(repr((a.idx, where)).encode())
        self.ev("yield", a.idx, where)

    def count_fault(self, f, where):
        do = f["do"]
        k = (do if not do.startswith("err:") else "error") + "@" + where
        self.fired[k] = self.fired.get(k, 0) + 1
        self.ev("fault", do, where, f.get("n"))

    # ---- faults
    def fire_line(self, a, code, line):
        n = a.lines
        a.fline = min((f["n"] for f in a.faults if f["at"] == "line" and f["n"] > n), default=-1)
        for f in a.faults:
            if f["at"] == "line" and f["n"] == n:
                self.count_fault(f, "line")
                self.do_raise(f, a)

    def do_raise(self, f, a):
        do = f["do"]
        if do == "kbd":
            raise KeyboardInterrupt
        if do == "mem":
            raise MemoryError("injected")
        if do == "kill":
            self.kill(a.proc)
            raise SimCrash
        if do == "power":
            self.power(f)
            raise SimCrash
        if do.startswith("err:"):
            no = getattr(errno, do[4:])
            raise OSError(no, os.strerror(no))
        if do.startswith("exc:"):
            raise getattr(builtins, do[4:])("injected")
        raise HarnessError("unknown fault %r" % (f,))

    def kill(self, proc):
        proc.dead = True
        self.kills += 1
        self.ev("kill", proc.name)

    def power(self, f):
        self.power_cuts += 1
        self.ev("power")
        for a in self.actors:
            a.proc.dead = True
        for p in self.procs:
            p.dead = True
        self.fs.crash(f)

    def point(self, name, sysc=False, info=None):
        """A fault/preemption point of the current actor.  Returns the fault that must modify the call, if any."""
        a = self.cur
        if a.proc.dead:
            raise SimCrash
        if sysc:
            a.nsys += 1
            a.trace.append(name)
        c = a.counts[name] = a.counts.get(name, 0) + 1
        self.ev(a.idx, name, info, a.lines)
        if sysc:
            a.step((name,), sys=True)
            if a.nsys > 200000:
                raise SimHang
        hit = None
        for i, f in enumerate(a.faults):
            at = f["at"]
            if at == name:
                m = f["n"] == c
            elif at == "sys" and sysc:
                m = f["n"] == a.nsys
            else:
                continue
            if not m and f.get("sticky") and a.fstate.get(i) and f["do"].startswith("err:"):
                # looking goes on working where writing fails (a save that cannot look may not know what to clean up)
                m = name in STICKY.get(f["do"][4:], (name,)) and (a.fstate[i] in LOOK or name not in LOOK)
            if m and f["do"] == "short" and name not in ("read", "write"):
                m = False             # other calls have no short result
            if m:
                a.fstate[i] = a.fstate.get(i) or name
                self.count_fault(f, name)
                if f.get("post") or f.get("part") is not None or f["do"] == "short":
                    hit = f
                else:
                    self.do_raise(f, a)
        return hit

    def after(self, f):
        if f is not None and f["do"] != "short":
            self.do_raise(f, self.cur)

    # ---- running
    def run_phase(self, bodies, sched=()):
        """bodies: list of (proc, function(actor)).  Runs them to the end under the given schedule."""
        self.procs = self.__dict__.setdefault("procs", [])
        acts = []
        for p in self.procs:
            p.tids = {}
        for proc, body in bodies:
            if proc not in self.procs:
                self.procs.append(proc)
            acts.append(Actor(self, self.nactors, proc, body))
            proc.tid(acts[-1])
            self.nactors += 1
        self.actors = acts
        ths = []
        for a in acts:
            t = threading.Thread(target=a.main, daemon=True)
            t.start()
            ths.append(t)
        i = 0
        live = list(acts)
        while live:
            ready = [a for a in live if not a.blocked()]
            if not ready:
                self.deadlock = True
                self.ev("deadlock")
                for a in live:
                    a.proc.dead = True
                ready = live
            if i < len(sched):
                pick, q = sched[i]
                i += 1
                a = ready[pick % len(ready)]
                a.quantum = q if q > 0 else (-2 if q == 0 else -1)
            else:
                a = ready[0]
                a.quantum = -1
            self.cur = a
            a.proc.activate()
            a.baton.release()
            self.ctl.acquire()
            self.cur = None
            if a.done:
                live.remove(a)
        for t in ths:
            t.join()
        for a in acts:
            if a.error:
                raise HarnessError(a.error)
        return acts

    def new_proc(self, enc="utf-8", out="utf-8", name=None):
        p = Proc(self, enc, out, name)
        self.__dict__.setdefault("procs", []).append(p)
        self.active = None
        return p

    def replace_proc(self, a):
        """Restart after a crash: the actor goes on in a freshly started process."""
        old = a.proc
        a.proc = self.new_proc(old.enc, old.out, old.name)
        a.proc.activate()
        if a is self.cur:
            a.name_thread()
        return a.proc

    def stats(self):
        return {"steps": self.steps, "switches": self.switches, "fired": self.fired, "inter": self.inter.hexdigest(),
                "log": self.log.hexdigest(), "events": self.events, "kills": self.kills, "power": self.power_cuts,
                "probes": self.probes}


# ---------------------------------------------------------------------------------------------- locks
class SimLock:
    """Stand-in for threading.Lock/RLock objects created by the library."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.re = None, 0, reentrant
        if W is not None:
            W.__dict__.setdefault("locks", []).append(self)

    def acquire(self, blocking=True, timeout=-1):
        a = W.cur if W is not None else None
        me = a if a is not None else "main"
        if self.re and self.owner is me:
            self.count += 1
            return True
        if a is not None and a.in_lib:
            W.ev(a.idx, "lock")
            a.step(("lock",))
            while self.owner is not None:
                if not blocking or timeout == 0:
                    return False
                a.lock = self
                a.quantum = -1
                a.yield_(("blocked",))
                a.lock = None
                if a.proc.dead:
                    raise SimCrash
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


# ---------------------------------------------------------------------------------------------- isolation
def isolated(fn, timeout=120.0):
    """Run fn() in a forked child; return its result.  Raises HarnessError on crash or time-out."""
    r, wfd = REAL.get("pipe", os.pipe)()
    sys.stdout.flush()
    sys.stderr.flush()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pid = os.fork()
    if pid == 0:
        code = 1
        try:
            REAL.get("close", os.close)(r)
            try:
                res = ("ok", fn())
            except BaseException as e:
                import traceback
                res = ("err", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            data = pickle.dumps(res, protocol=4)
            wr = REAL.get("write", os.write)
            off = 0
            while off < len(data):
                off += wr(wfd, data[off:off + 65536])
            code = 0
        finally:
            os._exit(code)
    REAL.get("close", os.close)(wfd)
    chunks = []
    rd = REAL.get("read", os.read)
    clock = REAL.get("monotonic", time.monotonic)
    end = clock() + timeout
    ok = True
    while True:
        left = end - clock()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            ok = False
            break
        b = rd(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    REAL.get("close", os.close)(r)
    os.waitpid(pid, 0)
    if not ok:
        raise HarnessError("time-out after %ss" % timeout)
    if not chunks:
        raise HarnessError("child died")
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "err":
        raise HarnessError(val)
    return val


def peek(fn):
    """Evaluate fn() in a forked copy of the simulation: looks at a session without being able to disturb it."""
    a = W.cur

    def child():
        signal.alarm(60)
        w = W
        a.in_lib = False
        w.cur = None
        try:
            return ("ok", fn())
        except BaseException as e:
            return ("exc", type(e).__name__ + ": " + str(e)[:200])
    return isolated(child, timeout=70)
