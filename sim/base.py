"""What every property module builds on."""
import copy
import hashlib
import json
import os

import core
import lab

# fault placement weights by operation class
WEIGHT = {"rename": 8, "fsync": 6, "write": 6, "create": 6, "closew": 5, "unlink": 5, "trunc": 5, "link": 4,
          "openread": 4, "read": 3, "opendir": 5, "close": 1, "stat": 1, "mkdir": 4, "symlink": 4, "access": 1}


class Outcome:
    """Everything one simulated run produced."""

    def __init__(self):
        self.fails = []          # (class, message)
        self.known = []          # (finding id, message)
        self.fired = {}
        self.states = set()
        self.keys = []           # what makes this run distinct
        self.h = hashlib.sha256()
        self.ops = 0
        self.procs = 0
        self.sim_ns = 0
        self.trace = []
        self.payload = None      # for another process of the simulator

    def fail(self, cls, msg):
        self.fails.append((cls, msg))
        self.h.update(("F" + cls).encode())

    def count(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def note(self, *x):
        self.h.update(repr(x).encode())

    def absorb(self, w):
        """Adds what happened in a world and resets its records."""
        self.h.update(w.digest().encode())
        for n, d in sorted(w.snapshot().items()):
            self.h.update(n.encode("utf-8", "surrogateescape") + b"\0" + d)
        for k, v in w.fired.items():
            self.count(k, v)
        self.states |= w.states
        self.ops += w.nsteps
        self.sim_ns += max(0, w.now - w.t0)
        self.procs += sum(len(e[1]) for e in w.log if e and e[0] == "end")
        self.trace.extend(w.log)
        w.fired, w.states, w.nsteps, w.log = {}, set(), 0, []
        w.t0 = w.now

    def result(self, full=False):
        d = {"fails": self.fails, "known": self.known, "digest": self.h.hexdigest(), "fired": self.fired,
             "states": sorted(self.states), "keys": self.keys, "ops": self.ops, "procs": self.procs, "sim_ns": self.sim_ns}
        if self.payload is not None:
            d["payload"] = self.payload
        if full:
            d["trace"] = [repr(e) for e in self.trace[-400:]]
        return d


class Ctx:
    """Per-worker context: scratch space and caches."""

    def __init__(self, base):
        self.base = base
        self.cache = {}
        self.peers = {}

    def peer(self, prop, hashseed):
        """Another simulator process whose strings hash differently."""
        if hashseed not in self.peers:
            import check
            d = os.path.join(self.base, "h%d" % hashseed)
            os.makedirs(d, exist_ok=True)
            p = check.Worker(prop, d, 0, hashseed)
            m = p.start()
            if m is None or m.get("err"):
                raise core.HarnessError("peer does not start: %r" % (m,))
            self.peers[hashseed] = p
        return self.peers[hashseed]

    def ask(self, prop, hashseed, sc):
        p = self.peer(prop, hashseed)
        p.send({"cmd": "exec", "sc": sc, "i": 0})
        m = p.wait()
        if m is None:
            self.peers.pop(hashseed).stop()
            raise core.HarnessError("peer died")
        if "harness" in m:
            raise core.HarnessError("peer: " + m["harness"])
        return m

    def close(self):
        for p in self.peers.values():
            p.stop()
        self.peers = {}

    def world(self, tag="0"):
        return core.World(self.base, tag)


class Prop:
    ID = None
    memo = True
    peers = False
    threads = False
    quick_s = 50
    thorough_s = 600
    real = ("every module of /repo/phenum that the commands reach, CPython, numpy; the kernel's file system for "
            "storage and its rename/unlink semantics")
    stub = "clock, process ids, entropy, directory order, fault injection, durability at power loss, scheduling"
    rule = ""

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError

    def shrink(self, sc):
        return ()

    # -- helpers ---------------------------------------------------------------
    def step(self, w, cmd, faults=(), **kw):
        spec = dict(cmd)
        spec["memo"] = self.memo
        return w.step([spec], faults=faults, **kw)[0]

    def baseline(self, ctx, system, cmds, files=None, upto=None):
        """Fault-free execution of the commands; cached. Returns list of
        (proc summary, snapshot after, op log) or a failure message."""
        key = ("base", self.ID, json.dumps([system, cmds, sorted((files or {}).items())], sort_keys=True, default=str))
        if key in ctx.cache:
            return ctx.cache[key]
        if len(ctx.cache) > 300:
            ctx.cache.clear()
        w = ctx.world("base")
        setup(w, system, files)
        out = []
        err = None
        for c in cmds:
            w.log = []
            if "put" in c:
                w.put(c["put"], c["text"])
                out.append({"calls": 0, "code": 0, "hang": False, "snap": lab.snap(w), "ops": [], "out": ""})
                continue
            p = self.step(w, dict(c, points=[]))
            ops = [(e[1], e[2]) for e in w.log if e[0] == 0]
            out.append({"calls": p.ncalls, "code": p.code, "hang": p.hang, "snap": lab.snap(w), "ops": ops, "out": p.out})
            if not p.ok():
                err = "fault-free run of %s ended with status %s: %s" % (cmd_text(c), p.code, p.out[-600:])
                break
        w.close()
        ctx.cache[key] = (out, err)
        return ctx.cache[key]


def jump(rng):
    """By how much the clock is set between two commands."""
    return rng.choice([0, 0, 0, 0, 10 ** 6, 10 ** 9, 86400 * 10 ** 9, -10 ** 9, -3600 * 10 ** 9, -10 ** 17])


def granularity(rng):
    """Of the times of files: exact, as Linux keeps them, or whole seconds."""
    return rng.choice([1, 4000000, 10 ** 9, 2 * 10 ** 9])


def setup(w, system, files=None, gran=1):
    import systems
    w.gran = gran
    if system is not None:
        w.put("lattice.in", systems.lattice_text(system))
    for n, d in sorted((files or {}).items()):
        if n.endswith("/"):
            os.makedirs(os.path.join(w.root, n), exist_ok=True)
        else:
            os.makedirs(os.path.dirname(os.path.join(w.root, n)), exist_ok=True)
            w.put(n, d)


def cmd_text(c):
    if "put" in c:
        return "(new %s)" % c["put"]
    if "call" in c:
        return "%s(%s)" % (c["call"], c.get("args"))
    return "%s.py %s" % (c["script"], " ".join(c["argv"]))


def pick_op(rng, ops, classes=None):
    """Index of an operation, biased to those that create or end in-flight state."""
    idx = [i for i, o in enumerate(ops) if classes is None or o[0] in classes]
    if not idx:
        return None
    r = rng.random()
    if r < 0.35:
        return rng.choice(idx)
    ws = [WEIGHT.get(ops[i][0], 1) for i in idx]
    t = rng.random() * sum(ws)
    for i, wgt in zip(idx, ws):
        t -= wgt
        if t <= 0:
            if rng.random() < 0.15:
                return min(len(ops) - 1, i + 1)
            return i
    return idx[-1]


def calc_fault(rng, calls):
    """Something that happens in the middle of a computation."""
    return {"proc": 0, "calc": [rng.randint(1, max(1, calls)), rng.choice([0, 0, 0, 1, 2, 5, 12, 30])],
            "kind": rng.choice(["sigint", "sigint", "sigint", "sigterm", "sighup", "nomem"])}


def drop_each(lst):
    for i in range(len(lst)):
        yield lst[:i] + lst[i + 1:]


def clone(sc):
    return copy.deepcopy(sc)


def sysname(s):
    import systems
    return systems.TINY.index(s) if s in systems.TINY else json.dumps(s, sort_keys=True)


def sysrank(s):
    import systems
    return systems.TINY.index(s) if s in systems.TINY else 1000


def brief(log):
    """What the last logged call was: class and file name."""
    if not log:
        return ["start", ""]
    e = log[-1]
    return [str(e[1]), core.mask(str(e[2]))]
