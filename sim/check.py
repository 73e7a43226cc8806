"""Driver: check.py <ID> [--tier quick|thorough] [--replay FILE] ...

The main process hands run numbers to worker processes (each a single-threaded
Python with the shim preloaded), collects their results, minimises the first
violation in parallel, confirms it in a fresh process and writes the replay
file. Run i of property P under VERIF_SEED s is a pure function of (s, P, i)
and the code in /repo.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import re
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import worker_env as W

LEVEL = "exploration"


def listed():
    """Finding ids per property, from the committed file."""
    out = {}
    with open(os.path.join(W.VERIF, "known_findings.txt")) as f:
        for ln in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) ", ln)
            if m:
                out.setdefault(m.group(1), set()).add(m.group(2))
    return out


LISTED = listed()


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%s|%s|%s" % (seed, prop, i)).encode()).digest()[:8], "big")


def load(prop):
    return importlib.import_module("props.%s" % prop.lower()).PROP


# ---------------------------------------------------------------------------
# worker side
# ---------------------------------------------------------------------------
def send(f, obj):
    b = json.dumps(obj).encode()
    f.write(struct.pack("=I", len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    n = struct.unpack("=I", h)[0]
    return json.loads(f.read(n).decode())


def worker(prop, base):
    fin = os.fdopen(os.dup(0), "rb")
    fout = os.fdopen(os.dup(1), "wb")
    devnull = os.open("/dev/null", os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    import core
    core.install_random()
    import accel
    accel.install_allclose()
    err = None
    try:
        import phenum
        for m in ("enumeration", "phenumStr", "structures", "phonons", "tree", "grouptheory", "symmetry", "HNFs",
                  "polyaburnside", "io_utils", "vector_utils", "element_data", "numerics", "msg", "base"):
            importlib.import_module("phenum." + m)
        import numpy.linalg, uuid, datetime, itertools, operator, argparse as _a  # noqa
    except Exception:
        err = "cannot import the code under test: " + traceback.format_exc()[-1500:]
    import base as B
    P = load(prop)
    if P.memo:
        accel.install_memo()
    ctx = B.Ctx(base)
    send(fout, {"ready": True, "err": err})
    while True:
        m = recv(fin)
        if m is None or m["cmd"] == "quit":
            break
        try:
            if m["cmd"] == "shrink":
                out = {"cands": [c for _, c in zip(range(400), P.shrink(m["sc"]))]}
            else:
                if m["cmd"] == "run":
                    rng = random.Random(run_seed(m["seed"], prop, m["i"]))
                    ctx.rng = None
                    sc = P.gen(rng, m["i"], m["tier"], ctx)
                else:
                    sc = m["sc"]
                # what is executed is what can be stored and replayed
                sc = json.loads(json.dumps(sc))
                o = P.run(sc, ctx)
                # only what known_findings.txt lists for this property is known
                for k, msg in o.known:
                    if k not in LISTED.get(prop, ()):
                        o.fail("finding-" + k, msg)
                out = o.result(full=m.get("full"))
                if m.get("twice"):
                    o2 = P.run(json.loads(json.dumps(sc)), ctx)
                    out["digest2"] = o2.h.hexdigest()
                    if m.get("full"):
                        out["trace2"] = [repr(e) for e in o2.trace[-400:]]
                if o.fails or m.get("want_sc"):
                    out["sc"] = sc
        except core.HarnessError as e:
            out = {"harness": str(e)[-2000:]}
        except Exception:
            out = {"harness": traceback.format_exc()[-3000:]}
        out["i"] = m.get("i")
        send(fout, out)
    ctx.close()
    shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------------
# main side
# ---------------------------------------------------------------------------
class Worker:
    def __init__(self, prop, base, n, hashseed=0):
        self.dir = os.path.join(base, "p%d" % n)
        os.makedirs(self.dir, exist_ok=True)
        self.p = subprocess.Popen(W.worker_cmd(prop, "--worker", self.dir), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=W.env(hashseed), cwd=self.dir, stderr=open(os.path.join(base, "err%d" % n), "wb"))
        self.busy = None
        self.buf = b""

    def start(self):
        m = self.wait()
        return m

    def send(self, obj):
        self.busy = obj
        b = json.dumps(obj).encode()
        self.p.stdin.write(struct.pack("=I", len(b)) + b)
        self.p.stdin.flush()

    def wait(self):
        h = self.p.stdout.read(4)
        if len(h) < 4:
            return None
        n = struct.unpack("=I", h)[0]
        d = json.loads(self.p.stdout.read(n).decode())
        self.busy = None
        return d

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Pool:
    def __init__(self, prop, n, hashseeds=(0,)):
        root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix="phsim-", dir=root)
        self.prop = prop
        self.hashseeds = hashseeds
        self.n = 0
        self.ws = [self._new() for _ in range(n)]
        self.err = None
        for w in self.ws:
            m = w.start()
            if m is None:
                raise RuntimeError("worker does not start: " + self.stderr())
            if m.get("err"):
                self.err = m["err"]

    def _new(self):
        w = Worker(self.prop, self.base, self.n, self.hashseeds[self.n % len(self.hashseeds)])
        self.n += 1
        return w

    def stderr(self):
        out = ""
        for f in sorted(os.listdir(self.base)):
            if f.startswith("err"):
                out += open(os.path.join(self.base, f), errors="replace").read()[-1500:]
        return out

    def map(self, tasks, deadline, on_result):
        """Feeds tasks (an iterator of messages) to the workers until it is
        exhausted, the deadline passes or on_result returns True."""
        tasks = iter(tasks)
        stop = False
        done = False
        while True:
            for w in self.ws:
                if w.busy is None and not stop and not done:
                    if time.time() > deadline:
                        stop = True
                        break
                    t = next(tasks, None)
                    if t is None:
                        done = True
                        break
                    w.send(t)
            live = [w for w in self.ws if w.busy is not None]
            if not live:
                return
            r, _, _ = select.select([w.p.stdout for w in live], [], [], 700)
            if not r:
                raise RuntimeError("workers do not answer: %r" % [w.busy for w in live])
            for i, w in enumerate(self.ws):
                if w.p.stdout in r:
                    t = w.busy
                    m = w.wait()
                    if m is None:
                        m = {"harness": "worker died: " + self.stderr()[-1500:], "i": t.get("i")}
                        w.stop()
                        self.ws[i] = self._new()
                        self.ws[i].start()
                    if on_result(t, m):
                        stop = True

    def close(self):
        for w in self.ws:
            w.stop()
        shutil.rmtree(self.base, ignore_errors=True)


def same_class(res, cls):
    return any(f[0] == cls for f in res.get("fails", ()))


def minimise(pool, sc, cls, deadline):
    """Greedy: the first (in order) smaller scenario that fails the same way."""
    cur = sc
    tried = 0
    while time.time() < deadline:
        got = []
        pool.map([{"cmd": "shrink", "sc": cur}], deadline + 60, lambda t, m: got.append(m) and False)
        cands = got[0].get("cands", []) if got else []
        if not cands:
            break
        ok = {}
        order = {json.dumps(c, sort_keys=True): k for k, c in reversed(list(enumerate(cands)))}

        def on(t, m):
            nonlocal tried
            tried += 1
            if same_class(m, cls):
                ok[order[json.dumps(t["sc"], sort_keys=True)]] = t["sc"]
                return True
            return False
        pool.map(({"cmd": "exec", "sc": c} for c in cands), deadline, on)
        if not ok:
            break
        cur = ok[min(ok)]
    return cur, tried


def replay(prop, path, quiet=False):
    data = json.load(open(path))
    pool = Pool(prop, 1)
    try:
        got = []
        pool.map([{"cmd": "exec", "sc": data["scenario"], "full": True}], time.time() + 800, lambda t, m: got.append(m) and False)
    finally:
        pool.close()
    return data, got[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--worker")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write the digest of every run to this file")
    ap.add_argument("--hashseed", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true", help="print every violation class, no minimisation")
    a = ap.parse_args()
    if a.worker:
        worker(a.prop, a.worker)
        return 0
    W.build_shim()
    prop = a.prop.upper()
    P = load(prop)
    if a.replay:
        data, m = replay(prop, a.replay)
        if "harness" in m:
            print("HARNESS-ERROR: %s" % m["harness"])
            return 2
        cls = data["violation"][0]
        for c, msg in m["fails"]:
            print("%s: %s" % (c, msg))
        for e in m.get("trace", [])[-60:]:
            print("  ", e)
        if same_class(m, cls):
            print("digest %s (%s)" % (m["digest"], "same execution" if m["digest"] == data.get("digest") else "different execution"))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("the replay does not fail on this tree")
        return 0

    t0 = time.time()
    seconds = a.seconds or (P.thorough_s if a.tier == "thorough" else P.quick_s)
    deadline = t0 + seconds
    pool = Pool(prop, a.workers, (a.hashseed,))
    if pool.err:
        # nothing can be imported: there is no behaviour to judge
        print("HARNESS-ERROR: %s" % pool.err)
        pool.close()
        return 2
    agg = {"runs": 0, "ops": 0, "procs": 0, "sim_ns": 0, "fired": {}, "states": set(), "keys": set(), "harness": [],
           "nondet": [], "twice": 0}
    viols = []
    samples = []
    known = {}
    digests = {}
    retry = []

    def tasks():
        i = a.start
        while a.runs is None or i < a.start + a.runs:
            while retry:
                yield retry.pop()
            yield {"cmd": "run", "i": i, "seed": a.seed, "tier": a.tier, "twice": i % 23 == 7, "want_sc": i % 97 < 3}
            i += 1
        while retry:
            yield retry.pop()

    def on(t, m):
        if "harness" in m:
            agg["harness"].append((t["i"], m["harness"]))
            if t.get("again", 0) < 1:
                retry.append(dict(t, again=1))
            return len(agg["harness"]) > 40
        agg["runs"] += 1
        agg["ops"] += m["ops"]
        agg["procs"] += m["procs"]
        agg["sim_ns"] += m["sim_ns"]
        for k, v in m["fired"].items():
            agg["fired"][k] = agg["fired"].get(k, 0) + v
        if len(agg["states"]) < 2000000:
            agg["states"].update(m["states"])
        agg["keys"].update(m["keys"])
        digests[t["i"]] = m["digest"]
        if "digest2" in m:
            agg["twice"] += 1
            if m["digest2"] != m["digest"]:
                agg["nondet"].append(t["i"])
        for k, msg in m["known"]:
            known.setdefault(k, msg)
        if "sc" in m and len(samples) < 6 and not m["fails"]:
            samples.append({"run": t["i"], "seed": run_seed(a.seed, prop, t["i"]), "scenario": m["sc"], "fired": m["fired"]})
        if m["fails"]:
            viols.append((t["i"], m))
            if a.keep_going:
                print("run %d: %s" % (t["i"], m["fails"][0]), flush=True)
                return False
            return True
        return False

    code = 0
    reported = 0
    try:
        while True:
            pool.map(tasks(), deadline, on)
            if not viols or a.keep_going:
                break
            i, m = min(viols, key=lambda v: v[0])
            cls, msg = m["fails"][0]
            print("run %d (seed %d) fails: %s: %s" % (i, run_seed(a.seed, prop, i), cls, msg), flush=True)
            sc, tried = minimise(pool, m["sc"], cls, time.time() + (300 if a.tier == "thorough" else 75))
            outdir = os.path.join(W.VERIF, "evidence", "replay")
            os.makedirs(outdir, exist_ok=True)
            confirmed = None
            for cand in (sc, m["sc"]):
                path = os.path.join(outdir, "%s-%s.json" % (prop, hashlib.sha256(json.dumps(cand, sort_keys=True).encode()).hexdigest()[:12]))
                rec = {"property": prop, "verif_seed": a.seed, "run": i, "seed": run_seed(a.seed, prop, i),
                       "violation": [cls, msg], "minimised_with": tried, "scenario": cand}
                json.dump(rec, open(path, "w"), indent=1)
                for _ in range(2):
                    data, r = replay(prop, path)
                    if "harness" not in r and same_class(r, cls):
                        rec["digest"] = r["digest"]
                        rec["violation"] = [f for f in r["fails"] if f[0] == cls][0]
                        rec["trace"] = r["trace"]
                        json.dump(rec, open(path, "w"), indent=1)
                        confirmed = (path, rec)
                        break
                if confirmed:
                    break
            if confirmed:
                path, rec = confirmed
                print("minimised (%d candidate runs): %s" % (tried, json.dumps(rec["scenario"])[:1500]))
                print("%s: %s" % tuple(rec["violation"]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                code = 1
                reported += 1
                break
            print("NOT-REPRODUCED: run %d, counted as a harness error" % i, flush=True)
            agg["harness"].append((i, "violation not reproduced: %s" % msg))
            viols.clear()
            if time.time() > deadline or len(agg["harness"]) > 40:
                break
            a.start = max(digests) + 1
    finally:
        pool.close()
    wall = time.time() - t0
    hard = [h for h in agg["harness"]]
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": LEVEL,
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(agg["keys"]), "rule": P.rule,
            "samples": samples, "runs_per_hour": int(agg["runs"] / wall * 3600) if wall else 0,
            "seeds": "run i uses sha256(VERIF_SEED|%s|i), i = %d..%d" % (prop, a.start, max(digests) if digests else a.start),
            "seeds_per_hour": int(agg["runs"] / wall * 3600) if wall else 0,
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 3), "simulated_processes": agg["procs"],
            "intercepted_calls": agg["ops"], "faults_fired": dict(sorted(agg["fired"].items())),
            "distinct_directory_states": len(agg["states"]),
            "runs_executed_twice": agg["twice"], "nondeterministic_runs": agg["nondet"],
            "harness_errors": len(hard), "harness_error_samples": hard[:3],
            "real": P.real, "stub": P.stub, "workers": a.workers,
            "known_findings_seen": sorted(known),
        },
        "assumptions": ["seeded sampling of schedules and faults: a clean batch is evidence, not proof"] + list(getattr(P, "assumptions", ())),
        "wall_s": round(wall, 2), "violations": reported,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(W.VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(W.VERIF, "evidence", ".%s.tmp" % prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(W.VERIF, "evidence", "%s.json" % prop))
    if a.digests:
        json.dump({str(k): v for k, v in sorted(digests.items())}, open(a.digests, "w"))
    print("%s %s: %d runs in %.0fs, %d processes, %d intercepted calls, %d distinct, %d states, faults %s%s" % (
        prop, "VIOLATED" if reported else "ok", agg["runs"], wall, agg["procs"], agg["ops"], len(agg["keys"]),
        len(agg["states"]), sum(agg["fired"].values()), ", nondeterministic: %r" % agg["nondet"][:5] if agg["nondet"] else ""))
    if hard:
        print("harness errors: %d, first: %s" % (len(hard), hard[0]))
    if code == 0 and not a.keep_going and (agg["runs"] == 0 or len(hard) > max(5, agg["runs"] // 20)):
        print("HARNESS-ERROR: the check could not judge this tree")
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())
