"""Deterministic simulator: runs the real command line programs of /repo as
processes whose every file-system call, clock, random byte and scheduling slot
is decided by the controller in this module.

A *scenario* is a JSON value that spells out every decision (commands, entropy,
directory order, faults, schedule). `World.step` executes one concurrent step of
it; executing the same scenario twice gives the same event log.
"""
import ctypes
import errno as _errno
import gc
import hashlib
import os
import random
import resource
import select
import shutil
import signal
import socket
import struct
import sys
import time as _time
import traceback

import accel

REPO = os.environ.get("PHSIM_REPO", "/repo")
OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "rename", 6: "unlink", 7: "fsync",
       8: "opendir", 9: "stat", 10: "mkdir", 11: "rmdir", 12: "trunc", 13: "link", 14: "symlink",
       15: "sleep", 16: "lock", 17: "denied", 18: "chdir", 19: "access", 20: "chmod", 21: "calc"}
REQ = struct.Struct("=iiqqii")
GRANT = struct.Struct("=iiqq")
DONE = struct.Struct("=iiqq")
GO, FAIL, SHORT = 0, 1, 2
EXIT_DRAWS = 96
EXIT_PROTO = 97
O_ACC = os.O_WRONLY | os.O_RDWR
CPU_LIMIT = 90
WALL_LIMIT = 600.0


class HarnessError(Exception):
    """Something is wrong with the simulator or its environment."""


def real_time():
    return _time.clock_gettime(_time.CLOCK_MONOTONIC)


# ---------------------------------------------------------------------------
# child side
# ---------------------------------------------------------------------------
class SimRandom(random.Random):
    """The generator behind the functions of the random module, with outcomes
    that a script can decide. Installed before any code under test is imported,
    so that it does not matter how or where that code imports the functions.

    mode 'real': an ordinary seeded Mersenne twister, exactly as shipped.
    mode 'fair': ignores the seed the program asks for; an ordinary generator
        with a seed of the simulator's choice (another outcome of the draws).
    mode 'edge': extreme values for the first `burst` draws, fair afterwards.
    mode 'aim': the integers drawn first are those of a list, fair afterwards.
    Counts draws and ends the process when there are more than `limit`.
    """

    def __init__(self):
        self._spec = None
        self.draws = 0
        self.limit = None
        super().__init__(0)

    def configure(self, spec):
        self._spec = dict(spec) if spec else None
        self.draws = 0
        self.limit = spec.get("limit") if spec else None
        if spec and spec.get("mode", "real") != "real":
            self._ctl = random.Random(spec.get("seed", 0))
            super().seed(spec.get("seed", 0) + 1)
        else:
            self._spec = None
        if self._spec is not None and "aim" in self._spec:
            self._spec["aim"] = list(self._spec["aim"])

    def _count(self):
        self.draws += 1
        if self.limit is not None and self.draws > self.limit:
            os.write(2, b"PHSIM: random draw limit exceeded\n")
            os._exit(EXIT_DRAWS)

    def seed(self, a=None, version=2):
        if getattr(self, "_spec", None) is None:
            super().seed(a, version)

    def _edge(self):
        s = self._spec
        return s is not None and s.get("mode") == "edge" and self.draws <= s.get("burst", 0)

    def random(self):
        self._count()
        if self._edge():
            style = self._spec.get("style", "mix")
            hi = 1.0 - 2.0 ** -53
            if style == "low":
                return 0.0
            if style == "high":
                return hi
            if style == "alt":
                return (0.0, hi)[self.draws & 1]
            return self._ctl.choice((0.0, hi, 0.5, 2.0 ** -53, self._ctl.random()))
        return super().random()

    def getrandbits(self, k):
        self._count()
        if self._spec is not None and self._spec.get("aim"):
            v = self._spec["aim"].pop(0)
            if 0 <= v < 1 << k:
                return v
        if self._edge():
            style = self._spec.get("style", "mix")
            top = (1 << k) - 1
            if style == "low":
                return 0
            if style == "high":
                # all ones may be rejected for ever: now and then another value
                return 1 << (k - 1) if self.draws % 3 and k else super().getrandbits(k)
            if style == "alt":
                return 0 if self.draws & 1 else super().getrandbits(k)
            return self._ctl.choice((0, 1 & top, super().getrandbits(k)))
        return super().getrandbits(k)


class Points:
    """Points between two I/O calls at which something can happen: the k-th call
    of a function of the package, plus l lines. Counts the calls; calls made
    inside a remembered function count for nothing, remembered or not."""
    TOOL = 4

    def __init__(self, lib, want):
        self.lib = lib
        lib.phsim_point.argtypes = [ctypes.c_int64, ctypes.c_int64]
        self.want = sorted(map(tuple, want))
        self.k = 0
        self.lines = None
        self.mon = sys.monitoring
        self.home = os.path.join(REPO, "phenum") + os.sep
        accel.CALLED = self.called
        self.mon.use_tool_id(self.TOOL, "phsim")
        self.mon.register_callback(self.TOOL, self.mon.events.PY_START, self.start)
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, self.line)
        self.mon.set_events(self.TOOL, self.mon.events.PY_START)

    def start(self, code, offset):
        if not code.co_filename.startswith(self.home):
            return self.mon.DISABLE
        if not accel.DEPTH:
            self.called()

    def called(self):
        self.k += 1
        if self.want and self.want[0][0] <= self.k and self.lines is None:
            self.lines = self.want[0][1]
            if self.lines <= 0:
                self.hit()
            else:
                self.mon.set_events(self.TOOL, self.mon.events.PY_START | self.mon.events.LINE)

    def line(self, code, n):
        if not code.co_filename.startswith(self.home):
            return self.mon.DISABLE
        if self.lines is None or accel.DEPTH:
            return
        self.lines -= 1
        if self.lines <= 0:
            self.mon.set_events(self.TOOL, self.mon.events.PY_START)
            self.hit()

    def hit(self):
        k, l = self.want.pop(0)
        self.lines = None
        if self.lib.phsim_point(k, l):
            raise MemoryError("allocation failed")

    def stop(self):
        self.mon.set_events(self.TOOL, 0)
        self.mon.free_tool_id(self.TOOL)


SIM_RANDOM = None


def install_random():
    """Replaces the functions of the random module; call before importing phenum."""
    global SIM_RANDOM
    if SIM_RANDOM is not None:
        return SIM_RANDOM
    inst = SIM_RANDOM = SimRandom()
    random._inst = inst
    for name in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample",
                 "shuffle", "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate",
                 "gammavariate", "gauss", "betavariate", "binomialvariate", "paretovariate",
                 "weibullvariate", "getstate", "setstate", "getrandbits", "randbytes"):
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))
    return inst


def child_main(sock, world, spec, outfd, memofd):
    """Runs in the forked process, never returns."""
    code = 1
    points = None
    try:
        os.dup2(outfd, 1)
        os.dup2(outfd, 2)
        os.close(0)
        os.open("/dev/null", os.O_RDONLY)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        signal.signal(signal.SIGHUP, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        os.chdir(world.root)
        sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
        sys.stderr = open(2, "w", encoding="utf-8", closefd=False, errors="backslashreplace")
        lib = ctypes.CDLL(None)
        lib.phsim_activate.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int64, ctypes.c_uint64, ctypes.c_int]
        gc.collect()
        lib.phsim_activate(sock.fileno(), world.root.encode(), int(world.now),
                           (spec.get("entropy", 1) * 2 + 1) & 0xFFFFFFFFFFFFFFFF, spec.get("pid", 4242))
        lib.phsim_gran.argtypes = [ctypes.c_int64]
        lib.phsim_gran(world.gran)
        lib.phsim_steady(1 if spec.get("call") == "threads" else 0)
        # time also passes from one look at the clock to the next
        lib.phsim_slow.argtypes = [ctypes.c_int64]
        lib.phsim_slow(spec.get("slow", 0))
        import numpy
        accel.ENABLED = bool(spec.get("memo"))
        SIM_RANDOM.configure(spec.get("rng"))
        random.seed(int.from_bytes(os.urandom(16), "little"))
        numpy.random.seed(int.from_bytes(os.urandom(4), "little"))
        if "points" in spec:
            points = Points(lib, spec["points"])
        code = run_program(spec)
        if points:
            points.stop()
    except BaseException:
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        pass
    try:
        ctypes.CDLL(None).phsim_deactivate()
        if spec.get("memo") and accel.FRESH:
            os.write(memofd, accel.take_fresh())
        sock.send(struct.pack("=iiqqii", 255, code, points.k if points else 0, 0, 0, 0))
    except BaseException:
        pass
    os._exit(code & 0xFF)


def run_program(spec):
    """What the interpreter does for `python script args`."""
    code = 0
    if "call" in spec:
        import programs
        target = lambda: programs.PROGRAMS[spec["call"]](spec)
    else:
        path = os.path.join(REPO, "phenum", spec["script"] + ".py")
        sys.argv = [path] + list(spec["argv"])

        def target():
            import runpy
            runpy.run_path(path, run_name="__main__")
    try:
        target()
    except SystemExit as e:
        c = e.code
        code = 0 if c is None else (c if isinstance(c, int) else 1)
    except KeyboardInterrupt:
        code = 130
    except BaseException:
        traceback.print_exc()
        code = 1
    # interpreter shutdown
    try:
        sys.last_value = sys.last_exc = None
    except BaseException:
        pass
    gc.collect()
    import atexit
    try:
        atexit._run_exitfuncs()
    except BaseException:
        pass
    return code


# ---------------------------------------------------------------------------
# controller side
# ---------------------------------------------------------------------------
class Proc:
    def __init__(self, idx, spec):
        self.idx, self.spec = idx, spec
        self.pid = None
        self.sock = None
        self.req = None
        self.nops = 0
        self.err_at = None       # the call that failed first
        self.ncalls = 0          # calls of functions of the package, if counted
        self.alive = False
        self.code = None         # exit status, or None
        self.killed = None       # reason the controller killed it
        self.cpu = False
        self.hang = False
        self.out = ""
        self.names = {}          # inode -> name
        self.modes = {}          # inode -> opened for writing

    def ok(self):
        return self.code == 0 and self.killed is None


class World:
    """One simulated machine: a directory, its disk model, its clock."""

    def __init__(self, base, tag):
        self.root = os.path.join(base, "w%s" % tag)
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)
        self.now = 1600000000 * 10 ** 9
        self.t0 = self.now
        self.log = []
        self.fired = {}
        self.nsteps = 0
        self.states = set()
        self.denied = []
        self.inolabel = {}
        self.gran = 1  # granularity of file times
        self.stamp(os.path.join(self.root, "x"))

    # -- files ---------------------------------------------------------------
    def put(self, name, data):
        if isinstance(data, str):
            data = data.encode()
        p = os.path.join(self.root, name)
        with open(p, "wb") as f:
            f.write(data)
        self.stamp(p)

    def stamp(self, path):
        """File times are those of the simulated clock."""
        self.now += 1000
        t = self.now - self.now % self.gran
        for q in (path, os.path.dirname(path)):
            try:
                os.utime(q, ns=(t, t))
            except (OSError, ValueError):
                pass

    def get(self, name):
        try:
            with open(os.path.join(self.root, name), "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def text(self, name):
        b = self.get(name)
        return None if b is None else b.decode("utf-8", "replace")

    def remove(self, name):
        p = os.path.join(self.root, name)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)
        self.stamp(os.path.join(os.path.dirname(p), "\0x"))

    def listing(self):
        out = []
        for d, ds, fs in os.walk(self.root):
            for f in fs + ds:
                out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)

    def snapshot(self):
        return {n: self.get(n) for n in self.listing() if not os.path.isdir(os.path.join(self.root, n))}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def clean(self):
        for n in os.listdir(self.root):
            self.remove(n)

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- one step --------------------------------------------------------------
    def step(self, specs, faults=(), schedule=(), observer=None, power=None, listing=0):
        """Runs the processes described by specs to the end (or to a crash).

        faults: list of dicts {proc, at, kind, ...}; `at` counts the intercepted
        calls of that process; {proc, calc: [k, l], kind} is a point inside a
        computation (see Points). schedule: whose turn it is at each point where
        more than one process can run (index into the runnable ones, 0 = stay
        with the current one). power: fraction in [0,1] used to pick how much
        survives a power loss. Returns the list of processes.
        """
        byproc = {}
        for f in faults:
            byproc.setdefault(f["proc"], []).append(f)
        specs = [dict(s, points=[f["calc"] for f in byproc.get(i, ()) if "calc" in f])
                 if any("calc" in f for f in byproc.get(i, ())) else s for i, s in enumerate(specs)]
        for s in specs:
            if "now" in s or s.get("jump"):  # the clock is set
                t = s["now"] if "now" in s else max(10 ** 9, self.now + s["jump"])
                self.t0 += t - self.now
                self.now = t
                if s.get("jump"):
                    self.count("clock_jump_between")
        procs = [Proc(i, s) for i, s in enumerate(specs)]
        disk = Disk(self)
        crashed = None
        sched = list(schedule)
        self.step_index = getattr(self, "step_index", -1) + 1
        try:
            for p in procs:
                self._spawn(p, procs)
                self._await(p)
            cur = procs[0]
            turn = 0
            while True:
                runnable = [p for p in procs if p.alive]
                if not runnable:
                    break
                if len(runnable) > 1:
                    order = ([cur] if cur in runnable else []) + [p for p in runnable if p is not cur]
                    k = sched[turn] if turn < len(sched) else 0
                    turn += 1
                    cur = order[k % len(order)]
                    if k % len(order):
                        self.count("context_switch")
                else:
                    cur = runnable[0]
                act = self._decide(cur, byproc.get(cur.idx, ()))
                crash = self._execute(cur, act, disk, observer)
                if crash:
                    crashed = crash
                    break
            if crashed is None and any(f["kind"] in ("power", "torn_power") and f.get("at", -1) >= procs[f["proc"]].nops and procs[f["proc"]].killed is None
                                       for f in faults):
                # the power fails right after everything has ended
                crashed = "power"
                self.count("power@end")
            if crashed:
                for p in procs:
                    if p.alive:
                        self._kill(p, crashed)
                if crashed == "power":
                    disk.power_loss(power or {})
                    if observer:
                        observer(self, None, "power", None)
        finally:
            for p in procs:
                if p.alive:
                    self._kill(p, "cleanup")
                self._collect(p)
        self.log.append(("end", [(p.code, p.killed) for p in procs], crashed))
        self.crashed = crashed
        return procs

    def _spawn(self, p, procs):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        p.outfd = os.memfd_create("out")
        p.memofd = os.memfd_create("memo") if p.spec.get("memo") else None
        self.now += 1000003
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for q in procs:
                    if q.sock is not None:
                        q.sock.close()
                child_main(b, self, p.spec, p.outfd, p.memofd)
            finally:
                os._exit(99)
        b.close()
        p.pid, p.sock, p.alive = pid, a, True
        self.poll = None

    def _recv(self, p):
        r, _, _ = select.select([p.sock], [], [], WALL_LIMIT)
        if not r:
            raise HarnessError("no answer from simulated process within %ds: %r" % (WALL_LIMIT, p.spec))
        try:
            return p.sock.recv(16384)
        except ConnectionResetError:
            return b""

    def _await(self, p):
        """Waits until p asks for its next call or ends."""
        m = self._recv(p)
        if not m:
            self._reap(p)
            return
        op, fd, a, b, l1, l2 = REQ.unpack_from(m)
        if op == 255:
            p.final, p.ncalls = fd, a
            m = self._recv(p)
            self._reap(p)
            return
        o = REQ.size
        p1 = m[o:o + l1].decode("utf-8", "surrogateescape")
        p2 = m[o + l1:o + l1 + l2].decode("utf-8", "surrogateescape")
        p.req = (OPS.get(op, str(op)), fd, a, b, p1, p2)

    def _reap(self, p):
        _, st = os.waitpid(p.pid, 0)
        p.alive = False
        p.req = None
        p.sock.close()
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig == signal.SIGXCPU:
                p.hang = True
            p.code = -sig
        else:
            p.code = os.WEXITSTATUS(st)
            if p.code == EXIT_DRAWS:
                p.hang = True
            if p.code in (EXIT_PROTO, 99):
                raise HarnessError("simulated process lost its controller (%d): %s" % (p.code, self._output(p)[-2000:]))

    def _slurp(self, fd):
        os.lseek(fd, 0, 0)
        data = []
        while True:
            c = os.read(fd, 1 << 20)
            if not c:
                return b"".join(data)
            data.append(c)

    def _output(self, p):
        return self._slurp(p.outfd).decode("utf-8", "replace")

    def _collect(self, p):
        if getattr(p, "outfd", None) is not None:
            p.out = self._output(p)
            os.close(p.outfd)
            p.outfd = None
        if getattr(p, "memofd", None) is not None:
            if p.killed is None and p.code is not None and p.code >= 0:
                data = self._slurp(p.memofd)
                if data:
                    accel.merge(data)
            os.close(p.memofd)
            p.memofd = None

    def _kill(self, p, why):
        try:
            os.kill(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            while p.sock.recv(16384):
                pass
        except OSError:
            pass
        os.waitpid(p.pid, 0)
        p.sock.close()
        p.alive = False
        p.code = -9
        p.killed = why

    # -- decisions ---------------------------------------------------------------
    def _decide(self, p, faults):
        """The fault (if any) that hits the pending call of p."""
        k = p.nops
        name, fd, a, b, p1, p2 = p.req
        hit = None
        for f in faults:
            if "calc" in f or name == "calc":
                if name == "calc" and f.get("calc") == [a, b]:
                    return f
                continue
            if "rel" in f:
                # strikes while an earlier error is being handled
                d = k - p.err_at if p.err_at is not None else 0
                if d < f["rel"] or (f.get("until", f["rel"] + 1) or 1 << 30) <= d or (f.get("ops") and opclass(p.req, p) not in f["ops"]):
                    continue
                hit = f
                break
            if f["at"] == k or ("until" in f and f["at"] <= k and (f["until"] is None or k < f["until"])):
                if f.get("ops") and opclass(p.req, p) not in f["ops"]:
                    continue
                hit = f
                break
        return hit

    def _execute(self, p, fault, disk, observer):
        name, fd, a, b, p1, p2 = p.req
        req = p.req
        cls = opclass(req, p)
        if name != "calc":
            p.nops += 1
        self.nsteps += 1
        self.now += 1000 + (p.spec.get("slow", 0))
        label = p1 if p1 else p.names.get(a if name in ("close", "fsync") else (fd, "fd"), "")
        if name in ("read", "write", "trunc") and fd >= 0:
            label = p.names.get((fd, "fd"), "")
        act, err, n = GO, 0, 0
        after = None
        if name == "opendir":
            n = p.spec.get("listing", 0)
            if n:
                self.count("directory_order")
        if fault is not None:
            kind = fault["kind"]
            if kind in ("kill", "crash", "power"):
                self.count(kind + "@" + cls)
                self.log.append((p.idx, cls, self._lab(label), kind))
                if kind == "kill":
                    self._kill(p, "kill")
                    if observer:
                        observer(self, p, "kill", None)
                    return None
                return kind
            if kind in ("torn_kill", "torn_crash", "torn_power"):
                if name == "write" and a > 0:
                    act, n = SHORT, min(a, int(a * fault.get("frac", 0.5)))
                    after = kind[5:]
                    self.count(kind)
                else:
                    self.count(kind[5:] + "@" + cls)
                    self.log.append((p.idx, cls, self._lab(label), kind))
                    if kind == "torn_kill":
                        self._kill(p, "kill")
                        if observer:
                            observer(self, p, "kill", None)
                        return None
                    return kind[5:]
            elif kind == "errno":
                e = fault.get("errno") or default_errno(cls, fault.get("pick", 0))
                if e is not None and faultable(cls):
                    act, err = FAIL, getattr(_errno, e)
                    self.count(e + "@" + cls)
                    if "rel" in fault:
                        self.count("second_error")
                    elif p.err_at is None:
                        p.err_at = p.nops - 1
                    if cls in ("fsync", "closew") and e in ("EIO", "ENOSPC", "EDQUOT") and label and fault.get("pick", 0) % 3 < 2:
                        # what could not be stored is gone
                        if disk.lose(label, 0.5 * (fault.get("pick", 0) % 3)):
                            self.count("lost_data@" + cls)
            elif kind == "readdir":
                if name == "opendir":
                    act, err, n = SHORT, _errno.EIO, fault.get("pick", 1)
                    self.count("EIO@readdir")
            elif kind == "short":
                if name in ("read", "write") and a > 1:
                    act, n = SHORT, max(1, min(a - 1, int(a * fault.get("frac", 0.5))))
                    self.count("short_" + name)
            elif kind == "eintr":
                if name in ("read", "write", "open"):
                    act, err = FAIL, _errno.EINTR
                    self.count("EINTR@" + cls)
            elif kind == "sigint":
                self.count("sigint@" + cls)
                os.kill(p.pid, signal.SIGINT)
            elif kind in ("sigterm", "sighup"):
                # ends the process unless it handles the signal
                self.count(kind + "@" + cls)
                os.kill(p.pid, getattr(signal, kind.upper()))
            elif kind == "nomem":
                if name == "calc":
                    act, err = FAIL, _errno.ENOMEM
                    self.count("MemoryError@calc")
            elif kind == "jump":
                self.now = max(10 ** 9, self.now + fault.get("ns", 0))
                self.count("clock_jump")
            elif kind == "stall":
                self.now += fault.get("ns", 10 ** 9)
                self.count("stall")
            else:
                raise HarnessError("unknown fault kind %r" % kind)
        if name == "sleep":
            self.now += a
        if name == "denied":
            self.denied.append(p1)
        if act != FAIL:
            disk.before(req, p)
        try:
            p.sock.send(GRANT.pack(act, err, n, self.now))
        except BrokenPipeError:
            pass
        m = self._recv(p)
        if len(m) != DONE.size:
            # died inside the call
            if m:
                raise HarnessError("protocol: %r" % (m,))
            self._reap(p)
            self.log.append((p.idx, cls, self._lab(label), fault["kind"] if fault else "died"))
            if observer:
                observer(self, p, "kill", None)
            return None
        _, e, ret, ino = DONE.unpack(m)
        if name == "open" and ret >= 0:
            p.names[(ret, "fd")] = p1
            p.names[ino] = p1
            p.modes[ret] = bool(a & O_ACC)
        if ret >= 0:
            disk.after(req, p, ret, ino)
        entry = (p.idx, cls, self._lab(label or p1), self._lab(p2), act, _errno.errorcode.get(err, err), n,
                 ret if name not in ("open",) else (0 if ret >= 0 else -1), _errno.errorcode.get(e, e))
        self.log.append(entry)
        mutating = ret >= 0 and (name in ("write", "rename", "unlink", "trunc", "link", "symlink", "mkdir", "rmdir")
                                 or (name == "open" and a & (os.O_CREAT | os.O_TRUNC)))
        if mutating:
            self.states.add(disk.digest())
        if observer and (mutating or name == "close"):
            observer(self, p, cls, p1)
        if after:
            if after == "kill":
                self._kill(p, "kill")
                return None
            return after
        self._await(p)
        return None

    def _lab(self, s):
        """Scratch names carry random digits; they are already simulated, so
        they are repeatable and kept as they are."""
        return s

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()


def opclass(req, p):
    name, fd, a, b, p1, p2 = req
    if name == "open":
        if a & os.O_DIRECTORY:
            return "opendirfd"
        return "create" if a & (os.O_CREAT | O_ACC) else "openread"
    if name == "close":
        return "closew" if p.modes.get(fd) else "close"
    return name


def faultable(cls):
    return cls in ERRNOS


ERRNOS = {"create": ("ENOSPC", "EACCES", "EMFILE", "EIO", "EROFS"), "openread": ("EIO", "EACCES", "EMFILE"),
          "read": ("EIO",), "write": ("ENOSPC", "EIO", "EDQUOT"), "fsync": ("EIO", "ENOSPC"),
          "closew": ("EIO", "ENOSPC"), "rename": ("EIO", "ENOSPC", "EACCES"), "unlink": ("EIO", "EACCES"),
          "opendir": ("EIO", "EACCES", "EMFILE"), "stat": ("EIO", "EACCES"), "mkdir": ("ENOSPC",),
          "trunc": ("EIO",), "link": ("EIO",), "access": ("EACCES",)}


def default_errno(cls, pick):
    e = ERRNOS.get(cls)
    return e[pick % len(e)] if e else None


class Disk:
    """What a power loss leaves behind: metadata operations reach the disk in
    order (any prefix of them), the data of a file only as far as it was
    synced; later data may be missing, partial or zero-filled."""

    def __init__(self, world):
        self.w = world
        self.start = {}          # name -> file id at the start of the step
        self.files = {}          # id -> [current bytes (lazily), synced bytes]
        self.next = 0
        self.ns = []             # metadata log: (op, name, id / name2)
        self.cur = {}            # name -> id
        for n, data in world.snapshot().items():
            i = self._new(data)
            self.start[n] = i
            self.cur[n] = i
        self.synced_upto = 0

    def _new(self, synced):
        self.next += 1
        self.files[self.next] = {"synced": synced, "last": None, "data": synced}
        return self.next

    def before(self, req, p):
        name, fd, a, b, p1, p2 = req
        if name in ("rename", "unlink"):
            for n in (p1, p2):
                if n and n in self.cur:
                    self.files[self.cur[n]]["last"] = self.w.get(n)
        if name == "open" and a & os.O_TRUNC and p1 in self.cur:
            pass

    def after(self, req, p, ret, ino):
        name, fd, a, b, p1, p2 = req
        if name == "open":
            if p1 not in self.cur and a & os.O_CREAT:
                i = self._new(b"")
                self.cur[p1] = i
                self.ns.append(("create", p1, i))
            p.names[(ret, "id")] = self.cur.get(p1)
        elif name == "rename":
            if p1 in self.cur:
                i = self.cur.pop(p1)
                self.cur[p2] = i
                self.ns.append(("rename", p1, p2))
        elif name == "link":
            if p1 in self.cur:
                self.cur[p2] = self.cur[p1]
                self.ns.append(("create", p2, self.cur[p1]))
        elif name == "unlink":
            if p1 in self.cur:
                self.cur.pop(p1)
                self.ns.append(("unlink", p1, None))
        elif name == "fsync":
            i = p.names.get((fd, "id"))
            if i is not None:
                n = self._name(i)
                if n is not None:
                    self.files[i]["synced"] = self.w.get(n)

    def lose(self, name, frac):
        """The unsynced data of a file are lost."""
        i = self.cur.get(name)
        now = self.w.get(name)
        if i is None or now is None:
            return False
        syn = self.files[i]["synced"]
        keep = len(syn) if syn is not None and now.startswith(syn) else 0
        m = keep + int(frac * (len(now) - keep))
        if m == len(now):
            return False
        os.truncate(os.path.join(self.w.root, name), m)
        return True

    def _name(self, i):
        for n, j in self.cur.items():
            if i == j:
                return n
        return None

    def digest(self):
        """State of the directory as a reader would find it: names and sizes."""
        out = []
        for n in sorted(self.cur):
            try:
                out.append((mask(n), os.stat(os.path.join(self.w.root, n)).st_size))
            except OSError:
                out.append((mask(n), -1))
        return hash(tuple(out))

    def power_loss(self, power):
        """power: {"meta": fraction of the metadata log kept, "data": fraction of
        unsynced data kept, "zero": fill instead of cut}."""
        cut = int(round(power.get("meta", 1.0) * len(self.ns)))
        ns = dict(self.start)
        for op, x, y in self.ns[:cut]:
            if op == "create":
                ns[x] = y
            elif op == "rename":
                if x in ns:
                    ns[y] = ns.pop(x)
            else:
                ns.pop(x, None)
        if cut < len(self.ns):
            self.w.count("power_lost_metadata")
        content = {}
        for n, i in ns.items():
            f = self.files[i]
            now = None
            live = self._name(i)
            if live is not None:
                now = self.w.get(live)
            if now is None:
                now = f["last"] if f["last"] is not None else f["data"]
            syn = f["synced"]
            if now is None or now == syn:
                content[n] = syn if syn is not None else b""
                continue
            keep = len(syn) if syn is not None and now.startswith(syn) else 0
            m = keep + int(round(power.get("data", 0.0) * (len(now) - keep)))
            data = now[:m]
            if power.get("zero"):
                data += b"\0" * (len(now) - m)
            if data != now:
                self.w.count("power_lost_data")
            content[n] = data
        self.w.clean()
        for n, data in content.items():
            os.makedirs(os.path.dirname(os.path.join(self.w.root, n)), exist_ok=True)
            self.w.put(n, data)


def mask(n):
    return "scratch" if n.startswith(".") else n
