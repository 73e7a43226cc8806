"""Programs that use the package as a library, in one process."""
import os
import sys
import threading
import traceback


def _prepare(call):
    """Parses the options as the command would; -> what has to be done."""
    import importlib
    mod = importlib.import_module("phenum." + call["script"])
    sys.argv = [call["script"] + ".py"] + list(call["argv"])
    args = mod._parser_options()
    if call["script"] == "enumeration":
        return lambda: mod._script_enum(args)
    return lambda: mod.run(args)


def _do(tag, job):
    """Runs one call as a notebook or a server would, and says how it ended."""
    try:
        job()
        st = "ok"
    except SystemExit as e:
        st = "ok" if e.code in (None, 0) else "exit"
    except KeyboardInterrupt:
        st = "interrupted"
    except Exception as e:
        traceback.print_exc()
        st = "failed"
    sys.stdout.write("\nCALL %s %s\n" % (tag, st))
    return st == "ok"


def session(spec):
    """One call after the other, each in its own directory."""
    top = os.getcwd()
    for j, c in enumerate(spec["calls"]):
        os.chdir(os.path.join(top, c["dir"]))

        def job():
            if "put" in c:
                with open(c["put"], "w") as f:
                    f.write(c["text"])
            else:
                _prepare(c)()
        # what failed or was interrupted is tried again
        for k in range(1 if c["dir"] == "bad" else 4):
            if _do(j, job):
                break
        os.chdir(top)


class Baton:
    """Lets exactly one thread run; hands over after so many traced lines."""

    def __init__(self, n, gaps, more=None):
        # more: [seed, mean, count] of the gaps after those listed
        self.more = list(more or (0, 1, 0))
        self.locks = [threading.Lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.live = list(range(n))
        self.gaps = list(gaps)
        self.left = self._next()
        self.switches = 0

    def _next(self):
        if self.gaps:
            return self.gaps.pop(0)
        x, mean, left = self.more
        if left <= 0:
            return None
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        self.more = [x, mean, left - 1]
        return 1 + (x >> 33) % (2 * mean - 1)

    def line(self, me):
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            self.left = self._next()
            self.hand(me)

    def hand(self, me):
        if len(self.live) < 2:
            return
        to = self.live[(self.live.index(me) + 1) % len(self.live)]
        self.switches += 1
        self.locks[to].release()
        self.locks[me].acquire()

    def leave(self, me):
        k = self.live.index(me)
        self.live.remove(me)
        if self.live:
            self.locks[self.live[k % len(self.live)]].release()


def threads(spec):
    """Several threads, each with its own list of calls, interleaved at the
    lines of the package."""
    import phenum
    home = os.path.dirname(os.path.abspath(phenum.__file__))
    jobs = [[_prepare(c) for c in t] for t in spec["threads"]]
    b = Baton(len(jobs), spec["gaps"], spec.get("more"))

    # where switches may happen: anywhere, in one module, or in some functions
    focus = spec.get("focus") or []
    names = {f for m, f in focus if f}
    if len(focus) == 1:
        home = os.path.join(home, focus[0][0])

    def tracer(me):
        def local(frame, event, arg):
            if event == "line":
                b.line(me)
            return local if b.left is not None else None

        def glob(frame, event, arg):
            return local if b.left is not None and frame.f_code.co_filename.startswith(home) \
                and (not names or frame.f_code.co_name in names) else None
        return glob

    def main(me):
        b.locks[me].acquire()
        sys.settrace(tracer(me))
        try:
            for j, job in enumerate(jobs[me]):
                _do("%d.%d" % (me, j), job)
        finally:
            sys.settrace(None)
            b.leave(me)
    ts = [threading.Thread(target=main, args=(k,), daemon=True) for k in range(len(jobs))]
    for t in ts:
        t.start()
    b.locks[0].release()
    for t in ts:
        t.join()
    sys.stdout.write("\nSWITCHES %d\n" % b.switches)


def hot(spec):
    """One call after the other; prints the functions of the package that each one runs."""
    import phenum
    home = os.path.dirname(os.path.abspath(phenum.__file__)) + os.sep
    for j, c in enumerate(spec["calls"]):
        seen = set()

        def note(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(home):
                seen.add((os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
        job = _prepare(c)
        sys.setprofile(note)
        try:
            job()
        finally:
            sys.setprofile(None)
        for m, f in sorted(seen):
            sys.stdout.write("\nHOT %d %s %s\n" % (j, m, f))


PROGRAMS = {"session": session, "threads": threads, "hot": hot}
