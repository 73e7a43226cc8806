"""C11: calls in one process do not affect one another."""
import json
import re

import base
import lab
import sampling
import systems
from lab import enum_cmd, mk_cmd


def tasks(rng, s, prefix=""):
    """Calls that a program makes about one system: argv lists."""
    seed, n = rng.randrange(100), rng.randint(1, 10)
    p = prefix
    if p:
        # names of its own, so that several can share a directory
        L = ["-lattice", p + "lattice.in"]
        full = [enum_cmd("-polya", "-outfile", p + "count", *L)]
        if rng.random() < 0.7:
            full += [enum_cmd("-distribution", "all", "all", "-input", p + "count", "-outfile", p + "pick", *L),
                     enum_cmd("-enum", "-input", p + "pick", "-outfile", p + "found.result", *(L + rng.choice([[], ["-super"]])))]
            if rng.random() < 0.4:
                full.append(mk_cmd("all", "-input", p + "found.result", "-outfile", p + "pos_{}", *(["-displace", "0.1"] if rng.random() < 0.5 else [])))
        return full
    r = rng.random()
    if r < 0.3:
        out = [enum_cmd("-enum")]
    elif r < 0.5:
        out = [enum_cmd("-enum", "-distribution", "all", n, "-seed", seed)]
    elif r < 0.6:
        out = [enum_cmd("-enum", "-super")]
    elif r < 0.8:
        out = [enum_cmd("-polya"), enum_cmd("-distribution", "all", n, "-seed", seed), enum_cmd("-enum", "-seed", seed)]
        if rng.random() < 0.5:
            # other structures, as many
            for _ in range(rng.choice([1, 1, 2])):
                seed = rng.randrange(100)
                out += [enum_cmd("-distribution", "all", n, "-seed", seed), enum_cmd("-enum", "-seed", seed)]
    else:
        out = [enum_cmd("-polya"), enum_cmd("-distribution", rng.choice(["size", "shape", "conc"]), n, "-seed", seed, "-savedist", "-outfile", "share.txt")]
    if any("-enum" in c["argv"] for c in out) and rng.random() < 0.5:
        out.append(mk_cmd("all", "-input", "enum.out", *rng.choice([[], ["-displace", "0.2"], ["-mink", "f"], ["-species", *["Al", "Cu", "Ni", "Ag"][:s["k"]]]])))
    return out


BAD = [enum_cmd("-enum", "-lattice", "nowhere.in"), enum_cmd("-distribution", "all", "5", "-filter", "shape", "nowhere.txt"), enum_cmd("-distribution", "what", "5"),
       mk_cmd("all", "-input", "nothing"), mk_cmd("x", "-input", "enum.out"), enum_cmd("-polya", "-lattice", "nowhere.in"), enum_cmd("-distribution", "all", "some")]


LIGHT = [s for s in systems.TINY if systems.work(s) <= 200]
SMALL = [s for s in systems.TINY if s["sizes"][1] <= 2 and len(s["basis"]) == 1 and s["k"] <= 3]

ARROWS = [s for s in systems.TINY if s.get("arrows")]
HOT = [ARROWS[0], [x for x in systems.TINY if len(x["basis"]) == 2 and not x.get("arrows")][0]]


def functions(ctx, prep):
    """[module, function] pairs that the stages run, where threads may be switched."""
    if not getattr(ctx, "hot", None):
        out = set()
        for sysm in HOT:
            w = ctx.world("hot")
            base.setup(w, sysm)
            p = w.step([{"call": "hot", "memo": False, "entropy": 5, "calls": [
                enum_cmd("-polya"), enum_cmd("-distribution", "all", "all"), enum_cmd("-enum"),
                mk_cmd("all", "-input", "enum.out", "-displace", "0.1")]}])[0]
            w.close()
            out |= set(re.findall(r"^HOT (\d) (\S+) (\S+)$", p.out, re.M))
        ctx.hot = sorted([int(j), m, f] for j, m, f in out if not f.startswith("<"))
    want = {0: (0, 1, 2), 1: (1, 2), 2: (2,), 3: (3,)}[prep]
    return [[m, f] for j, m, f in ctx.hot if j in want] or [["", None]]


def sibling(rng, s):
    """A system that differs from another in one respect."""
    t = base.clone(s)
    how = rng.choice(["k", "basis", "basis", "basis", "lat", "sizes"])
    if how == "k" and not t.get("concs"):
        t["k"] = 2 if t["k"] != 2 else 3
    elif how == "basis" and len(t["basis"]) > 1:
        t["basis"][-1] = [x + d for x, d in zip(t["basis"][-1], (0.07, 0.04, 0.11))]
    elif how == "lat":
        t["lat"] = rng.choice([x for x in ("tric", "orth", "sc", "fcc") if x != s["lat"]])
    elif how == "sizes" and s["sizes"][0] > 1:
        t["sizes"] = [s["sizes"][0] - 1, s["sizes"][1]]
    return t if systems.work(t) <= 3000 and (not t.get("arrows") or lab.crystal(t).arrows_ok) and not ambiguous(t) else base.clone(s)


def ambiguous(s):
    from props import c05
    return c05.ambiguous(lab.crystal(s))


def show(rng, s, p):
    """A makeStr call for the structures of one thread."""
    a = ["all", "-input", p + "found.result", "-outfile", p + "pos_{}"]
    if rng.random() < 0.6:
        a += ["-displace", rng.choice(["0.1", "0.25"])]
    if rng.random() < 0.3:
        a += ["-mink", "f"]
    if rng.random() < 0.4:
        a += ["-species", *rng.sample(["Al", "Cu", "Ni", "Ag"], min(4, s["k"])), "-remove_zeros", rng.choice("tf")]
    return mk_cmd(*a)


def stage(rng, s, p, prep):
    """The calls of one thread when the first ones are made beforehand."""
    L = ["-lattice", p + "lattice.in"]
    full = [enum_cmd("-polya", "-outfile", p + "count", *L),
            enum_cmd("-distribution", "all", "all", "-input", p + "count", "-outfile", p + "pick", *L),
            enum_cmd("-enum", "-input", p + "pick", "-outfile", p + "found.result", *(L + rng.choice([[], ["-super"]])))]
    if prep == 1:
        return full[:rng.choice([2, 3])]
    if prep == 2:
        return full
    return full + [show(rng, s, p)]


class C11(base.Prop):
    ID = "C11"
    quick_s = 90
    stub = base.Prop.stub + "; the schedule of threads, switched at lines of the package"
    rule = ("a run makes the calls of 2-5 tasks (different systems, samplings, POSCAR files) in one process, one after the other with failing and interrupted calls in "
            "between, or in 2-3 threads interleaved line by line; every result is compared with that of a process of its own; "
            "distinct_nontrivial counts distinct (calls, order, faults, switches) with more than one task")

    def gen(self, rng, i, tier, ctx):
        pool = systems.TINY
        if rng.random() < 0.5:
            ss = [rng.choice(SMALL) for _ in range(rng.choice([2, 2, 2, 3]))]
            prep = 0
            if rng.random() < 0.65:
                # only the last calls of each thread run side by side
                prep = rng.choice([1, 2, 2, 3, 3])
                ss = [rng.choice(LIGHT) if rng.random() < 0.6 else rng.choice(ARROWS) for _ in ss]
            if rng.random() < 0.25:
                ss = [ss[0]] + [sibling(rng, ss[0]) for _ in ss[1:]]
            mean = rng.choice([3, 10, 30, 100, 1000, 5000])
            gaps = [max(1, int(rng.expovariate(1.0 / mean))) for _ in range(rng.choice([5, 50, 400]))]
            if rng.random() < 0.5:
                gaps[0] = rng.randrange(1, 6000)
            focus = None
            more = None
            if rng.random() < 0.85:
                pool = functions(ctx, prep)
                focus = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 4, 8, 16]))]
                if len(focus) == 1 and rng.random() < 0.3:
                    focus[0] = [focus[0][0], None]
                gaps = [max(1, int(rng.expovariate(1.0 / rng.choice([1, 3, 10, 40])))) for _ in range(rng.choice([5, 50]))]
                more = [rng.getrandbits(60), rng.choice([1, 2, 2, 5, 20]), rng.choice([0, 500, 4000, 10000])]
                if rng.random() < 0.5:
                    gaps[0] = rng.randrange(1, 2000) if focus[0][1] is None else rng.choice([1, 2, 5, rng.randrange(1, 60)])
            return {"mode": "threads", "focus": focus, "systems": ss, "prep": prep, "gaps": gaps, "more": more, "listing": rng.randrange(4),
                    "threads": [stage(rng, s, "t%d_" % k, prep) if prep else tasks(rng, s, "t%d_" % k) for k, s in enumerate(ss)]}
        ss = [rng.choice(LIGHT if rng.random() < 0.6 else pool) for _ in range(rng.choice([2, 2, 2, 3, 4]))]
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                ss[0] = rng.choice([x for x in systems.TINY if len(x["basis"]) > 1])
            # the same crystal with other species or sizes: what a cache might confuse
            ss[1:1] = [sibling(rng, ss[0])]
        todo = [[dict(c, dir="d%d" % k) for c in tasks(rng, s)] for k, s in enumerate(ss)]
        for k, t in enumerate(todo):
            if rng.random() < 0.3:
                # the same directory is used for another system afterwards
                s = base.clone(rng.choice([ss[k], rng.choice(pool)]))
                if s == ss[k]:
                    if s.get("concs"):
                        continue
                    if rng.random() < 0.5 and s["k"] <= 3:
                        s["k"] = 2 if s["k"] != 2 else 3
                    else:
                        s["lat"] = rng.choice(["tric", "orth", "sc", "fcc"])
                s["sizes"] = ss[k]["sizes"]
                if systems.work(s) > 3000:
                    continue
                t.append({"put": "lattice.in", "text": systems.lattice_text(s), "dir": "d%d" % k})
                seed, n = rng.randrange(100), rng.randint(1, 10)
                t += [dict(c, dir="d%d" % k) for c in (enum_cmd("-polya"), enum_cmd("-distribution", "all", *rng.choice([["all"], [n, "-seed", seed]])),
                                                       enum_cmd("-enum", "-seed", seed))]
        calls = []
        if rng.random() < 0.5:
            for t in todo:
                calls += t
        else:  # stages of several tasks take turns
            while any(todo):
                t = rng.choice([t for t in todo if t])
                calls.append(t.pop(0))
        for _ in range(rng.choice([0, 0, 1, 2])):
            calls.insert(rng.randrange(len(calls)), dict(rng.choice(BAD), dir="bad"))
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                f = {"proc": 0, "at": rng.randrange(150), "kind": rng.choice(["errno", "errno", "sigint"]), "pick": rng.randrange(8)}
                if rng.random() < 0.5:
                    f = {"proc": 0, "calc": [int(10 ** rng.uniform(0, 4.7)), rng.choice([0, 0, 1, 2, 5, 12, 30])], "kind": rng.choice(["sigint", "nomem"])}
                faults.append(f)
        return {"mode": "session", "systems": ss, "calls": calls, "faults": faults, "listing": rng.randrange(4), "gran": base.granularity(rng)}

    def alone(self, sc, ctx, k):
        """What the calls of task k give in processes of their own."""
        s = sc["systems"][k]
        if sc["mode"] == "threads":
            cmds, name = sc["threads"][k], "t%d_lattice.in" % k
        else:
            cmds, name = [{x: y for x, y in c.items() if x != "dir"} for c in sc["calls"] if c["dir"] == "d%d" % k], "lattice.in"
        return self.baseline(ctx, None, cmds, {name: systems.lattice_text(s).encode()}) + (len(cmds),)

    def run(self, sc, ctx):
        o = base.Outcome()
        want, files = {}, {}
        for k in range(len(sc["systems"])):
            res, err, n = self.alone(sc, ctx, k)
            if err:
                o.fail("baseline", err)
                return o
            if n:
                want[k] = res[-1]["snap"]
            if sc.get("prep"):
                files.update(res[sc["prep"] - 1]["snap"])
        for k, s in enumerate(sc["systems"]):
            if sc["mode"] == "threads":
                files["t%d_lattice.in" % k] = systems.lattice_text(s).encode()
            else:
                files["d%d/lattice.in" % k] = systems.lattice_text(s).encode()
        if sc["mode"] == "session":
            files["bad/lattice.in"] = systems.lattice_text(systems.TINY[0]).encode()
        w = ctx.world()
        base.setup(w, None, files, gran=sc.get("gran", 1))
        spec = {"call": sc["mode"], "listing": sc["listing"], "entropy": 5, "memo": False}
        if sc["mode"] == "threads":
            todo = [t[sc.get("prep", 0):] for t in sc["threads"]]
            spec.update(threads=todo, gaps=sc["gaps"], more=sc.get("more"), focus=sc.get("focus"))
            names = ["%d.%d" % (t, j) for t, x in enumerate(todo) for j in range(len(x))]
        else:
            spec.update(calls=sc["calls"])
            names = [str(j) for j in range(len(sc["calls"]))]
        p = w.step([spec], sc.get("faults") or ())[0]
        nf = sum(v for x, v in w.fired.items() if x.startswith(("E", "sigint", "MemoryError")))
        if p.hang or p.code != 0:
            if not (p.code != 0 and nf):
                o.fail("status", "the program ended with status %s: %s" % (p.code, p.out[-600:]))
        else:
            st = dict(re.findall(r"^CALL (\S+) (\w+)$", p.out, re.M))
            have = lab.snap(w)
            bad = []
            for x in names:
                dirname = sc["calls"][int(x)]["dir"] if sc["mode"] == "session" else None
                if dirname == "bad":
                    if st.get(x) == "ok":
                        o.fail("bad-ok", "a call that cannot succeed did: %s" % base.cmd_text(sc["calls"][int(x)]))
                elif st.get(x) != "ok":
                    bad.append(x)
            if len(bad) > 0 and not nf:
                o.fail("call", "call %s ended with %s: %s" % (bad[0], st.get(bad[0]), p.out[-700:]))
            else:
                # tasks with a failed call may be incomplete, the others are exact
                hit = set(sc["calls"][int(x)]["dir"] for x in bad) if sc["mode"] == "session" else set()
                for k in sorted(want):
                    pre = "d%d/" % k if sc["mode"] == "session" else ""
                    if pre and pre[:-1] in hit:
                        continue
                    d = lab.diff_snap(want[k], {n[len(pre):]: v for n, v in have.items() if n.startswith(pre) and (n[len(pre):] in want[k] or lab.RESULT.match(n[len(pre):]))
                                                and (pre or n.startswith("t%d_" % k))})
                    if d:
                        o.fail("different", "in one process with other calls: %s" % d)
                        break
        m = re.search(r"^SWITCHES (\d+)$", p.out, re.M)
        if m:
            o.count("thread_switch", int(m.group(1)))
        o.count("mode_" + sc["mode"])
        if len(names) > 1:
            o.keys.append(json.dumps([sc["mode"], [base.sysname(s) for s in sc["systems"]], sc.get("calls") or sc.get("threads"), sc.get("faults"), sc.get("gaps"), sc.get("more"), sc.get("focus")]))
        o.note(p.code, p.hang)
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        if sc["mode"] == "session":
            for j in range(len(sc["calls"])):
                d = sc["calls"][j]["dir"]
                n = base.clone(sc)
                n["calls"] = [c for q, c in enumerate(n["calls"]) if (q != j if d == "bad" else c["dir"] != d)]
                if n["calls"]:
                    yield n
            for j in range(len(sc["faults"])):
                n = base.clone(sc)
                n["faults"].pop(j)
                yield n
        else:
            if sc.get("more") and sc["more"][2]:
                for c in (0, sc["more"][2] // 10, sc["more"][2] // 2, sc["more"][2] * 9 // 10, sc["more"][2] - 1):
                    n = base.clone(sc)
                    n["more"][2] = c
                    yield n
            for j in range(len(sc.get("focus") or ())):
                if len(sc["focus"]) > 1:
                    n = base.clone(sc)
                    n["focus"].pop(j)
                    yield n
            for cut in (len(sc["gaps"]) // 2, len(sc["gaps"]) - 1):
                if 0 <= cut < len(sc["gaps"]):
                    n = base.clone(sc)
                    n["gaps"] = n["gaps"][:cut]
                    yield n
            for t in range(len(sc["threads"])):
                if len(sc["threads"][t]) > 1 + sc.get("prep", 0):
                    n = base.clone(sc)
                    n["threads"][t].pop()
                    yield n
            for j in range(min(len(sc["gaps"]), 12)):
                n = base.clone(sc)
                g = n["gaps"].pop(j)
                if j < len(n["gaps"]):
                    n["gaps"][j] += g
                yield n


PROP = C11()
