"""C10: commands that work side by side in one directory give what they give one after the other."""
import json

import base
import lab
import systems
from lab import enum_cmd, mk_cmd


def schedule(rng, n=700):
    """Whose turn it is: 0 stays with the running process."""
    style = rng.choice(["rare", "bursts", "often", "lockstep", "handover"])
    if style == "lockstep":
        return [1] * n
    if style == "handover":
        # one process runs to a point, then the others run as long as they can
        out = [0] * n
        for _ in range(rng.randint(1, 3)):
            out[rng.randrange(n // 3)] = rng.choice([1, 2])
        return out
    p = {"rare": 0.02, "bursts": 0.08, "often": 0.35}[style]
    return [rng.choice([1, 2]) if rng.random() < p else 0 for _ in range(n)]


class C10(base.Prop):
    ID = "C10"
    quick_s = 50
    stub = base.Prop.stub + "; the schedule of the processes, switched at every intercepted call"
    rule = ("a run starts 2-3 commands (the same one several times, the stages of one enumeration, several outputs from one input, or an enumeration "
            "and POSCAR writers reading the enum.out that is being replaced) at once in one directory, interleaved at every file-system call, sometimes with one of "
            "them killed; distinct_nontrivial counts distinct (commands, system, schedule, kill) with at least one context switch")

    def gen(self, rng, i, tier, ctx):
        s = rng.choice(systems.TINY)
        kind = rng.choice(["same", "same", "stages", "outputs", "reader", "reader", "posters"])
        seed, n = rng.randrange(100), rng.randint(1, 12)
        pre = []
        before = None
        if kind == "same":
            c = rng.choice([enum_cmd("-polya"), enum_cmd("-enum"), enum_cmd("-distribution", "all", "all"), enum_cmd("-enum", "-super"),
                            enum_cmd("-enum", "-distribution", "all", n, "-seed", seed), enum_cmd("-distribution", "all", n, "-seed", seed),
                            enum_cmd("-distribution", rng.choice(["size", "shape", "conc"]), n, "-seed", seed, "-savedist", "-outfile", "share.txt")])
            cmds = [c] * rng.choice([2, 2, 3])
            if rng.random() < 0.3:
                pre = [enum_cmd("-polya")]
        elif kind == "stages":
            cmds = rng.sample([enum_cmd("-polya"), enum_cmd("-distribution", "all", "all"), enum_cmd("-enum")], rng.choice([2, 3]))
            if rng.random() < 0.3:
                pre = [enum_cmd("-polya")]
        elif kind == "outputs":
            cmds = [enum_cmd("-enum", "-outfile", "a.result"), enum_cmd("-enum", "-super", "-outfile", "b.result"),
                    enum_cmd("-distribution", "size", n, "-seed", seed, "-savedist", "-outfile", "share.txt")]
            cmds = rng.sample(cmds, rng.choice([2, 3]))
        elif kind == "reader":
            # results of another system are being replaced while they are read
            before = rng.choice([None, rng.choice(systems.TINY)])
            pre = [enum_cmd("-distribution", "all", "all")]
            cmds = [enum_cmd(*(["-enum"] + rng.choice([[], ["-super"]]))), mk_cmd(*(["all"] if rng.random() < 0.7 else ["1", "4"]), "-input", "enum.out", "-outfile", "pos_{}")]
            if rng.random() < 0.3:
                cmds.append(cmds[0])
        else:
            pre = [enum_cmd("-enum")]
            c = mk_cmd("all", "-input", "enum.out")
            cmds = [c, rng.choice([c, mk_cmd("1", "3", "-input", "enum.out"), mk_cmd("all", "-input", "enum.out", "-outfile", "other_{}")])]
        kill = None
        if rng.random() < 0.25:
            kill = {"proc": rng.randrange(len(cmds)), "at": rng.randrange(60), "kind": rng.choice(["kill", "sigterm", "sighup", "torn_kill", "sigint"]), "frac": 0.5}
            if rng.random() < 0.3:
                kill = dict(base.calc_fault(rng, int(10 ** rng.uniform(0, 4))), proc=kill["proc"])
                if kill["kind"] == "nomem":
                    kill["kind"] = "sigint"
        return {"kind": kind, "system": s, "before": before, "pre": pre, "cmds": cmds, "schedule": schedule(rng), "kill": kill,
                "listing": [rng.randrange(4) for _ in cmds]}

    def prepare(self, w, sc):
        if sc["before"] is not None:
            w.put("lattice.in", systems.lattice_text(sc["before"]))
            p = self.step(w, enum_cmd("-enum"))
            if not p.ok():
                return p
            for n in w.listing():
                if n != "enum.out":
                    w.remove(n)
        w.put("lattice.in", systems.lattice_text(sc["system"]))
        for c in sc["pre"]:
            p = self.step(w, c)
            if not p.ok():
                return p
        return None

    def expect(self, sc, ctx):
        """Contents that each file may have at the end, from serial runs."""
        key = ("c10", json.dumps([sc[k] for k in ("system", "before", "pre", "cmds")], sort_keys=True))
        if key not in ctx.cache:
            if len(ctx.cache) > 200:
                ctx.cache.clear()
            snaps, err = [], None
            orders = [list(range(len(sc["cmds"])))]
            if sc["kind"] == "reader":
                orders.append([1, 0] + orders[0][2:])
            for order in orders:
                w = ctx.world("base")
                p = self.prepare(w, sc)
                rc = []
                for k in order:
                    if p is None or p.ok():
                        p = self.step(w, sc["cmds"][k])
                        if sc["kind"] == "reader" and k == 1 and order[0] == 1 and sc["before"] is None and not p.ok():
                            p = None  # nothing to read yet
                if p is not None and not p.ok():
                    err = "commands run one after the other fail: status %s: %s" % (p.code, p.out[-500:])
                snaps.append(lab.snap(w))
                w.close()
            ctx.cache[key] = (snaps, err)
        return ctx.cache[key]

    def run(self, sc, ctx):
        o = base.Outcome()
        snaps, err = self.expect(sc, ctx)
        if err:
            o.fail("baseline", err)
            return o
        w = ctx.world()
        self.prepare(w, sc)
        w.fired = {}
        specs = [dict(c, memo=True, entropy=11 + 7 * k, pid=4242 + k, listing=sc["listing"][k]) for k, c in enumerate(sc["cmds"])]
        ps = w.step(specs, [sc["kill"]] if sc["kill"] else (), schedule=sc["schedule"])
        hurt = sc["kill"]["proc"] if sc["kill"] and any(k.startswith(("kill", "sig", "torn")) for k in w.fired) else None
        for k, p in enumerate(ps):
            if p.hang:
                o.fail("hang", "%s did not end" % base.cmd_text(sc["cmds"][k]))
            elif k != hurt and not p.ok():
                if sc["kind"] == "reader" and k == 1 and sc["before"] is None and "FileNotFoundError" in p.out:
                    continue
                o.fail("status", "%s, running next to others, ended with status %s: %s" % (base.cmd_text(sc["cmds"][k]), p.code, p.out[-500:]))
        if not o.fails:
            have = lab.snap(w)
            if sc["kind"] == "reader":
                mine = lambda d: {n: v for n, v in d.items() if n.startswith("pos_")}
                rest = lambda d: {n: v for n, v in d.items() if not n.startswith("pos_")}
                ok = False
                for s in snaps:
                    # what an uninterrupted writer of complete files may leave
                    if hurt == 1:
                        ok = ok or all(mine(s).get(n) == v for n, v in mine(have).items())
                    else:
                        ok = ok or mine(s) == mine(have)
                if not ok and not (ps[1].code and not mine(have)):
                    o.fail("mixed", "the POSCAR files are neither those of the old nor of the new enum.out: against the new: %s" % lab.diff_snap(mine(snaps[0]), mine(have)))
                if hurt is None or (hurt == 0 and len(ps) > 2 and ps[2].ok()):
                    d = lab.diff_snap(rest(snaps[0]), rest(have))
                    if d:
                        o.fail("different", "next to others: %s" % d)
            else:
                want = snaps[0]
                if hurt is not None and not all(p.ok() and sc["cmds"][k] == sc["cmds"][hurt] for k, p in enumerate(ps) if k != hurt):
                    # files that only the killed one writes may be missing or as before
                    want = {n: v for n, v in want.items() if n in have}
                d = lab.diff_snap(want, {n: v for n, v in have.items() if n in want or lab.RESULT.match(n)})
                if d:
                    o.fail("different", "%s side by side do not give what they give one after the other: %s" % (
                        [base.cmd_text(c) for c in sc["cmds"]], d))
        if w.fired.get("context_switch"):
            o.keys.append(json.dumps([sc["kind"], base.sysname(sc["system"]), sc["cmds"], [(e[0], e[1]) for e in w.log if isinstance(e[0], int)], sc["kill"]]))
        o.note([(p.code, p.hang) for p in ps])
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        if sc["kill"]:
            n = base.clone(sc)
            n["kill"] = None
            yield n
        if len(sc["cmds"]) > 2:
            for k in range(len(sc["cmds"])):
                if sc["kind"] == "reader" and k < 2:
                    continue
                if sc["kill"] and sc["kill"]["proc"] >= len(sc["cmds"]) - 1:
                    continue
                n = base.clone(sc)
                n["cmds"].pop(k)
                n["listing"].pop(k)
                yield n
        if any(sc["listing"]):
            n = base.clone(sc)
            n["listing"] = [0] * len(sc["cmds"])
            yield n
        sw = [j for j, x in enumerate(sc["schedule"]) if x]
        if sw:
            for cut in (len(sw) // 2, len(sw) * 3 // 4, len(sw) - 1):
                n = base.clone(sc)
                n["schedule"] = sc["schedule"][:sw[cut]]
                yield n
        if 1 < len(sw) <= 24:
            for j in sw:
                n = base.clone(sc)
                n["schedule"][j] = 0
                yield n
        if len(sw) > 24:
            for a in range(0, len(sw), len(sw) // 8):
                n = base.clone(sc)
                for j in sw[a:a + len(sw) // 8]:
                    n["schedule"][j] = 0
                yield n
        if sc["system"] != systems.TINY[0] and sc["kind"] != "reader":
            n = base.clone(sc)
            n["system"] = systems.TINY[0]
            yield n


PROP = C10()
