"""C01: results survive interruption of any command at any instant."""
import json

import base
import lab
import systems
import workflows


def crash_fault(rng, ops):
    at = len(ops) + 50 if rng.random() < 0.06 else base.pick_op(rng, ops)
    kind = rng.choice(["kill", "power", "power", "torn_kill", "torn_power", "sigterm", "sighup", "sigint"])
    f = {"proc": 0, "at": at, "kind": kind}
    if at >= len(ops):
        f["kind"] = "power"
    elif kind.startswith("torn"):
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
    return f


def power_spec(rng):
    return {"meta": rng.choice([0.0, 0.3, 0.6, 0.9, 1.0, 1.0]), "data": rng.choice([0.0, 0.0, 0.3, 0.7, 0.97]), "zero": rng.random() < 0.4}


class C01(base.Prop):
    ID = "C01"
    rule = ("a run is one workflow (polya / distribution / enumeration / makeStr commands on one of %d small systems) whose "
            "commands are interrupted 1-4 times (kill, SIGTERM, SIGINT, power loss with loss of unsynced data and of a suffix of "
            "the metadata operations, torn writes) and rerun; distinct_nontrivial counts distinct (workflow, system, interrupted "
            "call and its file, kind) sequences in which at least one interruption really fired" % len(systems.TINY))

    def gen(self, rng, i, tier, ctx):
        wf = workflows.gen(rng)
        res, err = self.baseline(ctx, wf["system"], wf["cmds"], wf["files"])
        sc = dict(wf, attempts=[], gran=base.granularity(rng))
        ncr = rng.choice([1, 1, 2, 3])
        where = [rng.randrange(len(wf["cmds"])) for _ in range(ncr)]
        for c in range(len(wf["cmds"])):
            at = []
            for _ in range(where.count(c)):
                ops = res[c]["ops"] if c < len(res) else [("stat", "")]
                f = crash_fault(rng, ops)
                if rng.random() < 0.3 and c < len(res):
                    f = base.calc_fault(rng, res[c]["calls"])
                    if f["kind"] == "nomem":
                        f["kind"] = "sigint"
                at.append({"faults": [f], "power": power_spec(rng), "jump": base.jump(rng)})
            sc["attempts"].append(at)
        return sc

    def run(self, sc, ctx):
        o = base.Outcome()
        res, err = self.baseline(ctx, sc["system"], sc["cmds"], sc["files"])
        if err:
            o.fail("baseline", err)
            return o
        w = ctx.world()
        base.setup(w, sc["system"], sc["files"], gran=sc.get("gran", 1))
        inputs = {n: w.get(n) for n in w.listing()}
        fired = []
        for c, cmd in enumerate(sc["cmds"]):
            done = False
            for att in sc["attempts"][c]:
                p = self.step(w, dict(cmd, jump=att.get("jump", 0)), att["faults"], power=att["power"])
                if p.hang:
                    o.fail("hang", "%s did not end" % base.cmd_text(cmd))
                last = [e for e in w.log if e[0] == 0]
                if p.ok() and w.crashed != "power":
                    done = True
                    break
                fired.append((base.brief(last), att["faults"][0]["kind"]))
            if not done:
                p = self.step(w, cmd)
                if not p.ok():
                    o.fail("no-recovery", "%s fails when it is run again after an interruption (%s): status %s: %s" % (
                        base.cmd_text(cmd), fired, p.code, p.out[-500:]))
                    break
            if o.fails:
                break
        if not o.fails:
            want = res[-1]["snap"]
            have = lab.snap(w)
            d = lab.diff_snap(want, {n: v for n, v in have.items() if n in want or lab.RESULT.match(n)})
            if d:
                o.fail("different", "after %s the results differ from an uninterrupted run: %s" % (fired, d))
            for n, v in inputs.items():
                if w.get(n) != v:
                    o.fail("input", "input file %s changed" % n)
        if fired:
            o.keys.append(json.dumps([sc["kind"], base.sysname(sc["system"]), fired]))
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        for c in range(len(sc["attempts"])):
            for k in range(len(sc["attempts"][c])):
                n = base.clone(sc)
                n["attempts"][c].pop(k)
                yield n
        for d in workflows.smaller(sc):
            n = base.clone(sc)
            n.update(d)
            n["attempts"] = n["attempts"][:len(n["cmds"])]
            yield n
        for c in range(len(sc["attempts"])):
            for k in range(len(sc["attempts"][c])):
                f = sc["attempts"][c][k]["faults"][0]
                if "calc" in f:
                    if f["calc"][1]:
                        n = base.clone(sc)
                        n["attempts"][c][k]["faults"][0]["calc"][1] = 0
                        yield n
                    continue
                if f["kind"] != "kill":
                    n = base.clone(sc)
                    n["attempts"][c][k]["faults"][0] = {"proc": 0, "at": f["at"], "kind": "kill"}
                    yield n
                if f["kind"] not in ("kill", "power"):
                    n = base.clone(sc)
                    n["attempts"][c][k]["faults"][0] = {"proc": 0, "at": f["at"], "kind": "power"}
                    yield n
                p = sc["attempts"][c][k]["power"]
                for q in ({"meta": 1.0, "data": 0.0, "zero": False}, dict(p, zero=False), dict(p, meta=1.0)):
                    if q != p and "power" in f["kind"]:
                        n = base.clone(sc)
                        n["attempts"][c][k]["power"] = q
                        yield n


PROP = C01()
