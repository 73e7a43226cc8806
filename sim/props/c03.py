"""C03: a result file is at every instant absent/as before or complete."""
import json

import base
import lab
import systems
import workflows
from props.c01 import crash_fault, power_spec
from props.c02 import error_fault, second_fault


class C03(base.Prop):
    ID = "C03"
    rule = ("a run is one workflow on one of %d small systems, optionally on top of the results of another system, with up to 2 faults per "
            "command (crash, power loss, signals, I/O errors, torn writes) and up to two identical commands at once; after every call that "
            "changes the directory each result file is compared with its allowed contents; distinct_nontrivial counts distinct (workflow, "
            "systems, fault, file) combinations" % len(systems.TINY))

    def gen(self, rng, i, tier, ctx):
        wf = workflows.gen(rng)
        sc = dict(wf, attempts=[], before=None)
        if rng.random() < 0.6:
            other = rng.choice(systems.TINY)
            if other != wf["system"]:
                sc["before"] = other
        res, err = self.base_for(sc, ctx)
        off = len(self.prefix(sc))
        for c in range(len(wf["cmds"])):
            ops = res[off + c]["ops"] if off + c < len(res) and res[off + c]["ops"] else [("stat", "")]
            at = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                f = [crash_fault(rng, ops)] if rng.random() < 0.55 else [error_fault(rng, ops)]
                if rng.random() < 0.3 and off + c < len(res):
                    f = [base.calc_fault(rng, res[off + c]["calls"])]
                if rng.random() < 0.15:
                    f.append(error_fault(rng, ops))
                if any(x["kind"] == "errno" for x in f) and rng.random() < 0.35:
                    f.append(second_fault(rng, True))
                at.append({"faults": f, "power": power_spec(rng)})
            sc["attempts"].append(at)
        sc["twin"] = rng.random() < 0.2
        if sc["twin"]:
            sc["schedule"] = [rng.choice([0, 0, 1]) for _ in range(400)]
        return sc

    def prefix(self, sc):
        # results of another system (or of the whole list) to be replaced
        if sc["before"] is None:
            return []
        if sc["kind"] == "names":
            return [lab.enum_cmd("-polya", "-outfile", "count"),
                    lab.enum_cmd("-distribution", "all", "all", "-input", "count", "-outfile", "pick.in"),
                    lab.enum_cmd("-enum", "-input", "pick.in", "-outfile", "found.out")]
        return [lab.enum_cmd("-enum"), lab.mk_cmd("all", "-input", "enum.out"), lab.enum_cmd("-distribution", "size", "3", "-seed", "1",
                                                                                          "-savedist", "-outfile", "share.txt")]

    def swap(self, w, sc):
        """The user edits lattice.in, removes what the next command shall find
        anew and keeps the files it will replace."""
        w.put("lattice.in", systems.lattice_text(sc["system"]))
        # commands that only generate missing files need the old ones gone
        first = sc["cmds"][0]["argv"]
        a, b = sc["system"]["sizes"]
        for n in w.listing():
            if n.startswith("polya.out.") or n.startswith("count."):
                if "-polya" not in first or not a <= int(n.rpartition(".")[2]) <= b:
                    w.remove(n)
            elif n == "enum.in" and "-polya" not in first:
                w.remove(n)

    def base_for(self, sc, ctx):
        """Fault-free history with the change of system in between."""
        key = ("c03", json.dumps([sc["system"], sc["before"], sc["cmds"], sorted(sc["files"].items())], sort_keys=True))
        if key in ctx.cache:
            return ctx.cache[key]
        if len(ctx.cache) > 300:
            ctx.cache.clear()
        w = ctx.world("base")
        base.setup(w, sc["before"] or sc["system"], sc["files"])
        out, err = [], None
        pre = self.prefix(sc)
        for k, c in enumerate(pre + sc["cmds"]):
            if k == len(pre) and pre:
                self.swap(w, sc)
            w.log = []
            p = self.step(w, dict(c, points=[]))
            out.append({"calls": p.ncalls, "ops": [(e[1], e[2]) for e in w.log if e[0] == 0], "snap": lab.snap(w)})
            if not p.ok():
                err = "fault-free run of %s ended with status %s: %s" % (base.cmd_text(c), p.code, p.out[-600:])
                break
        w.close()
        ctx.cache[key] = (out, err)
        return ctx.cache[key]

    def run(self, sc, ctx):
        o = base.Outcome()
        res, err = self.base_for(sc, ctx)
        if err:
            o.fail("baseline", err)
            return o
        w = ctx.world()
        base.setup(w, sc["before"] or sc["system"], sc["files"])
        pre = self.prefix(sc)
        for c in pre:
            self.step(w, c)
        if pre:
            self.swap(w, sc)
        fired = []
        for c, cmd in enumerate(sc["cmds"]):
            want = res[len(pre) + c]["snap"]
            for att in sc["attempts"][c] + [None]:
                before = lab.snap(w)
                state = {"step": 0}

                def observer(world, p, cls, name):
                    state["step"] += 1
                    if o.fails:
                        return
                    now = lab.snap(world)
                    for n in sorted(set(want) | set(before) | set(now)):
                        v = now.get(n)
                        if v == before.get(n) or (v is not None and v == want.get(n)):
                            continue
                        if n not in want and n not in before and not lab.RESULT.match(n):
                            continue
                        o.fail("partial", "during %s (after %s %s) %s is neither as before (%s) nor complete (%s): %s" % (
                            base.cmd_text(cmd), cls, name, n, lab.short(before.get(n), 30), lab.short(want.get(n), 30), lab.short(v)))
                        return
                n0 = dict(w.fired)
                spec = dict(cmd, memo=self.memo)
                specs = [spec]
                kw = {}
                if sc["twin"]:
                    specs = [spec, dict(spec, entropy=77, pid=4343)]
                    kw["schedule"] = sc["schedule"]
                ps = w.step(specs, att["faults"] if att else (), observer=observer, power=att["power"] if att else None, **kw)
                observer(w, None, "end", "")
                hit = [k for k in w.fired if w.fired[k] != n0.get(k, 0)]
                if hit:
                    fired.append([hit, base.brief([e for e in w.log if e[0] == 0])])
                if o.fails or (all(p.ok() for p in ps) and w.crashed is None):
                    break
            if o.fails:
                break
        o.keys.append(json.dumps([sc["kind"], base.sysname(sc["system"]), sc["before"] and base.sysname(sc["before"]), sc["twin"], fired]))
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        if sc["twin"]:
            n = base.clone(sc)
            n["twin"] = False
            yield n
        if sc["before"]:
            n = base.clone(sc)
            n["before"] = None
            yield n
        for c in range(len(sc["attempts"])):
            for k in range(len(sc["attempts"][c])):
                n = base.clone(sc)
                n["attempts"][c].pop(k)
                yield n
                if len(sc["attempts"][c][k]["faults"]) > 1:
                    for j in range(len(sc["attempts"][c][k]["faults"])):
                        n = base.clone(sc)
                        n["attempts"][c][k]["faults"].pop(j)
                        yield n
        for d in workflows.smaller(sc):
            n = base.clone(sc)
            n.update(d)
            n["attempts"] = n["attempts"][:len(n["cmds"])]
            yield n
        if sc["twin"] and any(sc["schedule"]):
            n = base.clone(sc)
            n["schedule"] = sc["schedule"][:len(sc["schedule"]) // 2]
            yield n


PROP = C03()
