"""C09: with -seed, or with nothing to choose, the results follow from the input alone."""
import json

import base
import lab
import sampling
import systems
import workflows
from lab import enum_cmd
from props import c08


def circumstances(rng, n):
    """What must not matter: one list entry per command."""
    return [{"listing": rng.randrange(6), "entropy": rng.randrange(1 << 40), "pid": rng.randrange(2, 99999),
             "now": rng.choice([1, 951782400, 1600000000, 1709164800, 4102444799, 9000000000]) * 10 ** 9 + rng.randrange(10 ** 9),
             "slow": rng.choice([0, 0, 10 ** 6, 10 ** 9, 10 ** 10, 10 ** 12])} for _ in range(n)]


def option(argv, name, default):
    return argv[argv.index(name) + 1] if name in argv else default


def overwritten(cmds, names):
    """The files among names that the commands write before any of them reads them."""
    safe, seen = set(), set()

    def reads(pred):
        seen.update(n for n in names if pred(n))

    def writes(pred):
        for n in names:
            if pred(n) and n not in seen:
                safe.add(n)
                seen.add(n)

    def counts(stem):
        return lambda n: n.rpartition(".")[0] == stem and n.rpartition(".")[2].isdigit()
    for c in cmds:
        a = c["argv"]
        if c["script"] == "phenumStr":
            reads(lambda n: n == option(a, "-input", "struct_enum.out"))
            pre = option(a, "-outfile", "vasp.{}").replace("{}", "")
            writes(lambda n: n.startswith(pre))
            continue
        if "-polya" in a:
            writes(counts(option(a, "-outfile", "polya.out")))
        if "-enum" in a:
            reads(lambda n: n == option(a, "-input", "enum.in"))
            reads(counts("polya.out"))
            writes(lambda n: n == option(a, "-outfile", "enum.out"))
        elif "-distribution" in a:
            reads(counts(option(a, "-input", "polya.out")))
            if option(a, "-distribution", None) == "all" or "-savedist" in a:
                writes(lambda n: n == option(a, "-outfile", "enum.in"))
    return safe


def outdated(mode, data):
    """What an earlier run for something else may have left."""
    if mode == "half":
        return data[:len(data) // 2]
    if mode == "longer":
        return data + data[len(data) // 3:]
    if mode == "same size":
        return "".join("3" if c in "0124" else c for c in data)
    return "left by an earlier run\n"


class C09(base.Prop):
    ID = "C09"
    memo = False
    quick_s = 60
    rule = ("a run executes seeded samplings, distributions, or full enumerations (small systems, hand-written enum.in files that use each "
            "random search, generated count files) at least twice: in processes with other hash seeds, entropy, process ids, clocks, directory orders, speeds, "
            "with -verbose, with the stages done one by one, twice, over outdated files under the names of the results, or interrupted first; distinct_nontrivial counts distinct (input, commands, circumstances)")

    def gen(self, rng, i, tier, ctx):
        kind = rng.choice(["wf", "wf", "rows", "rows", "arrowguess", "guess", "small", "tables", "tables", "dist"])
        files = {}
        s = None
        if kind == "wf":
            wf = workflows.gen(rng, kinds=["sampled", "sampled", "staged_n", "dist", "staged", "super", "redo", "sizes"], with_mk=rng.random() < 0.4)
            s, cmds, files = wf["system"], wf["cmds"], wf["files"]
        elif kind == "tables":
            k = rng.choice([2, 2, 3])
            a = rng.choice([1, 2, 3])
            tot = 0
            for z in range(a, a + rng.choice([1, 2, 3])):
                t = c08.synth(rng, z, 1, k)
                files["polya.out.%d" % z] = c08.polya_text(*t)
                tot += sum(sum(v) for h, v in t[1])
            n = rng.randint(0, min(tot, rng.choice([5, 50, 10 ** 9])))
            cmds = [enum_cmd("-distribution", rng.choice(["all", "shape", "conc", "size"]), n, "-seed", rng.randrange(1000), "-savedist")]
        elif kind == "dist":
            s = rng.choice(systems.TINY + systems.HARD[:8])
            cmds = [enum_cmd("-enum", "-distribution", "all", rng.randint(1, 15), "-seed", rng.randrange(1000))]
        else:
            s, rows = sampling.gen_rows(rng, tier, kind)
            if s is None:
                s = systems.TINY[0]
                cmds = [enum_cmd("-enum")]
            else:
                c = lab.crystal(s)
                supers = rng.random() < 0.3
                for r in rows:
                    av = sampling.available(c, s, r, supers, 3000)
                    r[2] = rng.randint(1, max(1, av)) if av is not None else rng.choice([1, 2, 4])
                    if kind == "guess":
                        r[2] = min(r[2], 4)
                files["enum.in"] = sampling.rows_text(rows)
                cmds = [enum_cmd(*(["-enum", "-seed", rng.randrange(1000)] + (["-super"] if supers else [])))]
                if rng.random() < 0.15:
                    cmds[0]["argv"] += ["-acceptrate", rng.choice(["0.5", "0.9"])]
        variants = []
        for h in ([0, rng.choice([1, 2])] if tier == "quick" else [0, 1, 2]):
            v = {"hashseed": h, "how": "same", "circ": circumstances(rng, len(cmds) + 4), "gran": base.granularity(rng)}
            r = rng.random()
            if r < 0.2:
                v["how"] = "verbose"
            elif r < 0.3:
                v["how"] = "twice"
            elif r < 0.45 and s is not None and kind in ("wf", "dist") and cmds[0]["argv"][:2] == ["-enum", "-distribution"]:
                v["how"] = "staged"
            elif r < 0.57:
                v["how"] = "stale"
                v["mode"] = rng.choice(["half", "longer", "same size", "other"])
            elif r < 0.72:
                v["how"] = "resume"
                v["fault"] = {"proc": 0, "at": rng.randrange(60), "kind": rng.choice(["kill", "sigterm", "sigint", "power"])}
                if rng.random() < 0.4:
                    v["fault"] = base.calc_fault(rng, int(10 ** rng.uniform(0, 4.5)))
            variants.append(v)
        return {"kind": kind, "system": s, "cmds": cmds, "files": files, "variants": variants}

    def play(self, sc, v, ctx, o, want=None):
        """One execution of the commands; -> (files, outputs)."""
        w = ctx.world()
        base.setup(w, sc["system"], {n: d.encode() for n, d in sc["files"].items()}, gran=v.get("gran", 1) if v else 1)
        outs, err = [], None
        cmds = [base.clone(c) for c in sc["cmds"]]
        how = v["how"] if v else "same"
        circ = list(v["circ"]) if v else []
        if how == "verbose":
            for c in cmds:
                c["argv"].append("-verbose")
        elif how == "staged":
            a = cmds[0]["argv"]
            cmds[:1] = [enum_cmd("-polya"), enum_cmd("-distribution", "all", *a[3:]), enum_cmd("-enum", *a[4:])]
        elif how == "twice":
            cmds = cmds[:1] + cmds
        elif how == "stale":
            for n in sorted(overwritten(cmds, set(want) - set(sc["files"]) - {"lattice.in"})):
                w.put(n, outdated(v["mode"], want[n]).encode("latin-1"))
                o.count("stale_file")
        for k, c in enumerate(cmds):
            kw = circ.pop(0) if circ else {}
            if how == "resume" and k == 0:
                p = w.step([dict(c, **kw)], [v["fault"]], power={"meta": 0.5, "data": 0.3})[0]
            p = w.step([dict(c, **kw)])[0]
            o.count("how_" + how)
            if p.hang or not p.ok():
                err = "%s ended with status %s: %s" % (base.cmd_text(c), p.code, p.out[-500:])
                break
            outs.append(p.out)
        snap = lab.snap(w)
        o.absorb(w)
        w.close()
        return {n: d.decode("latin-1") for n, d in snap.items()}, outs, err

    def run(self, sc, ctx):
        o = base.Outcome()
        if "exec" in sc:
            o.payload = self.play(sc, sc["exec"], ctx, o, sc.get("want"))
            return o
        want, outs, err = self.play(sc, None, ctx, o)
        if err:
            o.fail("baseline", err)
            return o
        for v in sc["variants"]:
            if v["hashseed"]:
                m = ctx.ask(self.ID, v["hashseed"], dict(sc, exec=v, variants=[], want=want))
                have, houts, err = m["payload"]
                o.count("other_hashseed")
                o.note(m["digest"])
                for k, n in m["fired"].items():
                    o.count(k, n)
                o.ops += m["ops"]
                o.procs += m["procs"]
                o.sim_ns += m["sim_ns"]
            else:
                have, houts, err = self.play(sc, v, ctx, o, want)
            what = "%s in other circumstances (%s, hash seed %d)" % ([base.cmd_text(c) for c in sc["cmds"]], v["how"], v["hashseed"])
            if err:
                o.fail("status", "%s: %s" % (what, err))
                break
            d = lab.diff_snap({n: x.encode("latin-1") for n, x in want.items()}, {n: x.encode("latin-1") for n, x in have.items()
                                                                                  if n in want or lab.RESULT.match(n)})
            if d:
                o.fail("different", "%s: %s" % (what, d))
                break
            if v["how"] == "same" and houts != outs:
                o.fail("shown", "%s shows %r instead of %r" % (what, houts[-1][-300:], outs[-1][-300:]))
                break
        o.keys.append(json.dumps([sc["system"], sorted(sc["files"].items()), sc["cmds"], [[v["how"], v["hashseed"], v["circ"][0]] for v in sc["variants"]]]))
        return o

    def shrink(self, sc):
        if len(sc["variants"]) > 1:
            for k in range(len(sc["variants"])):
                n = base.clone(sc)
                n["variants"] = [sc["variants"][k]]
                yield n
        for k, v in enumerate(sc["variants"]):
            if v["how"] != "same":
                n = base.clone(sc)
                n["variants"][k]["how"] = "same"
                yield n
            if v["hashseed"]:
                n = base.clone(sc)
                n["variants"][k]["hashseed"] = 0
                yield n
            for f in ("listing", "entropy", "pid", "now", "slow"):
                if any(f in c for c in v["circ"]):
                    n = base.clone(sc)
                    for c in n["variants"][k]["circ"]:
                        c.pop(f, None)
                    yield n
        if len(sc["cmds"]) > 1:
            n = base.clone(sc)
            n["cmds"].pop()
            yield n


PROP = C09()
