"""C13: POSCAR files realise exactly the structures that are listed."""
import json

import base
import lab
import realise
import sampling
from lab import mk_cmd


def draws(rng):
    m = rng.choice(["real", "edge", "edge", "fair"])
    d = {"mode": m, "seed": rng.randrange(1 << 30), "limit": 20000000}
    if m == "edge":
        d.update(style=rng.choice(["low", "high", "alt", "mix"]), burst=rng.choice([30, 1000, 100000]))
    return d


class C13(base.Prop):
    ID = "C13"
    quick_s = 50
    rule = ("a run enumerates or samples structures of a random crystal and asks for POSCAR files of all, one or a range of them with 1-4 sets of options "
            "(cell reduction, displacement, rattle, species, zeros, names), over older files, with random draws, clock and directory order decided by the simulator; every "
            "file is compared with the structure listed by an independent model; distinct_nontrivial counts distinct (enum.out, options) with a file written")

    def gen(self, rng, i, tier, ctx):
        while True:
            s, files, cmd = realise.source(rng, tier)
            res, err = self.baseline(ctx, s, [cmd], files)
            if err:
                return {"system": s, "files": files, "cmd": cmd, "asks": []}
            try:
                total = len(lab.parse_enum_out(res[0]["snap"]["enum.out"].decode(), s))
            except ValueError:
                total = 1
            if total:
                break
        asks = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            a = realise.options(rng, s, total)
            a["out"] = rng.choice([None, None, "pos_{}", "POS", "{}.vasp", "a{}b"])
            a["rng"] = draws(rng)
            a["old"] = rng.random() < 0.3
            a["entropy"] = rng.randrange(1 << 30)
            asks.append(a)
        return {"system": s, "files": files, "cmd": cmd, "asks": asks}

    def run(self, sc, ctx):
        o = base.Outcome()
        s = sc["system"]
        res, err = self.baseline(ctx, s, [sc["cmd"]], sc["files"])
        if err:
            o.fail("baseline", err)
            return o
        text = res[0]["snap"]["enum.out"]
        w = ctx.world()
        w.put("enum.out", text)
        try:
            judge = realise.Judge(text.decode(), s)
        except (ValueError, IndexError) as e:
            o.fail("enumeration", "enum.out is malformed: %s" % e)
            return o
        for k, a in enumerate(sc["asks"]):
            argv = realise.argv(a) + (["-outfile", a["out"]] if a["out"] else [])
            nums = realise.wanted(a, len(judge.structs))
            pat = a["out"] or "vasp.{}"
            name = lambda n: pat.format(n) if "{}" in pat else pat + ".%d" % n
            if a["old"] and nums:
                w.put(name(nums[0]), "older structure\n" * 300)
            before = lab.snap(w)
            cmd = mk_cmd(*[str(x) for x in argv])
            p = self.step(w, dict(cmd, rng=a["rng"], entropy=a["entropy"]))
            o.count("draws_" + a["rng"]["mode"] + ("_" + a["rng"]["style"] if "style" in a["rng"] else ""))
            if p.hang:
                o.fail("hang", "%s did not end" % base.cmd_text(cmd))
                break
            if not p.ok():
                o.fail("status", "%s ended with status %s: %s" % (base.cmd_text(cmd), p.code, p.out[-500:]))
                break
            have = lab.snap(w)
            for n in nums:
                t = have.get(name(n))
                r = "is missing" if t is None else judge.poscar(t.decode("utf-8", "replace"), n, a)
                if r:
                    o.fail("structure", "%s: %s does not realise structure %d: %s" % (base.cmd_text(cmd), name(n), n, r))
                    break
            names = {name(n) for n in nums}
            d = lab.diff_snap({n: v for n, v in before.items() if n not in names}, {n: v for n, v in have.items() if n not in names})
            if d and not o.fails:
                o.fail("other", "%s changed another file: %s" % (base.cmd_text(cmd), d))
            if o.fails:
                break
            if nums:
                o.keys.append(json.dumps([base.lab.norm(text).decode("utf-8", "replace"), argv]))
            for n in nums:
                w.remove(name(n))
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        for k in range(len(sc["asks"])):
            if len(sc["asks"]) > 1:
                n = base.clone(sc)
                n["asks"].pop(k)
                yield n
        for k, a in enumerate(sc["asks"]):
            if a["which"] == ["all"]:
                for j in (1, 2, 3, 5, 8):
                    n = base.clone(sc)
                    n["asks"][k]["which"] = [str(j)]
                    yield n
            for f, v in (("old", False), ("out", None), ("rattle", 0.0), ("displace", 0.0), ("species", None), ("zeros", False),
                         ("mink", "f"), ("rng", {"mode": "real"})):
                if a[f] != v:
                    n = base.clone(sc)
                    n["asks"][k][f] = v
                    yield n


PROP = C13()
