"""C08: a distribution shares out exactly the number asked for, nowhere more than there is."""
import json

import base
import lab
import refmodel as M
import sampling
import systems
from lab import enum_cmd


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def synth(rng, size, nd, k, wide=False):
    """A count file with random numbers: (concs, [(hnf, counts)])."""
    hs = M.all_hnfs(size) if size < 30 else [((1, 0, 0), (0, 1, 0), (x, y, size)) for x in range(3) for y in range(4)]
    h0 = min(hs)
    hs = sorted(rng.sample(hs, min(len(hs), rng.choice([1, 2, 5, 12]))))
    if h0 not in hs and rng.random() < 0.5:
        hs = [h0] + hs
    cs = list(compositions(size * nd, k))
    if rng.random() < 0.5 and not wide:
        cs = sorted(rng.sample(cs, min(len(cs), rng.choice([1, 2, 4, 8]))))
    mode = rng.choice(["small", "small", "ones", "sparse", "mixed", "large", "huge", "zero", "full"] if not wide else ["huge", "full"])
    rows = []
    for h in hs:
        v = []
        for c in cs:
            m = rng.choice(["small", "large", "sparse", "ones"]) if mode == "mixed" else mode
            v.append({"small": rng.randint(0, 9), "ones": 1, "sparse": rng.choice([0, 0, 0, 1]), "large": rng.randint(0, 10 ** 6),
                      "huge": rng.randint(0, 10 ** 14), "zero": 0, "full": 10 ** 14 - rng.randint(0, 9)}[m])
        rows.append([list(M.six(h)), v])
    return [list(c) for c in cs], rows


def polya_text(concs, rows):
    out = ["%-28s" % "# HNF" + "".join("%-50s" % ":".join(map(str, c)) for c in concs) + "%-50s" % "Total"]
    for h, v in rows:
        out.append("  %-26s" % " ".join(map(str, h)) + "".join("%-50d" % x for x in v) + "%-10d" % sum(v))
    out.append("# " + "-" * (len(concs) * 10 + 40))
    tot = [sum(r[1][j] for r in rows) for j in range(len(concs))]
    out.append("%-28s" % "  0 0 0 0 0 0" + "".join("%-50d" % x for x in tot) + "%-50d" % sum(tot))
    return "\n".join(out) + "\n"


def parse_saved(text, kind, k):
    """The saved distribution: {key: number}; ValueError when malformed."""
    out = {}
    if not text.endswith("\n"):
        raise ValueError("incomplete last line")
    for ln in text.split("\n")[:-1]:
        if ln.startswith("#"):
            continue
        v = [int(x) for x in ln.split()]
        if kind == "all":
            key = (tuple(v[:6]), tuple(v[6:-1]))
            ok = len(v) == 7 + k
        elif kind == "shape":
            key = tuple(v[:6])
            ok = len(v) == 7
        elif kind == "conc":
            key = (v[0], tuple(v[1:-1]))
            ok = len(v) == 2 + k
        else:
            key = v[0]
            ok = len(v) == 2
        if not ok:
            raise ValueError("bad row %r" % ln)
        if key in out:
            raise ValueError("row %r appears twice" % ln)
        out[key] = v[-1]
    return out


def parse_shown(text, kind):
    out = {}
    for ln in text.split("\n"):
        f = ln.split("|")
        if len(f) != 5:
            continue
        try:
            size, num = int(f[0]), int(f[3])
        except ValueError:
            continue
        key = {"shape": lambda: tuple(int(x) for x in f[1].split()), "size": lambda: size,
               "conc": lambda: (size, tuple(int(x) for x in f[2].strip().split(":")))}[kind]()
        if key in out:
            raise ValueError("%r is shown twice" % ln)
        out[key] = num
    return out


class C08(base.Prop):
    ID = "C08"
    memo = True
    quick_s = 50
    rule = ("a run distributes a number of structures (few, nearly all, all, too many) over size, shape, concentration or all, over real or "
            "random tables of counts (zeros, ones, up to 1e14), with filters, size ranges, seeds and random draws decided by the simulator; "
            "every share and the total are checked exactly; distinct_nontrivial counts distinct (tables, command) with something to share")

    def gen(self, rng, i, tier, ctx):
        kind = rng.choice(["all", "shape", "conc", "size"])
        tables, wide = {}, False
        if rng.random() < 0.25:
            s = base.clone(rng.choice(systems.TINY))
            k = s["k"]
            sizes = list(range(s["sizes"][0], s["sizes"][1] + 1))
            for z in sizes:
                t = lab.expected(s, z)
                tables[str(z)] = None
        else:
            s = None
            k = rng.choice([1, 2, 2, 2, 3, 4])
            nd = rng.choice([1, 1, 2])
            a = rng.choice([1, 1, 2, 3, 5, 8, 10, 18])
            sizes = list(range(a, a + rng.choice([1, 2, 3, 4])))
            if a > 5:
                k, nd = min(k, 3), 1
            if rng.random() < 0.1:  # shapes and concentrations whose notations begin alike
                k, nd, sizes = 2, 1, list(range(1, rng.choice([11, 12, 21])))
            if rng.random() < 0.06:  # totals that a float does not hold
                k, nd, sizes, wide = 3, 1, rng.choice([[13], [14, 15], [18], [16, 17]]), True
            if rng.random() < 0.04:
                k, nd, sizes = 2, 1, [rng.choice([97, 98, 99, 100, 101])]
                sizes.append(sizes[0] + 1)
            if rng.random() < 0.15 and len(sizes) > 2:
                sizes.pop(1)
            for z in sizes:
                tables[str(z)] = synth(rng, z, nd, k, wide)
        argv = ["-distribution", kind]
        tot = self.model(s, tables, None, None)
        n_tot = sum(tot["all"].values())
        filt = None
        if rng.random() < (0.7 if wide else 0.35):
            what = rng.choice(["shape", "conc"])
            items = sorted(set(x[0] for x in tot["all"])) if what == "shape" else sorted(set(x[1] for x in tot["all"]))
            if items:
                pick = rng.sample(items, len(items) if wide and rng.random() < 0.5 else rng.randint(1, len(items)))
                extra = [] if rng.random() < 0.7 else [[1, 0, 1, 0, 0, 397] if what == "shape" else [397] + [0] * (k - 1)]
                lines = ["# a choice"]
                for x in [list(p) for p in pick] + extra:
                    if what == "shape":
                        lines.append("  %-18s  %d" % (" ".join(map(str, x)), rng.randint(1, 9)))
                    else:
                        lines.append("  %-6d  %-6s  %d" % (max(1, sum(x)), " ".join(map(str, x)), rng.randint(1, 9)))
                filt = {"what": what, "text": "\n".join(lines) + "\n", "items": [list(p) for p in pick]}
                argv += ["-filter", what, "choice.txt"]
        sz = None
        if rng.random() < 0.3 and (s is not None or sizes == list(range(sizes[0], sizes[-1] + 1))):
            a = rng.choice(sizes)
            b = rng.choice([z for z in sizes if z >= a]) + 1
            sz = [a, b]
            argv += ["-sizes", a, b]
        tot = self.model(s, tables, filt, sz)
        n_tot = sum(tot["all"].values())
        r = rng.random()
        if r < 0.15:
            n = "all"
        elif r < 0.3:
            n = max(0, n_tot - rng.choice([0, 1, 2, 5]))
        elif r < 0.4:
            n = n_tot + rng.choice([1, 10, 10 ** 6])
        elif r < 0.75:
            n = rng.randint(0, min(n_tot, rng.choice([3, 20, 100, 1000])))
        else:
            n = rng.randint(0, n_tot)
        argv[2:2] = [n]
        if kind != "all":
            argv += ["-savedist"]
        if rng.random() < 0.5:
            argv += ["-seed", rng.randrange(1000)]
        if rng.random() < 0.5:
            argv += ["-outfile", "share.txt"]
        return {"system": s, "k": k, "tables": tables, "filter": filt, "sizes": sz, "cmd": enum_cmd(*argv),
                "rng": sampling.rng_script(rng), "entropy": rng.randrange(1 << 30), "listing": rng.randrange(4)}

    def model(self, s, tables, filt, sz):
        """Limits of every share: {kind: {key: limit}}."""
        out = {"all": {}, "shape": {}, "conc": {}, "size": {}}
        for z, t in tables.items():
            z = int(z)
            if sz is not None and not sz[0] <= z < sz[1]:
                continue
            if t is None:
                T = lab.expected(s, z)
                cells = [(M.six(h), tuple(c), T.count(h, c)) for h in T.hnfs for c in T.concs]
            else:
                cells = [(tuple(h), tuple(c), x) for h, v in t[1] for c, x in zip(t[0], v)]
            for h, c, x in cells:
                if filt is not None and list(h if filt["what"] == "shape" else c) not in filt["items"]:
                    continue
                for key, kk in (("all", (h, c)), ("shape", h), ("conc", (z, c)), ("size", z)):
                    out[key][kk] = out[key].get(kk, 0) + x
        return out

    def run(self, sc, ctx):
        o = base.Outcome()
        argv = sc["cmd"]["argv"]
        kind = argv[1]
        w = ctx.world()
        files = {}
        for z, t in sc["tables"].items():
            if t is not None:
                files["polya.out.%s" % z] = polya_text(*t).encode()
        if sc["filter"]:
            files["choice.txt"] = sc["filter"]["text"].encode()
        base.setup(w, sc["system"], files)
        if sc["system"] is not None:
            res, err = self.baseline(ctx, sc["system"], [enum_cmd("-polya")])
            if err:
                o.fail("baseline", err)
                w.close()
                return o
            # real cells may be represented by other cells than the model's
            reps = {}
            for z in sc["tables"]:
                concs, rows, tot = lab.parse_polya(res[0]["snap"]["polya.out.%s" % z].decode())
                sc["tables"][z] = [[list(c) for c in concs], [[list(h), list(v)] for h, v, t in rows]]
                w.put("polya.out.%s" % z, res[0]["snap"]["polya.out.%s" % z])
            if sc["filter"] and sc["filter"]["what"] == "shape":
                have = [h for z in sc["tables"] for h, v in sc["tables"][z][1]]
                sc["filter"]["items"] = [h for h in sc["filter"]["items"] if h in have]
        lim = self.model(sc["system"], sc["tables"], sc["filter"], sc["sizes"])[kind]
        total = sum(lim.values())
        want = total if argv[2] == "all" else min(int(argv[2]), total)
        p = self.step(w, dict(sc["cmd"], rng=sc["rng"], listing=sc["listing"], entropy=sc["entropy"]))
        name = argv[argv.index("-outfile") + 1] if "-outfile" in argv else "enum.in"
        if p.hang:
            o.fail("hang", "%s did not end" % base.cmd_text(sc["cmd"]))
        elif not p.ok():
            o.fail("status", "%s ended with status %s: %s" % (base.cmd_text(sc["cmd"]), p.code, p.out[-600:]))
        else:
            t = w.text(name)
            if t is None:
                o.fail("no-file", "%s was not written" % name)
            else:
                try:
                    got = {"saved": parse_saved(t, kind, sc["k"])}
                    if kind != "all":
                        got["shown"] = parse_shown(p.out, kind)
                except (ValueError, IndexError) as e:
                    o.fail("malformed", "%s: %s" % (name, e))
                    got = {}
                for how, d in sorted(got.items()):
                    r = None
                    for key in sorted(d, key=str):
                        if key not in lim:
                            r = ("foreign", "%s was not to be considered" % (key,))
                        elif d[key] < 0 or d[key] > lim[key]:
                            r = ("over", "%d structures at %s, there are %d" % (d[key], key, lim[key]))
                        if r:
                            break
                    if r is None and sum(d.values()) != want:
                        r = ("total", "%d structures in total, should be %d (of %d)" % (sum(d.values()), want, total))
                    if r:
                        o.fail(r[0], "%s (%s): %s" % (base.cmd_text(sc["cmd"]), how, r[1]))
                        break
        o.count("kind_" + kind)
        o.count("rng_" + sc["rng"]["mode"] + ("_" + sc["rng"]["style"] if "style" in sc["rng"] else ""))
        if sc["filter"]:
            o.count("filtered_by_" + sc["filter"]["what"])
        if want:
            o.keys.append(json.dumps([sc["system"], sc["tables"], argv], sort_keys=True))
        o.note(p.code, p.hang)
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        if len(sc["tables"]) > 1 and sc["system"] is None:
            for z in sorted(sc["tables"]):
                n = base.clone(sc)
                del n["tables"][z]
                if not sc["sizes"]:
                    yield n
        for z in sorted(sc["tables"]):
            t = sc["tables"][z]
            if t is not None and len(t[1]) > 1:
                for j in range(len(t[1])):
                    n = base.clone(sc)
                    n["tables"][z][1].pop(j)
                    yield n
        a = sc["cmd"]["argv"]
        if a[2] != "all":
            for m in (0, 1, 2, int(a[2]) // 2, int(a[2]) - 1):
                if 0 <= m < int(a[2]):
                    n = base.clone(sc)
                    n["cmd"]["argv"][2] = str(m)
                    yield n
        if sc["rng"]["mode"] != "real":
            n = base.clone(sc)
            n["rng"] = {"mode": "real"}
            yield n


PROP = C08()
