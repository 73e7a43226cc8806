"""C05: full enumeration is exact whatever the history, directory order and random draws."""
import json
import math

import base
import lab
import refmodel as M
import systems
from lab import enum_cmd


def rng_script(rng):
    m = rng.choice(["real", "fair", "edge"])
    d = {"mode": m, "seed": rng.randrange(1 << 30), "limit": 20000000}
    if m == "edge":
        d.update(style=rng.choice(["low", "high", "alt", "mix"]), burst=rng.choice([3, 30, 1000]))
    return d


def random_system(rng, tier, arrows=None, limit=None):
    """A random crystal and range of sizes within reach of the model."""
    lim = limit or (60000 if tier == "thorough" else 6000)
    want = rng.random() < 0.35 if arrows is None else arrows
    for _ in range(1000):
        lat = systems.random_lattice(rng)
        nd = rng.choice([1, 1, 1, 2, 2, 3, 4])
        basis = systems.random_basis(rng, lat, nd)
        k = rng.choice([1, 2, 2, 2, 2, 3, 3, 4] * 6 + [5, 6, 11, 12])
        lo = rng.choice([1, 1, 1, 2, 3, 4])
        hi = lo + rng.choice([0, 1, 1, 2, 3])
        if math.comb(hi * nd + k - 1, k - 1) > 3000:
            continue
        s = {"lat": lat, "sizes": [lo, hi], "k": k, "basis": basis}
        ar = want
        large = arrows is None and limit is None and rng.random() < 0.004
        if large:
            # few foreign atoms in large cells
            n = rng.choice([8, 8, 9] + ([10, 12] if tier == "thorough" else []))
            a = 1
            s.update(sizes=[n, n], k=2, basis=basis[:1], concs=[[n - a, n, n], [0, a, n]], arrows=False)
            if rng.random() < 0.3:
                s["concs"].reverse()
            ar = False
        elif k == 1 or ar or rng.random() < 0.35:
            s["concs"] = systems.random_concs(rng, k, hi * nd, ar)
            s["arrows"] = ar
        if ar and max([a for m, a in systems.by_conc(s, hi)] + [0]) == 0 and rng.random() < 0.95:
            continue
        if ar and hi * nd < 2 and rng.random() < 0.9:
            continue
        if s["sizes"][1] * nd < 4 and rng.random() < 0.6:
            continue
        if systems.work(s) > lim or not large and cost(s, tier) > (90 if tier == "thorough" else 25):
            continue
        c = lab.crystal(s)
        if ar and not c.arrows_ok:
            continue
        if ambiguous(c):
            continue
        return s
    return systems.TINY[0]


def cost(s, tier):
    """Rough time of the real code in units of 0.1 s: group operations, HNFs, concentrations."""
    nd, k = len(s["basis"]), s["k"]
    t = 0
    for n in range(s["sizes"][0], s["sizes"][1] + 1):
        h = sum(d * (n // d) * 1 for d in range(1, n + 1) if n % d == 0) * 1.5
        nc = len(list(systems.by_conc(s, n)))
        t += h * nc * (0.2 + 0.05 * nd * n)
        if s.get("arrows"):
            t += h * sum(6 ** min(a, 20) * max(1, m / n) * 0.004 * nd * n for m, a in systems.by_conc(s, n))
    return t


def ambiguous(c):
    """Geometries that nearly have more symmetry than they have."""
    for i in range(c.nd):
        for j in range(i):
            d = max(abs((x - y) - round(x - y)) for x, y in zip(c.frac[i], c.frac[j]))
            if d < 1e-3:
                return True
    return False


def check_polya(text, s, size):
    """The count file equals the model's; a reason or None."""
    t = lab.expected(s, size)
    try:
        concs, rows, tot = lab.parse_polya(text)
    except (ValueError, IndexError) as e:
        return "polya.out.%d is malformed: %s" % (size, e)
    if sorted(concs) != sorted(t.concs) or len(set(concs)) != len(concs):
        return "polya.out.%d has the concentrations %s, expected %s" % (size, concs, t.concs)
    seen = set()
    for h6, counts, total in rows:
        H = M.full(h6)
        if M.det3(H) != size:
            return "polya.out.%d: HNF %s has the wrong size" % (size, h6)
        hc = t.c.canon_hnf(H)
        if hc in seen:
            return "polya.out.%d: HNF %s is equivalent to an earlier one" % (size, h6)
        seen.add(hc)
        for cc, n in zip(concs, counts):
            e = t.count(hc, cc)
            if n != e:
                return "polya.out.%d: HNF %s conc %s has %d distinct arrangements, the file says %d" % (size, h6, cc, e, n)
        if total != sum(counts):
            return "polya.out.%d: total of HNF %s is wrong" % (size, h6)
    if seen != set(t.hnfs):
        return "polya.out.%d has %d of %d distinct superlattices" % (size, len(seen), len(t.hnfs))
    if list(tot[1]) != [sum(r[1][j] for r in rows) for j in range(len(concs))] or tot[2] != sum(r[2] for r in rows):
        return "polya.out.%d: totals are wrong" % size
    return None


def check_enum_in(text, s, sizes):
    c = lab.crystal(s)
    k = s["k"]
    seen = {}
    for row in lab.parse_enum_in(text):
        if len(row) != 7 + k:
            return "enum.in: row %s has %d fields" % (row, len(row))
        H = M.full(row[:6])
        key = (c.canon_hnf(H), tuple(row[6:-1]))
        if key in seen:
            return "enum.in lists %s twice" % (row,)
        seen[key] = row[-1]
    want = {}
    for n in sizes:
        t = lab.expected(s, n)
        for hc in t.hnfs:
            for cc in t.concs:
                m = t.count(hc, cc)
                if m:
                    want[(hc, cc)] = m
    for key in set(seen) | set(want):
        if seen.get(key, 0) != want.get(key, 0):
            return "enum.in: %s at concentration %s has %d arrangements, the file asks for %s" % (M.six(key[0]), key[1], want.get(key, 0), seen.get(key))
    return None


def check_enum_out(text, s, sizes, supers):
    r = lab.check_header(text, s)
    if r:
        return "enum.out: " + r
    try:
        structs = lab.parse_enum_out(text, s)
    except (ValueError, IndexError) as e:
        return "enum.out is malformed: %s" % e
    r = lab.check_numbering(structs)
    if r:
        return "enum.out: " + r
    c = lab.crystal(s)
    seen = {}
    for st, H, col in structs:
        key = c.canon(H, col)
        if key in seen:
            return "enum.out: structures %d and %d are equivalent" % (seen[key], st["n"])
        seen[key] = st["n"]
    want = set()
    for n in sizes:
        t = lab.expected(s, n)
        for hc in t.hnfs:
            for cc in t.concs:
                want |= t.keys(hc, cc, supers)
    if set(seen) - want:
        k = sorted(set(seen) - want, key=lambda x: seen[x])[0]
        return "enum.out: structure %d (%s) should not be there (%d such)" % (seen[k], k, len(set(seen) - want))
    if want - set(seen):
        k = sorted(want - set(seen))[0]
        return "enum.out: %d of %d distinct structures are missing, e.g. %s" % (len(want - set(seen)), len(want), k)
    return None


class C05(base.Prop):
    ID = "C05"
    memo = False
    quick_s = 110
    rule = ("a run is a random crystal (lattice, atomic basis, species, sizes, concentration ranges, arrows) taken through a random history "
            "of -polya, -distribution and -enum commands with deletions in between, or in a directory used for another system before, random directory order, clock, entropy and extreme "
            "random draws; the final files are compared with an independent model; distinct_nontrivial counts distinct (crystal, history) "
            "pairs with at least one structure")

    def gen(self, rng, i, tier, ctx):
        r = rng.random()
        if r < 0.15:
            s = rng.choice(systems.TINY)
        elif r < 0.25:
            s = base.clone(rng.choice(systems.HARD))
        elif r < 0.28:
            s = base.clone(rng.choice(systems.MANY))
        else:
            s = random_system(rng, tier)
        a, b = s["sizes"]
        hist = []
        style = rng.choice(["direct", "staged", "messy", "messy"])
        if style == "staged":
            hist = [{"cmd": enum_cmd("-polya")}, {"cmd": enum_cmd("-distribution", "all", "all")}]
        elif style == "messy":
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.3:
                    hist.append({"cmd": enum_cmd("-polya")})
                elif r < 0.5:
                    hist.append({"cmd": enum_cmd("-distribution", "all", "all")})
                elif r < 0.6 and b > a:
                    hist.append({"cmd": enum_cmd("-distribution", "size", "all", "-sizes", a, rng.randint(a + 1, b), "-savedist", "-outfile", "x.txt")})
                elif r < 0.7:
                    hist.append({"cmd": enum_cmd("-enum")})
                else:
                    hist.append({"rm": rng.choice(["polya.out.%d" % rng.randint(a, b), "polya.out.%d" % rng.randint(a, b), "enum.in", "enum.out"])})
        argv = ["-enum"]
        if rng.random() < 0.3:
            argv.append("-super")
        if rng.random() < 0.3:
            argv += ["-seed", rng.randrange(100)]
        hist.append({"cmd": enum_cmd(*argv)})
        if rng.random() < 0.35:
            # the directory was used for another system before
            other = rng.choice(systems.TINY)
            if rng.random() < 0.5 and not s.get("concs"):
                other = dict(s, k=2 if s["k"] != 2 else 3)
            lo = rng.randint(a, b)
            other = dict(other, sizes=[lo, rng.randint(lo, b)])
            if systems.work(other) < 4000 and cost(other, tier) < 12 and (not other.get("arrows") or lab.crystal(other).arrows_ok):
                pre = [{"lattice": other}]
                for _ in range(rng.choice([1, 1, 2])):
                    pre.append({"cmd": rng.choice([enum_cmd("-polya"), enum_cmd("-enum"), enum_cmd("-distribution", "all", "all")])})
                pre.append({"lattice": s})
                if rng.random() < 0.3:
                    pre.append({"cmd": enum_cmd("-distribution", "all", "all")})
                hist = pre + [{"cmd": enum_cmd("-polya")}, {"cmd": enum_cmd("-distribution", "all", "all")}] + hist[-1:]
        for h in hist:
            h["rng"] = rng_script(rng)
            h["listing"] = rng.randrange(4)
            h["entropy"] = rng.randrange(1 << 30)
            h["slow"] = rng.choice([0, 0, 10 ** 9, 10 ** 11])
            h["jump"] = base.jump(rng)
        return {"system": s, "history": hist, "gran": base.granularity(rng)}

    def run(self, sc, ctx):
        o = base.Outcome()
        s = sc["system"]
        w = ctx.world()
        base.setup(w, s, gran=sc.get("gran", 1))
        sizes = list(range(s["sizes"][0], s["sizes"][1] + 1))
        supers = False
        n = 0
        for h in sc["history"]:
            if "rm" in h:
                w.remove(h["rm"])
                continue
            if "lattice" in h:
                w.put("lattice.in", systems.lattice_text(h["lattice"]))
                continue
            p = self.step(w, dict(h["cmd"], rng=h["rng"], listing=h["listing"], entropy=h["entropy"], slow=h["slow"], jump=h.get("jump", 0)))
            if p.hang:
                o.fail("hang", "%s did not end" % base.cmd_text(h["cmd"]))
                break
            if not p.ok():
                o.fail("status", "%s ended with status %s: %s" % (base.cmd_text(h["cmd"]), p.code, p.out[-500:]))
                break
            supers = "-super" in h["cmd"]["argv"]
        if not o.fails:
            r = None
            for z in sizes:
                t = w.text("polya.out.%d" % z)
                if t is not None:
                    r = r or check_polya(t, s, z)
            t = w.text("enum.in")
            r = r or (check_enum_in(t, s, sizes) if t is not None else "there is no enum.in")
            t = w.text("enum.out")
            r = r or (check_enum_out(t, s, sizes, supers) if t is not None else "there is no enum.out")
            if r:
                o.fail(r.split(":")[0].split(" ")[0].rstrip("0123456789"), r)
            n = t.count("\n") if t else 0
        if n > 14:
            o.keys.append(json.dumps([s, [h.get("rm") or h.get("lattice") or h["cmd"]["argv"] for h in sc["history"]]], sort_keys=True))
        o.count("structures", max(0, n - 14))
        if s.get("arrows"):
            o.count("systems_with_arrows")
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        for j in range(len(sc["history"]) - 1):
            if any("lattice" in h for h in sc["history"]) and "cmd" in sc["history"][j] and j >= len(sc["history"]) - 3:
                continue
            if "lattice" in sc["history"][j]:
                continue
            n = base.clone(sc)
            n["history"].pop(j)
            yield n
        if any("lattice" in h for h in sc["history"]):
            return
        a, b = sc["system"]["sizes"]
        for x, y in ((a, a), (b, b), (a, b - 1), (a + 1, b), (1, 1), (2, 2)):
            if x <= y and [x, y] != [a, b] and y <= b and x >= min(a, 1) and (y - x < b - a or y < b):
                n = base.clone(sc)
                n["system"]["sizes"] = [x, y]
                yield n
        if len(sc["system"]["basis"]) > 1:
            for j in range(len(sc["system"]["basis"])):
                n = base.clone(sc)
                n["system"]["basis"].pop(j)
                yield n
        if sc["system"].get("concs") and sc["system"]["k"] > 1 and not sc["system"].get("arrows"):
            n = base.clone(sc)
            del n["system"]["concs"]
            yield n
        for h in range(len(sc["history"])):
            if sc["history"][h].get("rng", {}).get("mode", "real") != "real":
                n = base.clone(sc)
                n["history"][h]["rng"] = {"mode": "real"}
                yield n


PROP = C05()
