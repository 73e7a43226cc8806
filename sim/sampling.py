"""Scenarios about picking some of the structures, and what they must produce."""
import json
import math

import base
import lab
import refmodel as M
import systems
from lab import enum_cmd


def rng_script(rng, limit=20000000, real=True):
    m = rng.choice((["real"] if real else []) + ["fair", "edge", "edge"])
    d = {"mode": m, "seed": rng.randrange(1 << 30), "limit": limit}
    if m == "edge":
        d.update(style=rng.choice(["low", "high", "alt", "mix"]), burst=rng.choice([1, 3, 30, 1000, 40000]))
    return d


def multinomial(conc):
    n = math.factorial(sum(conc))
    for c in conc:
        n //= math.factorial(c)
    return n


def labelings(conc, narrow):
    """Number of raw arrangements, before symmetry."""
    n = math.factorial(sum(conc))
    for c, a in zip(conc, narrow):
        n //= math.factorial(a) * math.factorial(c - a)
    return n * 6 ** sum(narrow)


def conc_of(col, k):
    return tuple(sum(1 for c in col if c[0] == i) for i in range(k))


def hnf_pick(rng, n, tries=1):
    p = rng.choice([2, 2, 3])
    if n % p ** 3 == 0 and rng.random() < 0.3:
        # a multiple of a smaller cell: translations in three independent directions
        return tuple(tuple(p * x for x in r) for r in hnf_pick(rng, n // p ** 3))
    if n > 27:
        a = rng.choice([d for d in range(1, n + 1) if n % d == 0])
        c = rng.choice([d for d in range(1, n // a + 1) if n // a % d == 0])
        f = n // a // c
        return ((a, 0, 0), (rng.randrange(c), c, 0), (rng.randrange(f), rng.randrange(f), f))
    hs = M.all_hnfs(n)
    return hs[rng.randrange(len(hs))]


def rows_text(rows):
    out = ["# HNF                           Conc.       Number"]
    for h, c, m in rows:
        out.append("  %-28s  %-10s  %d" % (" ".join(map(str, h)), " ".join(map(str, c)), m))
    return "\n".join(out) + "\n"


def gen_rows(rng, tier, kind):
    """A system and hand-written rows of an enum.in file."""
    for _ in range(400):
        nd = rng.choice([1, 1, 1, 1, 2, 2, 3])
        lat = rng.choice(sorted(systems.LATTICES))
        arrows = kind in ("arrowguess", "small") or (kind == "rows" and rng.random() < 0.35)
        if arrows:
            lat = rng.choice(systems.AXIAL)
        L = [[float(x) for x in r] for r in systems.LATTICES[lat]]
        basis = systems.random_basis(rng, L, nd)
        k = rng.choice([2, 2, 2, 3, 4])
        if kind == "small" or (arrows and rng.random() < 0.25):
            k = 1
        if kind == "guess":
            k = rng.choice([2, 2, 2, 3, 3, 4])
            n = {2: rng.choice([20, 20, 21, 22, 24]), 3: rng.choice([14, 15, 16]), 4: rng.choice([12, 13, 14])}[k]
            if rng.random() < (0.2 if tier == "thorough" else 0.1):
                # more labelings than fit into 64 bits
                n = {2: rng.choice([32, 48, 62, 64, 66, 72, 90]), 3: rng.choice([30, 42, 45, 48, 50, 63]), 4: rng.choice([28, 34, 36, 48, 60])}[k]
        elif kind == "arrowguess":
            n = rng.choice([12, 12, 13, 14, 15, 16])
        elif kind == "small":
            n = rng.choice([5, 6, 6])
        else:
            n = rng.choice([1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 16])
        if kind == "rows" and not arrows and rng.random() < 0.015:
            # numbers of three digits
            nd, k, n = 1, 2, rng.choice([100, 102, 104, 110, 125])
            basis = basis[:1]
        if n % nd:
            continue
        size = n // nd
        if kind != "rows" and size == 1:
            continue
        s = {"lat": lat, "sizes": [size, size], "k": k, "basis": basis}
        fr = [0] * k
        if arrows:
            if kind == "small":
                fr = [1.0]
            elif kind == "arrowguess" and k > 1:
                fr = [1.0 if i == 0 else 0.0 for i in range(k)]
                if rng.random() < 0.3:
                    fr.reverse()
            else:
                fr = [rng.choice([0.0, 0.25, 0.5, 1.0]) for _ in range(k)]
                if not any(fr):
                    fr[rng.randrange(k)] = 0.5
            s["concs"] = [[1, 1, 1, fr[0]]] if k == 1 else [[0, 1, 1, f] for f in fr]
            s["arrows"] = True
        elif k == 1:
            s["concs"] = [[1, 1, 1]]
            s["arrows"] = False
        c = lab.crystal(s)
        if arrows and not c.arrows_ok:
            continue
        rows = []
        nrows = 1 if kind != "rows" else rng.choice([1, 1, 2, 3])
        if size >= 100:
            nrows = 1
        for _ in range(nrows):
            H = hnf_pick(rng, size)
            if rng.random() < 0.3:
                # cells whose translations do not form a cyclic group
                for _ in range(60):
                    if snf_diag(H)[1] > 1:
                        break
                    H = hnf_pick(rng, size)
            conc = rand_conc(rng, n, k, kind, fr) if size < 100 else rng.choice([(n - 1, 1), (1, n - 1)])
            if conc is None:
                continue
            narrow = M.arrow_counts(conc, fr)
            W = labelings(conc, narrow)
            if kind == "guess" and not 100000 < multinomial(conc):
                continue
            if kind == "arrowguess" and (sum(narrow) not in (1, 2) or W > 20000):
                continue
            if kind == "small" and W < 6000:
                continue
            if kind == "rows" and W > (20000 if tier == "thorough" else 4000):
                continue
            h = M.six(H)
            if any(r[0] == list(h) and r[1] == list(conc) for r in rows):
                continue
            rows.append([list(h), list(conc), 0])
        if rows:
            return s, rows
    return None, None


def rand_conc(rng, n, k, kind, fr):
    if k == 1:
        return (n,)
    if kind == "arrowguess":
        i = fr.index(1.0)
        c = [0] * k
        c[i] = rng.choice([1, 1, 2])
        rest = n - c[i]
        others = [j for j in range(k) if j != i]
        for j in others[:-1]:
            c[j] = rng.choice([0, 1]) if rest else 0
            rest -= c[j]
        c[others[-1]] = rest
        return tuple(c)
    cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
    if kind == "guess":
        # near the middle, where there are most
        b = n // k
        c = [b] * k
        c[rng.randrange(k)] += n - b * k
        for _ in range(rng.randint(0, 3)):
            i, j = rng.sample(range(k), 2)
            if c[i] > 1:
                c[i] -= 1
                c[j] += 1
        p = min(q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23) if n % q == 0)
        if rng.random() < 0.5:
            # superperiodic labelings exist
            c = [x - x % p for x in c]
            c[rng.randrange(k)] += n - sum(c)
        return tuple(c)
    c = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    return tuple(c)


def rank(li):
    """Place of a 0/1 list among those with as many ones, in the order the package counts them (Enum3)."""
    m, y = len(li), 0
    last = m - 1 - li[::-1].index(1)
    for _ in range(li[:last].count(0)):
        p = li.index(0)
        y += math.comb(m - p - 1, li[p:].count(1) - 1)
        li = li[p + 1:]
        m -= p + 1
    return y


def snf_diag(H):
    g1 = math.gcd(*[abs(x) for r in H for x in r])
    g2 = 0
    for i in range(3):
        for j in range(i):
            for k in range(3):
                for l in range(k):
                    g2 = math.gcd(g2, abs(H[i][k] * H[j][l] - H[i][l] * H[j][k]))
    return [g1, g2 // g1, M.det3(H) // g2]


def translate(cfg, diag, t, nd):
    """The labeling moved by a translation of the cell, sites numbered as in enum.out."""
    a, b, c = diag
    n = a * b * c
    out = [None] * len(cfg)
    for d in range(nd):
        for i in range(n):
            z = (i // (b * c), i // c % b, i % c)
            y = [(z[q] + t[q]) % diag[q] for q in range(3)]
            out[d * n + (y[0] * b + y[1]) * c + y[2]] = cfg[d * n + i]
    return out


def aimed(rng, s, row):
    """Draws that make a random search look at labelings that are superperiodic or equivalent to earlier ones. They
    only steer: what they lead to is judged like everything else."""
    h, conc, m = row
    H = M.full(h)
    nd = len(s["basis"])
    diag = snf_diag(H)
    n = M.det3(H)
    counts = sorted(x for x in conc if x)

    def values(cfg):
        v = []
        for col in range(1, len(counts) + 1):
            li = [int(x == col) for x in cfg if x >= col]
            v.append(rank(li))
        return v
    out = []
    base_cfg = [i + 1 for i, x in enumerate(counts) for _ in range(x)]
    for _ in range(rng.choice([2, 4, 6])):
        # a translation of prime order
        p = rng.choice([q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23) if n % q == 0] or [1])
        t = [0, 0, 0]
        while p > 1 and not any(t):
            t = [rng.randrange(p) * (d // p) if d % p == 0 else 0 for d in diag]
        cfg = None
        if rng.random() < 0.6:
            # superperiodic: the same along the orbits of a translation
            orbs, seen = [], set()
            for i in range(n * nd):
                if i in seen:
                    continue
                mark = [0] * (n * nd)
                mark[i] = 1
                orb = [i]
                while True:
                    mark = translate(mark, diag, t, nd)
                    j = mark.index(1)
                    if j == i:
                        break
                    orb.append(j)
                seen.update(orb)
                orbs.append(orb)
            p = len(orbs[0])
            if p > 1 and all(x % p == 0 for x in counts):
                labs = [i + 1 for i, x in enumerate(counts) for _ in range(x // p)]
                rng.shuffle(labs)
                cfg = [0] * (n * nd)
                for lab_, orb in zip(labs, orbs):
                    for j in orb:
                        cfg[j] = lab_
        if cfg is None:
            cfg = list(base_cfg)
            rng.shuffle(cfg)
        out += values(cfg)
        for _ in range(rng.choice([0, 1, 2])):
            out += values(translate(cfg, diag, [rng.randrange(d) for d in diag], nd))
    return out


def available(c, s, row, supers, limit=60000):
    """Exact number of structures of a row, or None when it is too many to look at."""
    h, conc, m = row
    narrow = M.arrow_counts(conc, lab.arrow_fracs(s))
    if labelings(conc, narrow) > limit:
        return None
    hc = c.canon_hnf(M.full(h))
    key = (json.dumps(s, sort_keys=True), hc, tuple(conc), supers)
    if key not in _av:
        if len(_av) > 500:
            _av.clear()
        _av[key] = len(c.enumerate(hc, tuple(conc), narrow, supers))
    return _av[key]


_av = {}


def swapped(conc):
    """Species that each label stands for when labels number the species present in ascending order of their
    concentration."""
    pres = [i for i in range(len(conc)) if conc[i]]
    return sorted(pres, key=lambda i: (conc[i], i))


def check_rows(text, s, rows, supers, accept, o):
    """enum.out against the rows it was asked for; a reason or None."""
    r = lab.check_header(text, s)
    if r:
        return "header", "enum.out: " + r
    try:
        structs = lab.parse_enum_out(text, s)
    except (ValueError, IndexError) as e:
        return "malformed", "enum.out is malformed: %s" % e
    r = lab.check_numbering(structs)
    if r:
        return "numbering", "enum.out: " + r
    c = lab.crystal(s)
    k = s["k"]
    fr = lab.arrow_fracs(s)
    per = {(tuple(h), tuple(cc)): [] for h, cc, m in rows}
    odd = {}
    for st, H, col in structs:
        key = (M.six(H), conc_of(col, k))
        if key in per:
            per[key].append((st["n"], H, col))
        else:
            odd.setdefault(M.six(H), []).append((st["n"], H, col))
    for h, cc, m in rows:
        key = (tuple(h), tuple(cc))
        narrow = M.arrow_counts(cc, fr)
        # known finding: labels of random guesses
        sw = swapped(cc)
        if not sum(narrow) and multinomial(cc) > 100000 and m <= 100 and sw != list(range(len(sw))):
            as_written = tuple(cc[sw[i]] if i < len(sw) else 0 for i in range(k))
            if key not in odd and as_written == tuple(cc):
                pass
            else:
                take = [x for x in odd.get(key[0], []) if conc_of(x[2], k) == as_written]
                if take and not per[key]:
                    odd[key[0]] = [x for x in odd[key[0]] if x not in take]
                    if not odd[key[0]]:
                        del odd[key[0]]
                    per[key] = [(n, H, tuple((sw[l], a) for l, a in col)) for n, H, col in take]
                    o.known.append(("guessed-labels", "random search without displacements labels the species in ascending order of "
                                    "their concentration: HNF %s conc %s is written with the concentrations %s" % (
                                        " ".join(map(str, h)), " ".join(map(str, cc)), " ".join(map(str, as_written)))))
    for hh in odd:
        n, H, col = odd[hh][0]
        return "foreign", "enum.out: structure %d (HNF %s conc %s) was not asked for" % (n, hh, conc_of(col, k))
    for h, cc, m in rows:
        got = per[(tuple(h), tuple(cc))]
        narrow = M.arrow_counts(cc, fr)
        seen = {}
        for n, H, col in got:
            na = tuple(sum(1 for x in col if x[0] == i and x[1]) for i in range(k))
            if na != narrow:
                return "arrows", "enum.out: structure %d has %s displaced atoms, should be %s" % (n, na, narrow)
            if not supers and c.superperiodic(H, col):
                return "superperiodic", "enum.out: structure %d is superperiodic" % n
            q = c.canon(H, col)
            if q in seen:
                return "duplicate", "enum.out: structures %d and %d are equivalent" % (seen[q], n)
            seen[q] = n
        av = available(c, s, [h, cc, m], supers)
        if len(got) > m:
            return "too-many", "enum.out: %d structures for HNF %s conc %s, %d were asked for" % (len(got), h, cc, m)
        if accept is None:
            if av is None:
                # a lower bound of what there is
                nperm = len(c.ops) * M.det3(M.full(h))
                want = m if labelings(cc, narrow) // nperm // 2 >= m else None
            else:
                want = min(m, av)
            if want is not None and len(got) != want:
                return "count", "enum.out: %d structures for HNF %s conc %s, should be %d (asked for %d, there are %s)" % (
                    len(got), " ".join(map(str, h)), " ".join(map(str, cc)), want, m, av)
    return None


class Sampling(base.Prop):
    memo = False

    def kinds(self, rng):
        return rng.choice(["dist", "dist", "rows", "rows", "rows", "guess", "guess", "arrowguess", "small"])

    def amount(self, rng, av):
        """How many to ask for when av are available (None: very many)."""
        raise NotImplementedError

    def gen(self, rng, i, tier, ctx):
        kind = self.kinds(rng)
        sc = None
        while sc is None:
            sc = self.make(rng, tier, kind)
        return sc

    def make(self, rng, tier, kind):
        supers = rng.random() < 0.4
        argv = ["-enum"] + (["-super"] if supers else [])
        if rng.random() < 0.6:
            argv += ["-seed", rng.randrange(1000)]
        if kind == "dist":
            if rng.random() < 0.6:
                s = rng.choice(systems.TINY + systems.HARD)
            else:
                from props import c05
                s = c05.random_system(rng, tier)
            rows = None
            tot = total(s)
            if not tot or tot > 3000:
                return None
            argv += ["-distribution", "all", self.amount(rng, tot)]
        else:
            s, rows = gen_rows(rng, tier, kind)
            if s is None:
                return None
            c = lab.crystal(s)
            for r in rows:
                r[2] = self.amount(rng, available(c, s, r, supers, 20000))
                if kind == "guess":
                    r[2] = min(r[2], 8)
            rows = [r for r in rows if r[2] > 0]
            if not rows:
                return None
        argv += self.extra(rng, kind)
        return {"kind": kind, "system": s, "rows": rows, "cmd": enum_cmd(*argv), "rng": self.script(rng, s, rows, kind),
                "entropy": rng.randrange(1 << 30), "listing": rng.randrange(4), "slow": rng.choice([0, 0, 10 ** 9, 10 ** 11])}

    def extra(self, rng, kind):
        return []

    def script(self, rng, s, rows, kind=None):
        if kind == "guess" and rng.random() < 0.8:
            return {"mode": "aim", "seed": rng.randrange(1 << 30), "limit": 20000000, "aim": aimed(rng, s, rows[0])}
        return rng_script(rng)

    def run(self, sc, ctx):
        o = base.Outcome()
        s = sc["system"]
        w = ctx.world()
        files = {"enum.in": rows_text(sc["rows"]).encode()} if sc["rows"] else {}
        base.setup(w, s, files)
        argv = sc["cmd"]["argv"]
        supers = "-super" in argv
        accept = float(argv[argv.index("-acceptrate") + 1]) if "-acceptrate" in argv else None
        p = self.step(w, dict(sc["cmd"], rng=sc["rng"], listing=sc["listing"], entropy=sc["entropy"], slow=sc.get("slow", 0)))
        o.count("kind_" + sc["kind"])
        o.count("rng_" + sc["rng"]["mode"] + ("_" + sc["rng"]["style"] if "style" in sc["rng"] else ""))
        n = 0
        if p.hang:
            o.fail("hang", "%s did not end: %s" % (base.cmd_text(sc["cmd"]), p.out[-200:]))
        elif not p.ok():
            o.fail("status", "%s ended with status %s: %s" % (base.cmd_text(sc["cmd"]), p.code, p.out[-600:]))
        else:
            r = None
            rows = sc["rows"]
            if rows is None:
                t = w.text("enum.in")
                if t is None:
                    r = ("no-enum.in", "there is no enum.in")
                else:
                    rows = []
                    want = int(argv[argv.index("-distribution") + 2])
                    try:
                        rows = [[x[:6], x[6:-1], x[-1]] for x in lab.parse_enum_in(t)]
                    except ValueError as e:
                        r = ("enum.in", "enum.in is malformed: %s" % e)
                    r = r or check_share(rows, s, want)
            if r is None:
                t = w.text("enum.out")
                r = ("no-enum.out", "there is no enum.out") if t is None else check_rows(t, s, rows, supers, accept, o)
                n = (t or "").count("\n")
            if r:
                o.fail(*r)
        if n:
            o.keys.append(json.dumps([s, sc["rows"], argv], sort_keys=True))
        o.note(p.code, p.hang)
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        if sc["rows"]:
            for j in range(len(sc["rows"])):
                if len(sc["rows"]) > 1:
                    n = base.clone(sc)
                    n["rows"].pop(j)
                    yield n
            for j, r in enumerate(sc["rows"]):
                for m in (1, 2, r[2] // 2, r[2] - 1):
                    if 0 < m < r[2]:
                        n = base.clone(sc)
                        n["rows"][j][2] = m
                        yield n
        else:
            a = sc["cmd"]["argv"]
            j = a.index("-distribution") + 2
            for m in (1, 2, int(a[j]) // 2, int(a[j]) - 1):
                if 0 < m < int(a[j]):
                    n = base.clone(sc)
                    n["cmd"]["argv"][j] = str(m)
                    yield n
            x, y = sc["system"]["sizes"]
            for z in ([x, x], [y, y]):
                if z != [x, y]:
                    n = base.clone(sc)
                    n["system"]["sizes"] = z
                    yield n
        if sc["rng"]["mode"] != "real":
            n = base.clone(sc)
            n["rng"] = {"mode": "real", "limit": sc["rng"]["limit"]}
            yield n
            if sc["rng"].get("burst", 0) > 1:
                n = base.clone(sc)
                n["rng"]["burst"] //= 3
                yield n
        for opt in ("-super",):
            if opt in sc["cmd"]["argv"]:
                n = base.clone(sc)
                n["cmd"]["argv"].remove(opt)
                yield n


_tot = {}


def total(s):
    """Number of structures of all sizes of a system."""
    key = json.dumps(s, sort_keys=True)
    if key not in _tot:
        if systems.work(s) > 60000:
            return None
        n = 0
        for z in range(s["sizes"][0], s["sizes"][1] + 1):
            t = lab.expected(s, z)
            n += sum(t.count(h, c) for h in t.hnfs for c in t.concs)
        _tot[key] = n
    return _tot[key]


def check_share(rows, s, want):
    """The rows of enum.in share out min(want, all) structures, nowhere more than there are."""
    c = lab.crystal(s)
    seen = set()
    tot = 0
    for h, cc, m in rows:
        if len(cc) != s["k"]:
            return "enum.in", "enum.in: bad row %s" % ((h, cc, m),)
        H = M.full(h)
        size = M.det3(H)
        if not s["sizes"][0] <= size <= s["sizes"][1]:
            return "enum.in", "enum.in: size %d was not asked for" % size
        t = lab.expected(s, size)
        hc = c.canon_hnf(H)
        if (hc, tuple(cc)) in seen:
            return "enum.in", "enum.in: %s %s appears twice" % (h, cc)
        seen.add((hc, tuple(cc)))
        if tuple(cc) not in [tuple(x) for x in t.concs]:
            return "enum.in", "enum.in: concentration %s is not allowed" % (cc,)
        lim = t.count(hc, tuple(cc))
        if not 0 < m <= lim:
            return "enum.in", "enum.in: %d structures wanted at %s %s, there are %d" % (m, h, cc, lim)
        tot += m
    n = total(s)
    if tot != min(want, n):
        return "enum.in", "enum.in: %d structures in total, should be %d" % (tot, min(want, n))
    return None
