"""The crystals, size ranges and restrictions that scenarios are built from."""
import math

S3 = 3 ** 0.5 / 2
LATTICES = {
    "sc": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "fcc": [[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]],
    "bcc": [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]],
    "tet": [[1, 0, 0], [0, 1, 0], [0, 0, 1.5]],
    "orth": [[1, 0, 0], [0, 1.2, 0], [0, 0, 1.5]],
    "tric": [[1, 0, 0], [0.1, 1.2, 0], [0.2, 0.3, 1.5]],
    "hex": [[1, 0, 0], [-0.5, S3, 0], [0, 0, 1.6]],
    "mono": [[1, 0, 0], [0, 1.2, 0], [0.3, 0, 1.5]],
    "bco": [[1, 0, 0], [0.5, 0.6, 0], [0, 0, 1.5]],
}
# lattices whose point group keeps the Cartesian axes, where arrows make sense
AXIAL = ("sc", "fcc", "bcc", "tet", "orth", "tric")


def lattice_text(s):
    """The lattice.in file of a system."""
    out = ["%d %d" % tuple(s["sizes"]), "bulk"]
    lat = LATTICES[s["lat"]] if isinstance(s["lat"], str) else s["lat"]
    out += [" ".join(repr(float(x)) for x in r) for r in lat]
    out += [str(s["k"]), str(len(s["basis"]))]
    out += [" ".join(repr(float(x)) for x in r) for r in s["basis"]]
    if not s.get("concs"):
        out.append("F")
    else:
        out += ["T", "T" if s.get("arrows") else "F"]
        out += [" ".join(("%d" % x if float(x).is_integer() and j < 3 else repr(x)) for j, x in enumerate(r))
                for r in s["concs"]]
    return "\n".join(out) + "\n"


def lat_of(s):
    return LATTICES[s["lat"]] if isinstance(s["lat"], str) else s["lat"]


def S(lat, sizes, k=2, basis=None, concs=None, arrows=False):
    d = {"lat": lat, "sizes": list(sizes), "k": k, "basis": basis or [[0, 0, 0]]}
    if concs:
        d["concs"] = concs
        d["arrows"] = arrows
    return d


# small systems for the checks about files, faults and interleavings
TINY = [
    S("tric", (1, 2)), S("tric", (1, 3)), S("orth", (1, 3)), S("tet", (1, 3)), S("fcc", (1, 3)), S("bcc", (1, 2)),
    S("sc", (1, 3)), S("hex", (1, 2)), S("mono", (2, 3)), S("bco", (1, 3)), S("orth", (2, 4)), S("fcc", (2, 2)),
    S("tric", (1, 2), k=3), S("orth", (1, 2), k=3), S("tet", (1, 2), k=4),
    S("tric", (1, 2), basis=[[0, 0, 0], [0.5, 0.1, 0.2]]), S("orth", (1, 2), basis=[[0, 0, 0], [0.5, 0.6, 0.75]]),
    S("sc", (1, 2), basis=[[0, 0, 0], [0.5, 0.5, 0.5]]),
    S("tet", (1, 4), concs=[[1, 1, 2], [1, 1, 2]]), S("orth", (2, 4), concs=[[1, 1, 4], [3, 3, 4]]),
    S("tric", (1, 3), concs=[[0, 1, 2], [1, 2, 2]]),
    S("tric", (1, 2), k=1, concs=[[1, 1, 1, 1.0]], arrows=True),
    S("tet", (1, 2), k=1, concs=[[1, 1, 1, 0.5]], arrows=True),
    S("orth", (1, 2), concs=[[0, 2, 2, 0.5], [0, 2, 2, 0.0]], arrows=True),
    S("sc", (1, 2), concs=[[0, 1, 2, 0.5], [0, 2, 2, 0.0]], arrows=True),
]

# more species than there are digits
MANY = [S("orth", (1, 2), k=11), S("fcc", (1, 1), k=12), S("tric", (1, 1), k=12, basis=[[0, 0, 0], [0.5, 0.1, 0.2]]),
        S("tet", (1, 2), k=14, concs=[[0, 1, 2]] * 10 + [[1, 1, 2]] + [[0, 1, 2]] * 3),
        S("tet", (3, 3), k=11, concs=[[0, 0, 3]] * 8 + [[1, 2, 3]] + [[0, 1, 3]] + [[1, 1, 3]])]

# crystals whose operations move several atoms around, with cells big enough
# for the cells to be moved around at the same time
HARD = [
    S("sc", (4, 4), basis=[[0.2, 0, 0], [0, 0.2, 0], [0, 0, 0.2]], concs=[[1, 1, 6], [5, 5, 6]]),
    S("sc", (3, 4), basis=[[0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]], concs=[[1, 1, 6], [5, 5, 6]]),
    S("sc", (2, 3), basis=[[0.5, 0.5, 0], [0, 0.5, 0.5], [0.5, 0, 0.5]], concs=[[0, 1, 3], [2, 3, 3]]),
    S("tet", (2, 3), basis=[[0.3, 0.1, 0], [-0.1, 0.3, 0], [-0.3, -0.1, 0], [0.1, -0.3, 0]], concs=[[0, 1, 6], [5, 6, 6]]),
    S("tet", (3, 4), basis=[[0.5, 0, 0], [0, 0.5, 0]]),
    S("fcc", (2, 3), basis=[[0, 0, 0], [0.25, 0.25, 0.25]]),
    S("hex", (2, 3), basis=[[0, 0, 0], [0, S3 * 2 / 3, 0.8]]),
    S("hex", (2, 3), basis=[[0.5, S3 / 6, 0], [0, S3 / 3, 0.8]]),
    S("fcc", (4, 5)), S("fcc", (3, 4), k=3), S("bcc", (4, 5)), S("hex", (4, 5)), S("sc", (4, 4), k=3, concs=[[1, 1, 2], [1, 1, 4], [1, 1, 4]]),
    S("fcc", (6, 6), concs=[[1, 2, 6], [4, 5, 6]]), S("sc", (4, 4), concs=[[1, 1, 4, 1.0], [3, 3, 4, 0.0]], arrows=True),
    S("fcc", (2, 4), concs=[[1, 1, 4, 1.0], [1, 3, 4, 0.0]], arrows=True),
    S("sc", (1, 2), basis=[[0, 0, 0], [0.5, 0.5, 0.5]], concs=[[1, 1, 4, 1.0], [3, 3, 4, 0.0]], arrows=True),
    S("sc", (1, 1), k=2, basis=[[0.2, 0, 0], [0, 0.2, 0], [0, 0, 0.2]], concs=[[1, 1, 3, 1.0], [2, 2, 3, 0.5]], arrows=True),
    S("tet", (1, 2), k=3, concs=[[1, 1, 2, 1.0], [0, 2, 2, 0.0], [0, 2, 2, 1.0]], arrows=True),
    S("bcc", (1, 3), k=1, concs=[[1, 1, 1, 0.67]], arrows=True),
]


def random_lattice(rng):
    """A random lattice of a random kind, lengths far enough apart that no
    accidental symmetry comes near the tolerance."""
    kind = rng.choice(["sc", "fcc", "bcc", "tet", "bct", "orth", "bco", "ico", "fco", "mono", "tric", "hex", "rhom", "named"])
    a = rng.choice([1.0, 1.0, 0.8, 1.25, 2.0, 3.5])
    b = a * rng.choice([1.2, 1.35, 1.5])
    c = b * rng.choice([1.2, 1.3, 1.6])
    h = 0.5
    if kind == "named":
        m = [list(map(float, r)) for r in LATTICES[rng.choice(sorted(LATTICES))]]
    elif kind == "sc":
        m = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    elif kind == "fcc":
        m = [[0, a * h, a * h], [a * h, 0, a * h], [a * h, a * h, 0]]
    elif kind == "bcc":
        m = [[-a * h, a * h, a * h], [a * h, -a * h, a * h], [a * h, a * h, -a * h]]
    elif kind == "tet":
        m = [[a, 0, 0], [0, a, 0], [0, 0, c]]
    elif kind == "bct":
        m = [[-a * h, a * h, c * h], [a * h, -a * h, c * h], [a * h, a * h, -c * h]]
    elif kind == "orth":
        m = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    elif kind == "bco":
        m = [[a, 0, 0], [a * h, b * h, 0], [0, 0, c]]
    elif kind == "ico":
        m = [[-a * h, b * h, c * h], [a * h, -b * h, c * h], [a * h, b * h, -c * h]]
    elif kind == "fco":
        m = [[0, b * h, c * h], [a * h, 0, c * h], [a * h, b * h, 0]]
    elif kind == "mono":
        m = [[a, 0, 0], [0, b, 0], [0.3 * a, 0, c]]
    elif kind == "tric":
        m = [[a, 0, 0], [0.13 * a, b, 0], [0.21 * a, 0.31 * b, c]]
    elif kind == "hex":
        m = [[a, 0, 0], [-a * h, a * S3, 0], [0, 0, c]]
    else:  # rhombohedral
        t = 0.2
        m = [[a, t * a, t * a], [t * a, a, t * a], [t * a, t * a, a]]
    if rng.random() < 0.25:  # another choice of axes
        p = rng.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2)])
        m = [m[p[0]], m[p[1]], m[p[2]]]
    if rng.random() < 0.2:  # nearly a lattice of more symmetry
        i, d = rng.randrange(3), rng.choice([0.03, 0.004, 0.0006])
        if rng.random() < 0.6:
            m[i] = [x * (1 + d) for x in m[i]]
        else:
            m[i] = [x + d * y for x, y in zip(m[i], m[(i + 1) % 3])]
    if rng.random() < 0.2:  # another basis of the same lattice
        i, j = rng.sample(range(3), 2)
        s = rng.choice([1, -1])
        m[i] = [x + s * y for x, y in zip(m[i], m[j])]
    return [[float(x) for x in r] for r in m]


def random_basis(rng, lat, nd):
    """Atomic basis in Cartesian coordinates: symmetric or general positions."""
    special = [0.0, 0.5, 0.25, 0.75]
    mode = rng.choice(["special", "special", "general", "mixed", "shift"])
    pts = []
    tries = 0
    while len(pts) < nd:
        tries += 1
        if mode == "general" or (mode == "mixed" and len(pts) and rng.random() < 0.5) or tries > 50:
            f = [rng.choice([0.1, 0.2, 0.3, 0.4, 0.15, 0.35, 0.6, 0.7]) for _ in range(3)]
        else:
            f = [rng.choice(special) for _ in range(3)]
        if not pts and mode != "shift":
            f = [0.0, 0.0, 0.0]
        if any(all(abs((x - y) - round(x - y)) < 0.02 for x, y in zip(f, g)) for g in pts):
            continue
        if pts and rng.random() < 0.12:  # nearly on a special position
            j = rng.randrange(3)
            f[j] += rng.choice([0.03, 0.004, 0.0006])
        pts.append(f)
    out = []
    for f in pts:
        if rng.random() < 0.12:  # outside the unit cell
            far = rng.choice([1, 1, 2, 4])
            f = [x + rng.choice([0, 0, far, -far]) for x in f]
        out.append([sum(f[i] * lat[i][j] for i in range(3)) for j in range(3)])
    return out


def random_concs(rng, k, n_max, arrows):
    """Concentration restrictions as in lattice.in: from, to, denominator[, arrow fraction]."""
    out = []
    den = rng.choice([2, 3, 4, 6])
    for i in range(k):
        r = rng.random()
        if k == 1:
            lo = hi = den
        elif r < 0.3:
            lo, hi = 0, den
        else:
            lo, hi = sorted((rng.randint(0, den), rng.randint(0, den)))
            if rng.random() < 0.15:
                lo, hi = hi, lo
        row = [lo, hi, den]
        if arrows:
            row.append(rng.choice([0.0, 0.0, 0.25, 0.5, 1.0]) if k > 1 else rng.choice([0.25, 0.5, 1.0]))
        out.append(row)
    return out


def by_conc(s, n):
    """(number of labelings, number of arrows) of every concentration of size n."""
    import refmodel as M
    nd, k = len(s["basis"]), s["k"]
    fr = [(x[3] if len(x) == 4 else 0) for x in s["concs"]] if s.get("concs") and s.get("arrows") else [0] * k
    for c in M.concentrations(n, nd, k, bool(s.get("concs")), s.get("concs")):
        m, left = 1, n * nd
        for x in c:
            m *= math.comb(left, x)
            left -= x
        yield m, sum(M.arrow_counts(c, fr))


def work(s, arrows_max=3):
    """Rough upper bound of the number of labelings the model has to look at."""
    tot = 0
    for n in range(s["sizes"][0], s["sizes"][1] + 1):
        h = sum(d * (n // d) for d in range(1, n + 1) if n % d == 0) * 2
        for m, a in by_conc(s, n):
            tot += h * m * (1 + 6 ** min(a, 20))
    return tot
