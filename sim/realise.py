"""Structures turned into POSCAR and MTP files: requests and their oracle."""
import refmodel as M
import lab
import sampling
import systems
from lab import enum_cmd, mk_cmd

# atomic volumes in cubic Angstrom
VOLUME = {"Ag": 17.1045, "Al": 16.6075, "Ar": 36.3829, "As": 20.4270, "Au": 16.9793, "B": 7.24205, "Ba": 63.253, "Be": 8.49323, "Bi": 31.2849,
          "Br": 33.3170, "C": 5.68741, "Ca": 43.4353, "Cd": 18.7161, "Cl": 35.2074, "Co": 11.1838, "Cr": 11.9439, "Cs": 110.723, "Cu": 11.7615,
          "F": 17.0258, "Fe": 11.82, "Ga": 18.4496, "Ge": 19.3638, "H": 37.2958, "He": 32.1789, "Hf": 23.1748, "Hg": 27.6914, "I": 24.3807,
          "In": 26.6861, "Ir": 14.1558, "K": 71.5278, "Kr": 46.7873, "Li": 21.2543, "Mg": 23.3928, "Mn": 19.3207, "Mo": 15.6279, "N": 46.6002,
          "Na": 23.2596, "Nb": 17.9685, "Ne": 21.7346, "Ni": 10.9036, "O": 22.2802, "Os": 14.5485, "P": 9.1459, "Pb": 30.3218, "Pd": 14.716,
          "Pt": 15.0591, "Rb": 87.3384, "Re": 14.8694, "Rh": 13.718, "Ru": 13.9206, "S": 17.1672, "Sb": 27.1733, "Sc": 25.6478, "Se": 58.6173,
          "Si": 7.8511, "Sn": 29.3238, "Sr": 56.1889, "Ta": 18.1323, "Tc": 14.5458, "Te": 62.3227, "Ti": 18.1565, "Tl": 29.2949, "V": 13.7718,
          "W": 15.7772, "Xe": 59.582, "Y": 33.0792, "Zn": 13.311, "Zr": 23.8327}


def source(rng, tier):
    """A system and a command that fills enum.out -> (system, files, command)."""
    r = rng.random()
    if r < 0.35:
        s = rng.choice(systems.TINY)
        return s, {}, enum_cmd("-enum", *(["-super"] if rng.random() < 0.4 else []))
    if r < 0.55:
        from props import c05
        s = c05.random_system(rng, tier, limit=1500)
        tot = sampling.total(s)
        if tot and tot <= 400:
            return s, {}, enum_cmd("-enum", "-distribution", "all", min(tot, rng.choice([5, 20, 60])), "-seed", rng.randrange(1000))
    if r < 0.58:
        # more species than there are digits
        s = rng.choice(systems.MANY)
        return s, {}, enum_cmd("-enum", "-distribution", "all", rng.choice([20, 60, 150]), "-seed", rng.randrange(1000))
    if r < 0.65:
        # one or two foreign atoms in large cells
        for _ in range(50):
            nd = rng.choice([1, 1, 2])
            lat = rng.choice(sorted(systems.LATTICES))
            L = [[float(x) for x in v] for v in systems.LATTICES[lat]]
            n = rng.choice([8, 8, 12, 16, 18, 24, 27])
            if rng.random() < 0.2:
                # numbers of three digits
                n = rng.choice([100, 101, 104, 110, 128])
                nd = 1
            s = {"lat": lat, "sizes": [n, n], "k": 2, "basis": systems.random_basis(rng, L, nd)}
            if 32 < n * nd < 100:
                continue
            rows = []
            for _ in range(rng.choice([1, 2]) if n < 100 else 1):
                a = rng.choice([1, 1, 2])
                h = list(M.six(sampling.hnf_pick(rng, n)))
                if not any(x[0] == h for x in rows):
                    rows.append([h, [n * nd - a, a], rng.choice([1, 2, 4])])
            return s, {"enum.in": sampling.rows_text(rows)}, enum_cmd("-enum", "-super", "-seed", rng.randrange(1000))
    for _ in range(200):
        s, rows = sampling.gen_rows(rng, tier, "guess" if rng.random() < 0.06 else "rows")
        if s is None:
            continue
        n = sum(s["sizes"][:1])
        for x in rows:
            x[2] = rng.choice([1, 2, 3, 6])
        return s, {"enum.in": sampling.rows_text(rows)}, enum_cmd("-enum", "-super", "-seed", rng.randrange(1000))
    return systems.TINY[0], {}, enum_cmd("-enum")


def header(text, s):
    """Parent lattice vectors (rows) and atomic basis of an enum.out file."""
    ls = text.split("\n")
    nd = int(ls[5])
    return [[float(x) for x in l.split()] for l in ls[2:5]], [[float(x) for x in l.split()] for l in ls[6:6 + nd]]


def parameter(s, species, conc, lat):
    """Vegard's law, lengths in Angstrom per unit of the lattice file."""
    if not species:
        return 1.0
    vol = abs(M.det3(lat)) / len(s["basis"])
    return sum(c * (VOLUME[e] / vol) ** (1. / 3) for e, c in zip(species, conc)) / sum(conc)


def reduced(cell, tol=2e-6):
    """Whether the vectors are Minkowski reduced; a reason or None."""
    v = sorted(cell, key=lambda x: M.dot(x, x))
    n = [M.dot(x, x) for x in v]
    e = tol * (1 + n[2])
    for x in (-1, 1):
        w = [a + x * b for a, b in zip(v[1], v[0])]
        if M.dot(w, w) < n[1] - e:
            return "the second vector can be shortened"
    for x in (-1, 0, 1):
        for y in (-1, 0, 1):
            w = [a + x * b + y * c for a, b, c in zip(v[2], v[0], v[1])]
            if M.dot(w, w) < n[2] - e:
                return "the third vector can be shortened"
    return None


def options(rng, s, total):
    """Options of a POSCAR or MTP request."""
    o = {"mink": rng.choice(["t", "t", "f"]), "displace": 0.0, "rattle": 0.0, "species": None, "zeros": False, "mapping": None}
    r = rng.random()
    a = rng.randint(1, total)
    if r < 0.4:
        o["which"] = ["all"]
    elif r < 0.6:
        o["which"] = [str(a)]
    else:
        o["which"] = [str(a), str(min(a + rng.choice([0, 1, 3, 8]), total + rng.choice([0, 0, 2])))]
    if rng.random() < (0.8 if s.get("arrows") else 0.3):
        o["displace"] = rng.choice([0.01, 0.05, 0.1, 0.3, -0.07])
        if rng.random() < 0.6:
            o["rattle"] = rng.choice([0.1, 0.5, 1.0])
    if rng.random() < 0.5:
        o["species"] = rng.sample(sorted(VOLUME), s["k"])
        if rng.random() < 0.3:
            # neighbours in the table and in spelling
            pool = ["Pb", "Pd", "Ag", "Au", "Pt", "Po", "Cu", "Ni", "Co", "Cr", "Cd", "Cs", "Ti", "Tl"]
            pool = [e for e in pool if e in VOLUME]
            if len(pool) >= s["k"]:
                o["species"] = rng.sample(pool, s["k"])
        o["zeros"] = rng.random() < 0.4
    return o


def argv(o):
    a = list(o["which"]) + ["-input", "enum.out", "-mink", o["mink"]]
    if o["displace"]:
        a += ["-displace=%s" % o["displace"]]
    if o["rattle"]:
        a += ["-rattle", o["rattle"]]
    if o["zeros"]:
        a += ["-remove_zeros", "t"]
    if o.get("names") or o["species"]:
        a += ["-species"] + (o.get("names") or o["species"])
    if o["mapping"]:
        a += ["-species_mapping"] + o["mapping"]
    return a


def wanted(o, total):
    if o["which"] == ["all"]:
        return list(range(1, total + 1))
    a, b = int(o["which"][0]), int(o["which"][-1])
    return [n for n in range(a, b + 1) if n <= total]


class Judge:
    """Says whether a file realises a structure."""

    def __init__(self, text, s):
        self.s = s
        self.c = lab.crystal(s)
        self.lat, self.dvecs = header(text, s)
        self.structs = lab.parse_enum_out(text, s)

    def conc(self, col):
        return [sum(1 for l, a in col if l == j) for j in range(self.s["k"])]

    def poscar(self, text, n, o):
        st, H, col = self.structs[n - 1]
        try:
            ps = M.parse_poscar(text)
        except (ValueError, IndexError) as e:
            return "malformed: %s" % e
        conc = self.conc(col)
        a = parameter(self.s, o["species"], conc, self.lat)
        if abs(ps["scale"] - a) > 0.00501:
            return "lattice parameter %s, should be %.4f" % (ps["scale"], a)
        if not ps["title"].endswith(" str #: %d" % n):
            return "title %r" % ps["title"]
        if o["species"]:
            names = [e for e, x in zip(o["species"], conc) if x or not o["zeros"]]
            if ps["title"].split()[:len(names) + 1] != names + ["Random"]:
                return "title %r, species %s" % (ps["title"], names)
        want = [(j, x) for j, x in enumerate(conc) if x or not (o["zeros"] and o["species"])]
        if ps["counts"] != [x for j, x in want]:
            return "numbers of atoms %s, should be %s" % (ps["counts"], [x for j, x in want])
        labels = [j for j, x in want for _ in range(x)]
        return self.same(H, col, ps, labels, o)

    def same(self, H, col, ps, labels, o):
        r = M.check_realised(self.c, H, col, self.dvecs, ps, labels, o["displace"], o["rattle"])
        if r is None and o["mink"] == "t":
            r = reduced(ps["cell"])
        return r

    def block(self, b, n, o):
        st, H, col = self.structs[n - 1]
        conc = self.conc(col)
        a = parameter(self.s, o["species"], conc, self.lat)
        if b["id"] != list(range(1, len(col) + 1)):
            return "atoms are numbered %s" % b["id"]
        if b["size"] != len(col):
            return "size %s, should be %d" % (b["size"], len(col))
        if not b["title"].endswith("_%d" % n):
            return "conf_id %r" % b["title"]
        types = o["mapping"] or list(range(self.s["k"]))
        if any(t not in types for t in b["type"]):
            return "types %s, should be among %s" % (b["type"], types)
        cell = [[x / a for x in r] for r in b["cell"]]
        inv = M.inv3(M.transpose(cell))
        ps = {"cell": cell, "frac": [M.matvec(inv, [x / a for x in p]) for p in b["pos"]]}
        return self.same(H, col, ps, [types.index(t) for t in b["type"]], o)


def parse_cfg(text):
    """Blocks of an MTP configuration file; ValueError when not whole."""
    out = []
    ls = text.split("\n")
    i = 0
    while i < len(ls):
        if not ls[i].strip():
            i += 1
            continue
        if ls[i] != "BEGIN_CFG" or ls[i + 1].strip() != "Size":
            raise ValueError("line %d is %r" % (i + 1, ls[i]))
        n = int(ls[i + 2])
        if ls[i + 3].strip() != "SuperCell":
            raise ValueError("line %d is %r" % (i + 4, ls[i + 3]))
        cell = [[float(x) for x in l.split()] for l in ls[i + 4:i + 7]]
        if any(len(r) != 3 for r in cell):
            raise ValueError("bad cell in line %d" % (i + 5))
        if ls[i + 7].split() != ["AtomData:", "id", "type", "cartes_x", "cartes_y", "cartes_z"]:
            raise ValueError("line %d is %r" % (i + 8, ls[i + 7]))
        b = {"size": n, "cell": cell, "id": [], "type": [], "pos": []}
        i += 8
        while not ls[i].strip().startswith("Feature"):
            v = ls[i].split()
            if len(v) != 5:
                raise ValueError("line %d is %r" % (i + 1, ls[i]))
            b["id"].append(int(v[0]))
            b["type"].append(int(v[1]))
            b["pos"].append([float(x) for x in v[2:]])
            i += 1
        b["title"] = ls[i].split("conf_id")[1].strip()
        if ls[i + 1] != "END_CFG":
            raise ValueError("line %d is %r" % (i + 2, ls[i + 1]))
        i += 2
        out.append(b)
    return out


