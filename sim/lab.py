"""Common tools of the checks: commands, outputs, expectations."""
import json
import re

import core
import refmodel as M
import systems

RESULT = re.compile(r"^(polya\.out\.\d+|enum\.in|enum\.out|vasp\.\d+|.*\.result)$")


def enum_cmd(*argv):
    return {"script": "enumeration", "argv": [str(a) for a in argv]}


def mk_cmd(*argv):
    return {"script": "phenumStr", "argv": [str(a) for a in argv]}


def norm(data):
    """File contents without the time stamp."""
    if data is not None and data.startswith(b"Random structure enumeration:"):
        nl = data.find(b"\n")
        if nl >= 0 and re.match(rb"^Random structure enumeration: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?$", data[:nl]):
            return b"Random structure enumeration: <time>" + data[nl:]
    if data is not None and b"Random structure enumeration: " in data[:200]:
        # titles of POSCAR files carry the first line of enum.out
        return re.sub(rb"Random structure enumeration: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?", b"Random structure enumeration: <time>", data)
    return data


def visible(name):
    return not name.startswith(".")


def snap(world):
    return {n: norm(d) for n, d in world.snapshot().items() if visible(n)}


def short(data, n=160):
    if data is None:
        return "absent"
    s = repr(data[-n:])
    return "%d bytes ...%s" % (len(data), s)


def diff_snap(a, b):
    """First difference between expected snapshot a and actual b."""
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            return "%s: expected %s, found %s" % (n, short(a.get(n)), short(b.get(n)))
    return None


_crystals = {}


def crystal(s):
    key = json.dumps([systems.lat_of(s), s["basis"]])
    if key not in _crystals:
        if len(_crystals) > 40:
            _crystals.clear()
        _crystals[key] = M.Crystal(systems.lat_of(s), s["basis"])
    return _crystals[key]


def arrow_fracs(s):
    if s.get("concs") and s.get("arrows"):
        return [(x[3] if len(x) == 4 else 0) for x in s["concs"]]
    return [0] * s["k"]


_tables = {}


def expected(s, size):
    """Reference result for one cell size: {(hnf class, conc): (arrow counts, Polya count, keys)} with keys computed on demand."""
    key = (json.dumps(s, sort_keys=True), size)
    if key not in _tables:
        if len(_tables) > 200:
            _tables.clear()
        _tables[key] = Table(s, size)
    return _tables[key]


class Table:
    def __init__(self, s, size):
        self.s, self.size = s, size
        self.c = crystal(s)
        self.fr = arrow_fracs(s)
        self.concs = M.concentrations(size, len(s["basis"]), s["k"], bool(s.get("concs")), s.get("concs"))
        self.hnfs = self.c.unique_hnfs(size)
        self._keys = {}

    def keys(self, hc, conc, supers):
        k = (hc, conc, supers)
        if k not in self._keys:
            self._keys[k] = self.c.enumerate(hc, conc, M.arrow_counts(conc, self.fr), supers)
        return self._keys[k]

    def count(self, hc, conc):
        return len(self.keys(hc, conc, True))


def parse_polya(text):
    """polya.out.N -> (concs, [(hnf6, counts, total)], totals row)."""
    ls = text.split("\n")
    head = ls[0].split()
    if head[:2] != ["#", "HNF"] or head[-1] != "Total":
        raise ValueError("bad header %r" % ls[0])
    concs = [tuple(int(x) for x in h.split(":")) for h in head[2:-1]]
    rows = []
    for ln in ls[1:]:
        if not ln.strip() or ln.startswith("#"):
            continue
        v = [int(x) for x in ln.split()]
        if len(v) != len(concs) + 7:
            raise ValueError("bad row %r" % ln)
        rows.append((tuple(v[:6]), v[6:-1], v[-1]))
    if not rows or any(rows[-1][0]):
        raise ValueError("no totals row")
    return concs, rows[:-1], rows[-1]


def parse_enum_in(text, kind="all"):
    out = []
    for ln in text.split("\n"):
        if not ln.strip() or ln.startswith("#"):
            continue
        out.append([int(x) for x in ln.split()])
    return out


def parse_enum_out(text, s):
    """enum.out -> list of (decoded line, H, col)."""
    nd = len(s["basis"])
    ls = text.split("\n")
    if len(ls) < 14 + nd:
        raise ValueError("header has only %d lines" % len(ls))
    if not text.endswith("\n") and len(ls) > 14 + nd:
        raise ValueError("last line is incomplete: %r" % ls[-1])
    out = []
    for ln in ls[14 + nd:]:
        if ln.strip():
            st = M.decode_line(ln, nd)
            H, col = M.decode_structure(st, nd, s["k"])
            out.append((st, H, col))
    return out


def check_header(text, s):
    """The preamble of enum.out describes the system; returns a reason or None."""
    nd = len(s["basis"])
    ls = text.split("\n")
    c = crystal(s)
    try:
        if not ls[0].startswith("Random structure enumeration:") or ls[1] != "bulk":
            return "title %r %r" % (ls[0], ls[1])
        for i in range(3):
            v = [float(x) for x in ls[2 + i].split()]
            if any(abs(a - b) > 2e-7 for a, b in zip(v, systems.lat_of(s)[i])):
                return "lattice vector %r" % ls[2 + i]
        if int(ls[5]) != nd:
            return "number of basis vectors %r" % ls[5]
        for i in range(nd):
            v = [float(x) for x in ls[6 + i].split()]
            f = M.matvec(c.Ainv, v)
            if any(abs((a - b) - round(a - b)) > 1e-5 for a, b in zip(f, c.frac[i])):
                return "basis vector %r" % ls[6 + i]
        if int(ls[6 + nd].split("-")[0]) != s["k"]:
            return "number of species %r" % ls[6 + nd]
    except (ValueError, IndexError) as e:
        return "malformed header: %s" % e
    return None


def check_numbering(structs):
    """Running numbers 1..n in order; index restarts with each cell size."""
    size, k = None, 0
    for i, (st, H, col) in enumerate(structs):
        if st["n"] != i + 1:
            return "line %d has structure number %d" % (i + 1, st["n"])
        k = k + 1 if st["size"] == size else 1
        size = st["size"]
        if st["idx"] != k:
            return "structure %d is number %d of its size, listed as number %d" % (i + 1, k, st["idx"])
    return None
