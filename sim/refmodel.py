"""Independent executable reference model of derivative-structure enumeration.

Written from the definition (two labelled periodic structures are the same iff
an isometry of the parent lattice+basis carries one to the other), without any
code from the repository: integer symmetry matrices from the Gram matrix,
superlattices as column HNFs, labelings canonicalised by brute force over the
full space group times all translations of the supercell.

Conventions shared with the file formats only:
  * lattice vectors are rows a_i; a lattice point z=(z1,z2,z3) is sum z_i a_i
  * a superlattice with lower-triangular H has its vectors in the columns of H
  * a site is (d, z mod H); arrows 1..6 are +x,-x,+y,-y,+z,-z; 0 is no arrow
"""
from itertools import product, permutations
from math import floor, gcd, ceil
import functools

TOL = 1e-6
ARROWS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def matvec(m, v):
    return tuple(m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3))


def matmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def transpose(m):
    return tuple(tuple(m[j][i] for j in range(3)) for i in range(3))


def inv3(m):
    d = float(det3(m))
    c = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a = [[m[r][s] for s in range(3) if s != i] for r in range(3) if r != j]
            c[i][j] = (-1) ** (i + j) * (a[0][0] * a[1][1] - a[0][1] * a[1][0]) / d
    return tuple(map(tuple, c))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def column_hnf(m):
    """Lower-triangular column-style HNF (entries left of the diagonal reduced
    modulo the diagonal of their row) of a nonsingular integer 3x3 matrix."""
    c = [[m[i][j] for i in range(3)] for j in range(3)]  # columns
    for r in range(3):
        while True:
            nz = [j for j in range(r, 3) if c[j][r] != 0]
            p = min(nz, key=lambda j: abs(c[j][r]))
            c[r], c[p] = c[p], c[r]
            done = True
            for j in range(r + 1, 3):
                q = c[j][r] // c[r][r]
                if q:
                    c[j] = [x - q * y for x, y in zip(c[j], c[r])]
                if c[j][r] != 0:
                    done = False
            if done:
                break
        if c[r][r] < 0:
            c[r] = [-x for x in c[r]]
        for j in range(r):
            q = c[j][r] // c[r][r]
            if q:
                c[j] = [x - q * y for x, y in zip(c[j], c[r])]
    return tuple(tuple(c[j][i] for j in range(3)) for i in range(3))


def reduce_mod(z, H):
    """Canonical representative of z modulo the columns of lower-triangular H."""
    z = list(z)
    for r in range(3):
        q = z[r] // H[r][r]
        if q:
            for i in range(r, 3):
                z[i] -= q * H[i][r]
    return tuple(z)


def all_hnfs(n):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        m = n // a
        for c in range(1, m + 1):
            if m % c:
                continue
            f = m // c
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        out.append(((a, 0, 0), (b, c, 0), (d, e, f)))
    return out


def full(h6):
    h = [int(x) for x in h6]
    return ((h[0], 0, 0), (h[1], h[2], 0), (h[3], h[4], h[5]))


def six(H):
    return (H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2])


class Crystal:
    """Parent lattice + basis, with its space group in lattice coordinates."""

    def __init__(self, lat, basis):
        self.lat = [tuple(map(float, r)) for r in lat]
        self.At = transpose(self.lat)
        self.Ainv = inv3(self.At)
        self.frac = []
        for b in basis:
            f = matvec(self.Ainv, b)
            f = tuple(x - floor(x + TOL) for x in f)
            self.frac.append(f)
        self.nd = len(self.frac)
        self._ops()
        self._hcache = {}

    def _ops(self):
        a = self.lat
        G = [[dot(a[i], a[j]) for j in range(3)] for i in range(3)]
        Ginv = inv3(G)
        # |m| bound for integer vectors of squared length <= max G_ii
        mx = max(G[i][i] for i in range(3)) * (1 + 1e-9)
        bnd = [int(floor((mx * Ginv[i][i]) ** 0.5 + 1e-6)) for i in range(3)]
        vecs = list(product(*[range(-b, b + 1) for b in bnd]))

        def g(u, v):
            return sum(u[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
        scale = max(G[i][i] for i in range(3))
        tol = 1e-7 * scale
        cand = [[v for v in vecs if abs(g(v, v) - G[i][i]) < tol] for i in range(3)]
        ops = []
        for m0 in cand[0]:
            for m1 in cand[1]:
                if abs(g(m0, m1) - G[0][1]) > tol:
                    continue
                for m2 in cand[2]:
                    if abs(g(m0, m2) - G[0][2]) > tol or abs(g(m1, m2) - G[1][2]) > tol:
                        continue
                    W = transpose((m0, m1, m2))
                    for t, dmap in self._shifts(W):
                        ops.append((W, dmap, self._arrow_perm(W)))
        self.ops = ops
        self.point_ops = sorted(set(o[0] for o in ops))

    def _shifts(self, W):
        img0 = matvec(W, self.frac[0])
        for j in range(self.nd):
            t = tuple(self.frac[j][i] - img0[i] for i in range(3))
            dmap = []
            for d in range(self.nd):
                p = matvec(W, self.frac[d])
                p = tuple(p[i] + t[i] for i in range(3))
                for d2 in range(self.nd):
                    diff = tuple(p[i] - self.frac[d2][i] for i in range(3))
                    r = tuple(int(round(x)) for x in diff)
                    if all(abs(diff[i] - r[i]) < 1e-5 for i in range(3)):
                        dmap.append((d2, r))
                        break
                else:
                    break
            if len(dmap) == self.nd:
                yield t, tuple(dmap)

    def _arrow_perm(self, W):
        R = matmul(matmul(self.At, W), self.Ainv)
        perm = []
        for v in ARROWS:
            w = matvec(R, v)
            r = tuple(int(round(x)) for x in w)
            if any(abs(w[i] - r[i]) > 1e-5 for i in range(3)) or r not in ARROWS:
                return None
            perm.append(ARROWS.index(r))
        return tuple(perm)

    @property
    def arrows_ok(self):
        return all(o[2] is not None for o in self.ops)

    # -- superlattices -----------------------------------------------------
    def canon_hnf(self, H):
        return min(column_hnf(matmul(W, H)) for W in self.point_ops)

    @functools.lru_cache(maxsize=None)
    def unique_hnfs(self, n):
        """Canonical representative of every symmetry class of superlattices."""
        return sorted(set(self.canon_hnf(H) for H in all_hnfs(n)))

    def cells(self, H):
        return list(product(range(H[0][0]), range(H[1][1]), range(H[2][2])))

    def sites(self, H):
        c = self.cells(H)
        return [(d, z) for d in range(self.nd) for z in c]

    def _perms_to_canon(self, H):
        """All maps site->site' (as source index per target) and arrow perms
        that carry a structure on H to one on the canonical class member."""
        key = H
        if key in self._hcache:
            return self._hcache[key]
        Hc = self.canon_hnf(H)
        src = self.sites(H)
        tgt = {s: i for i, s in enumerate(self.sites(Hc))}
        cells = self.cells(Hc)
        out = set()
        for W, dmap, ap in self.ops:
            if column_hnf(matmul(W, H)) != Hc:
                continue
            base = []
            for d, z in src:
                d2, r = dmap[d]
                w = matvec(W, z)
                base.append((d2, (w[0] + r[0], w[1] + r[1], w[2] + r[2])))
            for u in cells:
                p = [0] * len(src)
                for i, (d2, w) in enumerate(base):
                    p[tgt[(d2, reduce_mod((w[0] + u[0], w[1] + u[1], w[2] + u[2]), Hc))]] = i
                out.add((tuple(p), ap))
        out = sorted(out, key=lambda o: (o[0], o[1] or ()))
        self._hcache[key] = (Hc, out)
        return self._hcache[key]

    def translations(self, H):
        """Permutations of the sites of H by its non-trivial cell translations."""
        src = self.sites(H)
        idx = {s: i for i, s in enumerate(src)}
        out = []
        for u in self.cells(H):
            if u == (0, 0, 0):
                continue
            out.append([idx[(d, reduce_mod((z[0] + u[0], z[1] + u[1], z[2] + u[2]), H))] for d, z in src])
        return out

    def superperiodic(self, H, col):
        n = len(col)
        for p in self.translations(H):
            if all(col[p[i]] == col[i] for i in range(n)):
                return True
        return False

    def canon(self, H, col):
        """Canonical key of the structure: col[i] = (label, arrow) per site in
        the order of sites(H)."""
        Hc, perms = self._perms_to_canon(H)
        best = None
        noar = all(c[1] == 0 for c in col)
        if noar:
            lab = [c[0] for c in col]
            for p, ap in perms:
                k = tuple([lab[i] for i in p])
                if best is None or k < best:
                    best = k
            best = tuple((x, 0) for x in best)
        else:
            for p, ap in perms:
                k = []
                for i in p:
                    l, a = col[i]
                    k.append((l, 0 if a == 0 else ap[a - 1] + 1))
                k = tuple(k)
                if best is None or k < best:
                    best = k
        return (six(Hc), best)

    # -- enumeration -------------------------------------------------------
    def enumerate(self, Hc, conc, narrow, supers):
        """Set of canonical keys of all structures on the superlattice class Hc
        (canonical member) with conc[i] atoms of species i, narrow[i] of which
        carry an arrow."""
        total = sum(conc)
        colors = []
        for i, c in enumerate(conc):
            na = narrow[i]
            if na:
                colors.append((i, True, na))
            if c - na:
                colors.append((i, False, c - na))
        keys = set()
        seen = set()
        for asg in _multisets(total, [c[2] for c in colors]):
            sites_ar = [j for j in range(total) if colors[asg[j]][1]]
            for dirs in product(range(1, 7), repeat=len(sites_ar)):
                col = [(colors[x][0], 0) for x in asg]
                for j, a in zip(sites_ar, dirs):
                    col[j] = (col[j][0], a)
                col = tuple(col)
                if col in seen:
                    continue
                Hx, perms = self._perms_to_canon(Hc)
                orb = set()
                for p, ap in perms:
                    orb.add(tuple([(col[i][0], 0 if col[i][1] == 0 else ap[col[i][1] - 1] + 1) for i in p]))
                seen |= orb
                if not supers and self.superperiodic(Hc, col):
                    continue
                keys.add((six(Hc), min(orb)))
        return keys

    def count(self, Hc, conc, narrow):
        return len(self.enumerate(Hc, conc, narrow, True))


def _multisets(n, counts):
    """All assignments of colors 0..len(counts)-1 to n places with the counts."""
    a = [0] * n

    def rec(i, rem):
        if i == n:
            yield tuple(a)
            return
        for c in range(len(rem)):
            if rem[c]:
                rem[c] -= 1
                a[i] = c
                yield from rec(i + 1, rem)
                rem[c] += 1
    yield from rec(0, list(counts))


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for rest in compositions(n - a, k - 1):
            yield (a,) + rest


def concentrations(size, nd, k, restricted, concs):
    """Allowed compositions of a cell of the given size."""
    n = size * nd
    out = []
    for p in compositions(n, k):
        if restricted:
            ok = True
            for i in range(k):
                lo = min(concs[i][0], concs[i][1]) / concs[i][2]
                hi = max(concs[i][0], concs[i][1]) / concs[i][2]
                if not (lo - 1e-9 <= p[i] / n <= hi + 1e-9):
                    ok = False
            if not ok:
                continue
        out.append(p)
    return out


def arrow_counts(conc, fr):
    return tuple(int(c * f + 1e-9) for c, f in zip(conc, fr))


def decode_line(line, nd):
    """A structure line of an enum.out file -> dict, or ValueError if malformed."""
    t = line.split()
    if len(t) != 28:
        raise ValueError("expected 28 fields, found %d: %r" % (len(t), line))
    v = [int(x) for x in t[:26]]
    return {"n": v[0], "idx": v[5], "size": v[6], "S": tuple(v[8:11]), "H": full(v[11:17]),
            "L": (tuple(v[17:20]), tuple(v[20:23]), tuple(v[23:26])), "lab": t[26], "dir": t[27]}


def decode_structure(st, nd, k):
    """Per-site colors in sites(H) order from a decoded line; ValueError when
    the line does not describe a structure."""
    H, L, S = st["H"], st["L"], st["S"]
    n = det3(H)
    if n != st["size"] or S[0] * S[1] * S[2] != n or min(S) < 1:
        raise ValueError("size/SNF/HNF disagree: %r" % (st,))
    if S[1] % S[0] or S[2] % S[1]:
        raise ValueError("SNF diagonal is not a divisor chain: %r" % (S,))
    if abs(det3(L)) != 1:
        raise ValueError("left transform is not unimodular: %r" % (L,))
    LH = matmul(L, H)
    for i in range(3):
        for j in range(3):
            if LH[i][j] % S[i]:
                raise ValueError("left transform does not carry HNF to SNF: %r" % (st,))
    if len(st["lab"]) != n * nd or len(st["dir"]) != n * nd:
        raise ValueError("labeling/directions have the wrong length: %r" % (st,))
    col = []
    for d in range(nd):
        for z in product(range(H[0][0]), range(H[1][1]), range(H[2][2])):
            g = [x % s for x, s in zip(matvec(L, z), S)]
            i = d * n + g[0] * S[1] * S[2] + g[1] * S[2] + g[2]
            l, a = int(st["lab"][i], 36), int(st["dir"][i])
            if not (0 <= l < k) or not (0 <= a <= 6):
                raise ValueError("bad label or direction: %r" % (st,))
            col.append((l, a))
    return H, tuple(col)


# -- POSCAR / realised structures ------------------------------------------
def parse_poscar(text):
    """A VASP file -> dict(title, scale, cell(rows, unscaled), counts, frac);
    ValueError when it is not a complete, well-formed file."""
    if not text.endswith("\n"):
        raise ValueError("file does not end with a newline")
    ln = text.split("\n")
    if len(ln) < 8:
        raise ValueError("only %d lines" % len(ln))
    scale = float(ln[1])
    cell = [tuple(float(x) for x in ln[i].split()) for i in (2, 3, 4)]
    if any(len(r) != 3 for r in cell):
        raise ValueError("bad lattice vector")
    counts = [int(x) for x in ln[5].split()]
    if ln[6].strip() != "D":
        raise ValueError("expected direct coordinates, got %r" % ln[6])
    pos = [tuple(float(x) for x in l.split()) for l in ln[7:] if l.strip()]
    if len(pos) != sum(counts) or any(len(p) != 3 for p in pos):
        raise ValueError("%d positions for %d atoms" % (len(pos), sum(counts)))
    return {"title": ln[0], "scale": scale, "cell": cell, "counts": counts, "frac": pos}


def site_targets(crystal, H, col, dvecs):
    """Cartesian (parent units) position, label and arrow of every site."""
    out = []
    i = 0
    for d in range(crystal.nd):
        for z in product(range(H[0][0]), range(H[1][1]), range(H[2][2])):
            p = matvec(crystal.At, z)
            out.append((tuple(p[j] + dvecs[d][j] for j in range(3)), col[i][0], col[i][1]))
            i += 1
    return out


def lattice_dev(cinv, p):
    """Distance vector in fractional units of p from the nearest lattice point."""
    f = matvec(cinv, p)
    return tuple(x - round(x) for x in f)


def check_realised(crystal, H, col, dvecs, ps, labels, displace, rattle, tol=2e-5):
    """The parsed file realises exactly the structure (H, col): same
    superlattice, one atom of the right species per site, displaced by
    |displace|*(1 +- rattle) along the site's arrow. labels: species of each
    position. Returns None or the reason it does not."""
    M = matmul(crystal.Ainv, transpose(ps["cell"]))
    Mi = tuple(tuple(int(round(x)) for x in r) for r in M)
    if any(abs(M[i][j] - Mi[i][j]) > 1e-5 for i in range(3) for j in range(3)):
        return "cell vectors are not parent lattice vectors: %r" % (M,)
    if det3(Mi) == 0 or column_hnf(Mi) != column_hnf(H):
        return "cell is not the superlattice of HNF %r" % (six(H),)
    Ct = transpose(ps["cell"])
    Cinv = inv3(Ct)
    left = [(matvec(Ct, f), l) for f, l in zip(ps["frac"], labels)]
    for p, lab, ar in site_targets(crystal, H, col, dvecs):
        v = (0, 0, 0) if ar == 0 else ARROWS[ar - 1]
        hit = None
        for i, (q, l) in enumerate(left):
            if l != lab:
                continue
            dv = matvec(Ct, lattice_dev(Cinv, tuple(q[j] - p[j] - v[j] * displace for j in range(3))))
            along = dot(dv, v)
            perp = max(abs(dv[j] - along * v[j]) for j in range(3))
            if perp < tol and abs(along) <= abs(displace * rattle) + tol:
                hit = i
                break
        if hit is None:
            return "no atom of species %d at %r displaced along %r" % (lab, p, v)
        left.pop(hit)
    if left:
        return "%d atoms too many" % len(left)
    return None
