"""C07: picking structures ends, and finds all there are when as many or more are wanted."""
import math

import lab
import refmodel as M
import sampling


class C07(sampling.Sampling):
    ID = "C07"
    quick_s = 50
    rule = ("a run asks for as many structures as there are, a few less, or more, where the random searches run (small share, "
            "displacements in large cells) and elsewhere, with adverse random draws first and fair ones afterwards; the command has to end "
            "within a number of draws that follows from the number of candidates, and to return exactly what there is; "
            "distinct_nontrivial counts distinct (crystal, request, command)")

    def kinds(self, rng):
        return rng.choice(["arrowguess", "arrowguess", "arrowguess", "rows", "dist", "guess", "guess", "small"])

    def amount(self, rng, av):
        if av is None:
            return rng.choice([1, 3, 6, 10])
        return max(1, av + rng.choice([-2, -1, -1, 0, 0, 1, 2, 7, 30]))

    def script(self, rng, s, rows, kind=None):
        d = sampling.rng_script(rng, real=False)
        k = 1
        if rows:
            fr = lab.arrow_fracs(s)
            for h, c, m in rows:
                k += min(200000, sampling.labelings(c, M.arrow_counts(c, fr)))
        else:
            k += 4000
        # drawing every one of k candidates takes about k ln k draws; several draws each, rejected ones included
        d["limit"] = int(4 * (1000 + d.get("burst", 0)) + 200 * k * (math.log(k) + 10))
        return d

    def run(self, sc, ctx):
        o = super().run(sc, ctx)
        o.known = []  # how the species are numbered is a matter of C06
        return o


PROP = C07()
