"""C06: a sample of the structures is correct whatever the random draws."""
import sampling


class C06(sampling.Sampling):
    ID = "C06"
    quick_s = 60
    rule = ("a run asks for part of the structures of a random crystal, through -distribution or a hand-written enum.in (large cells, "
            "displacements, pure displacements, acceptance rates), with random draws decided by the simulator (fair, lowest, highest, "
            "alternating, mixed); every structure written is checked against the request with the independent model; distinct_nontrivial "
            "counts distinct (crystal, request, command)")

    def gen(self, rng, i, tier, ctx):
        if i % 40 == 3:
            # the known finding is looked at in every batch
            s = {"lat": "tric", "sizes": [12, 12], "k": 4, "basis": [[0.0, 0.0, 0.0]]}
            return {"kind": "guess", "system": s, "rows": [[[1, 0, 1, 5, 3, 12], [3, 5, 2, 2], 2]], "cmd": sampling.enum_cmd("-enum", "-seed", i),
                    "rng": {"mode": "real", "limit": 20000000}, "entropy": i, "listing": 0}
        return super().gen(rng, i, tier, ctx)

    def amount(self, rng, av):
        if av is None:
            return rng.choice([1, 2, 3, 5, 8])
        if av == 0:
            return rng.choice([0, 1])
        r = rng.random()
        if r < 0.6:
            return rng.randint(1, av)
        if r < 0.8:
            return av
        return av + rng.choice([1, 2, 10])

    def extra(self, rng, kind):
        if kind in ("rows", "dist", "small") and rng.random() < 0.2:
            return ["-acceptrate", rng.choice(["0.5", "0.25", "0.9", "1.0", "0.01"])]
        return []


PROP = C06()
