"""C02: an I/O error is never turned into a silently wrong result."""
import json

import base
import lab
import systems
import workflows


def error_fault(rng, ops):
    r = rng.random()
    if r < 0.12:
        return {"proc": 0, "at": base.pick_op(rng, ops, ("opendir",)) or 0, "kind": "readdir", "pick": rng.randint(1, 4)}
    at = base.pick_op(rng, ops)
    if r < 0.2:
        return {"proc": 0, "at": at, "kind": rng.choice(["short", "eintr"]), "frac": rng.choice([0.0, 0.3, 0.9])}
    f = {"proc": 0, "at": at, "kind": "errno", "pick": rng.randrange(8)}
    if r < 0.45:  # a condition that lasts: full disk, dead device, no descriptors
        what, errs = rng.choice([(["write", "create", "closew", "fsync", "mkdir"], ["ENOSPC", "EDQUOT", "EROFS"]),
                                 (["openread", "read", "stat", "opendir"], ["EIO"]), (["openread", "create", "opendir"], ["EMFILE"]),
                                 (["rename", "unlink", "link"], ["EACCES", "EIO"]), (["write", "fsync", "closew", "read"], ["EIO"]),
                                 (["stat", "openread", "opendir"], ["EACCES"])])
        f.update(ops=what, errno=rng.choice(errs), until=rng.choice([None, None, at + rng.randint(1, 12)]))
    return f


def second_fault(rng, crash=False):
    """Strikes right after an error, while it is handled."""
    f = {"proc": 0, "rel": rng.choice([1, 1, 2, 2, 3, 4, 6]), "kind": "errno", "pick": rng.randrange(8)}
    if crash and rng.random() < 0.4:
        f["kind"] = rng.choice(["kill", "power", "torn_kill", "torn_power", "sigterm", "sigint"])
        f["frac"] = rng.choice([0.0, 0.5, 0.9])
    elif rng.random() < 0.5:
        what, err = rng.choice([(["write", "create", "closew", "fsync"], "ENOSPC"), (["write", "closew", "fsync"], "EIO"), (["unlink"], "EIO"),
                                (["unlink"], "EACCES"), (["rename"], "EACCES"), (["openread", "read"], "EIO")])
        f.update(ops=what, errno=err, rel=1, until=rng.choice([None, 4, 12]))
    return f


class C02(base.Prop):
    ID = "C02"
    rule = ("a run is one workflow on one of %d small systems whose commands meet 1-3 single or lasting I/O errors (ENOSPC, EIO, "
            "EACCES, EMFILE, EROFS, EDQUOT, EINTR, short reads and writes, errors in the middle of reading a directory), are rerun, "
            "and finally run without errors; distinct_nontrivial counts distinct (workflow, system, failing call, file, error) "
            "combinations in which at least one fault fired" % len(systems.TINY))

    def gen(self, rng, i, tier, ctx):
        wf = workflows.gen(rng)
        res, err = self.baseline(ctx, wf["system"], wf["cmds"], wf["files"])
        sc = dict(wf, attempts=[])
        where = [rng.randrange(len(wf["cmds"])) for _ in range(rng.choice([1, 1, 2, 3]))]
        for c in range(len(wf["cmds"])):
            ops = res[c]["ops"] if c < len(res) and res[c]["ops"] else [("stat", "")]
            sc["attempts"].append([[error_fault(rng, ops) for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(where.count(c))])
            for a in sc["attempts"][-1]:
                if rng.random() < 0.25:
                    a.insert(0, second_fault(rng))
        return sc

    def run(self, sc, ctx):
        o = base.Outcome()
        res, err = self.baseline(ctx, sc["system"], sc["cmds"], sc["files"])
        if err:
            o.fail("baseline", err)
            return o
        w = ctx.world()
        base.setup(w, sc["system"], sc["files"])
        inputs = {n: w.get(n) for n in w.listing()}
        fired = []
        for c, cmd in enumerate(sc["cmds"]):
            want = res[c]["snap"]
            done = False
            for att in sc["attempts"][c] + [[]]:
                before = lab.snap(w)
                n0 = sum(w.fired.values())
                p = self.step(w, cmd, att)
                hit = sum(w.fired.values()) > n0
                if hit:
                    fired.append([[base.brief([e]), e[5]] for e in w.log if e[0] == 0 and e[4]][-3:])
                have = lab.snap(w)
                if p.hang:
                    o.fail("hang", "%s did not end" % base.cmd_text(cmd))
                    break
                if p.ok():
                    d = lab.diff_snap(want, {n: v for n, v in have.items() if n in want or lab.RESULT.match(n)})
                    if d:
                        o.fail("silent" if att else "different", "%s ended with status 0 after %s but %s" % (base.cmd_text(cmd), fired, d))
                    done = True
                    break
                if not att:
                    o.fail("no-recovery", "%s fails (status %s) when it is run again once the errors have stopped %s: %s" % (
                        base.cmd_text(cmd), p.code, fired, p.out[-500:]))
                    break
                for n in sorted(set(want) | set(before) | {x for x in have if lab.RESULT.match(x)}):
                    if have.get(n) not in (before.get(n), want.get(n)) or (have.get(n) is None and before.get(n) is not None):
                        o.fail("damage", "%s failed (status %s, %s) and left %s as %s" % (base.cmd_text(cmd), p.code, fired, n, lab.short(have.get(n))))
                        break
                if o.fails:
                    break
            if o.fails:
                break
        for n, v in inputs.items():
            if w.get(n) != v:
                o.fail("input", "input file %s changed" % n)
        if fired:
            o.keys.append(json.dumps([sc["kind"], base.sysname(sc["system"]), fired]))
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        for c in range(len(sc["attempts"])):
            for k in range(len(sc["attempts"][c])):
                n = base.clone(sc)
                n["attempts"][c].pop(k)
                yield n
                if len(sc["attempts"][c][k]) > 1:
                    for j in range(len(sc["attempts"][c][k])):
                        n = base.clone(sc)
                        n["attempts"][c][k].pop(j)
                        yield n
        for d in workflows.smaller(sc):
            n = base.clone(sc)
            n.update(d)
            n["attempts"] = n["attempts"][:len(n["cmds"])]
            yield n
        for c in range(len(sc["attempts"])):
            for k in range(len(sc["attempts"][c])):
                for j, f in enumerate(sc["attempts"][c][k]):
                    if "until" in f:
                        n = base.clone(sc)
                        del n["attempts"][c][k][j]["until"]
                        yield n


PROP = C02()
