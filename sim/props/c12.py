"""C12: files that are none of a command's outputs neither change nor matter."""
import json
import os

import base
import lab
import systems
import workflows
from props.c01 import crash_fault, power_spec
from props.c02 import error_fault, second_fault

NAMES = ["polya.out.2~", "polya.out.bak", "polya.out.0", "polya.out.07", "polya.out.2.old", "xpolya.out.2", "polya.out.", "polya.out",
         "polya_out_2", "polya.out.-1", "polya.out.+3", "polya.out.2a", "polya.out.1e1", "polya.out.1.5", "#polya.out.2#", ".polya.out.2.swp",
         "POLYA.OUT.2", "polya.out.\u0663", "polya.out.2 ", "polya.out.bak.3", "polya-out.4", "polya.in.2", "my.polya.out.3", "polya.out.10.gz",
         "enum.in~", "enum.in.bak", "enum.in.1", "enum.out.1", "enum.out.bak", "enum.out~", "enum", "struct_enum.out", "struct_enum.in",
         "vasp", "vasp.bak", "vasp.1.bak", "vasp.", "vasp.x", "vasp.999", "pos_", "pos_999", "POSCAR", "CONTCAR", "lattice.in~", "lattice.in.old",
         "lattice", "notes.txt", "a b.txt", "\u00fc.txt", "odd\udcff", "count.log", "share.txt.old", "nohup.out", "core", "tmp", "x.tmp",
         ".polya.out.1.tmp", "enum.out.tmp", "polya.out.1.tmp", ".nfs0001",
         "old/polya.out.2", "old/enum.in", "old/enum.out", "polya.out.d/polya.out.1", "enum/enum.out", "polya/polya.out.1", "vasp.d/vasp.1"]
SCRATCH = [".polya.out.1.%s.tmp", ".enum.out.%s.tmp", ".enum.in.%s.tmp", ".vasp.1.%s.tmp"]


def content(rng):
    k = rng.choice(["empty", "noise", "bytes", "polya", "enum.in", "lattice", "real", "real"])
    if k == "polya":
        s = rng.choice(systems.TINY)
        return ["text", "# HNF                       0:2       1:1       Total     \n  1 0 1 0 0 2               7         9         16        \n"]
    if k == "enum.in":
        return ["text", "# HNF Conc N\n  1 0 1 0 0 2  1 1  5\n"]
    if k == "lattice":
        return ["text", systems.lattice_text(rng.choice(systems.TINY))]
    if k == "real":
        return ["real", rng.choice(["polya", "enum.in", "enum.out"])]
    return ["text", {"empty": "", "noise": "keep me\n", "bytes": "\x00\x01binary\n"}[k]]


class C12(base.Prop):
    ID = "C12"
    quick_s = 50
    rule = ("a run is one workflow on one of %d small systems in a directory where other files lie about (backups, editor copies, left-over scratch files, "
            "numbers that are no cell sizes, results of other systems under similar names, subdirectories), some of them arriving between the commands, with up to "
            "one fault per command; after every call that changes the directory every file that is no output of the command is compared; distinct_nontrivial "
            "counts distinct (workflow, system, other files, fault)" % len(systems.TINY))

    def gen(self, rng, i, tier, ctx):
        wf = workflows.gen(rng)
        res, err = self.baseline(ctx, wf["system"], wf["cmds"], wf["files"])
        taken = set(wf["files"]) | {"lattice.in"}
        for r in res:
            taken |= set(r["snap"])
        sc = dict(wf, stray=[], faults=[])
        pool = [n for n in NAMES if n not in taken]
        if wf["kind"] == "names":
            pool += 3 * ["polya.out.1", "polya.out.2", "polya.out.9", "enum.in", "enum.out", "lattice.in"]
        elif wf["kind"] == "polya":
            pool += 3 * [n for n in ("polya.out.8", "polya.out.9", "polya.out.11", "enum.in", "enum.out", "vasp.1") if n not in taken]
        elif wf["kind"] in ("dist", "filterdist"):
            pool += 2 * [n for n in ("enum.in", "enum.out", "vasp.1") if n not in taken]
        hi = max(wf["system"]["sizes"])
        got = set()
        for _ in range(rng.choice([1, 2, 4, 8])):
            n = rng.choice(pool)
            when = 0 if rng.random() < 0.75 else rng.randrange(len(wf["cmds"]))
            if rng.random() < 0.1:
                n = rng.choice(SCRATCH) % ("%032x" % rng.getrandbits(128))
            if n in got or any(g.startswith(n + "/") or n.startswith(g + "/") for g in got | taken):
                continue
            got.add(n)
            c = content(rng)
            sc["stray"].append([when, n, c])
        for c in range(len(wf["cmds"])):
            f = None
            r = rng.random()
            ops = res[c]["ops"] if c < len(res) and res[c]["ops"] else [("stat", "")]
            if r < 0.2:
                f = crash_fault(rng, ops)
            elif r < 0.4:
                f = error_fault(rng, ops)
            elif r < 0.45 and c < len(res):
                f = base.calc_fault(rng, res[c]["calls"])
            sc["faults"].append([f] if f else [])
            if f and f["kind"] == "errno" and rng.random() < 0.3:
                sc["faults"][-1].append(second_fault(rng, True))
        sc["power"] = power_spec(rng)
        sc["listing"] = rng.randrange(6)
        if rng.random() < 0.08:
            # an input is not there, only files whose names come close
            c = rng.randrange(len(wf["cmds"]))
            have = sorted(set(res[c - 1]["snap"]) if c and c <= len(res) else set(wf["files"]) | {"lattice.in"})
            have = [n for n in have if not n.startswith("vasp")] or ["lattice.in"]
            n = rng.choice(have + ["lattice.in"] * ("lattice.in" in have))
            near = [n + "~", n + ".bak", n + ".old", n + ".orig", n + ".1", n.upper(), n.capitalize(), "old/" + n, "#%s#" % n, ".%s.swp" % n,
                    n.rsplit(".", 1)[0], n + " ", n + ".tmp", "." + n, "my." + n, "struct_" + n, "../" + n] + [
                        ".%s.%032x.tmp" % (n, rng.getrandbits(128))] * 2
            near = [x for x in near if x not in taken and "../" not in x and x != n]
            sc["absent"] = {"c": c, "name": n, "near": rng.sample(near, min(len(near), rng.choice([1, 3, 6])))}
        return sc

    def data(self, c, ctx):
        if c[0] == "text":
            return c[1].encode()
        other = systems.TINY[7]
        res, err = self.baseline(ctx, other, [lab.enum_cmd("-enum")])
        name = {"polya": "polya.out.2"}.get(c[1], c[1])
        return res[0]["snap"].get(name, b"nothing")

    def run(self, sc, ctx):
        o = base.Outcome()
        res, err = self.baseline(ctx, sc["system"], sc["cmds"], sc["files"])
        if err:
            o.fail("baseline", err)
            return o
        if sc.get("absent"):
            return self.run_absent(sc, ctx, o)
        w = ctx.world()
        base.setup(w, sc["system"], sc["files"])
        mine = {}
        prev = lab.snap(w)
        fired = []
        for c, cmd in enumerate(sc["cmds"]):
            for when, n, d in sc["stray"]:
                if when == c:
                    base.setup(w, None, {n: self.data(d, ctx)})
                    mine[n] = self.data(d, ctx)
            want = res[c]["snap"]
            out = {n for n in want if want[n] != prev.get(n)}
            keep = dict(prev)
            keep.update(mine)
            keep = {n: v for n, v in keep.items() if n not in out or n in mine}
            raw = {n: w.get(n) for n in keep}

            def observer(world, p, cls, name):
                if o.fails:
                    return
                for n, v in raw.items():
                    # an enumeration done twice gives the same file with another time stamp
                    if world.get(n) != v and (n in mine or lab.norm(world.get(n)) != lab.norm(v)):
                        # a left-over scratch file may be cleared away by the next command
                        if n.startswith(".") and n.endswith(".tmp") and len(n) > 36 and world.get(n) is None:
                            continue
                        o.fail("touched", "%s (after %s %s) changed %s: %s -> %s" % (
                            base.cmd_text(cmd), cls, core_name(name), n, lab.short(v, 40), lab.short(world.get(n), 60)))
                        return
            for faults in ([sc["faults"][c]] if sc["faults"][c] else []) + [[]]:
                n0 = dict(w.fired)
                hidden = {n for n in w.listing() if not lab.visible(n)}
                l0 = len(w.log)
                p = self.step(w, dict(cmd, listing=sc["listing"]), faults, observer=observer, power=sc["power"])
                if any(w.fired[k] != n0.get(k, 0) for k in w.fired):
                    fired.append([sorted(k for k in w.fired if w.fired[k] != n0.get(k, 0)), base.brief([e for e in w.log if e[0] == 0])])
                observer(w, p, "end", "")
                if p.code is not None and p.code >= 0 and w.crashed is None and not o.fails and not undone(w.log[l0:]) and all(
                        f["kind"] in ("errno", "short", "eintr", "readdir") for f in faults):
                    left = sorted(n for n in w.listing() if not lab.visible(n) and n not in hidden and n not in mine)
                    if left:
                        o.fail("left", "%s ended with status %s and left %s behind" % (base.cmd_text(cmd), p.code, core_name(left[0])))
                if w.denied and not o.fails:
                    o.fail("outside", "%s wants to change %s" % (base.cmd_text(cmd), w.denied[0]))
                if o.fails or (p.ok() and w.crashed is None):
                    break
            if o.fails:
                break
            if p.hang:
                o.fail("hang", "%s did not end" % base.cmd_text(cmd))
                break
            if not p.ok():
                o.fail("status", "%s ended with status %s next to %s: %s" % (base.cmd_text(cmd), p.code, sorted(mine), p.out[-500:]))
                break
            have = {n: v for n, v in lab.snap(w).items() if n not in mine}
            d = lab.diff_snap({n: v for n, v in want.items() if n not in mine}, have)
            if d:
                o.fail("different", "%s gives other results next to %s: %s" % (base.cmd_text(cmd), sorted(mine), d))
                break
            prev = want
        if mine:
            o.keys.append(json.dumps([sc["kind"], base.sysname(sc["system"]), sc["cmds"], sc["stray"], fired]))
            o.count("other_files", len(mine))
        o.absorb(w)
        w.close()
        return o

    def run_absent(self, sc, ctx, o):
        """An input is missing: whatever lies about under other names is no substitute."""
        a = sc["absent"]
        seen = []
        for tempted in (False, True):
            w = ctx.world()
            base.setup(w, sc["system"], sc["files"])
            for cmd in sc["cmds"][:a["c"]]:
                self.step(w, cmd)
            text = w.get(a["name"]) or b""
            w.remove(a["name"])
            if tempted:
                base.setup(w, None, {n: text for n in a["near"]})
            cmd = sc["cmds"][a["c"]]
            p = self.step(w, dict(cmd, listing=sc["listing"]))
            near = [n for n in a["near"] if tempted]
            for n in near:
                # scratch files may be cleared away
                if w.get(n) != text and not (n.endswith(".tmp") and n.startswith(".") and w.get(n) is None):
                    o.fail("touched", "%s without %s changed %s" % (base.cmd_text(cmd), a["name"], core_name(n)))
            if w.denied:
                o.fail("outside", "%s wants to change %s" % (base.cmd_text(cmd), w.denied[0]))
            seen.append((p.ok(), {n: v for n, v in lab.snap(w).items() if n not in near}))
            o.count("input_missing")
            o.absorb(w)
            w.close()
        if not o.fails:
            d = lab.diff_snap(seen[0][1], seen[1][1])
            if seen[0][0] != seen[1][0]:
                d = d or ("fails" if seen[0][0] else "succeeds")
            if d:
                o.fail("different", "%s without %s, next to %s instead: %s" % (
                    base.cmd_text(cmd), a["name"], [core_name(n) for n in a["near"]], d))
        o.keys.append(json.dumps([sc["kind"], base.sysname(sc["system"]), sc["cmds"][a["c"]], a["name"], [core_name(n) for n in a["near"]]]))
        return o

    def shrink(self, sc):
        if sc.get("absent"):
            for k in range(len(sc["absent"]["near"])):
                if len(sc["absent"]["near"]) > 1:
                    n = base.clone(sc)
                    n["absent"]["near"].pop(k)
                    yield n
            return
        for k in range(len(sc["stray"])):
            n = base.clone(sc)
            n["stray"].pop(k)
            yield n
        for k, f in enumerate(sc["faults"]):
            if f:
                n = base.clone(sc)
                n["faults"][k] = []
                yield n
        if sc["listing"]:
            n = base.clone(sc)
            n["listing"] = 0
            yield n
        for k, (when, name, d) in enumerate(sc["stray"]):
            if d != ["text", "keep me\n"]:
                n = base.clone(sc)
                n["stray"][k][2] = ["text", "keep me\n"]
                yield n
            if when:
                n = base.clone(sc)
                n["stray"][k][0] = 0
                yield n
        for d in workflows.smaller(sc):
            n = base.clone(sc)
            n.update(d)
            n["faults"] = n["faults"][:len(n["cmds"])]
            n["stray"] = [x for x in n["stray"] if x[0] < len(n["cmds"])]
            yield n


def undone(log):
    """Whether a scratch file could not be removed."""
    return any(len(e) > 7 and e[1] == "unlink" and isinstance(e[7], int) and e[7] < 0 for e in log)


def core_name(name):
    return base.core.mask(str(name))


PROP = C12()
