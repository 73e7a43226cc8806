"""C04: damaged count files are noticed."""
import json

import base
import lab
import systems
from lab import enum_cmd


def damage(data, d):
    """Applies one damage description to the bytes of a file."""
    n = len(data)
    k = d["kind"]
    if k == "truncate":
        return data[:min(n, int(d["at"] * n))]
    if k == "zero_tail":
        a = min(n, int(d["at"] * n))
        return data[:a] + b"\0" * (n - a)
    if k == "zero_block":
        a = min(n, int(d["at"] * n))
        b = min(n, a + d["len"])
        return data[:a] + b"\0" * (b - a) + data[b:]
    if k == "empty":
        return b""
    lines = data.split(b"\n")
    body = len(lines) - (1 if lines[-1] == b"" else 0)
    i = min(body - 1, int(d["at"] * body))
    if k == "lose_line":
        return b"\n".join(lines[:i] + lines[i + d.get("n", 1):])
    if k == "dup_line":
        return b"\n".join(lines[:i + 1] + lines[i:i + 1] + lines[i + 1:])
    if k == "count":
        rows = [j for j in range(1, body) if not lines[j].startswith(b"#")]
        if not rows:
            return data
        j = rows[min(len(rows) - 1, int(d["at"] * len(rows)))]
        tok = lines[j].split()
        if len(tok) <= 7:
            return data
        c = 6 + int(d["col"] * (len(tok) - 6))
        if not tok[c].isdigit():
            return data
        v = int(tok[c])
        w = max(0, v + d["by"])
        if w == v:
            w = v + 1
        tok[c] = str(w).encode()
        lines[j] = b"  " + b"  ".join(tok)
        return b"\n".join(lines)
    raise ValueError(k)


def empty_loss(old, new):
    """Nothing but rows without any structure are missing: nothing tells, and nothing is lost."""
    a, b = old.split(b"\n"), new.split(b"\n")
    if len(b) >= len(a):
        return False
    j, gone = 0, []
    for x in a:
        if j < len(b) and b[j] == x:
            j += 1
        else:
            gone.append(x.split())
    return j == len(b) and all(len(x) >= 7 and x[0].isdigit() and x[0] != b"0" and x[-1] == b"0" for x in gone)


class C04(base.Prop):
    ID = "C04"
    rule = ("a run makes the count files of one of %d small systems, damages 1-2 of them (cut, zeroed, lost, repeated or changed "
            "parts, as failing storage leaves them) and builds a distribution or an enumeration on them; distinct_nontrivial counts "
            "distinct (system, command, file, damaged bytes) cases where the damage changed the file" % len(systems.TINY))

    def gen(self, rng, i, tier, ctx):
        s = rng.choice(systems.TINY)
        n = rng.randint(1, 12)
        cmd = rng.choice([enum_cmd("-distribution", "all", "all"), enum_cmd("-enum"), enum_cmd("-distribution", "all", n, "-seed", 5),
                          enum_cmd("-enum", "-distribution", "all", n, "-seed", 5),
                          enum_cmd("-distribution", rng.choice(["size", "shape", "conc"]), n, "-seed", 5, "-savedist"),
                          enum_cmd("-distribution", "shape", "all", "-savedist")])
        sizes = list(range(s["sizes"][0], s["sizes"][1] + 1))
        dam = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(["truncate", "truncate", "zero_tail", "zero_block", "empty", "lose_line", "lose_line", "dup_line", "count", "count"])
            d = {"file": "polya.out.%d" % rng.choice(sizes), "kind": k, "at": rng.random()}
            if rng.random() < 0.3:  # near the end, where a torn write shows
                d["at"] = 1 - rng.random() * 0.2
            if k == "zero_block":
                d["len"] = rng.choice([8, 64, 512])
            if k == "lose_line":
                d["n"] = rng.choice([1, 1, 2, 3])
            if k == "count":
                d.update(col=rng.random(), by=rng.choice([-2, -1, 1, 2, 10, 100]))
            dam.append(d)
        pre = rng.random() < 0.4
        return {"system": s, "cmd": cmd, "damage": dam, "pre": pre, "listing": rng.randrange(5)}

    def run(self, sc, ctx):
        o = base.Outcome()
        cmds = [enum_cmd("-polya"), sc["cmd"]]
        res, err = self.baseline(ctx, sc["system"], cmds)
        if err:
            o.fail("baseline", err)
            return o
        w = ctx.world()
        base.setup(w, sc["system"])
        for n, d in res[0]["snap"].items():
            w.put(n, d)
        if sc["pre"]:
            # an older enumeration is already there
            w.put("enum.out", b"older results\n")
            if "-enum" not in sc["cmd"]["argv"]:
                w.put("enum.in", b"older choice\n")
        changed = []
        for d in sc["damage"]:
            old = w.get(d["file"])
            if old is None:
                continue
            new = damage(old, d)
            if new != old and not empty_loss(old, new):
                w.put(d["file"], new)
                o.count("damage_" + d["kind"])
                changed.append((d["file"], d["kind"], len(new), base.lab.norm(new)[-20:].hex()))
        before = lab.snap(w)
        p = self.step(w, dict(sc["cmd"], listing=sc["listing"]))
        have = lab.snap(w)
        if p.hang:
            o.fail("hang", "%s did not end" % base.cmd_text(sc["cmd"]))
        elif p.ok():
            want = dict(before)
            want.update({n: v for n, v in res[1]["snap"].items() if not n.startswith("polya.out.")})
            d = lab.diff_snap(want, have)
            if d:
                o.fail("accepted", "%s ended with status 0 on damaged count files %s: %s" % (base.cmd_text(sc["cmd"]), changed, d))
        else:
            d = lab.diff_snap(before, have)
            if d:
                o.fail("changed", "%s refused the damaged files %s but changed the directory: %s" % (base.cmd_text(sc["cmd"]), changed, d))
            if not changed:
                o.fail("refused", "%s fails on undamaged files: %s" % (base.cmd_text(sc["cmd"]), p.out[-400:]))
        if changed:
            o.keys.append(json.dumps([base.sysname(sc["system"]), sc["cmd"]["argv"], changed]))
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        for k in range(len(sc["damage"])):
            if len(sc["damage"]) > 1:
                n = base.clone(sc)
                n["damage"].pop(k)
                yield n
        if sc["pre"]:
            n = base.clone(sc)
            n["pre"] = False
            yield n
        if sc["listing"]:
            n = base.clone(sc)
            n["listing"] = 0
            yield n
        if sc["cmd"]["argv"] != ["-distribution", "all", "all"]:
            n = base.clone(sc)
            n["cmd"] = enum_cmd("-distribution", "all", "all")
            yield n
        if base.sysrank(sc["system"]) > 0 and sc["damage"][0]["file"] in ("polya.out.1", "polya.out.2"):
            n = base.clone(sc)
            n["system"] = systems.TINY[0]
            yield n


PROP = C04()
