"""C14: an MTP file is only added to, and what is added are the structures listed."""
import json

import base
import lab
import realise
from lab import mk_cmd
from props.c01 import crash_fault, power_spec
from props.c02 import error_fault, second_fault
from props.c13 import draws

OLDER = ["BEGIN_CFG\n Size\n    1\n SuperCell\n    1 0 0\n    0 1 0\n    0 0 1\n   AtomData:  id type       cartes_x      cartes_y      cartes_z\n"
         "             1    0       0.0  0.0  0.0\n Feature   conf_id  Al_1\nEND_CFG\n\n", "", "\n", "half of something", "x" * 9000 + "\n"]


class C14(base.Prop):
    ID = "C14"
    quick_s = 50
    rule = ("a run adds structures of a random enumeration to an MTP file that is absent, empty or holds earlier structures, once or several times, with up to one "
            "fault per request (crash, power loss, signal, I/O error, torn write, interruption of a computation); after every call that changes the directory the file "
            "has to be its earlier contents and a beginning of what is added; what a request adds is compared with the structures listed by an independent model; "
            "distinct_nontrivial counts distinct (enum.out, options, earlier contents, fault)")

    def gen(self, rng, i, tier, ctx):
        while True:
            s, files, cmd = realise.source(rng, tier)
            res, err = self.baseline(ctx, s, [cmd], files)
            if err:
                return {"system": s, "files": files, "cmd": cmd, "asks": [], "older": None}
            try:
                total = len(lab.parse_enum_out(res[0]["snap"]["enum.out"].decode(), s))
            except ValueError:
                total = 1
            if total:
                break
        asks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = realise.options(rng, s, total)
            a["zeros"] = False
            if rng.random() < 0.35:
                if a["species"] and rng.random() < 0.6:
                    # some of a longer list of species
                    names = a["species"] + [e for e in sorted(realise.VOLUME) if e not in a["species"]][:rng.choice([1, 2])]
                    rng.shuffle(names)
                    a["names"] = names
                    a["mapping"] = rng.sample(range(len(names)), s["k"])
                    a["species"] = [names[j] for j in a["mapping"]]
                elif a["species"]:
                    a["mapping"] = rng.sample(range(9 if s["k"] < 9 else 20), s["k"])
            a["rng"] = draws(rng)
            a["entropy"] = rng.randrange(1 << 30)
            a["power"] = power_spec(rng)
            a["place"] = [rng.random(), rng.random()]
            r = rng.random()
            a["fault"] = None
            if r < 0.7:
                ops, calls = self.trial(ctx, s, res[0]["snap"]["enum.out"], a)
                if ops:
                    a["fault"] = crash_fault(rng, ops) if r < 0.35 else error_fault(rng, ops) if r < 0.6 else base.calc_fault(rng, calls)
                    if a["fault"]["kind"] == "errno" and rng.random() < 0.3:
                        a["then"] = second_fault(rng, True)
            asks.append(a)
        return {"system": s, "files": files, "cmd": cmd, "asks": asks, "older": rng.choice([None, None] + OLDER)}

    def cmd_of(self, a):
        return mk_cmd(*[str(x) for x in realise.argv(a)], "-config", "t", "-outfile", "train.cfg")

    def trial(self, ctx, s, text, a):
        """Calls of a fault-free request."""
        w = ctx.world("trial")
        w.put("enum.out", text)
        p = self.step(w, dict(self.cmd_of(a), rng=a["rng"], entropy=a["entropy"], points=[]))
        ops = [(e[1], e[2]) for e in w.log if e[0] == 0]
        w.close()
        return ops, p.ncalls

    def run(self, sc, ctx):
        o = base.Outcome()
        s = sc["system"]
        res, err = self.baseline(ctx, s, [sc["cmd"]], sc["files"])
        if err:
            o.fail("baseline", err)
            return o
        text = res[0]["snap"]["enum.out"]
        try:
            judge = realise.Judge(text.decode(), s)
        except (ValueError, IndexError) as e:
            o.fail("enumeration", "enum.out is malformed: %s" % e)
            return o
        w = ctx.world()
        w.put("enum.out", text)
        if sc["older"] is not None:
            w.put("train.cfg", sc["older"])
        for a in sc["asks"]:
            cmd = self.cmd_of(a)
            nums = realise.wanted(a, len(judge.structs))
            # what an undisturbed request adds to an empty file, with the same draws
            q = ctx.world("alone")
            q.put("enum.out", text)
            p = self.step(q, dict(cmd, rng=a["rng"], entropy=a["entropy"]))
            adds = q.get("train.cfg") or b""
            q.close()
            if not p.ok():
                o.fail("status", "%s ended with status %s: %s" % (base.cmd_text(cmd), p.code, p.out[-500:]))
                break
            try:
                blocks = realise.parse_cfg(adds.decode())
                r = None
                if len(blocks) != len(nums):
                    r = "%d structures for %d" % (len(blocks), len(nums))
                for n, b in zip(nums, blocks):
                    if r is None:
                        r = judge.block(b, n, a)
                        r = r and "structure %d: %s" % (n, r)
            except (ValueError, IndexError) as e:
                r = "malformed: %s" % e
            if r:
                o.fail("structure", "%s: %s" % (base.cmd_text(cmd), r))
                break
            for fault in ([a["fault"]] if a["fault"] else []) + [None]:
                was = w.get("train.cfg") or b""

                def observer(world, p, cls, name):
                    now = world.get("train.cfg") or b""
                    if o.fails:
                        return
                    if not now.startswith(was):
                        o.fail("lost", "during %s (after %s) train.cfg does not begin with its earlier contents (%s): %s" % (
                            base.cmd_text(cmd), cls, lab.short(was, 40), lab.short(now, 80)))
                        return
                    new = now[len(was):]
                    if cls == "power":
                        new = new.rstrip(b"\0")
                    if not adds.startswith(new):
                        o.fail("added", "during %s (after %s) train.cfg gets something else than the structures: %s" % (base.cmd_text(cmd), cls, lab.short(new, 80)))
                n0 = dict(w.fired)
                before = lab.snap(w)
                p = self.step(w, dict(cmd, rng=a["rng"], entropy=a["entropy"]), [fault] + ([a["then"]] if a.get("then") else []) if fault else (), observer=observer, power=a["power"])
                hit = sorted(k for k in w.fired if w.fired[k] != n0.get(k, 0))
                power = w.crashed == "power"
                observer(w, p, "power" if power else "end", "")
                now = w.get("train.cfg") or b""
                if o.fails:
                    break
                if p.hang:
                    o.fail("hang", "%s did not end" % base.cmd_text(cmd))
                elif p.ok() and not power and now != was + adds:
                    o.fail("silent", "%s ended with status 0 after %s and added %d of %d bytes" % (base.cmd_text(cmd), hit, len(now) - len(was), len(adds)))
                elif not p.ok() and not hit:
                    o.fail("status", "%s ended with status %s: %s" % (base.cmd_text(cmd), p.code, p.out[-500:]))
                d = lab.diff_snap({n: v for n, v in before.items() if n != "train.cfg"}, {n: v for n, v in lab.snap(w).items() if n != "train.cfg"})
                if d and not o.fails:
                    o.fail("other", "%s changed another file: %s" % (base.cmd_text(cmd), d))
                if nums and not o.fails:
                    o.keys.append(json.dumps([lab.norm(text).decode("utf-8", "replace"), realise.argv(a), len(was), hit, base.brief([e for e in w.log if e[0] == 0])]))
                if o.fails:
                    break
            if o.fails:
                break
        o.absorb(w)
        w.close()
        return o

    def shrink(self, sc):
        for k in range(len(sc["asks"])):
            if len(sc["asks"]) > 1:
                n = base.clone(sc)
                n["asks"].pop(k)
                yield n
        if sc["older"] is not None:
            n = base.clone(sc)
            n["older"] = None
            yield n
        for k, a in enumerate(sc["asks"]):
            if a["fault"]:
                n = base.clone(sc)
                n["asks"][k]["fault"] = None
                yield n
            if a.get("then"):
                n = base.clone(sc)
                del n["asks"][k]["then"]
                yield n
            if a["which"] == ["all"]:
                for j in (1, 2, 3, 5, 8):
                    n = base.clone(sc)
                    n["asks"][k]["which"] = [str(j)]
                    yield n
            for f, v in (("rattle", 0.0), ("displace", 0.0), ("mink", "f"), ("rng", {"mode": "real"})):
                if a[f] != v:
                    n = base.clone(sc)
                    n["asks"][k][f] = v
                    yield n


PROP = C14()
