"""Command sequences a user runs, over the small systems."""
import refmodel as M
import systems
from lab import enum_cmd, mk_cmd


def total_guess(s):
    return 3 + 4 * sum(range(s["sizes"][0], s["sizes"][1] + 1))


def gen(rng, kinds=None, with_mk=True):
    """-> (system, [commands], {extra input files}); fault-free, repeatable."""
    s = rng.choice(systems.TINY)
    kind = rng.choice(kinds or ["staged", "enum", "enum", "sampled", "staged_n", "super", "names", "dist", "sizes", "redo", "polya", "filter", "filter"])
    seed = rng.randrange(1000)
    n = rng.randint(1, total_guess(s))
    files = {}
    if kind == "staged":
        cmds = [enum_cmd("-polya"), enum_cmd("-distribution", "all", "all"), enum_cmd("-enum")]
    elif kind == "enum":
        cmds = [enum_cmd("-enum")]
    elif kind == "polya":
        cmds = [enum_cmd("-polya")]
    elif kind == "sampled":
        cmds = [enum_cmd("-enum", "-distribution", "all", n, "-seed", seed, *(["-acceptrate", "0.5"] if rng.random() < 0.15 else []))]
    elif kind == "staged_n":
        cmds = [enum_cmd("-polya"), enum_cmd("-distribution", "all", n, "-seed", seed), enum_cmd("-enum", "-seed", seed)]
    elif kind == "super":
        cmds = [enum_cmd("-enum", "-super")]
    elif kind == "names":
        files = {"my.lat": systems.lattice_text(s)}
        cmds = [enum_cmd("-polya", "-lattice", "my.lat", "-outfile", "count"),
                enum_cmd("-distribution", "all", "all", "-lattice", "my.lat", "-input", "count", "-outfile", "pick.in"),
                enum_cmd("-enum", "-lattice", "my.lat", "-input", "pick.in", "-outfile", "found.out")]
    elif kind == "dist":
        what = rng.choice(["size", "shape", "conc"])
        cmds = [enum_cmd("-distribution", what, rng.choice(["all", n]), "-seed", seed, "-savedist", "-outfile", "share.txt")]
    elif kind == "sizes":
        a, b = s["sizes"]
        cmds = [enum_cmd("-distribution", "all", "all", "-sizes", a, max(a + 1, b)), enum_cmd("-enum")]
    elif kind == "filter":
        what = rng.choice(["shape", "conc"])
        files = {"only.txt": filter_text(rng, s, what)}
        of = rng.choice(["all", "all", "size", "shape", "conc"])
        cmds = [enum_cmd("-polya")] if rng.random() < 0.5 else []
        cmds.append(enum_cmd("-distribution", of, "all", "-filter", what, "only.txt", *([] if of == "all" else ["-savedist", "-outfile", "share.txt"])))
        if of == "all":
            cmds.append(enum_cmd("-enum"))
            if rng.random() < 0.3:
                cmds = [enum_cmd("-enum", "-distribution", "all", "all", "-filter", what, "only.txt")]
        else:
            kind = "filterdist"
    else:  # redo: everything once, then again with another choice on top of it
        cmds = [enum_cmd("-enum"), enum_cmd("-distribution", "all", n, "-seed", seed), enum_cmd("-enum", "-seed", seed)]
    if with_mk and kind not in ("dist", "filterdist", "names", "polya") and rng.random() < 0.4:
        argv = ["all", "-input", "enum.out"]
        if rng.random() < 0.3:
            argv = ["1", "3", "-input", "enum.out"]
        if rng.random() < 0.4:
            argv += ["-displace", "0.1"]
        if rng.random() < 0.3:
            argv += ["-mink", "f"]
        if rng.random() < 0.3:
            argv += ["-outfile", "pos_{}"]
        if rng.random() < 0.2:
            argv += ["-remove_zeros", "t"]
        if rng.random() < 0.3:
            argv += ["-species"] + ["Al", "Cu", "Ni", "Ag"][:s["k"]]
        cmds.append(mk_cmd(*argv))
    return {"kind": kind, "system": s, "cmds": cmds, "files": files}


def filter_text(rng, s, what):
    """A file for -filter: some shapes or concentrations of the sizes asked for."""
    out = []
    for n in range(s["sizes"][0], s["sizes"][1] + 1):
        if what == "shape":
            for h in M.all_hnfs(n):
                out.append("  %s  1" % " ".join(map(str, M.six(h))))
        else:
            for c in M.concentrations(n, len(s["basis"]), s["k"], bool(s.get("concs")), s.get("concs")):
                out.append("  %d  %s  1" % (n, " ".join(map(str, c))))
    keep = [l for l in out if rng.random() < 0.6] or out[:1]
    if what == "shape":
        # which of several equivalent shapes is listed is up to the package, so all of a kind are kept
        keep = [l for l in out if rng.random() < 0.8] or out
    return "# only these\n" + "\n".join(keep) + "\n"


def smaller(sc):
    """Smaller systems and shorter workflows for minimisation."""
    for i in range(len(sc["cmds"]) - 1, 0, -1):
        yield {"cmds": sc["cmds"][:i]}
    import base
    for s in systems.TINY[:2]:
        if base.sysrank(sc["system"]) > base.sysrank(s):
            yield {"system": s}
