"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("deterministic simulation with fault injection: the real commands run as processes whose file-system calls, clock, "
        "entropy, directory order, random draws and scheduling one seeded simulator decides; ")
E, I, S, B = "phenum/enumeration.py", "phenum/io_utils.py", "phenum/structures.py", "phenum/base.py"
P, T, M = "phenum/phonons.py", "phenum/tree.py", "phenum/phenumStr.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech=None, na=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, tech=tech, na=na, note=note))


prop("C01", "Interrupted work can simply be run again",
     "If a polya count, distribution, enumeration or POSCAR command is stopped at any instant by a signal, a kill or a power loss, any "
     "number of times, running that command again until it succeeds gives exactly the result files (polya.out.N, enum.in, enum.out, "
     "vasp.N, whatever names the options give them; the time stamp apart) of a run that was never interrupted. This holds for full "
     "enumerations and, with -seed, for sampled ones. The input files are never changed.",
     ["crash_points", "fault_sequences", "histories"],
     "every workflow of commands, every interrupted call, every number of interruptions, every loss of unsynced data and metadata",
     "the tests run every command to its end in a healthy process; none stops one half way and starts it again",
     [E, I, S], [("result files get their name when complete", I + ":AtomicFile"), ("missing count files are made", E + ":_missing_polya"),
                 ("an existing enum.in is used", E + ":_enum_out")],
     "contents of the directory after recovery",
     "crash, signal and power-loss injection at chosen calls, rerun, comparison with the uninterrupted run")
prop("C02", "I/O errors never become silently wrong results",
     "Whatever input/output errors (full disk, device errors, permissions, too many open files, interrupted or short calls, failing directory "
     "reads) a polya count, distribution, enumeration or POSCAR command meets, it either ends with a nonzero status or ends with status zero "
     "and exactly the result files of an undisturbed run. When it fails, every result file is as it was before or complete and correct. "
     "Once the errors stop, running the same command again succeeds and gives the undisturbed results.",
     ["fault_sequences", "histories"], "every call that can fail, every error, single or lasting, in every workflow",
     "no test makes a system call fail", [E, I, S, M],
     [("errors are told from absence", I + ":file_exists"), ("scratch files are discarded", I + ":AtomicFile.discard"),
      ("failures are raised", E + ":_enum_in")], "exit status and contents of the directory",
     "error injection at chosen calls, comparison with the undisturbed run, rerun after the errors stop")
prop("C03", "A result file is always whole",
     "At every instant of a polya count, distribution, enumeration or POSCAR command, including the instant of a crash, of a power loss and "
     "while errors are handled or a second copy of the command runs, each result file (polya.out.N, enum.in, enum.out, vasp.N, whatever names "
     "the options give them) holds either exactly what it held before the command (or is absent if it was absent) or its complete new contents.",
     ["crash_points", "fault_sequences", "schedules"], "every instant between two calls that change the directory, every fault, old and new contents",
     "a test sees only the final files", [I, E, S], [("write to a scratch file, sync, rename", I + ":AtomicFile.close")],
     "the directory after every call that changes it",
     "an observer compares every result file after each intercepted call, crash and power loss")

prop("C04", "Damaged count files are noticed",
     "When the contents of a polya.out.N file were cut short, zeroed, emptied, lost or repeated lines that count structures or had one of their counts changed, a "
     "distribution or enumeration built on it ends with a nonzero status and changes nothing in the directory, or it ends with status zero and "
     "exactly the results that the undamaged files give. Undamaged files are never refused.",
     ["fault_sequences", "inputs"], "every place and length of the damage, every file, every command that reads the counts",
     "the tests read only intact count files", [I, E], [("count files are validated", I + ":read_polya_file"), ("all sizes are present", E + ":_missing_polya")],
     "exit status and contents of the directory", "corruption of stored files as failing storage leaves it, comparison with the undamaged run")
prop("C05", "A full enumeration is exact, whatever came before it",
     "For any lattice (given to full precision), atomic basis, number of species, cell sizes, concentration ranges and displacement fractions, an enumeration "
     "of everything lists every symmetrically distinct structure of the request exactly once, without superperiodic ones unless -super is given, numbered consecutively overall and within each cell size, and "
     "each polya.out.N and enum.in gives the exact number per superlattice and concentration. This holds for every "
     "earlier history of polya, distribution and enumeration commands and removed files in the directory, every directory listing order, clock and random draws.",
     ["inputs", "histories", "configurations"], "every crystal and every history of commands, deletions, listing orders and random outcomes before the enumeration",
     "the tests compare a few systems with stored files, in a fresh directory", ["phenum/grouptheory.py", "phenum/HNFs.py", "phenum/polyaburnside.py", "phenum/symmetry.py", T, P, E],
     [("labelings", T + ":brancher"), ("counts", "phenum/polyaburnside.py:polya"), ("group of a superlattice", "phenum/grouptheory.py:get_sym_group")],
     "polya.out.N, enum.in and enum.out against an independent reference model",
     "simulated histories of commands, directory order, clock and random outcomes; comparison with an independent reference model")
prop("C06", "A sample holds distinct structures of the kind asked for",
     "When part of the structures is asked for, through a distribution or an enum.in file, every structure written belongs to a superlattice and "
     "concentration that was asked for, has the requested number of displaced atoms, and is not superperiodic (unless -super is given); no two are symmetrically equivalent and no more are "
     "written than asked for or than there are. This holds for every outcome of the random draws and every -acceptrate.",
     ["inputs", "configurations", "schedules"], "every outcome of the random draws, every crystal, every request",
     "the tests fix the seed, so each sees one outcome", [T, P, E, S, B], [("sampling", T + ":brancher"), ("random search", T + ":guess_and_check_brancher"), ("displacements", P + ":add_arrows")],
     "enum.out against the request and the reference model", "simulated outcomes of every random draw (fair and extreme); comparison with an independent reference model")
prop("C07", "Picking structures ends and finds all there are",
     "Asking for as many structures of a superlattice and concentration as there are, fewer, or more ends, for every run of adverse random draws followed "
     "by fair ones, after a bounded number of fair draws, and returns exactly as many distinct structures as asked for or as there are, whichever is less.",
     ["inputs", "fault_sequences"], "every finite run of adverse draws, every request up to and beyond what there is",
     "a test with a fixed seed sees one run of draws and never an adverse one", [T, P], [("random search", T + ":guess_and_check_brancher"), ("displacements", P + ":add_arrows")],
     "end within the bound, and enum.out", "adverse random draws, then fair ones; progress within a bounded number of draws")
prop("C08", "A distribution shares out exactly what was asked for",
     "A distribution of n structures over sizes, shapes, concentrations or all of them gives out exactly n, or all there are if n is more or all, "
     "and nowhere more than there are, only where the filter and the size range allow. This holds for every table of counts up to 10^14 per entry, every outcome of the random draws, "
     "and for the saved file as for the table shown.",
     ["inputs", "configurations"], "every table of counts, number, filter, size range and outcome of the random draws",
     "the tests use three tables of counts and fixed seeds", [S, I, E], [("sharing out", S + ":_distribute"), ("tables", S + ":make_enum_in")],
     "the saved file and the table shown", "simulated random outcomes over generated count files; exact conservation check")

prop("C09", "Nothing but the request decides the results",
     "The result files of every polya count, distribution, enumeration and POSCAR command depend only on the input files and options: with -seed, or when "
     "everything is wanted, they are the same (the time stamp apart) whatever the directory listing order, clock, process id, entropy, string hashing, "
     "speed of the machine and -verbose level are, and whether the stages were run one by one, twice, over the outputs of an earlier run, or interrupted before.",
     ["schedules", "histories", "configurations"], "every directory order, clock, process id, entropy, hash seed and speed, and every way to the same request",
     "a test runs each command once, in one environment", [E, S, I, T, B],
     [("the seed reaches every draw", E + ":_enum_out"), ("tables are sorted", S + ":make_enum_in")], "contents of the directory, and the table shown",
     "the same request in differing simulated environments and histories; comparison of the results")
prop("C10", "Commands side by side do not disturb one another",
     "Commands that run at the same time in one directory, the same command twice, the stages of one full enumeration, commands with outputs of their own, or a POSCAR "
     "command while the enumeration it reads is replaced, end as they would alone: each succeeds or ends with a nonzero status, what it leaves is exactly the "
     "result of a sequential run, and a reader sees one complete file, old or new. This holds for every interleaving and when one of them is killed.",
     ["schedules", "crash_points"], "every interleaving of the calls of two or three commands, and a kill of any of them at any call",
     "the tests run one command at a time", [I, E, S, M], [("scratch files of their own", I + ":AtomicFile"), ("a file is read once", M + ":_make_structures_from_args")],
     "exit status and contents of the directory", "a seeded scheduler interleaves the calls of several processes; comparison with sequential runs")
prop("C11", "Calls in one process do not disturb one another",
     "A program that uses the package as a library, calling polya counts, distributions, enumerations and the POSCAR writer one after the other for different systems, or in "
     "several threads with files of their own, gets from each call exactly the result files that a process of its own would give. This holds after calls that failed or "
     "were interrupted, and for every interleaving of the threads.",
     ["histories", "schedules", "fault_sequences"], "every sequence of calls, failing and interrupted ones included, and every switch of threads between lines",
     "the tests call each function on its own and never in two threads", [E, S, P, T, I, M, B],
     [("state of a call is local", E + ":_enum_out"), ("arguments are not changed", P + ":add_arrows")], "the result files of each call",
     "a seeded scheduler interleaves threads line by line and makes calls of a sequence fail; comparison with processes of their own")

prop("C12", "Files that are not outputs neither change nor matter",
     "A polya count, distribution, enumeration or POSCAR command changes no file but its own results, not even for a moment, in whatever way it ends: input files, results of "
     "other commands, results under other names or numbers, backups, editor copies and files of others keep their contents, and nothing outside the working directory is "
     "touched. A command that ends by itself, even with an error, leaves no scratch files behind. Files whose names merely resemble those of results or inputs (polya.out.bak, polya.out.07, "
     "polya.out.2~, lattice.in.old, subdirectories and so on) or that other options name do not alter the results nor stand in for a missing file.",
     ["configurations", "fault_sequences", "crash_points"], "every other file in the directory, under every name and with any contents, every fault and every directory order",
     "the tests run in directories that hold nothing else", [S, E, I, M], [("names of count files", S + ":make_enum_in"), ("outputs", I + ":AtomicFile")],
     "the directory after every call that changes it", "other files, directory orders and faults are simulated; every file that is no output is compared after every call that changes the directory")
prop("C13", "POSCAR files show the structures that are listed",
     "makeStr writes one POSCAR file for each structure of enum.out that is asked for (all, one, or a range) and no other; the file has that superlattice (Minkowski reduced unless -mink f), "
     "one atom of the listed species on each site, moved by the displacement along its listed direction, varied by no more than the rattle, with Vegard's lattice parameter, the "
     "species in the title, and zeros left out if asked for. This holds for every crystal, every cell shape and "
     "every outcome of the random draws.",
     ["inputs", "configurations"], "every crystal, enumeration, selection, set of options and outcome of the random draws",
     "the tests compare a few structures with stored files, and rattled ones not at all", [M, I, "phenum/vector_utils.py", "phenum/element_data.py"],
     [("sites", "phenum/vector_utils.py:map_enumStr_to_real_space"), ("files", I + ":write_POSCAR")], "POSCAR files against enum.out by an independent model",
     "enumerations and every random draw (fair and extreme) are simulated; comparison of the files with an independent model of the structures")
prop("C14", "MTP files are only added to",
     "makeStr -config t adds the structures asked for to the named file and keeps what it held before: at every instant, whatever interrupts the command (signals, kills, power losses, "
     "I/O errors), the file holds its earlier contents followed by a beginning of what is added; when the command succeeds it has added exactly one whole entry for each structure asked for, in "
     "order, with the superlattice, species, positions, displacements and types that enum.out, the options and the species mapping say.",
     ["crash_points", "fault_sequences", "inputs"], "every instant, fault and earlier contents, every enumeration, selection, set of options and outcome of the random draws",
     "the tests compare one whole file and add to none that has contents", [I, M], [("entries", I + ":write_config")], "the file after every call that changes it",
     "crash, signal, power-loss and I/O error injection; the file is compared after every call that changes the directory, the entries with an independent model")


def main(only=None):
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [p["observe"]]}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            cmd = "/opt/venv/bin/python /verif/sim/check.py %s --tier " % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                           "technique": TECH + p["tech"], "level": "exploration",
                           "level_note": p["note"] or "seeded search over sampled schedules, faults and inputs; every run replays from its seed"})
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python /verif/sim/setup.py", "checks": checks, "not_applicable": na},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
