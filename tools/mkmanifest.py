"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": "seeded histories of edits and saves on a simulated disk, kills at any line/system call, reopen in a fresh process",
    "C02": "seeded kills, power cuts, interrupts and disk errors inside saves; target content watched after every disk event",
    "C03": "seeded disk errors, interrupts and full disks in saves, then fault-free retry; session and directory compared",
    "C04": "seeded read faults, truncation, bit flips and concurrent replacement while opening; export vs file",
    "C05": "seeded line/system-call interleavings of concurrent saves and opens; linearizability of each file as a register",
    "C06": "seeded line-level interleavings of several sessions with faults in some, compared with solo runs",
    "C07": "seeded line-level interleavings of interrupted readers on one session, compared with runs without the reads",
    "C08": "the same seeded history in eight simulated environments (hash seed, text encoding, standard output), byte comparison",
    "C09": "seeded kills anywhere in edit/save histories with reopening, compared with the uninterrupted session",
    "C10": "seeded interrupts, allocation, output and copy failures at any line of edits; state, retry and later results compared",
    "C11": "seeded edit/fault/crash histories; image index recomputed from the export by a reference model after every step",
    "C12": "seeded edit/fault/crash histories; every reference of the export resolved by a reference model after every step",
    "C13": "seeded edit/fault/crash histories; draw order decoded by a reference decoder after every step",
    "C14": "seeded edit/fault/crash histories; export vs the reference model's frame condition after every step",
    "C15": "seeded edit/fault/crash histories; removed and kept sets vs a reference visibility model after every cleanup",
    "C16": "seeded edit/fault/crash histories; bone scales vs the product of completed scalings after every step",
    "C22": "seeded edit/fault/crash histories; every returned set and document vs the exports before and after the edit",
    "C23": "seeded cycles of operations with the same faults in every repetition; open files, locks, reachable memory and simulated steps compared between repetitions",
    "C24": "seeded read faults, stored corruption, concurrent replacement and thread interleavings while loading graphs; graph and its JSON vs file",
    "C17": "seeded histories of graph calls with failing factories in interleaved threads vs a reference graph model",
}
NOTE = {
    "C01": "Searched, not proved. Trusts the simulated disk and that preemption and kills happen between source lines or at system calls.",
    "C02": "Searched, not proved. Trusts the simulated disk's crash model (per-inode data and per-operation metadata loss, torn data).",
    "C03": "Searched, not proved. Temporary-file clean-up is required only when unlink works and the process lives.",
    "C04": "Searched, not proved. Bit flips that leave a well-formed document are compared with the flipped content.",
    "C08": "Searched, not proved: eight environments per scenario; hash seeds are those of the worker processes.",
    "C23": "Searched, not proved. Memory is measured as objects reachable from sessions and library modules after a few repetitions; C-level and interpreter memory is not.",
    "C10": "Searched, not proved. One failure per call: a second failure while the first is being undone is out of scope.",
}
NA = "No schedule, clock, I/O, fault or history can influence it: %s Nothing for a simulator to control; plain input testing would be a different technique."
checks = []
for p in sorted(TECH):
    checks.append({"property": p, "quick_cmd": "./run.sh check %s" % p,
                   "thorough_cmd": "VERIF_TIER=thorough ./run.sh check %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T + TECH[p], "level": "exploration",
                   "level_note": NOTE.get(p, "Searched, not proved. Trusts the independent reference model in dst/model.py and that "
                                             "preemption and exceptions surface between source lines.")})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [
         {"property": "C18", "reason": NA % "a pure comparison of two values."},
         {"property": "C19", "reason": NA % "a pure function from a string to a dictionary."},
         {"property": "C20", "reason": NA % "pure queries over a finished graph (that they have no side effects and are unaffected by "
                                            "concurrent readers is claimed in C07, that graphs stay consistent in C17)."},
         {"property": "C21", "reason": NA % "pure input validation of one document (that opening is faithful or fails outright under "
                                            "read faults and damaged storage is claimed in C04)."}],
     "notes": "No hooks in /repo: the checks load the library's modules from /repo's working tree into a simulator that owns "
              "scheduling, disk, output and process death. Harness: /verif/dst; see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
