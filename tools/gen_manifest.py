#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TRUST = " Exhaustive within the bounds written to the evidence file; nothing is sampled. Trusted: the oracle in /verif/harness, the Rust toolchain."
DIRECT = "stateless model checking of the real code: exhaustive enumeration of inputs within bounds, "
N = {
 "C01": ("exploration", DIRECT + "each edit script replayed over both inputs", "The real edit script engine is run on every pair of inputs within the bounds."),
 "C02": ("exploration", DIRECT + "each window query compared with a brute-force longest common run", "The real query is compared with a brute-force answer for every pair of windows of every pair of inputs within the bounds."),
 "C03": ("exploration", DIRECT + "clumps compared with a specification of grouping", "Grouping is a function of run lengths only; every sequence of run lengths within the bounds is tried with every relevant context size."),
 "C04": ("exploration", DIRECT + "all views of each clump compared with each other and with the inputs", "Every view of every clump of every pair within the bounds is compared."),
 "C05": ("model_checking", "explicit-state exploration: states are texts, transitions real applications of real patches", "Every transition is an execution of the real diff and patch code."),
 "C06": ("model_checking", "explicit-state exploration: states are texts, transitions real reversed applications of real patches", "Every transition is an execution of the real diff and patch code."),
 "C07": ("model_checking", "explicit-state exploration: states are byte sequences, transitions real applications of real patches, both directions", "Every transition is an execution of the real diff and patch code."),
 "C08": ("model_checking", "explicit-state model of a nondeterministic patch machine; every real execution within bounds must be a run of it", "The model states what may happen to a file; its reachable states are explored exhaustively for every case, and each case is one execution of the real code, so the model stays bound to it."),
 "C09": ("model_checking", "explicit-state model of a nondeterministic patch machine with reports; every real execution within bounds must be a run of it with the reported counts", "As C08, with the statistics and the conflict markers."),
 "C10": ("model_checking", "exhaustive enumeration of patches and files within bounds under a watchdog and a memory limit", "Every case is an execution of the real code with overflow checks on."),
 "C11": ("exploration", DIRECT + "displacements of a unique clump", "Every displacement, before or after, and every clump form within the bounds."),
 "C12": ("exploration", DIRECT + "every way of changing outer context lines", "Every subset of changed context lines within the bounds."),
 "C13": ("exploration", DIRECT + "patches applied to their own result and again", "Every pair within the bounds, both directions."),
 "C14": ("model_checking", "explicit-state model of clump application to bytes; every real execution within bounds must be a run of it", "As C08, for bytes."),
 "C15": ("exploration", DIRECT + "written and read back", "Every patch within the bounds, every byte value and special character, both kinds of writer."),
 "C16": ("exploration", DIRECT + "real files on disk", "Every pair of contents within the bounds, including UTF-8 sequences, missing files and things that are no files."),
 "C17": ("exploration", "exhaustive enumeration of command lines and files within bounds, run with the real programs, whole tree compared", "The real programs, as built by the repository's own profile."),
 "C18": ("fault_enumeration", "exhaustive enumeration of faults and crash points: every system call of the run, every fault of its kind, pairs of faults", "The real program under a ptrace-based fault injector. Power loss (unsynced data) is not modelled."),
 "C19": ("fault_enumeration", "exhaustive enumeration of faults and crash points: every system call of the run, every fault of its kind, pairs of faults, a rival creating the file; and schedules of two runs for one file in which a call fails", "The real program under a ptrace-based fault injector."),
 "C20": ("fault_enumeration", "exhaustive enumeration of faults and crash points: every system call of the run, every fault of its kind, pairs of faults", "The real program under a ptrace-based fault injector."),
 "C21": ("exploration", DIRECT + "compared with an independent reader of the format", "Every unified clump within the bounds."),
 "C22": ("exploration", DIRECT + "generated text read by an independent reader and applied by an independent applier", "Every pair within the bounds."),
 "C23": ("exploration", DIRECT + "header lines", "Every header line within the bounds."),
 "C24": ("fault_enumeration", "exhaustive enumeration of transfer schedules: every way of cutting reads and writes, every failing or interrupted call", "The real readers and writers over streams that deliver in every possible way; every point of failure."),
 "C25": ("model_checking", "explicit-state exploration of the cursor, every transition replayed on the real cursor", "All reachable states; every transition validated against the real code."),
 "C26": ("model_checking", "explicit-state model of a nondeterministic patch machine (as for C08); every run of the real program within bounds must have the exit status of a run of it", "Exit statuses of the real program against the number of clumps that can be placed."),
 "C27": ("exploration", "exhaustive enumeration of damage to patch files, run with the real program", "Every truncation, every single byte and every single field of the patches; whole tree compared."),
 "C28": ("exploration", "exhaustive enumeration of permission bits, umasks and places, run with the real program", "All 4096 modes; whole tree compared."),
 "C29": ("exploration", "exhaustive enumeration of circumstances of a run (singly and in pairs), of spellings of the context, and of repeated computations", "The real programs, each run compared with one in the usual circumstances."),
 "C31": ("model_checking", "explicit-state model of clump application to bytes with a report; every real execution within bounds must be a run of it with the reported counts", "As C14, with the statistics."),
 "C32": ("fault_enumeration", "exhaustive enumeration of outcomes, damaged patches, verbosities and failing system calls, run with the real programs, both standard streams kept", "The real programs; the runs are those of C18, C19, C20, C26 and C27, listened to."),
 "C33": ("model_checking", "explicit-state exploration: states are the texts with each subset of a set of independent patches applied, transitions real applications of one patch, forward or reversed", "Every transition is an execution of the real diff and patch code; the expected text of each state is built from the edits, not by patching."),
 "C30": ("exploration", "stateless model checking of two real processes: a ptrace scheduler enumerates all interleavings of their system calls on shared files up to a preemption bound, with kills and failing calls", "The real programs under a scheduler; the watched files are read after every step."),
}
checks = [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
           "technique": t, "level": l, "level_note": n + TRUST} for i, (l, t, n) in sorted(N.items())]
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
assert sorted(N) == sorted(props), set(N) ^ set(props)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks need nothing private of the repository. All changes in /repo are fix: commits (KNOWN_FINDINGS.txt)."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
