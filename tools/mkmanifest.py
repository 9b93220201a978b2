#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TP = "deterministic simulation with fault injection: the real Python package and interpreter in a simulated kernel (LD_PRELOAD), "
T = "deterministic simulation with fault injection: svdtools' own code, instrumented at compile time, in a simulated kernel (LD_PRELOAD), "
TRUST = " Seeded sampling, no proof: a quiet run says that no explored execution broke the property. Trusted: the simulated kernel and scheduler (simkernel/sim.c), the oracle in driver/src/props/%s.rs."
C = {
 "C01": ("seeded faults before the last input operation; nothing on disk may change",
   "Each run that fails on its inputs, a read error, a failed allocation or a kill before its last input operation must leave the simulated disk as it was."),
 "C02": ("seeded hard errors, full disks, broken stdout, failed allocations; exit 0 implies the undisturbed result",
   "Reference model: the same run undisturbed. Errors of close() and out-of-memory aborts outside allocation sites are not modelled."),
 "C03": ("seeded short transfers and EINTR; result must equal the undisturbed run", "Reference model: the same run undisturbed."),
 "C04": ("seeded thread schedules (random, PCT, starving) with 1 to 16 threads; result must equal the one-thread run",
   "Preemption at I/O, futex operations, chosen allocations, and any branch, load or store of svdtools' own code; std and the dependencies are preempted only at their system calls, futexes and allocations."),
 "C05": ("seeded histories of edits, runs and clock steps; directory must equal one built from nothing",
   "Reference model: the freshness rule over simulated time stamps, and a run into an empty directory."),
 "C06": ("seeded kills, torn writes and errors at every kind of operation; wholeness of every file, then repair by the next run",
   "Process kills, not power loss: what was written before a kill survives it."),
 "C07": ("seeded histories of killed, failed and repeated runs; result must equal one without any earlier output",
   "Reference model: the same inputs without earlier outputs."),
 "C08": ("seeded faults, kills, schedules and hostile names; image of the whole simulated disk compared before and after",
   "Every path, type, content, time stamp and inode outside the allowed outputs is compared."),
 "C09": ("seeded environments (hash seeds, clock, ids, CPUs, directory order); results must be equal", "Reference model: the plain environment."),
 "C10": ("seeded interleavings and orders of library calls in one process; each must equal the call in a process of its own",
   "Preemption at I/O, futex operations, chosen allocations, and any branch, load or store of svdtools' own code; std and the dependencies are preempted only at their system calls, futexes and allocations."),
 "C11": ("seeded include graphs and read faults; the rule is compared with the files the simulated kernel saw patch open", "Oracle: the open operations of patch itself, canonicalised."),
 "C12": ("seeded atomic replacement of inputs at any operation; result must equal a run on unmixed versions", "Inputs that a run names once."),
 "C13": ("seeded interleavings of several processes at system-call level; each must equal its run alone", "Interleaving at the granularity of system calls (processes share nothing else)."),
 "C14": ("seeded faults, schedules and include graphs under bounds on operations, allocations and executed branches; deadlock, hang, signal and stack exhaustion are violations",
   "Liveness as a bound of 200000 + 40 times the operations, and 50 million + 40 times the branches, loads and stores, of the undisturbed run, and 25 s without any operation."),
 "C15": ("seeded histories of edits, touches, killed and failed builds under a model of make; final build must equal a clean build", "make is a model of its documented rules; see DESIGN.md."),
 "C16": ("PYTHON:seeded errors, full disks, failing standard output, missing inputs and include cycles; exit 0 only with the result of the undisturbed run", "Reference model: the same run undisturbed. One interpreter version, libraries (lxml, PyYAML, click) as installed."),
 "C17": ("PYTHON:seeded spoiled inputs, errors, kills and full disks; image of the whole simulated disk compared before and after", "Process kills, not power loss."),
 "C18": ("PYTHON:seeded environments (interpreters that differ in hash seed, locale, time zone; clock, ids, heap, time stamps, short transfers, earlier outputs); results must be equal", "Four interpreters; the ASCII locale only where file names are ASCII."),
 "C19": ("PYTHON:seeded histories of edits and runs with short transfers; the rule is compared with the files the simulated kernel saw patch open", "Names without white space."),
 "C20": ("PYTHON:seeded histories of calls in one interpreter with edits, directory changes, one-shot I/O errors and short transfers between and in them; each call must equal the call in an interpreter of its own", "Calls of one thread; a call that met an injected error is itself not compared (C16 does)."),
}
N = {
 "N01": "pure function of device and patch: no schedule, clock, I/O, fault or shared state decides it; generating inputs would be property-based testing, not simulation",
 "N02": "pure string matching, no nondeterminism or fault to simulate",
 "N03": "pure function of the device and the options; the I/O around it is covered by C02, C03, C07 and C12",
 "N04": "pure function of the device; delivery of the listing is covered by C02, C03 and C09",
 "N05": "pure function of the device; delivery of the listing is covered by C02, C03 and C09",
 "N06": "pure function of the devices; delivery of the pages is covered by C02 to C06",
 "N07": "pure function of the patch files, no schedule, clock or fault in it",
 "N08": "quantifies over malformed inputs alone; what a rejected input may leave behind is C01, and that the run ends is C14",
 "N09": "compares two implementations of a pure function; no schedule, clock or fault in it",
}
m = {"version": 1, "setup_cmd": "./build.sh lib",
 "checks": [{"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json", "technique": (TP + a[7:]) if a.startswith("PYTHON:") else T + a, "level": "exploration",
   "level_note": b + TRUST % ("py" if a.startswith("PYTHON:") else k.lower())} for k, (a, b) in C.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in N.items()],
 "notes": "No hooks in /repo: the seam is libc, replaced by a preloaded simulated kernel, and the compiler, which a RUSTC_WRAPPER makes call the scheduler at branches, loads and stores of crate svdtools. A replay file is re-executed with target/release/driver replay FILE. Genuine defects are listed in KNOWN_FINDINGS."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
