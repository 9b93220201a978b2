#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A run that fails before output is due leaves every existing file untouched",
  "When patch, expand-patch, convert, makedeps or htmlcompare fails because of its inputs (missing, unreadable or malformed file, a rule that cannot be applied, failed validation, bad format configuration), or meets a read error, a failed allocation or a kill while it still has input to read, nothing on disk changes. In particular an output file from an earlier run keeps its bytes and no empty or partial output appears.",
  ["fault_sequences", "crash_points", "inputs"],
  "every command line of the five commands, every kind of rejected input, and every I/O operation up to the last read of the run at which an error, an allocation failure or a kill can strike",
  "The tests run commands on good inputs only and never look at what a failing run left behind; whether the output is opened too early shows only when a failure or kill lands between that open and the last read.",
  ["src/patch/mod.rs", "src/cli.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", "src/html/htmlcompare_cli.rs"],
  [("process_file computes the whole result in memory before File::create", "src/patch/mod.rs:90"), ("convert encodes before File::create", "src/convert/convert_cli.rs:92"), ("makedeps resolves includes before write_file", "src/makedeps/makedeps_cli.rs:33"), ("htmlcompare parses all parts before creating anything", "src/html/htmlcompare_cli.rs"), ("ExpandPatch arm of Command::run", "src/cli.rs:170")],
  observe=["simulated file system image after the run"])

p("C02", "Exit status 0 means the complete, correct result was delivered",
  "If any command exits with status 0, every file it had to produce and its standard output are byte-for-byte what an undisturbed run delivers. An I/O error on any read, directory, open or write operation, a full disk, a broken or full standard output, or a failed allocation that spoils the result is therefore always reported by a non-zero exit, never swallowed.",
  ["fault_sequences", "inputs"],
  "every command, and every I/O operation (on inputs, outputs, directories, standard output) and allocation of its run at which one or several hard errors can occur",
  "No test injects an I/O error; a swallowed error, an unflushed writer or a dropped Result behaves perfectly on a healthy disk.",
  ["src/cli.rs", "src/patch/mod.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", "src/interrupts/interrupts_cli.rs", "src/mmap/mmap_cli.rs", "src/info/mod.rs"],
  [("every fallible step propagates with ? or unwrap", "src"), ("run() turns Err into exit(1)", "src/cli.rs:232")],
  observe=["exit status", "stdout bytes", "file system image"])

p("C03", "Short or interrupted I/O never changes the result",
  "Reads and writes that are interrupted by signals or that move fewer bytes than asked, in any combination and at any point, leave the exit status, standard output and every file exactly as in an undisturbed run.",
  ["fault_sequences", "inputs"],
  "every command and input size, every sequence of EINTR results and short transfers on input files, output files, file copies and standard output",
  "Tests run on a local disk where reads and writes of small files are never short or interrupted.",
  ["src/patch/mod.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", "src/interrupts/interrupts_cli.rs", "src/common/svd_reader.rs", "src/cli.rs"],
  [("read_to_string / write_all / io::copy loops", "src"), ("BufReader streaming in interrupts", "src/interrupts/interrupts_cli.rs")],
  observe=["exit status", "stdout bytes", "file system image"])

p("C04", "html result does not depend on thread scheduling or thread count",
  "For every number of worker threads and every interleaving of them, html terminates with the same exit status and leaves the same directory content: one page per device, one copy per SVD, and an index listing every device in the same order. When several inputs share a device name or a file name, each page or copy is still one whole page or copy of one of them and the index still lists all inputs.",
  ["schedules", "inputs", "configurations"],
  "every schedule of the worker pool, 1 to 8 threads, and every set of SVD files including equal, case-differing and colliding names, with new, stale and fresh pages mixed",
  "html has no test at all, and a test would see the one schedule the machine happened to take.",
  ["src/html/html_cli.rs"],
  [("par_iter over the inputs with order-preserving collect", "src/html/html_cli.rs:560"), ("stable sort of index by lower-cased name", "src/html/html_cli.rs:577"), ("per-device page writes", "src/html/html_cli.rs:512")],
  observe=["file system image", "stdout line multiset"])

p("C05", "html never leaves a stale page behind",
  "After a successful html run the page of every listed device, its SVD copy and the index equal what a run into an empty directory would produce, provided the SVD's modification time is not earlier than that of its existing page (the same second counts as not earlier), however many edits, reruns, deletions and clock steps went before. A page whose SVD is unchanged and older is left alone.",
  ["histories", "inputs", "configurations"],
  "every history of SVD edits, additions, page deletions, touches and html runs under a clock that advances by nanoseconds to days or steps back, with file-system timestamp granularity from 1 ns to 2 s",
  "Needs a controlled clock: the failing window (an edit in the same second as the previous run) cannot be hit on purpose by a test using the real clock, and there is no html test.",
  ["src/html/html_cli.rs"],
  [("mtime comparison page vs SVD", "src/html/html_cli.rs:484"), ("last-modified captured from the opened SVD", "src/html/html_cli.rs:356")],
  state=[("page mtime", "freshness witness of a generated page", "file system"), ("last-modified", "mtime of the SVD as read", "src/html/html_cli.rs:463")],
  observe=["file system image after each run of the history"])

p("C06", "Killed or failed html runs leave whole pages and the next run repairs all",
  "Whenever an html run is killed, or fails on an I/O error, every page, SVD copy and index file in the output directory is whole: the previous version or the new one, never truncated or mixed. A following undisturbed html run on the same inputs then produces the complete, up-to-date directory, and the index is published only after the pages it lists.",
  ["crash_points", "fault_sequences", "histories", "schedules"],
  "every point of an html run at which it can be killed or an operation can fail, partial writes included, for new and pre-existing output directories, repeated over several runs",
  "A unit test cannot kill the process inside a write, and the damage (a truncated page newer than its SVD, hence never rebuilt) shows only at the next run.",
  ["src/html/html_cli.rs"],
  [("page and index are written to a temporary file and renamed", "src/html/html_cli.rs"), ("SVD copy precedes the page that vouches for it", "src/html/html_cli.rs"), ("freshness test skips pages newer than the SVD", "src/html/html_cli.rs:500")],
  observe=["file system image at the kill and after the rerun"])

p("C07", "Output depends only on the inputs, not on what earlier runs left behind",
  "The result of patch, expand-patch, convert, makedeps, htmlcompare and the listing commands is a function of the command line and the current inputs only: pre-existing longer, shorter or garbage output files, outputs of killed or failed earlier runs, and any number of reruns make no difference. Running a command twice in a row changes nothing the second time.",
  ["histories", "crash_points", "inputs"],
  "every history of runs, killed runs, failed runs and input edits sharing output paths, followed by an undisturbed run",
  "Tests write each output once into a fresh place, so a missing truncation, an append, or a cache keyed too coarsely never shows.",
  ["src/patch/mod.rs", "src/cli.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", "src/html/htmlcompare_cli.rs"],
  [("File::create truncates", "src"), ("no state is kept between runs", "src")],
  observe=["file system image and stdout, compared with a run in a fresh world"])

p("C08", "Nothing but the requested outputs is ever created, changed or removed",
  "A command never modifies, replaces, truncates, re-timestamps, renames or deletes any input or any other file or directory, under any failure, kill or schedule: the only paths it touches are the output file, or for html and htmlcompare files inside the given directory. This includes outputs whose names come from the content of an SVD, and output directories that contain the inputs.",
  ["fault_sequences", "crash_points", "inputs", "schedules"],
  "every command, every world layout (symbolic links, inputs living in the output directory, names with path separators), and every fault, kill and schedule",
  "Tests only look at the file they expect; they never inspect the rest of the file system, nor the state after failures.",
  ["src/cli.rs", "src/patch/mod.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", "src/makedeps/makedeps_cli.rs", "src/convert/convert_cli.rs"],
  [("default patch output is the SVD path with .svd.patched", "src/patch/mod.rs:108"), ("page name derived from device name", "src/html/html_cli.rs:489"), ("SVD copied under its file name", "src/html/html_cli.rs:514")],
  observe=["operation log of the simulated file system", "image before and after"])

p("C09", "Same inputs, same bytes: runs are reproducible",
  "Every command given the same command line and input contents produces the same exit status, standard output and files, whatever the random hash seeds, the memory layout, the clock, the process and thread ids, the number of CPUs, inode numbers and directory order, the file timestamps, or unrelated environment variables are. (html's progress lines may come in any order.)",
  ["configurations", "inputs", "schedules"],
  "every command and input, and every assignment of hash seed, memory layout, wall clock, ids, CPU count, directory order, timestamps and environment",
  "One process sees one hash seed; a HashMap iteration leaking into output passes golden-file tests when the fixture has one entry, or fails only now and then.",
  ["src/lib.rs", "src/patch", "src/html/htmlcompare_cli.rs", "src/interrupts/interrupts_cli.rs", "src/mmap/mod.rs", "src/html/html_cli.rs", "src/convert/convert_cli.rs"],
  [("ordered maps (BTreeMap, LinkedHashMap) wherever order is visible", "src"), ("explicit sorts in interrupts, mmap, html", "src")],
  observe=["exit status", "stdout bytes", "file system image"])

p("C10", "Library calls do not influence each other, in any order or in parallel",
  "Calls of the public library functions (patch, load/expand patch, convert, open, makedeps, htmlcompare, html, mmap, interrupts, info) made from several threads of one process, in any interleaving, or one after another, each return and write exactly what the same call gives in a process of its own; a call that fails, or that panics and is caught, has no effect on later calls.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every assignment of calls to threads, every interleaving of them at system-call and allocation granularity, and every sequence that mixes failing and succeeding calls on equal and different inputs",
  "The tests call each function on its own data in whatever order the harness picks; shared statics, thread-locals or the working directory can leak only in particular interleavings or sequences.",
  ["src/lib.rs", "src/patch/mod.rs", "src/convert/convert_cli.rs", "src/html/html_cli.rs", "src/makedeps/makedeps_cli.rs", "src/common/svd_reader.rs"],
  [("no mutable global state; only immutable Lazy regexes", "src"), ("paths resolved from arguments, never by chdir", "src/patch/mod.rs:160")],
  observe=["return value and written files of every call"])

p("C11", "makedeps lists exactly the patch files that patch reads",
  "The rule makedeps writes names the dependency file as target and lists, as canonical paths, exactly the included YAML files that patch opens for the same root, whatever the shape of the include graph (nested, peripheral-level, repeated, diamond-shaped, through symbolic links). It exits with an error instead of writing a shorter list when any include cannot be read.",
  ["inputs", "fault_sequences", "histories"],
  "every acyclic include graph, every directory and symbolic-link layout, and every read fault",
  "The only test has two sibling includes, and no test relates the list to the files a patch run really opens.",
  ["src/makedeps/makedeps_cli.rs", "src/patch/mod.rs"],
  [("makedeps and patch share yaml_includes", "src/patch/mod.rs:172"), ("abspath canonicalises include paths", "src/patch/mod.rs:160")],
  observe=["contents of the dependency file", "open operations logged during the patch run"])

p("C12", "A run sees each input file as one version, never a mixture",
  "If an input that the command line and the patch files name once (the root YAML, an include, the SVD, a JSON or YAML device, the format configuration) is atomically replaced by another version at any moment while a patch, expand-patch, makedeps, convert, mmap, interrupts, info or htmlcompare run is under way, the run behaves exactly as if that file had held one of the two versions throughout.",
  ["schedules", "inputs"],
  "every command, every input file named once by the run, and every moment of its replacement",
  "Tests never change a file while the tool runs; reading a file twice, or checking it before opening it, is invisible without that interleaving.",
  ["src/patch/mod.rs", "src/convert/convert_cli.rs", "src/makedeps/makedeps_cli.rs", "src/html/htmlcompare_cli.rs", "src/interrupts/interrupts_cli.rs", "src/common/svd_reader.rs"],
  [("each input is opened once and read to the end before use", "src")],
  observe=["exit status, stdout and files, compared with the two unmixed runs"])

p("C13", "Concurrent svdtools processes do not disturb each other",
  "Several svdtools processes running at the same time on shared inputs with different outputs each give exactly the result of running alone. html processes that share an output directory all succeed and leave only whole pages, copies and index, each as produced by one of them.",
  ["schedules", "configurations"],
  "every set of 2 to 4 commands, every interleaving of their system calls, as in a parallel make",
  "Tests start no concurrent processes; a fixed temporary name or a check-then-create race needs a precise interleaving.",
  ["src/cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", "src/patch/mod.rs"],
  [("no shared scratch files; private temporary names", "src/html/html_cli.rs"), ("output directory creation tolerates losing a race", "src/html/html_cli.rs:541")],
  observe=["exit status, stdout and file system image"])

p("C14", "Every run ends: no hang, deadlock, crash or runaway under any fault",
  "Every command ends within a bounded number of steps, by a normal exit or a reported failure, under every fault sequence (persistent errors, disk full, endless interruptions that eventually stop, failing thread creation, spurious wake-ups, starved threads) and for every include graph including cyclic ones. It never dies from a memory fault or stack exhaustion.",
  ["fault_sequences", "schedules", "inputs"],
  "every command, fault sequence and schedule; every include graph",
  "No test injects faults or schedules, and none uses an include cycle.",
  ["src/patch/mod.rs", "src/html/html_cli.rs", "src/cli.rs"],
  [("retry loops end on hard errors", "src"), ("include recursion refuses a file that includes itself", "src/patch/mod.rs:172"), ("rayon pool joins all jobs", "src/html/html_cli.rs:552")],
  observe=["termination status", "step counter", "deadlock detector"])

p("C15", "A make-style incremental build equals a clean build",
  "A build that reruns patch for a target only when its root YAML, an SVD that the root names (its own, or one it copies from) or a file listed by makedeps is newer, reruns makedeps the same way, and then runs html, ends - after any history of edits, include-graph changes, killed and failed builds - in exactly the files a clean build of the final sources produces.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of edits to roots, includes and SVDs, of builds, and of kills and I/O errors inside builds (a failed recipe's target is deleted, as make does)",
  "It is a property of the commands together over a history; no test composes two commands.",
  ["src/makedeps/makedeps_cli.rs", "src/patch/mod.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs"],
  [("dependency list completeness", "src/patch/mod.rs:172"), ("non-zero exit on failure lets make discard the target", "src/cli.rs:232"), ("html freshness test", "src/html/html_cli.rs:500")],
  observe=["file system image after the final build"])

# --- properties of pure functions: stated, not claimed by this family of technique
I = ["inputs"]
p("C16", "The Python package: exit status 0 means the complete result was delivered",
  "If patch, makedeps, mmap or interrupts of the Python package (svdtools/*.py) exits with status 0, its output file and its standard output are byte-for-byte what an undisturbed run delivers. A missing or unreadable input or included file, an I/O error, a full disk or a failing standard output that spoils the result makes it exit with another status and a message; short and interrupted transfers lose nothing; every run ends, also on include cycles, and none dies of a signal.",
  ["fault_sequences", "inputs"],
  "the four commands, every tree of inputs, and every I/O operation (inputs, output, standard output) at which one or several errors can occur",
  "The package has three tests on healthy fixtures; a swallowed exception, an unchecked short write or a listing that the interpreter writes after the script has ended behaves perfectly there.",
  ["svdtools/cli.py", "svdtools/patch.py", "svdtools/makedeps.py", "svdtools/mmap.py", "svdtools/interrupts.py"],
  [("exceptions of open, parse and write reach the interpreter", "svdtools/patch.py"), ("listings are flushed before the command returns", "svdtools/cli.py")],
  observe=["exit status", "stdout bytes", "stderr", "file system image"])
p("C17", "The Python package: only the output changes, and not before all input is read",
  "No command of the Python package changes anything on disk but its output file (SVD.patched, the dependency file). When it fails because of its inputs (missing, unreadable or malformed file, rule that cannot be applied), or meets an error or a kill before it has read all its inputs, nothing changes at all: an earlier output keeps its bytes and no empty one appears.",
  ["fault_sequences", "crash_points", "inputs"],
  "the four commands, every kind of rejected input, and every operation at which an error or a kill can strike",
  "The tests never look at what a failing run leaves; an output opened too early shows only when something fails between that and the last read.",
  ["svdtools/patch.py", "svdtools/makedeps.py"],
  [("svd.write after process_device", "svdtools/patch.py main"), ("deps_file opened after yaml_includes", "svdtools/makedeps.py main")],
  observe=["simulated file system image after the run"])
p("C18", "The Python package: results do not depend on the environment",
  "Exit status, output file and standard output of the Python package's commands are a function of the contents of the inputs: hash seed, locale and time zone of the interpreter, clock, process id, heap, inode numbers, time stamps, environment variables, how much each read or write transfers, the working directory and the name by which the input is given, and earlier outputs make no difference (standard output may follow the locale's encoding).",
  ["configurations", "schedules", "inputs", "histories"],
  "every pair of environments and every tree of inputs",
  "Tests run in one environment with one hash seed; set order, locale encodings and left-over outputs matter only in another.",
  ["svdtools/patch.py", "svdtools/makedeps.py", "svdtools/mmap.py", "svdtools/interrupts.py"],
  [("OrderedDict constructor for YAML mappings", "svdtools/patch.py"), ("sorted(mmap), sorted(missing)", "svdtools/mmap.py, svdtools/interrupts.py"), ("encoding=utf-8 at every open", "svdtools/patch.py, svdtools/makedeps.py")],
  observe=["exit status", "stdout bytes", "output file"])
p("C19", "The Python package: makedeps names exactly the files that patch includes",
  "Whenever makedeps of the Python package succeeds, its output is one make rule for that file which names exactly the YAML files that patch of the same package includes from the same root at that moment (nested, per peripheral, through links), whatever earlier rule the file held and however includes were added, dropped or moved before.",
  ["histories", "inputs", "fault_sequences"],
  "every include graph and every history of edits, makedeps and patch runs with short transfers",
  "One fixture with two includes; no test compares the rule with what patch opens.",
  ["svdtools/makedeps.py", "svdtools/patch.py"],
  [("yaml_includes returns what it opened", "svdtools/patch.py yaml_includes")],
  observe=["dependency file", "open operations of patch"])

p("C20", "The Python package: calls of its functions do not influence each other",
  "Calls of the Python package's functions (patch.main, makedeps.main, mmap.main, interrupts.main, and its click commands) made one after another in one interpreter each return, raise and write exactly what the same call gives in an interpreter of its own, whatever other roots and devices were treated before, however files changed or the caller changed directory in between, and after calls that failed on bad input or an I/O error; the working directory stays the caller's.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of calls, edits and directory changes in one interpreter, with an I/O error or short transfers at any operation",
  "Tests call a helper once each; state left behind by one call shows only in a later one.",
  ["svdtools/patch.py", "svdtools/makedeps.py", "svdtools/mmap.py", "svdtools/interrupts.py"],
  [("includes are merged into the root's own dictionaries, loaded afresh", "svdtools/patch.py yaml_includes, update_dict"), ("no module state but constants", "svdtools/*.py")],
  observe=["return value or exception of each call", "output file after each call", "working directory"])

p("N01", "patch changes what its rules select and nothing else",
  "Each patch rule (add, modify, delete, rename, strip, array, cluster, derive, copy, enum and constraint rules) changes exactly the elements its specification matches, as documented, and every other element of the device is preserved.",
  I, "every device and every rule set", "Tests check a few rules on one device.",
  ["src/patch"], [("DeviceExt, PeripheralExt, RegisterExt", "src/patch")], observe=["patched device"])
p("N02", "Name specifications match as documented",
  "A name specification matches a name iff one of its comma-separated glob alternatives does, with exclusion and priority rules as documented, and collecting names into arrays finds every matching index.",
  I, "every name and specification", "Tests sample a handful of patterns.",
  ["src/patch/mod.rs", "src/patch/iterators.rs"], [("matchsubspec", "src/patch/mod.rs:284")], observe=["selected elements"])
p("N03", "convert round-trips between XML, JSON and YAML without loss",
  "Converting a device from any of the three formats to another and back yields an equal device, and --expand and --expand-properties preserve its meaning.",
  I, "every valid device", "Tests convert no non-trivial device.",
  ["src/convert/convert_cli.rs"], [("serde and svd-encoder", "src/convert/convert_cli.rs")], observe=["decoded device"])
p("N04", "interrupts lists each interrupt once, in order, with exact gaps",
  "The interrupts listing contains every interrupt of every peripheral in ascending number order, and the gaps line names exactly the unused numbers.",
  I, "every device", "One fixture.", ["src/interrupts"], [("print_interrupts", "src/interrupts/interrupts_cli.rs")], observe=["stdout"])
p("N05", "mmap lists every address region in ascending order",
  "The mmap listing has one line for each peripheral, register, field and interrupt after expansion of arrays and derivation, in ascending address order.",
  I, "every device", "One fixture.", ["src/mmap"], [("mmap text", "src/mmap/mmap_cli.rs")], observe=["stdout"])
p("N06", "html pages and tables state the right facts about each register",
  "Every register and field appears on its device page with its real offset, width, access, reset value and documentation coverage, and htmlcompare marks a peripheral, register or field as present exactly for the parts that have it.",
  I, "every device set", "No test.", ["src/html"], [("parse_device", "src/html/html_cli.rs")], observe=["page content"])
p("N07", "Patching with an expanded patch equals patching with the original",
  "The output of expand-patch, used as a patch, gives the same device as the original patch with its includes; a parent's rule overrides or extends an included one as documented.",
  I, "every patch", "Two merge tests.", ["src/patch/mod.rs", "src/patch/patch_cli.rs"], [("update_dict", "src/patch/mod.rs:226")], observe=["patched device"])
p("N08", "Malformed input is reported as an error naming where it is wrong",
  "Every malformed SVD, YAML or configuration is answered by an error message that locates the problem, never by a panic or by accepting it.",
  I, "every byte string as input", "Few negative tests.", ["src"], [("with_context chains", "src/patch")], observe=["stderr", "exit status"])
p("N09", "Rust and legacy Python tools agree",
  "For the commands both implement, the Rust tool and the legacy Python package accept the same patches and produce equivalent devices.",
  I, "every patch and device", "No cross test.", ["svdtools", "src"], [("parallel implementations", "svdtools/patch.py")], observe=["output device"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
