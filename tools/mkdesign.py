#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md and a table of the planted bugs."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = open(f"{V}/tools/design_head.md").read()
rows = []
for d in sorted(glob.glob(f"{V}/seeded/*/")):
    i = os.path.basename(d.rstrip("/"))
    m = json.load(open(d + "meta.json"))
    files = sorted({l[6:].strip() for l in open(d + "patch.diff") if l.startswith("+++ b/")})
    rows.append((i, m["property"], m["needs"], ", ".join(f.replace("src/", "") for f in files), m.get("caught", m["property"])))
out += """## 5. Planted bugs

Each was written from a property's text and the code, in a scratch copy; it compiles, passes the stable tests, and its `demo.sh`
tells it from the unchanged tree. "caught" names the checks (seed 1, quick) that report it. Those first missed led to: case twins among device names and
configurations in either notation (c09-cpu-chunk, c12-config-twice), more kinds of earlier output (c07-from-patched), byte order marks (c12-svd-twice),
instrumented preemption (c04-lost-update, c10-torn-memo), a seeded heap (c09-address), denser plans of similar calls (c10-shared-buffer),
plans of many calls in one process (c10-include-depth), outputs whose names share a stem (c13-stem-temp), output directories that do not exist (c08-parents),
output directories of earlier, dangling links (c14-dangling-page), devices in the other notation than their name says (c12-sniff).
The twelve first repairs of section 3, each reverted alone, are reported again by the check of their property, and so are the last two.
Four broader edits of the Rust code that keep the behaviour (helpers extracted, loops rewritten, statements reordered over several files at once) left C01 to C15 quiet, and one of the Python code C16 to C19.

| planted bug | file | manifests with | caught by |
|---|---|---|---|
"""
for i, p, n, f, c in rows:
    out += f"| {i} | {f} | {n} | {c} |\n"
tail = f"{V}/tools/design_tail.md"
if os.path.exists(tail): out += "\n" + open(tail).read()
open(f"{V}/DESIGN.md", "w").write(out)
