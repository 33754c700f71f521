#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "## Planted bugs"
i = s.find(head)
if i >= 0: s = s[:i]
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    one = lambda t: " ".join(t.split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], one(d["what_it_breaks"]), one(d["needs"])))
s += head + """ (`seeded/`)

Each is caught by the quick check of its property (confirmed with `tools/trybug.sh`, which also confirms that the existing
tests pass with it and that its demonstration separates the trees). Misses along the way led to: `thr` builds, wider
layout palettes and distances, huge empty extents, scaled scalars, longer histories, wide groups of schedules, builds
without the complex functions, largest blocks, subnormal operands, the floating-point mode, operands with zero panels, very small and large scalars, calls that never
return while probing block sizes, and bit-for-bit results across schedules.

| id | check | what it breaks | what it needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
