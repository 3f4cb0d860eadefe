#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "height-short": "heights and printed trees under a read fault added (h_heightfault*, h_printfault*)",
    "sparse-length": "after the replica got a model that knows of unfetched blocks",
    "bound-wake": "after `h_live_bound` was added",
    "missing-low-seq": "after `h_cause_far` was added",
}
rows = []
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    name = d.split("/")[-2]
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |\n" % (name, m["property"], m["needs"].replace("|", "/"), "at first missed; " + MISSED[name] if name in MISSED else "yes"))
p = HERE + "/DESIGN.md"
t = open(p).read()
t, n = re.subn(r"(\| bug \| property \| needs \| caught \|\n\|---\|---\|---\|---\|\n)(?:\|.*\n)*", lambda m: m.group(1) + "".join(rows), t)
assert n == 1
open(p, "w").write(t)
