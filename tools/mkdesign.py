"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
mark = "<!-- planted -->\n"
s = open(here + "/DESIGN.md").read().split(mark)[0]
s += mark + "\n| check | planted bugs it catches |\n|---|---|\n"
for p in sorted(by):
    s += f"| {p} | {', '.join(x[len(p) + 1:] if x.startswith(p + '-') else x for x in by[p])} |\n"
open(here + "/DESIGN.md", "w").write(s)
