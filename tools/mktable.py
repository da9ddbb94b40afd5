"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(VERIF, "DESIGN.md")
s = open(p).read()
rows = []
for d in os.listdir(os.path.join(VERIF, "seeded")):
    m = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"]))
head = "| Check | Bug | Needs |\n|---|---|---|\n"
s = s[: s.index(head)] + head + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in sorted(rows))
open(p, "w").write(s)
