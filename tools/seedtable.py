"""Replaces the table of planted bugs at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seedtable -->\n"
with open(os.path.join(ROOT, "tools", "seed", "results.json")) as f:
    results = json.load(f)
rows = []
caught = 0
names = sorted(os.listdir(os.path.join(ROOT, "seeded")))
for name in names:
    with open(os.path.join(ROOT, "seeded", name, "meta.json")) as f:
        meta = json.load(f)
    r = results.get(name)
    by = "not run" if not r else ", ".join(
        sorted(c for c, v in r.items() if v == 1)) or "missed"
    caught += bool(r) and by != "missed"
    rows.append(f"| {name} | {meta['what_it_breaks']} | {meta['needs']} | "
                f"{by} |")
text = open(os.path.join(ROOT, "DESIGN.md")).read().split(MARK)[0]
text = text.rstrip("\n") + "\n\n" + MARK + (
    f"{len(names)} planted bugs, {caught} caught by the quick check of their "
    "property.\n\n| bug | breaks | needs | caught by |\n|---|---|---|---|\n"
    + "\n".join(rows) + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
print(len(names), caught)
