"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{b}/meta.json"))
    cut = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| {b} | {m['property']} | {cut(m['needs'])} | {cut(m['what_it_breaks'])} |")
p = here + "/DESIGN.md"
d = open(p).read()
mark = "## Planted bugs\n"
i = d.index(mark)
head = d[:i]
open(p, "w").write(head + mark + "`seeded/<id>/`; every one passes the repository's tests and is reported by its property's check\n(`/verif/tools/bugtable.py` writes this table).\n\n| bug | reported by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
