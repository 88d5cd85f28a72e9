"""Rewrites the section of DESIGN.md that lists the planted bugs from seeded/*/meta.json."""
import collections
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted bugs and the checks that catch them"
by = collections.defaultdict(list)
for d in sorted(os.listdir(V + "/seeded")):
    f = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        by[m["property"]].append((d, m["what_it_breaks"]))
out = [HEAD, "", "Each was confirmed to be caught by the quick check of the property it stands beside (exit 1 and that",
       "property's VIOLATION line).", "", "| property | planted bugs (what goes wrong) |", "|---|---|"]
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in by:
        out.append(f"| {p} | " + "; ".join(f"`{d}` ({w})" for d, w in by[p]) + " |")
out.append("")
text = open(V + "/DESIGN.md").read()
before, _, rest = text.partition(HEAD)
after = ""
if "\n## " in rest:
    after = rest[rest.index("\n## ") + 1:]
elif not rest:
    # in front of the defects
    i = before.index("## Defects found and repaired")
    before, after = before[:i], before[i:]
open(V + "/DESIGN.md", "w").write(before + "\n".join(out) + "\n" + after)
