"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
rows = ["| planted change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
block = "<!-- plants -->\n" + "\n".join(rows) + "\n<!-- /plants -->"
t = t.replace("@@PLANTS@@", block)
t = re.sub(r"<!-- plants -->.*?<!-- /plants -->", lambda _: block, t, flags=re.S)
open(p, "w").write(t)
