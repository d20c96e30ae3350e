"""DESIGN.md = doc/design.head.md + extra rows + doc/design.tail.md with the table of planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(f"{V}/doc/design.head.md").read()
tail = open(f"{V}/doc/design.tail.md").read()
extra = f"{V}/doc/design.extra.md"
head = head.replace("@EXTRA@\n", open(extra).read() if os.path.exists(extra) else "")
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(f"{V}/DESIGN.md", "w").write(head + tail.replace("@BUGS@", "\n".join(rows)))
