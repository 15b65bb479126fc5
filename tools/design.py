#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(H + "/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (H, s)))
    rows.append((d["property"], s, d["what_it_breaks"]))
t = open(H + "/DESIGN.md").read()
tab = "| caught by | change | breaks |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
t = t.replace("@NSEEDS@", str(len(rows)))
t = re.sub(r"`seeded/<id>/`: \d+ changes", "`seeded/<id>/`: %d changes" % len(rows), t)
if "@SEEDS@" in t:
    t = t.replace("@SEEDS@\n", tab)
else:
    t = re.sub(r"\| caught by \| change.*?\n(?=\n)", lambda m: tab, t, flags=re.S)
open(H + "/DESIGN.md", "w").write(t)
