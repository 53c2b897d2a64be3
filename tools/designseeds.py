#!/usr/bin/env python3
"""designseeds.py: adds the seeds that DESIGN.md does not list yet to its section 7."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
h, s = t.split("## 7. ", 1)
lines = s.split("\n")
items = [l for l in lines if l.startswith("* c")]
have = set(l.split()[1] for l in items)
for d in ("seeded", "tools/extra"):
    for n in sorted(os.listdir(os.path.join(V, d))):
        if n in have: continue
        m = json.load(open(os.path.join(V, d, n, "meta.json")))
        items.append("* %s (%s): %s" % (n, m["property"], m["what_it_breaks"]))
rest = [l for l in lines if not l.startswith("* c")]
i = next(i for i, l in enumerate(lines) if l.startswith("* c"))
pre = lines[:i]; post = [l for l in lines[i:] if not l.startswith("* c")]
open(V + "/DESIGN.md", "w").write(h + "## 7. " + "\n".join(pre + sorted(items) + post))
