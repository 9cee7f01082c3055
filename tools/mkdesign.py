#!/usr/bin/env python3
"""DESIGN.md = design_head.md + tables generated from xa/props.py and seeded/*/meta.json + design_tail.md"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from xa import props
caught = {}
p = V + "/tools/caught.json"
if os.path.exists(p):
    caught = json.load(open(p))
out = [open(V + "/tools/design_head.md").read(), "\n## 4. Properties, engines, obligations and seeds\n\n",
       "Obligation names are patterns (`*` = any instruction or detail); `engine:sections` says what is run.\n\n"]
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append(m.split("/")[-2])
for x in props.PROPS:
    pats = []
    for o in x["obs"]:
        i, _, r = o.partition(".")
        q = ("<ix>." + r) if i in props.IX and all(j + "." + r in x["obs"] for j in ("stake", "unstake", "withdraw")) else o
        if q not in pats:
            pats.append(q)
    out.append("### %s %s\n%s\n\n* decided by `%s`: %s\n* obligations: %s\n" % (x["id"], x["title"], x["text"] if isinstance(x.get("text"), str) and len(x["text"]) > len(x["statement"]) else x["statement"], x["engine"], props.TECH[x["engine"].split("+")[0].split(":")[0]],
               ", ".join("`%s`" % q for q in pats)))
    out.append("* over: %s. Tests cannot settle it: %s\n" % (x["text"], x["why"]))
    if x["id"] in seeds:
        out.append("* planted bugs: %s\n" % ", ".join(seeds[x["id"]]))
    out.append("\n")
out.append("## 5. Planted bugs and controls\n\nEvery bug was validated (`tools/tryseed.py`): demo passes on the clean tree, the stable tests pass with the bug, the demo fails with it.\n\n| seed | property | caught by | what breaks |\n|---|---|---|---|\n")
n = 0
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[-2]; n += 1
    out.append("| %s | %s | %s | %s |\n" % (i, d["property"], caught.get(i, d["property"]), d["what_it_breaks"]))
out.append("\n" + open(V + "/tools/design_controls.md").read() + "\n")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
print(n, "seeds")
