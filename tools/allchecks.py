#!/usr/bin/env python3
"""runs every engine once and prints which properties would be violated (development tool)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import check
from xa import props, engines
res = {}
only = os.environ.get("XONLY", "").split(",") if os.environ.get("XONLY") else None
for p in props.PROPS:
    if only and p["id"] not in only:
        continue
    g = p["engine"]
    if g not in res:
        try:
            res[g] = engines.run(g, "quick")[0]
        except Exception as e:
            res[g] = e
    r = res[g]
    bad = [("analysis", str(r)[:300])] if isinstance(r, Exception) else check.judge(p, r)[0]
    known = check.known_findings().get(p['id'], {})
    bad = [b for b in bad if b[0] not in known]
    if bad:
        print(p["id"], "; ".join("%s: %s" % b for b in bad[:2])[:400])
