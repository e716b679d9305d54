#!/usr/bin/env python3
"""merge_evidence.py ID VARIANT...: adds what the other builds of a monitor observed to its evidence file."""
import json, os, sys
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence")
pid = sys.argv[1]
p = os.path.join(d, pid + ".json")
ev = json.load(open(p))
for v in sys.argv[2:]:
    q = os.path.join(d, v, "evidence", pid + ".json")
    if not os.path.exists(q):
        continue
    o = json.load(open(q))
    ob = ev["coverage"].setdefault("observed", {})
    ob[v + ":evaluations"] = o["coverage"]["evaluations"]
    ob[v + ":distinct_nontrivial"] = o["coverage"]["distinct_nontrivial"]
    for k, n in o["coverage"].get("observed", {}).items():
        if not k.startswith("call:"):
            ob[v + ":" + k] = n
    if "violations" in o and "violations" in ev and isinstance(ev["violations"], int):
        ev["violations"] += o["violations"]
json.dump(ev, open(p, "w"), indent=1)
