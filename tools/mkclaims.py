#!/usr/bin/env python3
"""mkclaims.py CONTRACTS.json : rewrites claims.py from the exported contracts (govc -harness DIR -harness-rt harness)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(sys.argv[1]))
P = {}
for t in C["targets"]:
    for c in t["ensures"] or []:
        for p in c.get("props") or t.get("props") or []:
            P.setdefault(p, [set(), set()])[1 if c.get("bounded") else 0].add(t["name"].split(".")[-1] + ": " + c["label"])
BASE = ("Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. "
        "Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. ")
out = {}
for p in sorted(P):
    a, b = P[p]
    if not b:
        out[p] = ("proof", BASE)
    else:
        out[p] = ("other", BASE.replace("is discharged", "is discharged, except for the bounded clauses,") + "%d clauses are proved; %d are bounded: evaluated on random states of the running code only, not proved (%s)." % (len(a), len(b), "; ".join(sorted(set(x.split(":")[0] for x in b)))))
with open(os.path.join(V, "tools", "claims.py"), "w") as f:
    f.write("# written by mkclaims.py\nCLAIMED = " + json.dumps(out, indent=1).replace("[", "(").replace("]", ")") + "\nOPEN_REASON = {}\n")
for p in out:
    print(p, out[p][0], len(P[p][0]), len(P[p][1]))
