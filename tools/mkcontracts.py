#!/usr/bin/env python3
"""writes CONTRACTS.md: every function under contract, what its contract states and what it assumes (run with the verifier's python)"""
import importlib, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
out = ["# Functions under contract", "", "Written by tools/mkcontracts.py from contracts/*.py. Each function is extracted from /repo's current source when the check runs.", ""]


def text(s):
    return " ".join((s or "").split())


total = 0
for i in range(1, 24):
    c = "c%02d" % i
    if not os.path.exists(os.path.join(HERE, "contracts", c + ".py")):
        continue
    m = importlib.import_module("contracts." + c)
    out += ["## " + c.upper(), ""]
    for k in m.CONTRACTS:
        total += 1
        out.append("- `%s`: %s" % (k.target.replace("disseminate.", "", 1), text(k.__doc__)))
        for t in getattr(k, "trusted", ()) or ():
            out.append("  - assumes: %s" % text(t))
    for l in getattr(m, "LEMMAS", []):
        out.append("- %s: %s" % (l.__name__.replace("_", " "), text(l.__doc__)))
    for t in getattr(m, "TRUSTED", ()):
        out.append("- assumes: %s" % text(t))
    out.append("")
out.insert(3, "%d contracts." % total)
with open(os.path.join(HERE, "CONTRACTS.md"), "w") as f:
    f.write("\n".join(out))
print(total, "contracts")
