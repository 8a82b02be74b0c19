"""Writes MANIFEST.json. Level 'proof' for properties with discharged contracts, 'exploration' where only the bounded oracles decide."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOT_APPLICABLE = {
    "C21": "The server's containment is decided by sanic/aiohttp-style framework routing and by the file system's resolution of links; "
           "the functions of the repository that take part are async handlers that pass the path on. No contract within reach of a verifier for "
           "this Python subset expresses the framework's path handling.",
    "C22": "A property of schedules, kills and interleavings of external processes (subprocess, concurrent.futures); contracts on single calls have no "
           "vocabulary for it and the external programs are not in the repository.",
    "C23": "Depends on pdflatex, pdf2svg, ImageMagick and web browsers, none of which is under contract or even installed here; the rendered "
           "appearance is not an observable of the Python functions.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        continue
    has_c = os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py"))
    has_b = os.path.exists(os.path.join(HERE, "bounded", i.lower() + ".py"))
    if not (has_b or has_c):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    note = ("Contracts on the functions named in the evidence are discharged for all inputs from /repo's current source (z3, cvc5 as fall-back); "
            "functions of the property outside them are decided by bounded oracles on the real code, labelled bounded and not counted as proved. "
            "Trusted: the pyvc value model and symbolic execution, the solvers, the assumptions named in the evidence and DESIGN.md."
            if has_c else
            "Bounded: executable oracles over enumerated small scopes and seeded random cases on the real code; nothing is proved for this property yet (see DESIGN.md).")
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "contract-based deductive verification of the real functions (pyvc: weakest preconditions over extracted Python source, z3/cvc5)"
                                + " with a labelled bounded stand-in" if has_c else "bounded stand-in for contracts (labelled bounded)",
                   "level": "proof" if has_c else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Findings and repairs: known_findings.json. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
