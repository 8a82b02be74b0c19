#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.

1. deductive layer: every contract of the property is verified against the functions extracted from /repo's
   current source (pyvc); the deciding step is that every obligation is discharged.
2. bounded layer: executable oracles on the real code; decides (labelled bounded) what no contract reaches, and
   supplies a concrete failing input for a violation.

exit 0: held; exit 1 with a VIOLATION line: broken."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
PROVER_PY = "/opt/veriftools/pyvenv/bin/python"
REPO_PY = "/opt/pvenv/bin/python"
EV = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


def start(cmd, env):
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def read(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known(prop):
    k = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            k = [x for x in json.load(f) if x.get("kind") == "known" and x["property"] == prop]
    except OSError:
        pass
    return k


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    scratch = os.path.join(EV, "tmp")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH="")
    env.setdefault("VERIF_BUDGET", "120" if tier == "quick" else "500")
    env["VERIF_PROOF_BUDGET"] = "300" if tier == "quick" else "600"
    pout, bout = os.path.join(scratch, prop + ".proof.json"), os.path.join(scratch, prop + ".bounded.json")
    for f in (pout, bout):
        if os.path.exists(f):
            os.unlink(f)
    pp = start([PROVER_PY, os.path.join(HERE, "pyvc", "run.py"), prop, "--out", pout], env)
    bp = start([REPO_PY, os.path.join(HERE, "bounded", "run.py"), prop, "--out", bout], env)
    brc, blog = finish(bp, 300 if tier == "quick" else 700)
    prc, plog = finish(pp, max(60, (420 if tier == "quick" else 800) - (time.time() - t0)))
    proof = read(pout) or {"functions": [], "lemmas": [], "trusted": [], "error": plog[-2000:]}
    bounded = read(bout) or {"checks": [], "failures": [], "error": blog[-2000:]}
    bad = []
    for f in proof["functions"]:
        if f["status"] == "failed":
            bad += [(f, o) for o in f["obligations"] if o["status"] != "valid"]
    for o in proof["lemmas"]:
        if o["status"] != "valid":
            bad.append(({"target": "lemma", "contract": o["name"], "reason": ""}, o))
    fails, noted = [], []
    kn = known(prop)
    for f in bounded["failures"]:
        hit = [k for k in kn if k["check"] == f["check"] and (k.get("case") == f["case"] or "case" not in k)
               and k.get("message", "") in f["message"]]
        (noted if hit else fails).append((f, hit))
    if bad and not fails and tier == "quick" and not bounded.get("error"):
        # an obligation fails: search deeper for a concrete failing input
        e2 = dict(env, VERIF_TIER="thorough", VERIF_BUDGET="150")
        p2 = start([REPO_PY, os.path.join(HERE, "bounded", "run.py"), prop, "--out", bout + ".deep"], e2)
        finish(p2, 200)
        d = read(bout + ".deep") or {"failures": []}
        for f in d["failures"]:
            if not [k for k in kn if k["check"] == f["check"] and (k.get("case") == f["case"] or "case" not in k)]:
                fails.append((f, []))
    # ---- report
    rdir = os.path.join(EV, "replay")
    os.makedirs(rdir, exist_ok=True)
    lines, code = [], 0
    for k in kn:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fails:
        f = fails[0][0]
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "check": f["check"], "case": f["case"], "message": f["message"], "statement": f.get("what"),
                       "failed_obligations": [dict(o, function=c["target"]) for c, o in bad][:20],
                       "replay": "%s %s %s --replay %s" % (REPO_PY, os.path.join(HERE, "bounded", "run.py"), prop, path)}, fh, indent=1)
        lines.append("%s: %s\n  input: %s\n  %s" % (f["check"], f.get("what", ""), json.dumps(f["case"])[:500], f["message"][:700]))
        for c, o in bad[:3]:
            lines.append("  failed obligation: " + o["name"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif bad:
        path = os.path.join(rdir, prop + ".json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "failed_obligations": [dict(o, function=c["target"], contract=c["contract"]) for c, o in bad]}, fh, indent=1)
        for c, o in bad[:5]:
            lines.append("failed obligation: %s (%s) in %s" % (o["name"], o["status"], c["target"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        code = 1
    evidence(prop, tier, seed, proof, bounded, len(fails) or len(bad), time.time() - t0)
    for x in lines:
        print(x)
    nf = len(proof["functions"])
    np_ = sum(f["status"] == "proved" for f in proof["functions"])
    ob = sum(len(f["obligations"]) for f in proof["functions"]) + len(proof["lemmas"])
    print("%s %s: %d/%d contracts proved, %d obligations; %d bounded cases over %d oracles; %.1f s" % (
        prop, "holds" if code == 0 else "BROKEN", np_, nf, ob, sum(c["cases"] for c in bounded["checks"]), len(bounded["checks"]), time.time() - t0))
    for f in proof["functions"]:
        if f["status"] == "unsupported":
            print("  not proved on this tree (bounded oracle decides): %s: %s" % (f["target"], f["reason"][:200]))
    for x in ("error", "import_error", "errors"):
        if bounded.get(x) or (x == "error" and proof.get(x)):
            print("  note: %s %s" % (x, str(bounded.get(x) or proof.get(x))[-600:]))
    sys.exit(code)


def evidence(prop, tier, seed, proof, bounded, violations, wall):
    obls = [o for f in proof["functions"] if f["status"] != "unsupported" for o in f["obligations"]] + proof["lemmas"]
    be = {}
    for o in obls:
        if o["status"] == "valid":
            be[o["backend"]] = be.get(o["backend"], 0) + 1
    proved = [f for f in proof["functions"] if f["status"] == "proved"]
    n = sum(c["cases"] for c in bounded["checks"])
    cov = {
        "obligations": len(obls),
        "discharged": sum(o["status"] == "valid" for o in obls),
        "checker_cmd": "cd /verif && %s pyvc/run.py %s" % (PROVER_PY, prop),
        "trusted_base": ["pyvc (symbolic execution of the Python subset and its value model, /verif/pyvc)", "z3 5.3.2 and cvc5 1.1.2",
                         "CPython's ast module as the parser of the source"] + sorted(set(proof.get("trusted", []) +
                         [t for f in proof["functions"] for t in f.get("trusted", [])])),
        "functions_under_contract": [{"function": f["target"], "contract": f["contract"], "says": f.get("statement", ""), "status": f["status"],
                                      "reason": f["reason"], "paths": f.get("paths", 0), "obligations": len(f["obligations"]),
                                      "secs": f["secs"], "through": f.get("via", [])} for f in proof["functions"]],
        "contracts_proved": len(proved),
        "discharged_by_backend": be,
        "solver_s": round(proof.get("solver_s", 0), 2),
        "lemmas": [{"name": o["name"], "status": o["status"]} for o in proof["lemmas"]],
        "bounded": {"label": "bounded (not counted as proved)", "evaluations": n,
                    "oracles": [{"name": c["name"], "says": c["what"], "distinct_cases": c["cases"], "secs": c["secs"]} for c in bounded["checks"]],
                    "truncated": bool(bounded.get("truncated")), "errors": bounded.get("errors", []) + ([bounded["import_error"]] if bounded.get("import_error") else [])},
        "evaluations": n,
        "distinct_nontrivial": n,
        "rule": "every bounded case is a distinct input (duplicates are dropped) generated by the oracle's enumeration or seeded generator in /verif/bounded/%s.py" % prop.lower(),
        "samples": [{"oracle": c["name"], "case": s} for c in bounded["checks"] for s in c.get("samples", [])][:6],
    }
    if not obls:
        cov["explanation"] = "no contract verified in this run; the bounded oracles alone were evaluated"
    level = read(os.path.join(HERE, "MANIFEST.json")) or {"checks": []}
    lv = [c["level"] for c in level["checks"] if c["property"] == prop]
    d = {"property": prop, "tier": tier, "seed": seed, "level": lv[0] if lv else "proof", "coverage": cov,
         "assumptions": ASSUME + sorted(set(proof.get("trusted", []))), "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)


ASSUME = [
    "Python semantics as modelled by pyvc: mathematical integers, ordered dictionaries, value semantics of equal immutable values",
    "calls to functions outside the contracts are pure uninterpreted functions where a contract declares them so (named in trusted_base)",
    "no concurrent mutation of the arguments during a call; partial correctness for recursive functions",
]

main()
