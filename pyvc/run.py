"""run.py <property> --out FILE : verify all contracts of a property against /repo's current source."""
import importlib, json, multiprocessing, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pyvc.contract import *
from pyvc.core import Prover

ALL = ["c%02d" % i for i in range(1, 21)]


def load(name):
    try:
        return importlib.import_module("contracts." + name)
    except ModuleNotFoundError as x:
        if x.name != "contracts." + name:
            raise
        return None


M = {}


def prepare(m):
    registry = {}
    cs = [c() for c in m.CONTRACTS]
    for c in cs + [c() for c in getattr(m, "USES", [])]:
        registry.setdefault(c.target, c)
    return cs, registry


def task(t):
    """one job, in a process of its own: the lemmas (t = -1) or one variant of a contract"""
    i, v = t
    m, until = M["m"], M["until"]
    if i < 0:
        pv = Prover()
        for lem in getattr(m, "LEMMAS", []):
            lem(pv)
        return t, {"lemmas": [obl(o) for o in pv.obls], "solver_s": pv.solver_time}
    cs, registry = prepare(m)
    c = cs[i]
    base = {"contract": type(c).__name__, "target": c.target}
    if time.time() > until:
        return t, dict(base, status="unsupported", reason="time budget of the proof run used up", obligations=[], secs=0, solver_s=0)
    pv = Prover(timeout_ms=getattr(c, "timeout", 15000))
    r = verify(c, registry, pv, v)
    return t, dict(base, status=r.status, reason=r.reason, statement=" ".join((type(c).__doc__ or "").split()), paths=r.paths, via=r.inlined,
                   trusted=list(c.trusted), obligations=[obl(o) for o in r.obls], secs=round(r.secs, 2), solver_s=pv.solver_time)


def merge(parts):
    """the results of the variants of one contract"""
    out = dict(parts[0])
    for p in parts[1:]:
        out["obligations"] = out["obligations"] + p["obligations"]
        out["secs"] = round(out["secs"] + p["secs"], 2)
        out["paths"] = out.get("paths", 0) + p.get("paths", 0)
        out["via"] = sorted(set(out.get("via", [])) | set(p.get("via", [])))
        if p["status"] == "failed" or p["status"] == "unsupported" and out["status"] == "proved":
            out["status"], out["reason"] = p["status"], p["reason"]
    out.pop("solver_s", None)
    return out


def main():
    prop = sys.argv[1]
    out = sys.argv[sys.argv.index("--out") + 1] if "--out" in sys.argv else None
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    t0 = time.time()
    budget = float(os.environ.get("VERIF_PROOF_BUDGET", "400"))
    m = load(prop.lower())
    rep = {"property": prop, "functions": [], "lemmas": [], "trusted": [], "secs": 0}
    if m is not None:
        M.update(m=m, until=t0 + budget)
        cs, _ = prepare(m)
        todo = [(-1, None)]
        for i, c in enumerate(cs):
            if only and type(c).__name__ not in only:
                continue
            n = len(c.variants) if c.variants else 1
            todo += [(i, v) for v in range(n)] if n > 1 else [(i, None)]
        todo.sort(key=lambda t: -getattr(cs[t[0]], "weight", 0) if t[0] >= 0 else -1)
        with multiprocessing.get_context("fork").Pool(max(1, min(7, (os.cpu_count() or 2) - 1)), maxtasksperchild=1) as pool:
            res = dict(pool.imap_unordered(task, todo, chunksize=1))
        rep["lemmas"] = res[(-1, None)]["lemmas"]
        rep["solver_s"] = sum(r.get("solver_s", 0) for r in res.values())
        rep["trusted"] = list(getattr(m, "TRUSTED", []))
        for i in range(len(cs)):
            parts = [res[t] for t in sorted(t for t in res if t[0] == i)]
            if parts:
                rep["functions"].append(merge(parts))
    rep["secs"] = round(time.time() - t0, 2)
    s = json.dumps(rep, indent=1)
    if out:
        open(out, "w").write(s)
    else:
        for f in rep["functions"]:
            print(f["contract"], f["status"], f["reason"], len(f["obligations"]), "obligations", f["secs"])


def obl(o):
    return {"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 3),
            **({"detail": o.detail} if o.status != "valid" else {})}


if __name__ == "__main__":
    main()
