"""Bounded layer: executable oracles over enumerated small scopes and seeded random cases, run on the
real code of /repo (VERIF_REPO overrides) under the interpreter the project uses.

A check is a function case -> None (holds) or a message; cases are JSON values, so a failing one can be
replayed with  run.py <property> --replay FILE."""
import itertools, json, os, random, signal, sys, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
CHECKS = []


class Check:
    def __init__(self, name, fn, gen, doc, limit):
        self.name, self.fn, self.gen, self.doc, self.limit = name, fn, gen, doc, limit


def check(name, gen, limit=10):
    """register a check; gen() yields cases"""
    def deco(fn):
        CHECKS.append(Check(name, fn, gen, (fn.__doc__ or "").strip(), limit))
        return fn
    return deco


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def scale(quick, thorough=None):
    return (thorough if thorough is not None else quick * 10) if THOROUGH else quick


def rng(tag=""):
    return random.Random("%d/%s" % (SEED, tag))


def same(actual, expected, what=""):
    if actual != expected:
        return "%s: got %s, expected %s" % (what, short(actual), short(expected))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def run_one(c, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, c.limit)
    try:
        r = c.fn(case)
        return r
    except Hang:
        return "did not terminate within %d s" % c.limit
    except RecursionError as e:
        return "recursion without end: %s" % e
    except MemoryError:
        return "memory exhausted"
    except Skip:
        return None
    except Exception as e:
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Skip(Exception):
    pass


def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t)


def lists(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield list(t)


def randstr(r, pieces, n):
    return "".join(r.choice(pieces) for _ in range(r.randint(0, n)))


def main(prop, budget):
    """run all registered checks; print a JSON report"""
    t0 = time.time()
    rep = {"property": prop, "checks": [], "failures": []}
    for c in CHECKS:
        n, seen, samples, t1 = 0, set(), [], time.time()
        fails = 0
        try:
            for case in c.gen():
                key = json.dumps(case, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                msg = run_one(c, case)
                if len(samples) < 2 and n in (7, 23):
                    samples.append(case)
                if msg is not None:
                    rep["failures"].append({"check": c.name, "case": case, "message": str(msg)[:4000], "what": c.doc})
                    fails += 1
                    if fails >= 5:
                        break
                if time.time() - t0 > budget:
                    rep["truncated"] = True
                    break
        except Exception:
            rep.setdefault("errors", []).append({"check": c.name, "error": traceback.format_exc()[-1500:]})
        rep["checks"].append({"name": c.name, "cases": n, "what": c.doc, "samples": samples, "secs": round(time.time() - t1, 2)})
    rep["secs"] = round(time.time() - t0, 2)
    return rep


def replay(path):
    d = json.load(open(path))
    for c in CHECKS:
        if c.name == d["check"]:
            msg = run_one(c, d["case"])
            print("FAILS: " + str(msg) if msg else "holds")
            return 1 if msg else 0
    print("no such check")
    return 2
