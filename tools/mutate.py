"""Development tool (not a check): mutate the functions under contract, in memory, and list the mutants every contract of the
function still accepts.  usage: python3-vt tools/mutate.py cNN [Contract...]  ; a survivor is an equivalent mutant or a hole."""
import ast, copy, importlib, multiprocessing as mp, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pyvc.contract import *
from pyvc.core import Prover
from pyvc import source as src


def mutants(fn):
    """(description, mutated copy of fn)"""
    nodes = list(ast.walk(fn))
    out = []

    def variant(desc, i, change):
        new = copy.deepcopy(fn)
        n = list(ast.walk(new))[i]
        if change(n, new) is False:
            return
        ast.fix_missing_locations(new)
        out.append(("line %d: %s" % (getattr(nodes[i], "lineno", 0), desc), new))
    for i, n in enumerate(nodes):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, (ast.Pass, ast.FunctionDef)):
                        continue
                    variant("delete `%s`" % ast.unparse(s).split("\n")[0][:60], i,
                            lambda m, new, field=field, k=k: getattr(m, field).__setitem__(k, ast.Pass()))
                    if k + 1 < len(b) and not isinstance(s, ast.Return) and not isinstance(b[k + 1], ast.Return):
                        def swap(m, new, field=field, k=k):
                            l = getattr(m, field)
                            l[k], l[k + 1] = l[k + 1], l[k]
                        variant("swap `%s` with the next" % ast.unparse(s).split("\n")[0][:40], i, swap)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            variant("negate `%s`" % ast.unparse(n.test)[:60], i, lambda m, new: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                variant("drop filter", i, lambda m, new, k=k: m.ifs.__delitem__(k))
        if isinstance(n, ast.Compare):
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
                  ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}[type(n.ops[0])]
            variant("%s in `%s`" % (sw.__name__, ast.unparse(n)[:60]), i, lambda m, new, sw=sw: setattr(m, "ops", [sw()] + m.ops[1:]))
        if isinstance(n, ast.BoolOp):
            variant("and/or in `%s`" % ast.unparse(n)[:60], i,
                    lambda m, new: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for k in range(len(n.values)):
                def cut(m, new, k=k):
                    del m.values[k]
                variant("drop operand %d of `%s`" % (k, ast.unparse(n)[:60]), i, cut) if len(n.values) > 2 else None
        if isinstance(n, ast.Constant) and not isinstance(n.value, (type(None), type(...))):
            v = n.value
            nv = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else (v + "x") if isinstance(v, str) else None
            if nv is not None and not (isinstance(v, str) and len(v) > 40):
                variant("constant %r -> %r" % (v, nv), i, lambda m, new, nv=nv: setattr(m, "value", nv))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add}.get(type(n.op))
            if sw:
                variant("%s in `%s`" % (sw.__name__, ast.unparse(n)[:60]), i, lambda m, new, sw=sw: setattr(m, "op", sw()))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            variant("return None for `%s`" % ast.unparse(n)[:60], i, lambda m, new: setattr(m, "value", ast.Constant(None)))
        if isinstance(n, ast.Call) and len(n.keywords) > 0:
            for k in range(len(n.keywords)):
                variant("drop keyword %s of `%s`" % (n.keywords[k].arg, ast.unparse(n)[:50]), i, lambda m, new, k=k: m.keywords.__delitem__(k))
    return out


def run(args):
    prop, name, idx = args
    m = importlib.import_module("contracts." + prop)
    cs = [c() for c in m.CONTRACTS]
    reg = {}
    for c in cs + [c() for c in getattr(m, "USES", [])]:
        reg.setdefault(c.target, c)
    c = [c for c in cs if type(c).__name__ == name][0]
    mod, node, ci, kind = src.find_function(c.target)
    desc, new = mutants(node)[idx]
    node.body, node.args = new.body, new.args
    pv = Prover(timeout_ms=3000, cvc5=False)
    r = verify(c, reg, pv)
    return name, c.target, desc, r.status, r.reason


def go(a, q):
    import signal
    try:
        q.put(run(a))
    except BaseException as x:
        q.put((a[1], "", str(a[2]), "crash", repr(x)[:200]))


def main():
    prop = sys.argv[1]
    m = importlib.import_module("contracts." + prop)
    todo, targets = [], {}
    for cls in m.CONTRACTS:
        c = cls()
        if len(sys.argv) > 2 and cls.__name__ not in sys.argv[2:]:
            continue
        mod, node, ci, kind = src.find_function(c.target)
        n = len(mutants(node))
        todo += [(prop, cls.__name__, i) for i in range(n)]
    ctx = mp.get_context("fork")
    live, res, W = [], {}, int(os.environ.get("W", "6"))
    pend = list(todo)
    while pend or live:
        while pend and len(live) < W:
            a = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=go, args=(a, q))
            p.start()
            live.append((p, q, a, time.time()))
        for x in list(live):
            p, q, a, t = x
            if not q.empty():
                r = q.get()
                res.setdefault((r[1], r[2]), []).append((r[0], r[3], r[4]))
                p.join()
                live.remove(x)
            elif not p.is_alive() or time.time() - t > 90:
                p.kill()
                p.join()
                res.setdefault(("?", str(a)), []).append((a[1], "timeout", ""))
                live.remove(x)
        time.sleep(0.02)
    n = surv = uns = 0
    for (target, desc), l in sorted(res.items()):
        n += 1
        st = {s for _, s, _ in l}
        if "failed" in st or st == {"timeout"}:
            continue
        if st == {"proved"}:
            surv += 1
            print("SURVIVES", target.split(":")[1], desc)
        else:
            uns += 1
            if os.environ.get("V"):
                print("undecided", target.split(":")[-1], desc, l[0][1:])
    print(prop, "mutants", n, "survive", surv, "undecided", uns)


main()
