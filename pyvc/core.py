"""Logical core of pyvc: the value universe, folds (recursive specification
functions given by a step function), proof obligations and their discharge."""
import itertools, os, subprocess, tempfile, time
import z3

z3.set_param("smt.random_seed", 7)
z3.set_param("sat.random_seed", 7)

_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("bool", ("b", z3.BoolSort()))
_V.declare("int", ("i", z3.IntSort()))
_V.declare("str", ("s", z3.StringSort()))
_V.declare("ref", ("r", z3.IntSort()))
_V.declare("tup", ("titems", z3.SeqSort(z3.DatatypeSort("Val"))))
_V.declare("lst", ("litems", z3.SeqSort(z3.DatatypeSort("Val"))))
_V.declare("obj", ("ocls", z3.IntSort()), ("oargs", z3.SeqSort(z3.DatatypeSort("Val"))))
_V.declare("cls", ("c", z3.IntSort()))
_V.declare("oth", ("o", z3.IntSort()))
Val = _V.create()
SeqV = z3.SeqSort(Val)
MapV = z3.ArraySort(Val, Val)
DomV = z3.ArraySort(Val, z3.BoolSort())
AttrA = z3.ArraySort(z3.IntSort(), Val)
SeqA = z3.ArraySort(z3.IntSort(), SeqV)
MapA = z3.ArraySort(z3.IntSort(), MapV)
DomA = z3.ArraySort(z3.IntSort(), DomV)
Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()
SORTS = {"val": Val, "seq": SeqV, "map": MapV, "dom": DomV, "arr": AttrA,
         "int": Int, "bool": Bool, "str": Str, "seqarr": SeqA, "maparr": MapA, "domarr": DomA}
NONE = Val.none
EMPTY = z3.Empty(SeqV)
NOMAP = z3.K(Val, NONE)
NODOM = z3.K(Val, z3.BoolVal(False))


def S(x):
    return z3.StringVal(x) if isinstance(x, str) else x


def vstr(x):
    return Val.str(S(x))


def vint(x):
    return Val.int(z3.IntVal(x) if isinstance(x, int) else x)


def vbool(x):
    return Val.bool(z3.BoolVal(x) if isinstance(x, bool) else x)


def unit(v):
    return z3.Unit(v)


def cat(*xs):
    xs = [x for x in xs]
    if not xs:
        return EMPTY
    if len(xs) == 1:
        return xs[0]
    return z3.Concat(*xs)


def seq(*vs):
    return cat(*[unit(v) for v in vs]) if vs else EMPTY


def tup(*vs):
    return Val.tup(seq(*vs))


def ite(c, a, b):
    return z3.If(c, a, b)


def And(*a):
    a = [x for x in a if x is not True]
    return z3.And(*a) if a else z3.BoolVal(True)


def Or(*a):
    return z3.Or(*a) if a else z3.BoolVal(False)


Not, Implies = z3.Not, z3.Implies


class Fn:
    """Registry of uninterpreted functions, memoised by name."""
    _f = {}

    @classmethod
    def get(cls, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        if key not in cls._f:
            # distinct names per signature
            n = name
            k = sum(1 for q in cls._f if q[0] == name)
            if k:
                n = name + "!" + str(k)
            cls._f[key] = z3.Function(n, *sorts)
        return cls._f[key]


def uf(name, *args, sort=None):
    """Application of an uninterpreted (pure) function."""
    sorts = [a.sort() for a in args] + [sort if sort is not None else Val]
    return Fn.get(name, *sorts)(*args)


def isa(clsname, v):
    """v is an instance of the (user) class clsname."""
    return And(Val.is_ref(v), uf("isa_" + clsname, v, sort=Bool))


def truthy_ref(v):
    return uf("truthy", v, sort=Bool)


def pyeq(a, b):
    """Python == over Val: structural on immutable values; on two object
    references identity or a user-defined (uninterpreted) equality."""
    a_, b_ = z3.simplify(a), z3.simplify(b)

    def ctor(t):
        return t.decl().name() if z3.is_app(t) else None
    plain = ("none", "bool", "int", "str", "cls")
    if ctor(a_) in plain or ctor(b_) in plain:
        return a == b
    return Or(a == b, And(Val.is_ref(a), Val.is_ref(b), uf("user_eq", a, b, sort=Bool)))


# dict views -----------------------------------------------------------------
class D:
    """A dictionary value: ordered keys, mapping, domain."""
    __slots__ = ("keys", "map", "dom")

    def __init__(self, keys=None, map=None, dom=None):
        self.keys = EMPTY if keys is None else keys
        self.map = NOMAP if map is None else map
        self.dom = NODOM if dom is None else dom

    def set(self, k, v):
        return D(ite(self.dom[k], self.keys, cat(self.keys, unit(k))),
                 z3.Store(self.map, k, v), z3.Store(self.dom, k, z3.BoolVal(True)))

    def drop(self, k):
        return D(uf("seq_remove", self.keys, k, sort=SeqV), self.map,
                 z3.Store(self.dom, k, z3.BoolVal(False)))

    def get(self, k, default=NONE):
        return ite(self.dom[k], self.map[k], default)

    def ite(self, c, o):
        return D(ite(c, self.keys, o.keys), ite(c, self.map, o.map), ite(c, self.dom, o.dom))

    def terms(self):
        return [self.keys, self.map, self.dom]


# folds ----------------------------------------------------------------------
class Fold:
    """A recursive specification function over a sequence.

    fold(nil, s) = s ;  fold(h::t, s) = fold(t, step(h, s))  unless an exit
    condition holds at (h, s), in which case the recursion stops with that
    exit's code and value and the state step(h, s) (or exit_state)."""

    def __init__(self, name, state, step, params=(), exits=None, exit_state=None, inv=None, doc="", names=None):
        self.name, self.doc = name, doc
        self.names = names          # preferred (not required) names of the program components, to speed up matching
        self.state = list(state)
        self.psorts = list(params)
        self.step_ = step
        self.exits_ = exits
        self.exit_state_ = exit_state
        self.inv_ = inv

    def step(self, h, s, p):
        r = self.step_(h, s, p)
        return list(r) if isinstance(r, (list, tuple)) else [r]

    def exits(self, h, s, p):
        """list of (cond, kind, value)"""
        return list(self.exits_(h, s, p)) if self.exits_ else []

    def exit_state(self, h, s, p):
        r = (self.exit_state_ or self.step_)(h, s, p)
        return list(r) if isinstance(r, (list, tuple)) else [r]

    def inv(self, s, p, done):
        return self.inv_(s, p, done) if self.inv_ else None

    def _f(self, suffix, out, xs, s, p):
        sorts = [SORTS[q] for q in self.psorts] + [SORTS[q] for q in self.state]
        f = Fn.get("fold_" + self.name + suffix, *([SeqV] + sorts + [out]))
        return f(xs, *p, *s)

    def app(self, xs, s=(), p=()):
        assert len(s) == len(self.state) and len(p) == len(self.psorts), (self.name, len(s), len(p))
        return [self._f("_%d" % i, SORTS[q], xs, s, p) for i, q in enumerate(self.state)]

    def app1(self, xs, s=(), p=()):
        return self.app(xs, s, p)[0]

    def code(self, xs, s=(), p=()):
        return self._f("_exit", Int, xs, s, p)

    def value(self, xs, s=(), p=()):
        return self._f("_ret", Val, xs, s, p)

    # axiom instances
    def nil(self, s=(), p=()):
        a = [x == y for x, y in zip(self.app(EMPTY, s, p), s)]
        a.append(self.code(EMPTY, s, p) == 0)
        return And(*a)

    def cons(self, h, t, s=(), p=(), xs=None):
        """unfolding instance at h::t"""
        xs = cat(unit(h), t) if xs is None else xs
        ns = self.step(h, s, p)
        ex = self.exits(h, s, p)
        es = self.exit_state(h, s, p) if ex else None
        out = []
        anyexit = Or(*[c for c, _, _ in ex]) if ex else z3.BoolVal(False)
        for i, x in enumerate(self.app(xs, s, p)):
            rec = self.app(t, ns, p)[i]
            out.append(x == (ite(anyexit, es[i], rec) if ex else rec))
        code, val = self.code(t, ns, p), self.value(t, ns, p)
        for k, (c, kind, v) in reversed(list(enumerate(ex))):
            code = ite(c, z3.IntVal(k + 1), code)
            val = ite(c, v if v is not None else NONE, val)
        out.append(self.code(xs, s, p) == code)
        out.append(self.value(xs, s, p) == val)
        return And(*out)


class While:
    """Recursive specification function for an unbounded loop:
    W(s) = W(step(s)) while guard(s), else s.  exits as for Fold."""

    def __init__(self, name, state, guard, step, params=(), exits=None, measure=None, inv=None, final=None, left=None):
        """final(s, p): the state after the evaluation of a false guard, when evaluating the guard has effects"""
        self.final_ = final
        self.left_ = left           # left(s, p): holds of the state after a break
        self.name, self.state, self.psorts = name, list(state), list(params)
        self.guard_, self.step_, self.exits_, self.measure, self.inv_ = guard, step, exits, measure, inv

    def guard(self, s, p):
        return self.guard_(s, p)

    def final(self, s, p):
        return list(self.final_(s, p)) if self.final_ else s

    def step(self, s, p):
        r = self.step_(s, p)
        return list(r) if isinstance(r, (list, tuple)) else [r]

    def exits(self, s, p):
        return list(self.exits_(s, p)) if self.exits_ else []

    def inv(self, s, p):
        return self.inv_(s, p) if self.inv_ else None

    def _f(self, suffix, out, s, p):
        sorts = [SORTS[q] for q in self.psorts] + [SORTS[q] for q in self.state]
        return Fn.get("while_" + self.name + suffix, *(sorts + [out]))(*p, *s)

    def app(self, s=(), p=()):
        return [self._f("_%d" % i, SORTS[q], s, p) for i, q in enumerate(self.state)]

    def code(self, s=(), p=()):
        return self._f("_exit", Int, s, p)

    def value(self, s=(), p=()):
        return self._f("_ret", Val, s, p)

    def unfold(self, s, p=()):
        g = self.guard(s, p)
        ns = self.step(s, p)
        ex = self.exits(s, p)
        anyexit = Or(*[c for c, _, _ in ex]) if ex else z3.BoolVal(False)
        out = []
        for i, x in enumerate(self.app(s, p)):
            out.append(x == ite(Not(g), self.final(s, p)[i], ite(anyexit, ns[i], self.app(ns, p)[i])))
        code, val = self.code(ns, p), self.value(ns, p)
        for k, (c, kind, v) in reversed(list(enumerate(ex))):
            code = ite(c, z3.IntVal(k + 1), code)
            val = ite(c, v if v is not None else NONE, val)
        out.append(self.code(s, p) == ite(g, code, z3.IntVal(0)))
        out.append(Implies(g, self.value(s, p) == val))
        return And(*out)


# obligations ----------------------------------------------------------------
class Obl:
    def __init__(self, name, status, backend, secs, detail=""):
        self.name, self.status, self.backend, self.secs, self.detail = name, status, backend, secs, detail


class Prover:
    def __init__(self, timeout_ms=20000, cvc5=True):
        self.obls, self.timeout, self.use_cvc5 = [], timeout_ms, cvc5
        self.solver_time = 0.0
        self.axioms = []

    def check(self, assumptions, goal, timeout=None, quick=False):
        """-> (status, backend, model or None); status in valid/refuted/unknown"""
        t = timeout or self.timeout
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "valid", "simplify", None
        if z3.is_and(goal) and goal.num_args() > 1:
            be = "simplify"
            for c in goal.children():
                st, b, m = self.check(assumptions, c, timeout, quick)
                if st != "valid":
                    return st, b, m
                be = b if be == "simplify" else be
            return "valid", be, None
        backends = [("z3", {})]
        if not quick:
            backends += [("z3#2", {"random_seed": 42}), ]
        for name, opts in backends:
            s = z3.Solver()
            s.set("timeout", t)
            for k, v in opts.items():
                s.set(k, v)
            for a in self.axioms:
                s.add(a)
            for a in assumptions:
                s.add(a)
            s.add(z3.Not(goal))
            t0 = time.time()
            r = s.check()
            self.solver_time += time.time() - t0
            if r == z3.unsat:
                return "valid", "z3 " + z3.get_version_string() if name == "z3" else name, None
            if r == z3.sat:
                return "refuted", "z3 " + z3.get_version_string(), s.model()
        if not quick and self.use_cvc5:
            r = self._cvc5(s)
            if r == "unsat":
                return "valid", "cvc5", None
        return "unknown", "z3+cvc5", None

    def _cvc5(self, solver):
        t0 = time.time()
        try:
            text = "(set-logic ALL)\n" + solver.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(text)
            p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % self.timeout, f.name],
                               capture_output=True, text=True, timeout=self.timeout / 1000 + 10)
            os.unlink(f.name)
            return p.stdout.strip().split("\n")[0]
        except Exception:
            return "error"
        finally:
            self.solver_time += time.time() - t0

    def oblige(self, name, assumptions, goal, detail=""):
        t0 = time.time()
        # the contract is settled by the first obligation that fails: the others get a short time
        failed = any(o.status != "valid" for o in self.obls)
        st, be, m = self.check(assumptions, goal, 3000, True) if failed else self.check(assumptions, goal)
        d = detail
        if st != "valid":
            d += "\n  goal: " + str(z3.simplify(goal))[:2000]
            d += "\n  under: " + "; ".join(str(z3.simplify(a))[:300] for a in list(assumptions)[-12:])
            if m is not None:
                try:
                    d += "\n  counter-model: " + str(m)[:2000]
                except Exception:
                    pass
        self.obls.append(Obl(name, st, be, time.time() - t0, d))
        return st == "valid", m

    # induction over sequences: prove forall xs. P(xs)
    def induct(self, name, P, base_ax=lambda: [], step_ax=lambda h, t: [], hyps=(), ih=None):
        """P(xs) -> z3 Bool possibly mentioning other free constants; ih(t) -> list of instances of the
        induction hypothesis (default [P(t)])."""
        h = z3.Const("ind_h", Val)
        t = z3.Const("ind_t", SeqV)
        ok1, _ = self.oblige(name + "/base", list(hyps) + list(base_ax()), P(EMPTY))
        hyp = ih(h, t) if ih else [P(t)]
        ok2, _ = self.oblige(name + "/step", list(hyps) + list(step_ax(h, t)) + list(hyp), P(cat(unit(h), t)))
        return ok1 and ok2

    def induct_snoc(self, name, P, base_ax=lambda: [], step_ax=lambda t, h: [], hyps=()):
        """forall xs. P(xs) by induction on the last element"""
        h = z3.Const("ind_h", Val)
        t = z3.Const("ind_t", SeqV)
        ok1, _ = self.oblige(name + "/base", list(hyps) + list(base_ax()), P(EMPTY))
        ok2, _ = self.oblige(name + "/step", list(hyps) + list(base_ax()) + list(step_ax(t, h)) + [P(t)], P(cat(t, unit(h))))
        return ok1 and ok2


_cls_ids = {}


def cls_id(name):
    return _cls_ids.setdefault(name, len(_cls_ids) + 1)


def vcls(name):
    return Val.cls(z3.IntVal(cls_id(name)))


def vobj(name, *args):
    return Val.obj(z3.IntVal(cls_id(name)), seq(*args))
