"""C09: composite builds (builders/composite_builders)."""
from pyvc.contract import *
from pyvc.theory import *
import pyvc.source as src

STEPS, ST = z3.Const("steps", SeqV), z3.Const("H0_a_status", AttrA)
DONE, READY, BUILDING = vstr("done"), vstr("ready"), vstr("building")


def status(h, st):
    return z3.Select(st, Val.r(h))


def isstep(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


# the first step that is not done
unfinished = Fold("first_unfinished", [], lambda h, s, p: [], params=["arr"], exits=lambda h, s, p: [(status(h, p[0]) != DONE, "ret", status(h, p[0]))])


def overall(xs, st):
    """done when every step is done, else the status of the first step that is not"""
    return ite(unfinished.code(xs, [], [st]) == 1, unfinished.value(xs, [], [st]), DONE)


statuses = Fold("statuses", ["seq"], lambda h, s, p: cat(s[0], unit(status(h, p[0]))), params=["arr"])
open_statuses = Fold("open_statuses", ["seq"], lambda h, s, p: ite(h == DONE, s[0], cat(s[0], unit(h))))


class Composite(Contract):
    attrs = {"status": True, "future": True}
    cls = ("disseminate.builders.composite_builders.sequential_builder", "SequentialBuilder")
    trusted = ("a step is any object with a status and a build operation; its own status and build are C08's and its own affair",)

    def elem(self, e, h, s):
        e.assume(isstep(h))

    def composite(self, e, **kw):
        for a in self.attrs:
            e.arr("a_" + a)
        c = e.from_resolved(src.resolve(*self.cls), self.cls[1])
        self.steps = e.new_list(STEPS)
        return e.new_obj(c, dict({"subbuilders": self.steps}, **kw))

    def setup(self, e):
        return {"self": self.composite(e)}


acc_statuses, acc_open = Appends(statuses), Appends(open_statuses)


def first_open(xs, st):
    o = open_statuses.app1(statuses.app1(xs, [EMPTY], [st]), [EMPTY])
    c = unfinished.code(xs, [], [st])
    return And((z3.Length(o) == 0) == (c == 0), Implies(z3.Length(o) > 0, And(c == 1, o[0] == unfinished.value(xs, [], [st]))), Or(c == 0, c == 1))


def lemma_open(pv):
    """the first entry of the statuses other than done is the status of the first step that is not done"""
    st = z3.Const("any_st", AttrA)
    vt = lambda t: statuses.app1(t, [EMPTY], [st])

    def step(h, t):
        sh = status(h, st)
        o1 = ite(sh == DONE, EMPTY, unit(sh))
        return [statuses.cons(h, t, [EMPTY], [st]), acc_statuses.inst(t, unit(sh), [st]),
                open_statuses.cons(sh, vt(t), [EMPTY]), acc_open.inst(vt(t), o1), acc_open.inst(vt(t), unit(sh)),
                unfinished.cons(h, t, [], [st])]
    pv.induct("lemma first status that is not done", lambda xs: first_open(xs, st),
              lambda: [statuses.nil([EMPTY], [st]), open_statuses.nil([EMPTY]), unfinished.nil([], [st])], step)


LEMMAS = [acc_statuses.lemma, acc_open.lemma, lemma_open]


class Status(Composite):
    """a composite build is done iff all its steps are; otherwise its status is that of the first step that is not done"""
    target = "disseminate.builders.composite_builders.composite_builder:CompositeBuilder.status"
    loops = [LoopUse(unfinished, params=lambda e: [e.arr("a_status")]), LoopUse(statuses, params=lambda e: [e.arr("a_status")]), LoopUse(open_statuses)]
    ext = {".status?": lambda e, o: None}

    def elem(self, e, h, s):
        if s.eq(STEPS):
            e.assume(isstep(h))

    def spec(self, e, self_):
        st = e.arr("a_status")
        e.assume(first_open(STEPS, st))
        return overall(STEPS, st)


CONTRACTS = [Status]


# -- building ---------------------------------------------------------------------------------
# Time passes whenever the whole build's status is taken (the statuses of steps may have changed arbitrarily since the last
# time) and a step's build() may change any status.
LOG = z3.Const("started", SeqV)


def later(st):
    return uf("later", st, sort=AttrA)


def started(st, h):
    return uf("started", st, h, sort=AttrA)


def seq_step(h, s, p):
    v, st, log = s
    now = status(h, st)
    go = now == READY
    return [ite(go, BUILDING, now), ite(go, started(st, h), st), ite(go, cat(log, unit(h)), log)]


stops = lambda h, s: And(status(h, s[1]) != DONE, status(h, s[1]) != READY, status(h, s[1]) != BUILDING)
in_order = Fold("run_in_order", ["val", "arr", "seq"], seq_step, names=["status", "status", None],
                exits=lambda h, s, p: [(Or(status(h, s[1]) == BUILDING, status(h, s[1]) == READY), "break", None),
                                       (stops(h, s), "ret", status(h, s[1]))])
together = Fold("run_together", ["val", "arr", "seq"], seq_step, names=["status", "status", None],
                exits=lambda h, s, p: [(stops(h, s), "ret", status(h, s[1]))])


class Run(Composite):
    def setup(self, e):
        e.log = e.new_list(LOG)
        return {"self": self.composite(e)}

    @property
    def order(self):
        return together if self.cls[1] == "ParallelBuilder" else in_order


def start(e, o, a, kw):
    if a or kw:
        raise Unsupported("build with arguments")
    e.setbox(e.log, seq=cat(e.box(e.log).seq, unit(o)))
    e.arrs["a_status"] = started(e.arr("a_status"), o)
    return NONE


def whole(e, o):
    """the status of the composite itself (contract Status), taken now"""
    if e.box(o) is None:
        return None
    e.arrs["a_status"] = later(e.arr("a_status"))
    return overall(e.box(e.contract.steps).seq, e.arrs["a_status"])


class Once(Run):
    """one pass of a sequential build starts at most one step: the first that is not done, when it is ready"""
    target = "disseminate.builders.composite_builders.composite_builder:CompositeBuilder.build.run_build_once"
    loops = [LoopUse(in_order)]
    ext = {".build": start}
    closure = lambda self, e: {}

    def spec(self, e, self_):
        k, fin, v = run_fold(e, self.order, STEPS, [DONE, e.arr("a_status"), e.box(e.log).seq])
        e.arrs["a_status"] = fin[1]
        e.setbox(e.log, seq=fin[2])
        return v if k == "ret" else fin[0]


class OnceParallel(Once):
    """one pass of a parallel build starts every ready step, in order, until a step that can neither run nor become done"""
    cls = ("disseminate.builders.composite_builders.parallel_builder", "ParallelBuilder")
    loops = [LoopUse(together)]


CONTRACTS += [Once, OnceParallel]


def removal(h, s, p):
    return ite(status(h, p[0]) == DONE, uf("seq_remove", s[0], h, sort=SeqV), s[0])


def enough(s, p, done):
    """every step is still listed as often as it comes up again"""
    return z3.ForAll([k_], count(s[0], k_) + count(done, k_) >= count(p[1], k_), patterns=[count(done, k_)])


cleared = Fold("cleared", ["seq"], removal, params=["arr", "seq"], inv=enough)


def clear_hints(e, head, s, p, done, rest):
    x = uf("seq_remove", s[0], head, sort=SeqV)
    return occurs_hints(done, head, rest) + [
        count_cat(cat(done, unit(head)), rest, head), p[1] == cat(done, unit(head), rest),
        Implies(count(s[0], head) > 0, z3.Contains(s[0], unit(head))),
        Implies(z3.Contains(s[0], unit(head)), z3.ForAll([k_], count(x, k_) == count(s[0], k_) - ite(k_ == head, 1, 0), patterns=[count(s[0], k_)]))]


def settled(v):
    return And(v != READY, v != BUILDING)


def passes(order):
    """repeated passes until the build is settled"""
    once = lambda st, log: order.app(STEPS, [DONE, st, log])[1:]
    return While("passes_" + order.name, ["arr", "seq"], guard=lambda s, p: Not(settled(overall(STEPS, later(s[0])))),
                 step=lambda s, p: once(later(s[0]), s[1]), final=lambda s, p: [later(s[0]), s[1]], )


seq_passes, par_passes = passes(in_order), passes(together)
CLEAR, COMPLETE = z3.Const("clear_done", Bool), z3.Const("complete", Bool)


def renew(e, a, kw):
    e.setbox(e.log, seq=cat(e.box(e.log).seq, unit(tup(vstr("renewed"), e.V(a[1] if len(a) > 1 else kw.get("reset", NONE))))))
    return NONE


class Build(Run):
    """build() makes one pass over an unsettled build, build(complete=True) passes until it is settled; then the record of a
    finished build is renewed, finished steps are dropped when asked for (clear_done), and the resulting status is returned"""
    target = "disseminate.builders.composite_builders.composite_builder:CompositeBuilder.build"
    ext = {".build": start, ".status?": whole, "build_needed": renew}
    trusted = ("list.remove drops the first occurrence of its argument",)
    loops = [LoopUse(in_order), LoopUse(seq_passes), LoopUse(cleared, params=lambda e: [e.arr("a_status"), STEPS], hints=clear_hints)]
    passes = seq_passes

    def setup(self, e):
        e.log = e.new_list(LOG)
        e.assume(count_nil())
        return {"self": self.composite(e, clear_done=Val.bool(CLEAR)), "complete": Val.bool(COMPLETE)}

    def take(self, e):
        e.arrs["a_status"] = later(e.arr("a_status"))
        return overall(STEPS, e.arrs["a_status"])

    def spec(self, e, self_, complete):
        if e.branch(Val.b(complete)):
            k, fin, v = run_while(e, self.passes, [e.arr("a_status"), e.box(e.log).seq])
            e.arrs["a_status"] = fin[0]
            e.setbox(e.log, seq=fin[1])
        elif e.branch(Not(settled(self.take(e)))):
            k, fin, v = run_fold(e, self.order, STEPS, [DONE, e.arr("a_status"), e.box(e.log).seq])
            e.arrs["a_status"] = fin[1]
            e.setbox(e.log, seq=fin[2])
        v = self.take(e)
        if e.branch(v == DONE):
            e.setbox(e.log, seq=cat(e.box(e.log).seq, unit(tup(vstr("renewed"), vbool(True)))))
        if e.branch(CLEAR):
            k, fin, _ = run_fold(e, cleared, STEPS, [STEPS], [e.arr("a_status"), STEPS])
            e.setbox(self.steps, seq=fin[0])
        return v


class BuildParallel(Build):
    __doc__ = Build.__doc__
    cls = OnceParallel.cls
    passes = par_passes
    loops = [LoopUse(together), LoopUse(par_passes), Build.loops[2]]


CONTRACTS += [Build, BuildParallel]


def lemma_in_order(pv):
    """the only step a sequential pass may start is the first that is not done, and only when it is ready: over the steps passed
    before it all are done"""
    st, log, v = z3.Const("any_st", AttrA), z3.Const("any_log", SeqV), z3.Const("any_v", Val)
    which = Fold("first_unfinished_step", [], lambda h, s, p: [], params=["arr"], exits=lambda h, s, p: [(status(h, p[0]) != DONE, "ret", h)])
    go = lambda xs: And(which.code(xs, [], [st]) == 1, status(which.value(xs, [], [st]), st) == READY)
    out = lambda xs, v: in_order.app(xs, [v, st, log])
    P = lambda xs, v: And(out(xs, v)[2] == ite(go(xs), cat(log, unit(which.value(xs, [], [st]))), log),
                          out(xs, v)[1] == ite(go(xs), started(st, which.value(xs, [], [st])), st))
    pv.induct("lemma sequential pass", lambda xs: P(xs, v), lambda: [in_order.nil([v, st, log]), which.nil([], [st])],
              lambda h, t: [in_order.cons(h, t, [v, st, log]), which.cons(h, t, [], [st])],
              ih=lambda h, t: [P(t, seq_step(h, [v, st, log], [])[0])])


LEMMAS.append(lemma_in_order)


# -- listings ----------------------------------------------------------------------------------
SUBS = z3.Const("H0_a_subbuilders", AttrA)


def comp(v):
    return uf("isa_CompositeBuilder", v, sort=Bool)


def listed(h, s, p):
    return cat(s[0], unit(h), ite(comp(h), nested.app1(Val.litems(z3.Select(SUBS, Val.r(h))), [EMPTY]), EMPTY))


# every step, a composite right before its own steps
nested = Fold("nested_steps", ["seq"], listed)


acc_nested = Appends(nested)
LEMMAS.append(acc_nested.lemma)


def flat_of(g):
    return cat(unit(g), nested.app1(Val.litems(z3.Select(SUBS, Val.r(g))), [EMPTY]))


def flatten_call(e, o, a, kw):
    """the recursive call by contract, on a composite step with itself as the builder"""
    b = e.V(kw["builder"] if "builder" in kw else a[0] if a else NONE)
    if not e.entails(And(comp(o), Or(b == o, Val.is_none(b)))):
        raise Unsupported("flatten of another builder")
    return e.new_list(flat_of(o))


class Flatten(Composite):
    """flattening lists the build itself and then every nested step exactly once, in order, a composite right before its own steps
    (recursive calls by contract: partial correctness)"""
    target = "disseminate.builders.composite_builders.composite_builder:CompositeBuilder.flatten"
    loops = [LoopUse(nested)]
    attrs = {"subbuilders": lambda e, o, v: e.assume(Val.is_lst(v))}
    ext = {".flatten": flatten_call, ".subbuilders?": lambda e, o: None}

    def elem(self, e, h, s):
        e.assume(And(isstep(h), uf("hasattr_subbuilders", h, sort=Bool) == comp(h)))

    def part(self, e):
        g = z3.Const("group", Val)
        e.assume(And(isstep(g), comp(g), uf("hasattr_subbuilders", g, sort=Bool)))
        return {"self": self.composite(e), "builder": g}

    @property
    def variants(self):
        return [("self", lambda e: {"self": self.composite(e), "builder": NONE}), ("nested", self.part)]

    def spec(self, e, self_, builder):
        b = e.V(builder)
        if e.entails(Val.is_none(b)):
            b = e.V(self_)
            e.assume(acc_nested.inst(STEPS, unit(b)))
            return e.new_list(cat(unit(b), nested.app1(STEPS, [EMPTY])))
        e.assume(Val.is_lst(z3.Select(SUBS, Val.r(b))))
        e.assume(acc_nested.inst(Val.litems(z3.Select(SUBS, Val.r(b))), unit(b)))
        return e.new_list(flat_of(b))


FUT, G = z3.Const("H0_a_future", AttrA), z3.Const("group", Val)
pending = Fold("pending_futures", ["seq"], lambda h, s, p: ite(Val.is_none(z3.Select(FUT, Val.r(h))), s[0], cat(s[0], unit(z3.Select(FUT, Val.r(h))))))


class Futures(Composite):
    """futures lists the running future of every step of the flattened build, in order (of a nested build)"""
    target = "disseminate.builders.composite_builders.composite_builder:CompositeBuilder.futures"
    loops = [LoopUse(pending)]

    def setup(self, e):
        e.assume(And(isstep(G), comp(G), truthy_ref(G)))
        return {"self": self.composite(e), "builder": G}

    def spec(self, e, self_, builder):
        return e.new_list(run_fold(e, pending, flat_of(G), [EMPTY])[1][0])


NEED = lambda h, r: uf("step_build_needed", h, r, sort=Bool)
needs = Fold("some_needed", [], lambda h, s, p: [], params=["val"], exits=lambda h, s, p: [(NEED(h, p[0]), "break", None)])
RESET = z3.Const("reset", Bool)


class Needed(Composite):
    """a parallel build is needed iff one of its steps is"""
    target = "disseminate.builders.composite_builders.parallel_builder:ParallelBuilder.build_needed"
    cls = OnceParallel.cls
    loops = [LoopUse(needs, params=lambda e: [Val.bool(RESET)])]
    ext = {".build_needed": lambda e, o, a, kw: NEED(o, e.V(kw.get("reset", a[0] if a else vbool(False))))}

    def setup(self, e):
        return {"self": self.composite(e), "reset": Val.bool(RESET)}

    def spec(self, e, self_, reset):
        return Val.bool(needs.code(STEPS, [], [Val.bool(RESET)]) == 1)


CONTRACTS += [Flatten, Futures, Needed]
