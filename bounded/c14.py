from common import *
import gc
from disseminate.signals.signals import Signal, Namespace
from disseminate.signals.exceptions import DuplicateSignal
try:
    from disseminate.signals import signal as global_signal
except ImportError:
    global_signal = None

ORD = [-3, 0, 1, 2, 2.5, 10, 1000]


def histories():
    r = rng("hist")
    yield [["connect", 5, False, 0], ["connect", 1, True, 1], ["connect", 3, False, 0], ["emit", 1], ["drop", 1], ["emit", 2]]
    for _ in range(scale(3000)):
        h = []
        for _ in range(r.randint(1, 12)):
            op = r.choice(["connect", "connect", "connect", "via", "drop", "emit", "reset", "dict"] if r.random() < .95 else ["emit"])
            if op in ("connect", "via"):
                h.append([op, r.choice(ORD), r.random() < .5, r.randint(0, 3)])
            elif op == "drop":
                h.append([op, r.choice(ORD)])
            elif op == "emit":
                h.append([op, r.randint(0, 2)])
            else:
                h.append([op])
        h.append(["emit", 0])
        yield h


@check("history", histories)
def _(case):
    "connect/emit/reset/receiver death histories agree with the model: one call per live receiver in increasing order with the emitter's arguments, aligned results"
    s = Signal("s")
    model, log, alive = {}, [], {}
    uid = 0
    for op in case:
        if op[0] in ("connect", "via"):
            _, order, weak, kind = op
            uid += 1

            def mk(u=uid, kind=kind):
                def f(**kw):
                    log.append((u, dict(kw)))
                    return [None, u, ("r", u), 0][kind]
                return f
            f = mk()
            before = dict(s.receivers)
            try:
                if op[0] == "connect":
                    s.connect(f, order=order, weak=weak)
                else:
                    if s.connect_via(order=order, weak=weak)(f) is not f:
                        return "connect_via does not return the receiver"
                ok = True
            except DuplicateSignal:
                ok = False
            if ok != (order not in model):
                return "connect to order %r: accepted=%r, occupied=%r" % (order, ok, order in model)
            if not ok:
                if dict(s.receivers) != before:
                    return "rejected connect changed the connections"
                continue
            model[order] = (uid, [None, uid, ("r", uid), 0][kind])
            alive[order] = f if weak else True
            del f, mk
        elif op[0] == "drop":
            if op[1] in alive and alive[op[1]] is not True:
                alive[op[1]] = None
                gc.collect()
        elif op[0] == "reset":
            s.reset()
            model, alive = {}, {}
        elif op[0] == "dict":
            got = sorted(s.receivers_dict())
            exp = sorted(o for o in model if alive[o] is not None)
            if got != exp:
                return "receivers_dict orders %r, expected %r" % (got, exp)
        else:
            del log[:]
            kw = [{}, {"a": 1}, {"context": "c", "tag": None}][op[1]]
            rv = s.emit(**kw)
            live = [o for o in sorted(model) if alive[o] is not None]
            exp = [(model[o][0], kw) for o in live]
            if log != exp:
                return "calls %r, expected %r" % (log, exp)
            expv = [model[o][1] if alive[o] is not None else None for o in sorted(model)]
            if rv != expv:
                return "results %r, expected %r" % (rv, expv)


@check("reentrant", lambda: lists([1, 2, 3], 3, 1))
def _(case):
    "a receiver that raises stops the emission; the same callable connected at several orders is called for each"
    s = Signal("s")
    log = []

    def f(**kw):
        log.append(kw)
        return len(log)
    orders = sorted(set(case))
    for o in reversed(orders):
        s.connect(f, order=o, weak=False)
    return same(s.emit(x=1), list(range(1, len(orders) + 1)), "results") or same(log, [{"x": 1}] * len(orders), "calls")


def names():
    r = rng("names")
    for _ in range(scale(300)):
        yield [r.choice(["a", "b", "document_onload", ""]) for _ in range(r.randint(1, 8))]


@check("namespace", names)
def _(case):
    "a name always yields the same signal; different names different signals; documentation and connections survive"
    ns = Namespace()
    seen = {}
    for i, n in enumerate(case):
        s = ns.signal(n, doc="doc%d" % i if i % 2 else None)
        if n in seen and seen[n] is not s:
            return "signal(%r) returned another signal" % n
        if s in [v for k, v in seen.items() if k != n]:
            return "names share a signal"
        if s.name != n:
            return "name is %r" % s.name
        if n not in seen and s.receivers:
            return "new signal has receivers"
        seen[n] = s
        if 0 not in s.receivers:
            s.connect(lambda **k: n, order=0, weak=False)
        if i % 2 and s.__doc__ != "doc%d" % i:
            return "documentation is not recorded"
    for n, s in seen.items():
        if len(s.receivers) != 1 or ns.signal(n) is not s:
            return "signal %r lost its receivers" % n


class Odd:
    "a callable that is false, equal to everything or unequal to itself"

    def __init__(self, n, flags):
        self.n, self.flags = n, flags

    def __call__(self, **kw):
        return (self.n, kw)

    def __bool__(self):
        return "true" in self.flags

    def __len__(self):
        return 0

    def __eq__(self, other):
        return "eq" in self.flags

    def __hash__(self):
        return 1


@check("objects", lambda: ([list(f), w] for f in lists(["", "true", "eq", "true eq"], 3, 1) for w in (False, True)))
def _(case):
    "any callable object can be a receiver, also one that is false or equal to others"
    flags, weak = case
    s = Signal("s")
    rs = [Odd(i, f) for i, f in enumerate(flags)]
    for i, x in enumerate(rs):
        s.connect(x, order=len(rs) - i, weak=weak)
    m = same(s.emit(a=1), [(x.n, {"a": 1}) for x in reversed(rs)], "results")
    if m:
        return m
    if [r is x for (o, r), x in zip(sorted(s.receivers_dict().items()), reversed(rs))] != [True] * len(rs):
        return "receivers_dict %r" % s.receivers_dict()


@check("methods", lambda: ([k, w] for k in ("function", "static", "class", "partial", "lambda") for w in (False,)))
def _(case):
    "functions, methods and partial functions can be receivers"
    from functools import partial

    class C:
        def m(self, **kw): return ("m", kw)

        @staticmethod
        def s(**kw): return ("s", kw)

        @classmethod
        def c(cls, **kw): return ("c", kw)
    c = C()
    f = {"function": c.m, "static": C.s, "class": C.c, "partial": partial(c.m, z=1), "lambda": lambda **kw: kw}[case[0]]
    s = Signal("s")
    s.connect(f, order=1, weak=case[1])
    return same(s.emit(a=1), [f(a=1)], "results")
