"""C14: signals (signals/signals.py)."""
from pyvc.contract import *
from pyvc.theory import *

RK, RM, RD = z3.Const("recv_keys", SeqV), z3.Const("recv_map", MapV), z3.Const("recv_dom", DomV)
KW = z3.Const("kwargs", Val)


def isweak(r):
    return And(Val.is_ref(r), uf("isa_ref", r, sort=Bool))


def live(r):
    """the receiver behind a connection: the referent of a weak reference (None once it died), else the connection itself"""
    return ite(isweak(r), uf("deref", r), r)


def order_of(h):
    return Val.titems(h)[0]


def conn(h):
    return Val.titems(h)[1]


def answer(log, r, kw):
    """what the receiver answers may depend on everything called before"""
    return uf("answer", log, r, kw)


def call_entry(r, kw):
    return tup(r, kw)


def step(h, s, p):
    log, res = s
    r = live(conn(h))
    return [ite(Val.is_none(r), log, cat(log, unit(call_entry(r, p[0])))),
            cat(res, unit(ite(Val.is_none(r), NONE, answer(log, r, p[0]))))]


dispatch = Fold("dispatch", ["seq", "seq"], step, params=["val"],
                inv=lambda s, p, done: z3.Length(s[1]) == z3.Length(done))


def pair(e, h, s):
    """elements of dict.items(): (order, connection); connections are callables or weak references"""
    e.assume(And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2))
    if e.contract.orders_int:
        e.assume(Val.is_int(order_of(h)))
    c = conn(h)
    e.assume(Or(Val.is_ref(c), Val.is_cls(c)))
    e.assume(Implies(Val.is_ref(c), And(Val.r(c) < 0, uf("refclass", c, sort=Int) == 0)))
    e.assume(Not(isweak(uf("deref", c))))
    e.assume(Implies(isweak(c), Or(Val.is_none(uf("deref", c)), And(Val.is_ref(uf("deref", c)), Val.r(uf("deref", c)) < 0, uf("refclass", uf("deref", c), sort=Int) == 0))))


def weak_inst(e, x, c):
    return None


def do_call(e, fv, args, kwargs):
    """calling a value: a weak reference yields its referent, anything else is a receiver and is recorded"""
    if not args and not kwargs:
        if not e.branch(isweak(fv)):
            raise PyRaise("TypeError")
        return uf("deref", fv)
    if e.branch(isweak(fv)) or args or set(kwargs) != {"**"}:
        raise PyRaise("TypeError")
    log = e.box(e.log).seq
    kw = e.V(kwargs["**"])
    e.setbox(e.log, seq=cat(log, unit(call_entry(fv, kw))))
    return answer(log, fv, kw)


def items(e, o, args, kw):
    """dict.items(): the (key, value) pairs in insertion order"""
    d = e.dict_of(o)
    return e.new_list(uf("dict_items", d.keys, d.map, sort=SeqV))


class Sig(Contract):
    orders_int = False
    ext = {"call": do_call}
    elem = staticmethod(pair)
    trusted = ("sorted(pairs) is the permutation of the pairs in increasing order of their first component (builtin; the orders are distinct)",
               "a weak reference is either dead (None) or yields its referent")

    def sig(self, e):
        e.log = e.new_list(z3.Const("calls", SeqV))
        self.receivers = e.new_dict(D(RK, RM, RD))
        import pyvc.source as src
        r = src.resolve("disseminate.signals.signals", "Signal")
        return e.new_obj(e.from_resolved(r, "Signal"), {"receivers": self.receivers, "name": sym_str(e, "name")})


class Emit(Sig):
    """emit calls, in the order sorted(receivers.items()), every receiver that is alive, once, with exactly the
    keyword arguments of the emission; the results list has one entry per connection, in that order: the receiver's
    answer, or None for a dead one (invariant: as many results as connections passed)"""
    target = "disseminate.signals.signals:Signal.emit"
    loops = [LoopUse(dispatch, params=lambda e: [KW])]
    ext = {"call": do_call, ".items": items}

    def setup(self, e):
        s = self.sig(e)
        e.assume(And(Val.is_ref(KW), Val.r(KW) < 0, uf("refclass", KW, sort=Int) == 2))
        return {"self": s, "**": KW}

    def spec(self, e, self_):
        xs = uf("sorted", uf("dict_items", RK, RM, sort=SeqV), sort=SeqV)
        k, fin, v = run_fold(e, dispatch, xs, [e.box(e.log).seq, EMPTY], [KW])
        e.setbox(e.log, seq=fin[0])
        return e.new_list(fin[1])


ORD, RCV, WK = z3.Const("order", Val), z3.Const("receiver", Val), z3.Const("weak", z3.BoolSort())


def mkweak(e, a, kw):
    w = uf("weakref", a[0])
    e.assume(And(isweak(w), Val.r(w) < 0, uf("deref", w) == a[0]))
    return w


def connect(e, order, receiver, weak):
    d = D(RK, RM, RD)
    if e.branch(d.dom[order]):
        raise PyRaise("DuplicateSignal")
    if e.branch(weak):
        receiver = mkweak(e, [receiver], {})
    e.setbox(e.contract.receivers, d=d.set(order, receiver))


class Connect(Sig):
    """connect adds the receiver (behind a weak reference when asked) at its order, or raises DuplicateSignal and leaves
    every connection as it was when the order is occupied"""
    target = "disseminate.signals.signals:Signal.connect"
    ext = {"weakref.ref": mkweak}

    def setup(self, e):
        s = self.sig(e)
        e.assume(And(Val.is_ref(RCV), Val.r(RCV) < 0, uf("refclass", RCV, sort=Int) == 0, Or(Val.is_int(ORD), Val.is_oth(ORD))))
        return {"self": s, "receiver": RCV, "order": ORD, "weak": Val.bool(WK)}

    def spec(self, e, self_, receiver, order, weak):
        connect(e, order, receiver, Val.b(weak))
        return NONE


class ConnectVia(Connect):
    """connect_via(order, weak)(f) connects f and returns f itself"""
    target = "disseminate.signals.signals:Signal.connect_via.decorator"

    def closure(self, e):
        s = self.sig(e)
        e.assume(Or(Val.is_int(ORD), Val.is_oth(ORD)))
        return {"self": s, "order": ORD, "weak": Val.bool(WK)}

    def setup(self, e):
        e.assume(And(Val.is_ref(RCV), Val.r(RCV) < 0, uf("refclass", RCV, sort=Int) == 0))
        return {"fn": RCV}

    def spec(self, e, fn):
        connect(e, ORD, RCV, WK)
        return fn


class Reset(Sig):
    """reset drops every connection"""
    target = "disseminate.signals.signals:Signal.reset"

    def setup(self, e):
        return {"self": self.sig(e)}

    def spec(self, e, self_):
        e.setbox(self.receivers, d=D())
        return NONE


NK, NM, ND = z3.Const("ns_keys", SeqV), z3.Const("ns_map", MapV), z3.Const("ns_dom", DomV)
NAME, DOC = z3.Const("signame", Str), z3.Const("doc", Val)


class Lookup(Contract):
    """Namespace.signal(name) returns the signal registered under the name, the same one ever after, or registers a new
    one without receivers under it; no other name is touched"""
    target = "disseminate.signals.signals:Namespace.signal"
    attrs = {"__doc__": True}

    def setup(self, e):
        import pyvc.source as src
        ns = e.new_obj(e.from_resolved(src.resolve("disseminate.signals.signals", "Namespace"), "Namespace"), {}, d=D(NK, NM, ND))
        e.assume(Or(Val.is_none(DOC), Val.is_str(DOC)))
        v = NM[Val.str(NAME)]
        e.assume(Implies(ND[Val.str(NAME)], And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)))
        self.ns = ns
        return {"self": ns, "name": Val.str(NAME), "doc": DOC}

    def spec(self, e, self_, name, doc):
        if e.branch(ND[name]):
            sig = NM[name]
            if e.branch(Not(Val.is_none(doc))):
                e.set_attr(sig, "__doc__", doc)
            return sig
        import pyvc.source as src
        s = e.new_obj(e.from_resolved(src.resolve("disseminate.signals.signals", "Signal"), "Signal"), {"name": name})
        e.set_attr(s, "receivers", e.new_dict())
        if e.branch(Not(Val.is_none(doc))):
            e.set_attr(s, "__doc__", doc)
        e.setbox(self.ns, d=D(NK, NM, ND).set(name, s))
        return s


def keep_live(h, s, p):
    d, n = D(*s), D(*s).set(h, p[0][h])
    return [ite(Val.is_none(p[0][h]), a, b) for a, b in zip(d.terms(), n.terms())]


derefd = Fold("derefd", ["seq", "map", "dom"], lambda h, s, p: D(*s).set(h, live(p[0][h])).terms(), params=["map"])
alive = Fold("alive", ["seq", "map", "dom"], keep_live, params=["map"])


class ReceiversDict(Sig):
    """receivers_dict lists order and receiver of exactly the connections whose receiver is alive; the connections stay"""
    target = "disseminate.signals.signals:Signal.receivers_dict"
    loops = [LoopUse(derefd, params=lambda e: [RM]),
             LoopUse(alive, params=lambda e: [derefd.app(RK, [EMPTY, NOMAP, NODOM], [RM])[1]])]

    def elem(self, e, h, s):
        pass

    def setup(self, e):
        return {"self": self.sig(e)}

    def spec(self, e, self_):
        k, a, v = run_fold(e, derefd, RK, [EMPTY, NOMAP, NODOM], [RM])
        k, b, v = run_fold(e, alive, a[0], [EMPTY, NOMAP, NODOM], [a[1]])
        return e.new_dict(D(*b))


CONTRACTS = [ReceiversDict, Emit, Connect, ConnectVia, Reset, Lookup]
