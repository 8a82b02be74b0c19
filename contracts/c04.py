"""C04: contexts (context/context.py).

Ownership: the lists held by a context are owned by it and written as values (Val.lst); the lists held by anything else (the
mapping it is updated from, a parent's entries) are heap references. A context that took a list over without copying it
would hold the reference, and the entry would not equal the value the contract requires."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported, STup, is_val
from pyvc.interp import StarSeq
import pyvc.source as src
from .c05 import StrToList, str_list

SK, SM, SD = z3.Const("self_keys", SeqV), z3.Const("self_map", MapV), z3.Const("self_dom", DomV)
CK, CM, CD = z3.Const("chg_keys", SeqV), z3.Const("chg_map", MapV), z3.Const("chg_dom", DomV)
LS = z3.Const("H0_$list", SeqA)
MOD = "disseminate.context.context"


def islistref(v):
    return And(Val.is_ref(v), uf("refclass", v, sort=Int) == 1, Not(uf("isa_Tag", v, sort=Bool)))


def scalar(v):
    return Or(Val.is_none(v), Val.is_bool(v), Val.is_int(v), Val.is_str(v), Val.is_oth(v))


# -- copy_nested ------------------------------------------------------------------------------------
def snap(v):
    """the value of a deep copy: an immutable value is its own copy"""
    return uf("snap", v)


snaps = Fold("snaps", ["seq"], lambda h, s, p: cat(s[0], unit(snap(h))))
snapd = Fold("snapd", ["seq", "map", "dom"], lambda h, s, p: D(*s).set(h, snap(p[0][h])).terms(), params=["map"])


def typ(e, v):
    v = e.V(v)
    b = e.box(v)
    if b is not None:
        return vcls(b.kind if b.kind != "obj" else b.cls if isinstance(b.cls, str) else b.cls.name)
    for c in ("lst", "tup"):
        if e.entails(getattr(Val, "is_" + c)(v)):
            return vcls({"lst": "list", "tup": "tuple"}[c])
    k = e.kind(v)
    n = {"heap_list": "list", "heap_dict": "dict", "heap_set": "set", "tup": "tuple", "lst": "list", "str": "str", "bool": "bool", "int": "int"}.get(k)
    if n:
        return vcls(n)
    t = Val.cls(uf("type_id", v, sort=Int))
    for n in ("list", "tuple", "set", "dict"):
        e.assume(t != vcls(n))
    return t


def build(e, c, args, kw):
    """type(value)(items)"""
    for n in ("list", "tuple", "set", "dict"):
        if e.entails(e.V(c) == vcls(n)):
            return getattr(e, "bi_" + n)(*args, **kw)
    raise Unsupported("instance of an unknown class")


class CopyNested(Contract):
    """copy_nested: a list, tuple, set or mapping is copied at every level into fresh containers with the copies of the
    items (recursive calls by contract); anything else is returned as it is"""
    target = MOD + ":copy_nested"
    loops = [LoopUse(snaps), LoopUse(snapd, params=lambda e: [e.hdict(VAL).map])]
    ext = {"builtins.type": lambda e, a, kw: typ(e, a[0]), "call": build}

    def setup(self, e):
        e.assume(Implies(Val.is_ref(VAL), Val.r(VAL) < 0))
        return {"value": VAL}

    def spec(self, e, value):
        k = e.kind(value)
        if k in ("heap_list", "lst", "list"):
            return e.new_list(run_fold(e, snaps, e.seq_of(value), [EMPTY])[1][0])
        if k == "tup":
            return Val.tup(run_fold(e, snaps, e.seq_of(value), [EMPTY])[1][0])
        if k in ("heap_set", "set"):
            return e.bi_set(value)
        if k in ("heap_dict", "dict"):
            d = e.dict_of(value)
            return e.new_dict(D(*run_fold(e, snapd, d.keys, [EMPTY, NOMAP, NODOM], [d.map])[1]))
        return value

    def apply(self, e, args, kwargs, fv):
        if e.contract is self:
            return snap(e.V(args[0]))
        return Contract.apply(self, e, args, kwargs, fv)


VAL = z3.Const("value", Val)


# -- match_update --------------------------------------------------------------------------------------
def has(n, v):
    return And(Val.is_oth(v), uf("isa_" + n, v, sort=Bool))


def istag(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0, uf("isa_Tag", v, sort=Bool))


def tag_copy(v):
    return uf("tag_copy", v)


def new_tag(old, key, content):
    """a tag of the old one's class, with the key as its name"""
    return uf("new_tag", uf("class_of", old), key, content)


def text(v):
    return ite(Val.is_str(v), Val.s(v), uf("py_str", v, sort=Str))


def owned(v, ls):
    """what a context holds after taking v over: a list is copied, anything else here is immutable"""
    return ite(islistref(v), Val.lst(snaps.app1(ls[Val.r(v)], [EMPTY])), ite(istag(v), tag_copy(v), v))


def as_list(v, ls):
    return ite(Val.is_str(v), str_list(Val.s(v)), snaps.app1(ls[Val.r(v)], [EMPTY]))


def typeid(v):
    t = Val.cls(uf("type_id", v, sort=Int))
    for c, n in (("bool", "bool"), ("int", "int"), ("str", "str"), ("lst", "list"), ("tup", "tuple")):
        t = ite(getattr(Val, "is_" + c)(v), vcls(n), t)
    return ite(islistref(v), vcls("list"), t)


def updated(h, o, c, ls, rep):
    """the entry o updated with c: of the type o has"""
    low = uf("str_strip", uf("str_lower", text(c), sort=Str), sort=Str)
    boolean = ite(low == S("false"), vbool(False), ite(low == S("true"), vbool(True), o))
    integer = ite(Val.is_int(c), c, ite(Val.is_bool(c), Val.int(ite(Val.b(c), 1, 0)), ite(
        And(Val.is_str(c), uf("int_ok", Val.s(c), sort=Bool)), Val.int(uf("int_of", Val.s(c), sort=Int)), ite(
            And(Val.is_oth(c), uf("int_ok_o", c, sort=Bool)), Val.int(uf("int_of_o", c, sort=Int)), o))))
    floating = ite(Or(Val.is_int(c), Val.is_bool(c), Val.is_oth(c), And(Val.is_str(c), uf("float_ok", Val.s(c), sort=Bool))), uf("float_of", c), o)
    other = ite(typeid(o) == typeid(c), c, o)
    tag = ite(Val.is_str(c), new_tag(o, h, c), ite(istag(c), tag_copy(c), o))
    return ite(Val.is_lst(o), Val.lst(cat(as_list(c, ls), ite(rep, EMPTY, Val.litems(o)))), ite(istag(o), tag, ite(
        Val.is_bool(o), boolean, ite(Val.is_int(o), integer, ite(has("float", o), floating, other)))))


def mstep(h, s, p):
    """p: changes (map, dom), overwrite, list contents, entries replaced instead of prepended to"""
    cm, cd, ow, ls, rp = p
    d = D(*s)
    new, upd = d.set(h, owned(cm[h], ls)), d.set(h, updated(h, d.map[h], cm[h], ls, rp[h]))
    return [ite(Not(cd[h]), a, ite(Not(d.dom[h]), b, ite(ow, c, a))) for a, b, c in zip(d.terms(), new.terms(), upd.terms())]


def mexits(h, s, p):
    cm, cd, ow, ls, rp = p
    d = D(*s)
    bad = And(Val.is_lst(d.map[h]), Not(Or(Val.is_str(cm[h]), islistref(cm[h]))))
    return [(And(cd[h], d.dom[h], ow, bad), ("raise", "TypeError"), None)]


def mleft(h, s, p):
    """a list that cannot be updated with the value: emptied if it was to be replaced"""
    d = D(*s)
    return D(d.keys, ite(p[4][h], z3.Store(d.map, h, Val.lst(EMPTY)), d.map), d.dom).terms()


k0 = z3.Const("any_key", Val)
merge = Fold("merge", ["seq", "map", "dom"], mstep, params=["map", "dom", "bool", "seqarr", "dom"], exits=mexits, exit_state=mleft,
             inv=lambda s, p, done: own(D(*s)))


def content(e, d, k, v):
    """a value the context is updated from: immutable, or a list owned by somebody else"""
    if e.box_id(d) != e.box_id(e.contract.ctx):
        e.assume(Or(scalar(v), istag(v), And(islistref(v), Val.r(v) < 0)))
    elif z3.is_select(v) and z3.is_const(v.arg(0)):     # the entries at the loop head: the loop's invariant
        e.assume(Or(scalar(v), istag(v), Val.is_lst(v)))


def entries(d):
    """a mapping a context is updated from: immutable values and lists owned by somebody else"""
    return z3.ForAll([k0], Implies(d.dom[k0], Or(scalar(d.map[k0]), istag(d.map[k0]), And(islistref(d.map[k0]), Val.r(d.map[k0]) < 0))))


def own(d):
    """the entries of a context: immutable values and lists of its own"""
    return z3.ForAll([k0], Implies(d.dom[k0], Or(scalar(d.map[k0]), istag(d.map[k0]), Val.is_lst(d.map[k0]))))


RP = z3.Const("replaced", DomV)
HK, HM, HD = z3.Const("hdr_keys", SeqV), z3.Const("hdr_map", MapV), z3.Const("hdr_dom", DomV)


def depth(e):
    import ast
    return ast.literal_eval(src.resolve("disseminate.settings", "context_max_depth")[2])


def decoded(e):
    """the entries of a text"""
    e.assume(entries(D(HK, HM, HD)))
    return e.new_dict(D(HK, HM, HD))


def copies(e, o, args, kw):
    """value.copy(...): immutable values have no such method, a list's takes no arguments"""
    k = e.kind(o)
    if k in ("heap_list", "list"):
        if args or kw:
            raise PyRaise("TypeError")
        return e.new_list(e.seq_of(o))
    if k == "ref":
        if args or set(kw) != {"new_context"} or e.box_id(kw["new_context"]) != e.box_id(e.contract.ctx):
            raise Unsupported("copy of a tag")
        return mktag(e, tag_copy(o))
    if k in ("str", "int", "bool", "none", "oth"):
        raise PyRaise("AttributeError")
    return NotImplemented


def mutate(e, o, new):
    """the only lists held by value are the context's own entries: the change is made in the entry"""
    box = e.contract.ctx
    d = e.dict_of(box)
    for t in (o, z3.simplify(o)):
        if z3.is_select(t) and z3.simplify(t.arg(0)).eq(z3.simplify(d.map)) and e.entails(d.dom[t.arg(1)]):
            m = z3.Store(d.map, t.arg(1), new)
            e.setbox(box, d=D(d.keys, m, d.dom))
            return z3.Select(m, t.arg(1))
    return None


def clears(e, o, args, kw):
    """only lists can be cleared"""
    if e.box(o) is not None or e.branch(Or(Val.is_lst(o), islistref(o))):
        return NotImplemented
    raise PyRaise("AttributeError")


def mktag(e, t):
    e.assume(istag(t))
    return t


def maketag(e, fv, args, kw):
    """the class of a tag called: a new tag in this context"""
    if args or set(kw) != {"name", "content", "attributes", "context"} or e.box_id(kw["context"]) != e.box_id(e.contract.ctx):
        raise Unsupported("construction of a tag")
    if not e.entails(e.V(kw["attributes"]) == vstr("")):
        raise Unsupported("attributes of a new tag")
    return mktag(e, uf("new_tag", fv, e.V(kw["name"]), e.V(kw["content"])))


def noiter(e, v):
    """a value that is neither text, a list, a mapping nor a set is not iterable here"""
    raise PyRaise("TypeError")


def context(e, d, cls="BaseContext", attrs=None):
    c = e.from_resolved(src.resolve(MOD, cls), cls)
    return e.new_obj(c, attrs or {}, d=d)


class MatchUpdate(Contract):
    """match_update, entry by entry in the order of the keys: a key the changes do not have is skipped; a new key gets the
    value, a list copied at every level; an existing list gets the items of the change (text decoded by str_to_list)
    before its own; a boolean, integer or float the change parsed as such, or keeps its value; anything else is replaced
    by a value of its own type only. Without overwrite existing entries stay. The changes are not modified and none of
    their lists is shared (entries: immutable values and lists, without 'replace' entries; bounded beyond)"""
    target = MOD + ":BaseContext.match_update"
    ow = z3.Const("overwrite", z3.BoolSort())
    loops = [LoopUse(merge, params=lambda e: [*e.contract.changes, MatchUpdate.ow, e.arr("$list", SeqA), RP])]
    ext = {"builtins.type": lambda e, a, kw: typ(e, a[0]), ".copy": copies, ".clear": clears, "mutate": mutate, "iter": noiter,
           ".replace?": lambda e, o: e.new_set(RP), "dictvalue": content, "call": maketag, "logging.warning": lambda e, a, kw: NONE,
           ".__class__?": lambda e, o: uf("class_of", e.V(o)), "str_to_dict": lambda e, a, kw: decoded(e)}
    defaults = {"keys": None, "overwrite": True, "level": 1}
    trusted = ("the lists held by a context are reachable only through it (kept by every contract here: an entry is only ever set to "
               "an immutable value or to a fresh copy)",)

    def world(self, e):
        e.assume(own(D(SK, SM, SD)))
        e.assume(entries(D(CK, CM, CD)))
        self.ctx, self.changes = context(e, D(SK, SM, SD)), [CM, CD]
        self.level = z3.Int("level")
        return {"self": self.ctx, "changes": e.new_dict(D(CK, CM, CD)), "keys": NONE, "overwrite": Val.bool(self.ow), "level": Val.int(self.level)}

    def given(self, e):
        return dict(self.world(e), keys=e.new_list(z3.Const("keys", SeqV)))

    def astext(self, e):
        w = self.world(e)
        self.changes = [HM, HD]
        return dict(w, changes=sym_str(e, "changes"), level=vint(1))

    def __init__(self):
        super().__init__()
        self.variants = [("keys given", self.given), ("every key of a text", self.astext)]

    def pre(self, e, self_, changes):
        c, d = e.dict_of(changes), e.dict_of(self_)
        return And(entries(c), own(d))

    def spec(self, e, self_, changes, keys, overwrite, level):
        if not e.branch(e.intval(level) < depth(e)):
            raise PyRaise("ContextException")
        if is_val(changes) and e.kind(changes) == "str":
            changes = decoded(e)
        c, d = e.dict_of(changes), e.dict_of(self_)
        xs = c.keys if e.entails(Val.is_none(e.V(keys))) else e.seq_of(keys)
        kind, fin, v = run_fold(e, merge, xs, d.terms(), [c.map, c.dom, Val.b(e.V(overwrite)), e.arr("$list", SeqA), RP])
        e.setbox(self_, d=D(*fin))
        if kind != "done":
            raise PyRaise("TypeError")
        return NONE


# -- reset ------------------------------------------------------------------------------------------------
EX, DNI = uf("attribute_values", vstr("exclude_from_reset"), sort=DomV), z3.Const("not_inherited", DomV)
PK, PM, PD = z3.Const("par_keys", SeqV), z3.Const("par_map", MapV), z3.Const("par_dom", DomV)
IK, IM, ID = z3.Const("init_keys", SeqV), z3.Const("init_map", MapV), z3.Const("init_dom", DomV)


def members(dom):
    """the elements of a set in the order it is iterated in"""
    return uf("set_order", dom, sort=SeqV)


def iterates(dom):
    xs = members(dom)
    return z3.ForAll([k0], (count(xs, k0) > 0) == dom[k0], patterns=[count(xs, k0)])


drops = Fold("drops", ["seq", "dom"], lambda h, s, p: [uf("seq_remove", s[0], h, sort=SeqV), z3.Store(s[1], h, z3.BoolVal(False))],
             params=["dom"], inv=lambda s, p, done: z3.ForAll([k0], s[1][k0] == And(p[0][k0], count(done, k0) == 0)))


def drophints(e, h, s, p, done, rest):
    """the head is an element of the set, met for the first time"""
    xs = members(z3.SetDifference(SD, EX))
    return occurs_hints(done, h, rest) + [count(xs, h) == count(done, h) + 1 + count(rest, h), count(xs, h) <= 1, count(done, h) == 0,
                                          (count(xs, h) > 0) == And(SD[h], Not(EX[h])), SD[h], s[1][h]]


def after_drop(e):
    """the entries exempt from reset, in their order"""
    xs = members(z3.SetDifference(SD, EX))
    k, fin, v = run_fold(e, drops, xs, [SK, SD], [SD])
    kc = z3.Const("any_entry", Val)
    e.pv.oblige(e.contract.label + ": exactly the exempt entries remain",
                list(e.pc) + [count_nonneg(xs, kc), (count(xs, kc) > 0) == And(SD[kc], Not(EX[kc])), fin[1][kc] == And(SD[kc], count(xs, kc) == 0)],
                fin[1][kc] == And(SD[kc], EX[kc]))
    e.assume(fin[1] == z3.SetIntersect(SD, EX))
    return D(fin[0], SM, z3.SetIntersect(SD, EX))


class Reset(Contract):
    """reset leaves exactly: the entries exempt from reset (as declared anywhere in the class's bases), updated with the
    parent's entries except those not inherited, updated with the initial values - whatever entries there were before.
    Parent and initial values are not modified"""
    target = MOD + ":BaseContext.reset"
    loops = [LoopUse(drops, params=lambda e: [SD], hints=drophints)]
    trusted = ("iterating a set yields each of its elements once",)
    ext = {"all_attributes_values": lambda e, a, kw: e.new_set(uf("attribute_values", e.V(kw["attribute"]), sort=DomV)),
           "find_do_not_inherit": lambda e, a, kw: e.new_set(DNI),
           ".parent_context?": lambda e, o: e.contract.parent}

    def __init__(self):
        super().__init__()
        self.variants = [("no parent", lambda e: self.world(e, False)), ("with a parent", lambda e: self.world(e, True))]

    def world(self, e, parent):
        e.pv.axioms.append(count_nil())
        for d in (D(PK, PM, PD), D(IK, IM, ID)):
            e.assume(entries(d))
        e.assume(own(D(SK, SM, SD)))
        e.assume(iterates(z3.SetDifference(SD, EX)))
        self.parent = context(e, D(PK, PM, PD)) if parent else NONE
        return {"self": context(e, D(SK, SM, SD), attrs={"initial_values": e.new_dict(D(IK, IM, ID))})}

    def spec(self, e, self_):
        d = after_drop(e)
        ls = e.arr("$list", SeqA)
        for src_, keys in ([((PM, PD), members(z3.SetDifference(PD, DNI)))] if self.parent is not NONE else []) + [((IM, ID), IK)]:
            kind, fin, v = run_fold(e, merge, keys, d.terms(), [*src_, z3.BoolVal(True), ls, RP])
            d = D(*fin)
            e.setbox(self_, d=d)
            if kind != "done":
                raise PyRaise("TypeError")
        return NONE


# -- the rest ------------------------------------------------------------------------------------------------
REST = z3.Const("rest", Val)


def header(e, a, kw):
    e.assume(entries(D(HK, HM, HD)))
    return STup((REST, e.new_dict(D(HK, HM, HD))))


class Load(Contract):
    """load updates the context with the entries of the header and returns the text after it, the text itself when there is
    no header or it is to be kept"""
    target = MOD + ":BaseContext.load"
    defaults = {"strip_header": True, "overwrite": True}
    ext = {"load_from_string": header}

    def setup(self, e):
        e.assume(own(D(SK, SM, SD)))
        e.assume(Or(Val.is_none(REST), Val.is_str(REST)))
        self.strip, self.ow = z3.Const("strip_header", Bool), z3.Const("overwrite", Bool)
        return {"self": context(e, D(SK, SM, SD)), "string": sym_str(e, "string"), "strip_header": Val.bool(self.strip), "overwrite": Val.bool(self.ow)}

    def spec(self, e, self_, string):
        e.assume(entries(D(HK, HM, HD)))
        kind, fin, v = run_fold(e, merge, HK, [SK, SM, SD], [HM, HD, self.ow, e.arr("$list", SeqA), RP])
        e.setbox(self_, d=D(*fin))
        if kind != "done":
            raise PyRaise("TypeError")
        return ite(And(Not(Val.is_none(REST)), self.strip), REST, string)


VM, VD, VK = z3.Const("types_map", MapV), z3.Const("types_dom", DomV), z3.Const("types_keys", SeqV)
MUST = z3.Const("must_exist", Bool)


def wrong(h, p):
    """the entry is missing though it has to be there, or is not of the type declared for it"""
    m, d, must = p
    t = ite(VD[h], VM[h], NONE)
    return Or(And(Not(d[h]), must), And(d[h], Not(Val.is_none(t)), Not(uf("isinst_dyn", m[h], t, sort=Bool))))


valid = Fold("valid", [], lambda h, s, p: [], params=["map", "dom", "bool"], exits=lambda h, s, p: [(wrong(h, p), "ret", vbool(False))])


class IsValid(Contract):
    """is_valid: every entry asked for (all the declared ones if none is) is there, or may be missing, and has the type
    declared for it"""
    target = MOD + ":BaseContext.is_valid"
    defaults = {"must_exist": True}
    loops = [LoopUse(valid, params=lambda e: [SM, SD, MUST])]
    ext = {"logging.debug": lambda e, a, kw: NONE, ".validation_types?": lambda e, o: e.contract.types}

    def setup(self, e):
        self.types = e.new_dict(D(VK, VM, VD))
        return {"self": context(e, D(SK, SM, SD)), "must_exist": Val.bool(MUST)}

    def star_args(self, e):
        return [StarSeq(z3.Const("keys", SeqV))]

    def spec(self, e, keys):
        ks = z3.Const("keys", SeqV)
        xs = VK if e.branch(z3.Length(ks) == 0) else ks
        kind, fin, v = run_fold(e, valid, xs, [], [SM, SD, MUST])
        return v if kind == "ret" else vbool(True)


PAR = z3.Const("parent", Val)


def obj(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


def weak(e, a, kw):
    w = uf("weakref", a[0])
    e.assume(And(obj(w), uf("isa_ref", w, sort=Bool), uf("deref", w) == a[0]))
    return w


def deref(e, fv, args, kw):
    if args or kw or not e.branch(uf("isa_ref", fv, sort=Bool)):
        raise Unsupported("call")
    return uf("deref", fv)


class ParentGet(Contract):
    """parent_context is the context the weak reference refers to (None once it is gone), or the value held itself"""
    target = MOD + ":BaseContext.parent_context"
    ext = {"call": deref}

    def setup(self, e):
        e.assume(Or(Val.is_none(PAR), obj(PAR)))
        return {"self": context(e, D(), attrs={"_parent_context": PAR})}

    def spec(self, e):
        return ite(And(obj(PAR), uf("isa_ref", PAR, sort=Bool)), uf("deref", PAR), PAR)


class Filter(Contract):
    """filter gives a new context with the entries of the given keys, lists copied, and leaves this one as it was"""
    target = MOD + ":BaseContext.filter"
    ext = {".__class__?": lambda e, o: e.from_resolved(src.resolve(MOD, "BaseContext"), "BaseContext"),
           "BaseContext.__new__": lambda e, a, kw: context(e, D())}

    def setup(self, e):
        e.assume(entries(D(CK, CM, CD)))
        return {"self": context(e, D(CK, CM, CD)), "keys": e.new_list(z3.Const("keys", SeqV))}

    def spec(self, e, self_, keys):
        kind, fin, v = run_fold(e, merge, e.seq_of(keys), [EMPTY, NOMAP, NODOM], [CM, CD, z3.BoolVal(True), e.arr("$list", SeqA), RP])
        if kind != "done":
            raise PyRaise("TypeError")
        return context(e, D(*fin))


LEMMAS = [lemma_count]
USES = [StrToList]
CONTRACTS = [CopyNested, MatchUpdate, Reset, Load, IsValid, ParentGet, Filter]
