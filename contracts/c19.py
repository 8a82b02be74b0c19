"""C19: enclosing headings (register_content_labels.py, types/content_label.py, utils/classes.py weakattr)."""
from pyvc.contract import *
from pyvc.theory import *
import pyvc.source as src

RANKS = ("part", "chapter", "section", "subsection", "subsubsection")
LK, LM_, LD = z3.Const("lab_keys", SeqV), z3.Const("lab_map", MapV), z3.Const("lab_dom", DomV)


def attr(name, l):
    return z3.Select(z3.Const("H0_a_" + name, AttrA), Val.r(l))


def isheading(l, i):
    """the label's last kind is the i-th rank"""
    k = attr("kind", l)
    n = z3.Length(Val.titems(k))
    return And(Val.is_tup(k), n > 0, Val.titems(k)[n - 1] == vstr(RANKS[i]))


def islabel(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0, Or(Val.is_none(attr("kind", v)), Val.is_tup(attr("kind", v))))


def content(v):
    return uf("isa_ContentLabel", v, sort=Bool)


contents = Fold("content_labels", ["seq"], lambda h, s, p: ite(isa("ContentLabel", p[0][h]), cat(s[0], unit(p[0][h])), s[0]), params=["map"])
contents_members = Members(contents, lambda v, p: islabel(v), hyp=lambda h, s, p: islabel(p[0][h]))


def enclose(h, s, p):
    """per rank the last heading of this rank, forgotten at a heading of a higher rank; every label gets the current ones"""
    now = []
    for i in range(5):
        higher = Or(*[isheading(h, j) for j in range(i)]) if i else z3.BoolVal(False)
        now.append(ite(isheading(h, i), h, ite(higher, NONE, s[i])))
    return now + [z3.Store(s[5 + i], Val.r(h), now[i]) for i in range(5)]


# the summary proved of the loop: the same, per rank, as `nearest` below
headings = Fold("enclosing_headings", ["val"] * 5 + ["arr"] * 5, enclose, names=[r + "_label" for r in RANKS] * 2)


class Register(Contract):
    """every content label refers, for each rank, to the last preceding (or own) heading of this rank unless a heading of a
    higher rank came after it, and to none if there is none, whatever it referred to before; other labels keep theirs"""
    target = "disseminate.label_manager.register_content_labels:register_content_labels"
    attrs = {"kind": True, "doc_id": True, **{r + "_label": True for r in RANKS}}
    loops = [LoopUse(contents, params=lambda e: [LM_]), LoopUse(headings)]
    trusted = ("label.<rank>_label reads what was last assigned to it, None included (weakattr contracts; the heading is alive)",)
    ext = {"dictvalue": lambda e, o, k, v: e.assume(islabel(v))}

    def setup(self, e):
        for a in self.attrs:
            e.arr("a_" + a)
        return {"labels": e.new_dict(D(LK, LM_, LD), "OrderedDict")}

    def elem(self, e, h, s):
        if not contents_members.assume(e, h, s):
            e.assume(islabel(h))

    def spec(self, e, labels):
        cl = run_fold(e, contents, LK, [EMPTY], [LM_])[1][0]
        fin = run_fold(e, headings, cl, [NONE] * 5 + [e.arr("a_%s_label" % r) for r in RANKS])[1]
        for r, t in zip(RANKS, fin[5:]):
            e.arrs["a_%s_label" % r] = t
        return NONE


# -- numbers -------------------------------------------------------------------------
LAB = z3.Const("label", Val)


def number(v, default=vstr("")):
    """the last component of the label's number, else the default"""
    o = attr("order", v)
    n = z3.Length(Val.titems(o))
    return ite(And(Val.is_ref(v), Val.is_tup(o), n > 0), Val.titems(o)[n - 1], default)


def order_ok(e, o, v):
    e.assume(Or(Val.is_none(v), Val.is_tup(v)))


class Number(Contract):
    """a label's number is the last component of its order, else the default"""
    target = "disseminate.label_manager.types.content_label:get_label_number"
    attrs = {"order": order_ok}

    def setup(self, e):
        e.arr("a_order")
        e.assume(Or(Val.is_none(LAB), And(Val.is_ref(LAB), Val.r(LAB) < 0, uf("refclass", LAB, sort=Int) == 0)))
        return {"label": LAB, "default": z3.Const("default", Val)}

    def spec(self, e, label, default):
        return number(e.V(label), e.V(default))


def headings_of(e):
    """a content label with arbitrary headings"""
    at = {}
    for r in RANKS:
        t = z3.Const("my_" + r, Val)
        e.assume(Or(Val.is_none(t), And(Val.is_ref(t), Val.r(t) < 0, uf("refclass", t, sort=Int) == 0)))
        n = attr("order", t)
        e.assume(Or(Val.is_none(n), Val.is_tup(n)))
        v = number(t)
        e.assume(Implies(v != vstr(""), And(Val.is_int(v), Val.i(v) > 0)))
        at[r + "_label"] = t
    c = e.from_resolved(src.resolve("disseminate.label_manager.types.content_label", "ContentLabel"), "ContentLabel")
    return e.new_obj(c, at)


class TreeNumber(Contract):
    """the composite number joins with dots the non-empty numbers of the enclosing headings from part to subsubsection"""
    target = "disseminate.label_manager.types.content_label:ContentLabel.tree_number"
    attrs = {"order": order_ok}
    trusted = ("the numbers of headings are positive integers (counting contract of C06)",)

    def setup(self, e):
        e.arr("a_order")
        return {"self": headings_of(e)}

    def spec(self, e, self_):
        parts = []
        for r in RANKS:
            v = number(z3.Const("my_" + r, Val))
            if e.branch(v != vstr("")):
                parts.append(e.tostr(v))
        if not parts:
            return vstr("")
        out = [parts[0]]
        for x in parts[1:]:
            out += [S("."), x]
        return Val.str(z3.Concat(*out) if len(out) > 1 else out[0])


CONTRACTS = [Register, Number, TreeNumber]
LEMMAS = [contents_members.lemma]


# -- weak attributes --------------------------------------------------------------------
WK, WM, WD = z3.Const("weak_keys", SeqV), z3.Const("weak_map", MapV), z3.Const("weak_dom", DomV)
OK_, OM, OD = z3.Const("dict_keys", SeqV), z3.Const("dict_map", MapV), z3.Const("dict_dom", DomV)
NAME, OBJ, VALUE = z3.Const("attr_name", Val), z3.Const("obj", Val), z3.Const("value", Val)
WRAF = vstr("__weakrefattrs__")


def weakly(e, a, kw):
    t = uf("weakref_of", e.V(a[0]))
    e.assume(And(Val.is_ref(t), Val.r(t) < 0, uf("refclass", t, sort=Int) == 0))
    return t


class Weak(Contract):
    ext = {".attrname": lambda e, o, a, kw: NAME, "weakref.ref": weakly, "call": lambda e, f, a, kw: uf("deref", f),
           ".__dict__?": lambda e, o: e.contract.d, "callable": lambda e, a, kw: Not(Val.is_none(a[0])), "builtins.callable": lambda e, a, kw: Not(Val.is_none(a[0]))}
    trusted = ("attrname(obj) is the name under which this descriptor is stored in the class of obj (bounded oracle)",
               "a live weak reference yields its referent, a dead one None")

    def has(self, e):
        self.w = e.new_dict(D(WK, WM, WD))
        self.d = e.new_dict(D(OK_, z3.Store(OM, WRAF, self.w), z3.Store(OD, WRAF, z3.BoolVal(True))))
        return self.args(e)

    def hasnot(self, e):
        self.w = None
        self.d = e.new_dict(D(OK_, OM, z3.Store(OD, WRAF, z3.BoolVal(False))))
        return self.args(e)

    def args(self, e):
        e.assume(Val.is_str(NAME))
        e.assume(And(Val.is_ref(OBJ), Val.r(OBJ) < 0, uf("refclass", OBJ, sort=Int) == 0))
        for k in (WM[NAME],):
            e.assume(Implies(WD[NAME], And(Val.is_ref(k), Val.r(k) < 0, uf("refclass", k, sort=Int) == 0)))
        return {"self": e.new_obj("weakattr", {}), "obj": OBJ}

    @property
    def variants(self):
        return [("used before", self.has), ("first use", self.hasnot)]

    def store(self, e):
        """the object's weak attributes, created when absent"""
        if self.w is None:
            self.w2 = e.new_dict(D())
            d = e.box(self.d).d
            e.setbox(self.d, d=d.set(WRAF, self.w2))
            return self.w2
        return self.w


class Get(Weak):
    """reading a weak attribute gives the object last assigned to it while alive, and None when there is none"""
    target = "disseminate.utils.classes:weakattr.__get__"

    def spec(self, e, self_, obj):
        w = e.box(self.store(e)).d
        if e.branch(w.dom[NAME]):
            return uf("deref", w.map[NAME])
        return NONE


class Set(Weak):
    """assigning replaces only this attribute; assigning None removes it; nothing else of the object changes"""
    target = "disseminate.utils.classes:weakattr.__set__"

    def args(self, e):
        a = Weak.args(self, e)
        e.assume(Or(Val.is_none(VALUE), And(Val.is_ref(VALUE), Val.r(VALUE) < 0, uf("refclass", VALUE, sort=Int) == 0)))
        return dict(a, value=VALUE)

    def spec(self, e, self_, obj, value):
        b = self.store(e)
        w = e.box(b).d
        if e.branch(Val.is_none(VALUE)):
            if e.branch(w.dom[NAME]):
                e.setbox(b, d=w.drop(NAME))
        else:
            e.setbox(b, d=w.set(NAME, weakly(e, [VALUE], {})))
        return NONE


CONTRACTS += [Get, Set]
