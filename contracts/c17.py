"""C17: copying, walking, replacing in and rendering tag trees (tags/utils.py, tags/tag.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported
import pyvc.source as src

U, T = "disseminate.tags.utils:", "disseminate.tags.tag:"
V, XS, KW, CLS = z3.Const("element", Val), z3.Const("elements", SeqV), z3.Const("kwargs", Val), z3.Const("tag_class", Val)


def isobject(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


def isitem(v):
    """what content consists of: texts, tags (objects), lists of such"""
    return Or(Val.is_str(v), Val.is_int(v), Val.is_none(v), isobject(v), Val.is_lst(v))


def tagclass(e):
    return e.from_resolved(src.resolve("disseminate.tags.tag", "Tag"), "Tag")


def obj(e):
    e.assume(isobject(V))
    return V


def has(n, v):
    return uf("hasattr_" + n, v, sort=Bool)


def content(e, v):
    return z3.Select(e.arr("a_content"), Val.r(v))


KINDS = [("text", lambda e: sym_str(e, "text")), ("object", obj), ("list", lambda e: e.new_list(XS))]


class Tree(Contract):
    attrs = {"content": True}
    trusted = ("tags form trees: no list or tag is reached twice",)
    kinds = ("text", "object", "list")

    def __init__(self):
        super().__init__()
        self.ext = dict(type(self).ext)
        self.variants = [(k, lambda e, f=f: self.start(e, f(e))) for k, f in KINDS if k in self.kinds]

    def elem(self, e, h, s):
        e.assume(isitem(h))

    def start(self, e, v):
        e.arr("a_content")
        e.top = v
        return self.args(e, v)

    def part(self, e, v):
        """a recursion must be on a part of the element, so that it ends"""
        v = e.V(v)
        if v.eq(e.top):
            raise Unsupported("recursion on the same element")
        v = e.deep(v)
        e.assume(isitem(v))
        return v


# -- copying --------------------------------------------------------------------------
FIELDS = ("attributes", "__weakrefattrs__", "_outfilepaths", "_target_context")


def copied(v, c):
    """the copy of a part; a list or object in it is new"""
    return uf("copied", v, c)


def isnew(e, v):
    """copies are texts, new lists, new objects: told apart from anything that was there before"""
    e.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
    e.assume(Or(Val.is_str(v), Val.is_int(v), Val.is_none(v), Val.is_lst(v), isobject(v)))
    return v


def shallow(e, args, kw):
    """copy.copy of a tag: a new object of the same class with the same attributes"""
    if len(args) != 1 or kw or not e.entails(isobject(e.V(args[0]))):
        raise Unsupported("copy.copy")
    v = e.V(args[0])
    d = {"$copy_of": v}
    if e.branch(has("content", v)):
        d["content"] = content(e, v)
    for f in FIELDS:
        if e.branch(has(f, v)):
            d[f] = uf("of_" + f, v)
    return e.new_obj("copy", d)


def field(f):
    def h(e, o):
        if e.box(o) is not None:
            return None
        v = e.V(o)
        if not e.branch(has(f, v)):
            raise PyRaise("AttributeError")
        return uf("of_" + f, v)
    return h


class CopyTag(Tree):
    """a text is its own copy; the copy of a list is a new list of the copies of its elements, in order; the copy of a tag is
    a new tag like it, with copies of its attributes and of its references and with a copy of its content, and with caches
    of its own; the original is left as it is"""
    target = U + "copy_tag"
    trusted = Tree.trusted + ("copy.copy makes a new object with the same attributes", "the copy() of an attributes object or a dict is new and equal")

    def __init__(self):
        super().__init__()
        self.ext.update({"copy.copy": shallow, "copy_tag": self.inner, ".copy": self.duplicate})
        self.ext.update({"." + f + "?": field(f) for f in FIELDS})

    def args(self, e, v):
        if e.kind(v) == "ref" and e.box(v) is None:
            e.assume(has("content", v))
        return {"tag": v}

    def inner(self, e, a, kw):
        v = self.part(e, dict(zip(("tag",), a), **kw)["tag"])
        return isnew(e, copied(v, e.arr("a_content")))

    def duplicate(self, e, o, args, kw):
        v = e.V(o)
        if args or kw or not any(v.eq(uf("of_" + f, V)) for f in FIELDS):
            raise Unsupported("copy method")
        return e.new_obj("duplicate", {"$of": v})

    def spec(self, e, tag):
        k = e.kind(tag)
        if k == "str":
            return tag
        if e.box(tag) is not None:
            f = run_fold(e, copies, e.box(tag).seq, [EMPTY], [e.arr("a_content")])[1]
            return e.new_list(f[0])
        d = {"$copy_of": tag}
        for f in FIELDS:
            if e.branch(has(f, tag)):
                d[f] = e.new_obj("duplicate", {"$of": uf("of_" + f, tag)}) if f in FIELDS[:2] else e.new_dict()
        c = e.deep(content(e, tag))
        d["content"] = isnew(e, copied(c, e.arr("a_content")))
        return e.new_obj("copy", d)


copies = Fold("copies", ["seq"], lambda h, s, p: [cat(s[0], unit(copied(h, p[0])))], params=["arr"])
CopyTag.loops = [LoopUse(copies, params=lambda e: [e.arr("a_content")])]


# -- walking --------------------------------------------------------------------------
def flat(v, c):
    """the tags of a part, in document order, itself first"""
    return uf("flat", v, c, sort=SeqV)


moved = Fold("moved", ["arr"], lambda h, s, p: [z3.Store(s[0], Val.r(h), p[0])], params=["val"])
NEW = z3.Const("new_context", Val)


def flattened(e, o, args, kw):
    d = dict(zip(("tag", "filter_tags"), args), **kw)
    if set(d) - {"tag", "filter_tags"} or not e.entails(Val.is_none(e.V(d.get("tag", NONE)))) \
            or not e.entails(e.V(d.get("filter_tags", vbool(True))) == vbool(True)):
        raise Unsupported("arguments of flatten")
    return e.new_list(flat(e.V(o), e.arr("a_content")))


class ReplaceContext(Contract):
    """exactly the tags flattening gives, the tag and all nested ones, get the new context"""
    target = U + "replace_context"
    attrs = {"content": True, "context": True}
    loops = [LoopUse(moved, params=lambda e: [NEW])]
    ext = {".flatten": flattened}
    trusted = ("setting the context of a tag sets a weak reference that reads as that context",)
    elem = staticmethod(lambda e, h, s: e.assume(isobject(h)))

    def setup(self, e):
        e.arr("a_content"), e.arr("a_context")
        return {"tag": obj(e), "new_context": NEW}

    def spec(self, e, tag, new_context):
        f = run_fold(e, moved, flat(tag, e.arr("a_content")), [e.arr("a_context")], [new_context])[1]
        e.arrs["a_context"] = f[0]
        return NONE


def move(e, a, kw):
    d = dict(zip(("tag", "new_context"), a), **kw)
    e.arrs["a_context"] = uf("moved_contexts", e.V(d["tag"]), e.V(d["new_context"]), e.arr("a_content"), e.arr("a_context"), sort=AttrA)
    return NONE


class Copy(Contract):
    """the copy of a tag is what copy_tag makes; given a context that copy, not the original, is moved to it"""
    target = T + "Tag.copy"
    attrs = {"content": True, "context": True}
    defaults = {"new_context": None}

    def __init__(self):
        super().__init__()
        self.ext = {"copy_tag": self.made, "replace_context": move}
        self.variants = [("moved", lambda e: self.args(e, obj2(e, "new_context"))), ("kept", lambda e: self.args(e, NONE))]

    def args(self, e, c):
        e.arr("a_content"), e.arr("a_context")
        return {"self": obj(e), "new_context": c}

    def made(self, e, a, kw):
        d = dict(zip(("tag",), a), **kw)
        return isnew(e, copied(e.V(d["tag"]), e.arr("a_content")))

    def spec(self, e, self_, new_context):
        r = isnew(e, copied(self_, e.arr("a_content")))
        if not e.branch(Val.is_none(new_context)):
            move(e, [r, new_context], {})
        return r


def obj2(e, n):
    v = z3.Const(n, Val)
    e.assume(isobject(v))
    return v


def isobject_(e, v):
    return e.branch(isobject(v))


def nested(h, c):
    """a tag in a list may itself hold a list or a tag"""
    i = z3.Select(c, Val.r(h))
    return And(has("content", h), Or(Val.is_lst(i), isa("Tag", i)))


def content_of(h, c):
    return z3.Select(c, Val.r(h))


def below(h, c):
    return ite(Val.is_lst(h), flat(h, c), ite(And(isobject(h), nested(h, c)), cat(unit(h), flat(content_of(h, c), c)), unit(h)))


walk = Fold("walk", ["seq"], lambda h, s, p: [cat(s[0], below(h, p[0]))], params=["arr"])
kept = Fold("kept_tags", ["seq"], lambda h, s, p: [ite(isa("Tag", h), cat(s[0], unit(h)), s[0])])


class Flatten(Contract):
    """the tag itself and then, element by element of its content, what flattening a nested list gives, or the element
    followed by what flattening its content gives when that is a list or a tag; of all these the tags, in that order"""
    target = T + "Tag.flatten"
    attrs = {"content": lambda e, o, v: e.assume(isitem(v))}
    loops = [LoopUse(walk, params=lambda e: [e.arr("a_content")]), LoopUse(kept)]
    trusted = Tree.trusted
    defaults = {"tag": None, "filter_tags": True}

    def __init__(self):
        super().__init__()
        self.ext = {"flatten": self.inner, ".flatten": lambda e, o, a, kw: self.inner(e, [o] + list(a), kw)}
        self.variants = [("the tag, " + n, lambda e, f=f: self.args(e, True, f)) for n, f in CONTENTS] + \
                        [("another, " + n, lambda e, f=f: self.args(e, False, f)) for n, f in CONTENTS] + \
                        [("list", lambda e: self.args(e, None, None))]

    def elem(self, e, h, s):
        e.assume(isitem(h))

    def inner(self, e, a, kw):
        d = dict(zip(("self", "tag", "filter_tags"), a), **kw)
        if not e.entails(e.V(d.get("filter_tags", vbool(True))) == vbool(True)):
            raise Unsupported("unfiltered recursion")
        v = e.V(d.get("tag", NONE))
        if v.eq(e.top):
            raise Unsupported("recursion on the same element")
        return e.new_list(flat(e.deep(v), e.arr("a_content")))

    def args(self, e, own, f):
        c = e.arr("a_content")
        if own is None:
            e.assume(Val.is_ref(z3.Const("self", Val)))
            e.top = e.new_list(XS)
            return {"self": obj2(e, "me"), "tag": e.top, "filter_tags": vbool(True)}
        v = obj(e)
        e.assume(isa("Tag", V))
        e.assume(And(has("content", V), Not(has("__iter__", V))))
        e.top = V
        f(e, content(e, V))
        return {"self": V, "tag": NONE, "filter_tags": vbool(True)} if own else {"self": obj2(e, "me"), "tag": V, "filter_tags": vbool(True)}

    def spec(self, e, self_, tag, filter_tags):
        c = e.arr("a_content")
        v = tag if not e.entails(Val.is_none(e.V(tag))) else self_
        xs = e.box(v).seq if e.box(v) is not None else None
        first = unit(e.deep(e.V(v)))
        if xs is None:
            i = content(e, v)
            if e.branch(Val.is_lst(i)):
                xs = Val.litems(i)
            elif e.branch(Val.is_str(i)):
                xs = uf("str_chars", Val.s(i), sort=SeqV)
            else:
                if isobject_(e, i) and e.branch(nested(i, c)):
                    return e.new_list(run_fold(e, kept, cat(first, unit(i), flat(content_of(i, c), c)), [EMPTY])[1][0])
                return e.new_list(cat(first, unit(i)) if e.branch(isa("Tag", i)) else first)
        f = run_fold(e, walk, xs, [first], [c])[1]
        return e.new_list(run_fold(e, kept, f[0], [EMPTY])[1][0])


CONTENTS = [("text", lambda e, c: e.assume(Val.is_str(c))), ("list", lambda e, c: e.assume(Val.is_lst(c))),
            ("tag", lambda e, c: e.assume(And(isobject(c), isa("Tag", c), Not(has("__iter__", c))))), ("none", lambda e, c: e.assume(Val.is_none(c)))]

# -- lemmas: what flattening lists is the tags of the tree in document order ---------
KAPP = Appends(kept)
C0 = z3.Const("any_contents", AttrA)


def K(xs, s=EMPTY):
    return kept.app1(xs, [s])


def contributes(h, c):
    """the tags an element contributes: a list those of its elements, a tag itself and then those of its content, a text none"""
    deep = ite(nested(h, c), flat(content_of(h, c), c), EMPTY)
    return ite(Val.is_lst(h), flat(h, c), ite(isa("Tag", h), cat(unit(h), deep), ite(And(isobject(h), nested(h, c)), flat(content_of(h, c), c), EMPTY)))


preorder = Fold("preorder", ["seq"], lambda h, s, p: [cat(s[0], contributes(h, p[0]))], params=["arr"])


def chained(a, b, s):
    return K(cat(a, b), s) == K(b, K(a, s))


def lemma_chain(pv):
    b, s = z3.Const("any_b", SeqV), z3.Const("any_s", SeqV)
    step = lambda h: kept.step(h, [s], [])[0]
    pv.induct("lemma: kept tags of a concatenation", lambda a: chained(a, b, s), lambda: [kept.nil([s], [])],
              lambda h, t: [kept.cons(h, t, [s], []), kept.cons(h, cat(t, b), [s], []), cat(cat(unit(h), t), b) == cat(unit(h), cat(t, b))],
              ih=lambda h, t: [chained(t, b, step(h))])


def tagsonly(v, c):
    """what flattening a part gives is tags only (the contract of flatten, for the parts)"""
    return K(flat(v, c)) == flat(v, c)


def lemma_preorder(pv):
    s, h, t = z3.Const("any_start", SeqV), z3.Const("ind_h", Val), z3.Const("ind_t", SeqV)
    W = lambda xs, s: walk.app1(xs, [s], [C0])
    P = lambda xs, s: K(W(xs, s)) == cat(K(s), preorder.app1(xs, [EMPTY], [C0]))
    papp = Appends(preorder)
    hyp = [isitem(h), tagsonly(h, C0), tagsonly(content_of(h, C0), C0), And(Implies(isa("Tag", h), isobject(h)))]
    pv.oblige("lemma: preorder/base", [walk.nil([s], [C0]), preorder.nil([EMPTY], [C0])], P(EMPTY, s))
    x = below(h, C0)
    X, D, H = z3.Const("below_h", SeqV), z3.Const("contributed", SeqV), z3.Const("kept_start", SeqV)
    u = unit(h)
    fc = flat(content_of(h, C0), C0)
    one = [kept.cons(h, EMPTY, [EMPTY], []), cat(u, EMPTY) == u, kept.nil([EMPTY], []), kept.nil([u], []), chained(u, fc, EMPTY), KAPP.inst(fc, u),
           KAPP.inst(fc, EMPTY)]
    pv.oblige("lemma: preorder/an element contributes", hyp + one, K(x) == contributes(h, C0))
    s2 = cat(s, X)
    pv.oblige("lemma: preorder/next start", [chained(s, X, EMPTY), KAPP.inst(X, K(s)), K(X) == D], K(s2) == cat(K(s), D))
    R, F = z3.Const("preorder_rest", SeqV), z3.Const("preorder_all", SeqV)
    pv.oblige("lemma: preorder/step", [K(s2) == cat(H, D), K(W(t, s2)) == cat(K(s2), R), F == cat(D, R), K(s) == H],
              K(W(t, s2)) == cat(H, F))
    pv.oblige("lemma: preorder/rest", [preorder.cons(h, t, [EMPTY], [C0]), papp.inst(t, cat(EMPTY, contributes(h, C0)), [C0]), contributes(h, C0) == D,
                                       preorder.app1(t, [EMPTY], [C0]) == R],
              preorder.app1(cat(unit(h), t), [EMPTY], [C0]) == cat(D, R))
    papp.lemma(pv)


def lemma_idempotent(pv):
    """what is kept is tags only: so the contract assumed of the parts is the one flatten has"""
    a = z3.Const("any_b", SeqV)
    step = lambda h: kept.step(h, [EMPTY], [])[0]
    P = lambda xs: K(K(xs)) == K(xs)
    h0 = z3.Const("ind_h", Val)
    u = lambda h: unit(h)
    pv.induct("lemma: kept tags are tags", P, lambda: [kept.nil([EMPTY], [])],
              lambda h, t: [kept.cons(h, t, [EMPTY], []), KAPP.inst(t, u(h)), kept.cons(h, K(t), [EMPTY], []), KAPP.inst(K(t), u(h)),
                            cat(EMPTY, u(h)) == u(h)], ih=lambda h, t: [P(t)])


LEMMAS = [KAPP.lemma, lemma_chain, lemma_idempotent, lemma_preorder]
# -- equality -------------------------------------------------------------------------
def oattr(e, n, v):
    return z3.Select(e.arr("a_" + n), Val.r(v))


class Equal(Contract):
    """tags are equal exactly when their classes, names, attributes and contents are equal and they have the same context"""
    target = T + "Tag.__eq__"
    attrs = {"content": True, "context": True, "name": True, "attributes": True}
    ext = {".__class__?": lambda e, o: uf("class_of", e.V(o))}
    trusted = ("tags have a name, attributes, content and context",)

    def setup(self, e):
        for n in self.attrs:
            e.arr("a_" + n)
        return {"self": obj(e), "other": obj2(e, "another")}

    def spec(self, e, self_, other):
        if not e.branch(e.truth(e.eq(uf("class_of", self_), uf("class_of", other)))):
            return vbool(False)
        for n in ("name", "attributes", "content"):
            if not e.branch(e._b(e.truth(e.eq(oattr(e, n, self_), oattr(e, n, other))))):
                return vbool(False)
        i = lambda v: uf("py_id", oattr(e, "context", v), sort=Int)
        return Val.bool(i(self_) == i(other))


# -- replacing ------------------------------------------------------------------------
def chosen(v):
    return uf("isinst_dyn", v, CLS, sort=Bool)


def replaced(v, c):
    return uf("replaced", v, REPL, c)


def replaced_contents(v, c):
    return uf("replaced_contents", v, REPL, c, sort=AttrA)


REPL = z3.Const("replacement", Val)
def at(xs, i):
    return xs[i]


each = Fold("replaced_elements", ["seq", "arr"],
            lambda h, s, p: [cat(z3.Extract(s[0], z3.IntVal(0), Val.i(h)), unit(replaced(at(s[0], Val.i(h)), s[1])),
                                 z3.Extract(s[0], Val.i(h) + 1, z3.Length(s[0]) - Val.i(h) - 1)), replaced_contents(at(s[0], Val.i(h)), s[1])],
            params=["int"], inv=lambda s, p, done: z3.Length(s[0]) == p[0])


mapped = Fold("replaced_each", ["seq", "arr"], lambda h, s, p: [cat(s[0], unit(replaced(h, s[1]))), replaced_contents(h, s[1])])


def lemma_in_place(pv):
    """replacing at every index is replacing every element once, in order (range(k, n) is k followed by range(k + 1, n))"""
    a, c, n, h, t = z3.Const("any_front", SeqV), C0, z3.Int("any_n"), z3.Const("ind_h", Val), z3.Const("ind_t", SeqV)
    rng = lambda k, n: uf("seq_range", k, n, z3.IntVal(1), sort=SeqV)

    def P(xs, a, c):
        n = z3.Length(a) + z3.Length(xs)
        return And(*[x == y for x, y in zip(each.app(rng(z3.Length(a), n), [cat(a, xs), c], [n]), mapped.app(xs, [a, c], []))])
    pv.oblige("lemma: in place/base", [rng(z3.Length(a), z3.Length(a)) == EMPTY, each.nil([cat(a, EMPTY), c], [z3.Length(a)]),
                                       each.nil([a, c], [z3.Length(a)]), mapped.nil([a, c], [])], P(EMPTY, a, c))
    k = Val.int(z3.Length(a))
    N = z3.Int("length_all")
    X, A2 = z3.Const("all_elements", SeqV), z3.Const("longer_front", SeqV)
    C2 = replaced_contents(h, c)
    r = rng(z3.Length(a) + 1, N)
    whole = [X == cat(a, cat(unit(h), t)), A2 == cat(a, unit(replaced(h, c))), N == z3.Length(a) + 1 + z3.Length(t)]
    st = each.step(k, [X, c], [N])
    pv.oblige("lemma: in place/one step", whole, And(st[0] == cat(A2, t), st[1] == C2))
    pv.oblige("lemma: in place/step", whole + [rng(z3.Length(a), N) == cat(unit(k), r), each.cons(k, r, [X, c], [N]), mapped.cons(h, t, [a, c], []),
              P(t, A2, C2), st[0] == cat(A2, t), st[1] == C2, z3.Length(A2) == z3.Length(a) + 1],
              And(*[x == y for x, y in zip(each.app(rng(z3.Length(a), N), [X, c], [N]), mapped.app(cat(unit(h), t), [a, c], []))]))


LEMMAS += [lemma_in_place]


class ReplTags(Tree):
    """an element of the class is replaced; of any other tag the content is replaced by what replacing in it gives; in a list
    every element is, each in its place; anything else stays as it is"""
    target = U + "repl_tags"
    kinds = ("text", "object", "list")

    def __init__(self):
        super().__init__()
        self.ext = {"repl_tags": self.inner}
        self.loops = [LoopUse(each, params=lambda e: [z3.Length(XS)])]

    def args(self, e, v):
        e.assume(isobject(REPL))
        return {"element": v, "tag_class": CLS, "replacement": REPL}

    def result(self, e, v):
        e.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
        return v

    def inner(self, e, a, kw):
        d = dict(zip(("element", "tag_class", "replacement"), a), **kw)
        if not e.entails(And(e.V(d["tag_class"]) == CLS, e.V(d["replacement"]) == REPL)):
            raise Unsupported("arguments of the recursion")
        v = self.part(e, d["element"])
        c = e.arr("a_content")
        e.arrs["a_content"] = replaced_contents(v, c)
        return self.result(e, replaced(v, c))

    def spec(self, e, element, tag_class, replacement):
        if e.branch(e._b(e.isinst(element, tag_class))):
            return replacement
        if e.box(element) is not None:
            xs = e.box(element).seq
            f = run_fold(e, each, uf("seq_range", z3.IntVal(0), z3.Length(xs), z3.IntVal(1), sort=SeqV), [xs, e.arr("a_content")], [z3.Length(xs)])[1]
            e.setbox(element, seq=f[0])
            e.arrs["a_content"] = f[1]
        elif e.kind(element) == "ref" and e.branch(has("content", element)):
            c = e.arr("a_content")
            i = content(e, element)
            e.arrs["a_content"] = z3.Store(replaced_contents(i, c), Val.r(element), self.result(e, replaced(i, c)))
        return element


# -- rendering ------------------------------------------------------------------------
FF = z3.Const("format_func", Val)


def can(v, f):
    """has the element that rendering method? (texts have none of them)"""
    return And(isobject(v), uf("has_method", v, f, sort=Bool))


def rendering(v, f, kw):
    return uf("rendering", v, f, kw)


def text_or_list(v):
    return Or(Val.is_str(v), Val.is_lst(v))


def getter(e, o, name, dflt):
    if dflt:
        raise Unsupported("getattr with default")

    def call(e, args, kw):
        if args or set(kw) != {"**"}:
            raise Unsupported("arguments of the rendering method")
        if not e.branch(can(e.V(o), name)):
            raise PyRaise("AttributeError")
        r = rendering(e.V(o), name, e.V(kw["**"]))
        e.assume(Or(Val.is_str(r), isobject(r)))
        return r
    return call


def shown(h, f, kw):
    return ite(can(h, f), rendering(h, f, kw), h)


renderings = Fold("renderings", ["seq"], lambda h, s, p: [cat(s[0], unit(shown(h, p[0], p[1])))], params=["val", "val"],
                  inv=lambda s, p, done: z3.Length(s[0]) == z3.Length(done))


class FormatContent(Tree):
    """every element that can be rendered is, with the given options, all others are kept, in order; a single element stands
    for itself; the content is left as it is"""
    target = U + "format_content"
    loops = [LoopUse(renderings, params=lambda e: [FF, KW])]
    ext = {"builtins.getattr": lambda e, a, kw: getter(e, a[0], a[1], a[2:]), "builtins.hasattr": lambda e, a, kw: can(e.V(a[0]), e.V(a[1]))}
    trusted = Tree.trusted + ("rendering a nested tag changes none (C17 and C12 check the rendering functions)",)

    def args(self, e, v):
        e.assume(Val.is_str(FF))
        e.assume(And(Val.is_ref(KW), Val.r(KW) < 0, uf("refclass", KW, sort=Int) == 2))
        return {"content": v, "format_func": FF, "**": KW}

    def spec(self, e, content, format_func):
        if e.box(content) is None:
            return rendering(content, FF, KW) if e.branch(can(e.V(content), FF)) else content
        xs = e.box(content).seq
        f = run_fold(e, renderings, xs, [EMPTY], [FF, KW])[1]
        return f[0][0] if e.branch(z3.Length(xs) == 1) else e.new_list(f[0])


def joined(e, v):
    """the renderings of the elements, one after the other, nothing between"""
    return Val.str(uf("str_join", z3.StringVal(""), Val.litems(v), sort=Str)) if e.branch(Val.is_lst(v)) else v


def formatted(e, c, f, kw):
    r = uf("formatted_" + f, c, *[e.V(kw[k]) for k in sorted(kw)], vstr(" ".join(sorted(kw))))
    e.assume(text_or_list(r))
    return r


def fmt(e, a, kw):
    d = dict(zip(("content", "format_func"), a), **kw)
    f = e.const_str(e.V(d["format_func"]))
    if f is None:
        f = "dynamic"
        d2 = {k: v for k, v in d.items() if k != "content"}
    else:
        d2 = {k: v for k, v in d.items() if k not in ("content", "format_func")}
    return formatted(e, e.deep(e.V(d["content"])), f, d2)


class Rendering(Contract):
    attrs = {"content": True}
    trusted = ("the content is rendered by format_content (contract FormatContent)",)
    opts = ()

    def __init__(self):
        super().__init__()
        self.ext = {"format_content": fmt}
        self.ext.update(type(self).ext)
        self.variants = [("own content", lambda e: self.args(e, NONE)), ("given content", lambda e: self.args(e, z3.Const("given", Val)))]

    def args(self, e, c):
        e.arr("a_content")
        v = obj(e)
        if not c.eq(NONE):
            e.assume(Or(Val.is_str(c), Val.is_lst(c), isobject(c)))
        return dict({"self": v, "content": c}, **self.more(e))

    def more(self, e):
        return {"attributes": NONE}

    def inner(self, e, self_, content):
        return content if not e.entails(Val.is_none(e.V(content))) else z3.Select(e.arr("a_content"), Val.r(self_))


class DefaultFmt(Rendering):
    """the text of a tag is that of its content (or of the content given), element after element"""
    target = T + "Tag.default_fmt"
    defaults = {"content": None, "attributes": None}

    def spec(self, e, self_, content):
        return joined(e, formatted(e, self.inner(e, self_, content), "default_fmt", {}))


LEVEL = z3.Const("level", Val)


def written(name):
    """an application of one of the writers of formats (C12); its arguments are observed"""
    def h(e, a, kw):
        if a:
            raise Unsupported(name + " with positional arguments")
        return uf(name, *[e.deep(e.V(kw[k])) for k in sorted(kw)], vstr(" ".join(sorted(kw))))
    return h


def option_of(n):
    def h(e, o):
        return uf("of_" + n, e.V(o))
    return h


class TexFmt(Rendering):
    """the LaTeX of a tag holds that of its content, element after element, one level deeper: as argument of its command, in
    its environment, or plain; its attributes, unless others are given, are the command's"""
    target = T + "Tag.tex_fmt"
    defaults = {"content": None, "attributes": None, "mathmode": False, "level": 1}
    ext = {"tex_cmd": written("tex_cmd"), "tex_env": written("tex_env"), ".tex_cmd?": option_of("tex_cmd"), ".tex_env?": option_of("tex_env"),
           ".attributes?": option_of("attributes")}

    def more(self, e):
        e.assume(Val.is_int(LEVEL))
        for n in ("tex_cmd", "tex_env"):
            e.assume(Or(Val.is_str(uf("of_" + n, V)), Val.is_none(uf("of_" + n, V))))
        e.assume(isobject(uf("of_attributes", V)))
        a = z3.Const("given_attributes", Val)
        e.assume(Or(Val.is_none(a), isobject(a)))
        return {"attributes": a, "mathmode": Val.bool(z3.Bool("mathmode")), "level": LEVEL}

    def spec(self, e, self_, content, attributes, mathmode, level):
        c = joined(e, formatted(e, self.inner(e, self_, content), "tex_fmt", {"level": Val.int(Val.i(level) + 1), "mathmode": mathmode}))
        a = uf("of_attributes", self_) if e.branch(Val.is_none(attributes)) else attributes
        for k, w in (("cmd", "tex_cmd"), ("env", "tex_env")):
            o = uf("of_" + w, self_)
            if e.branch(And(Val.is_str(o), z3.Length(Val.s(o)) > 0)):
                return written(w)(e, [], {k: o, "attributes": a, "formatted_content": c})
        return c


class HtmlFmt(Rendering):
    """the HTML element of a tag is written with its HTML name, else its own in lower case, and holds the renderings of its
    content, one level deeper; its attributes, unless others are given, are the element's"""
    target = T + "Tag.html_fmt"
    defaults = {"content": None, "attributes": None, "format_func": "html_fmt", "method": "html", "level": 1}
    ext = {"xhtml_tag": written("xhtml_tag"), ".html_name?": option_of("html_name"), ".name?": option_of("name"), ".attributes?": option_of("attributes")}

    def more(self, e):
        e.assume(Val.is_int(LEVEL))
        e.assume(Or(Val.is_str(uf("of_html_name", V)), Val.is_none(uf("of_html_name", V))))
        e.assume(Val.is_str(uf("of_name", V)))
        e.assume(isobject(uf("of_attributes", V)))
        a = z3.Const("given_attributes", Val)
        e.assume(Or(Val.is_none(a), isobject(a)))
        return {"attributes": a, "format_func": sym_str(e, "format"), "method": sym_str(e, "method"), "level": LEVEL}

    def spec(self, e, self_, content, attributes, format_func, method, level):
        deeper = Val.int(Val.i(level) + 1)
        c = formatted(e, self.inner(e, self_, content), "dynamic", {"format_func": format_func, "level": deeper})
        n = uf("of_html_name", self_)
        if e.branch(Val.is_none(n)):
            n = Val.str(uf("str_lower", Val.s(uf("of_name", self_)), sort=Str))
        a = attributes if e.branch(e._b(e.truth(attributes))) else uf("of_attributes", self_)
        return written("xhtml_tag")(e, [], {"name": n, "level": level, "attributes": a, "formatted_content": c, "method": method})


CONTRACTS = [FormatContent, DefaultFmt, TexFmt, HtmlFmt, Equal, ReplTags, CopyTag, ReplaceContext, Copy, Flatten]
