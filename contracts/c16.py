"""C16: typography (tags/receivers/typography.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported
import pyvc.source as src

MOD = "disseminate.tags.receivers.typography:"
V, XS = z3.Const("element", Val), z3.Const("elements", SeqV)
C0 = z3.Const("H0_a_content", AttrA)
STEPS = (("re_emdash", "\u2014"), ("re_endash", "\u2013"), ("re_apostrophe", "\u2019"), ("re_single_start", "\u2018"), ("re_single_end", "\u2019"),
         ("re_double_start", "\u201c"), ("re_double_end", "\u201d"))


def replaced(name, new, t):
    """the text with every place the pattern matches replaced"""
    return uf("sub_" + name, new, t, sort=Str)


def subst(name):
    def h(e, args, kw):
        if len(args) != 2 or kw or e.kind(e.V(args[1])) != "str":
            raise Unsupported("sub of " + name)
        return Val.str(replaced(name, e.V(args[0]), Val.s(e.V(args[1]))))
    return h


def typeset(t):
    """em dashes before en dashes (a triple hyphen contains a double one), then apostrophes, then quotes"""
    for name, new in STEPS:
        t = replaced(name, vstr(new), t)
    return t


def out(v, c):
    """what processing makes of an element, given the contents of the tags"""
    return uf("typographic", v, c)


def contents(v, c):
    """the contents of the tags after the element has been processed"""
    return uf("typographic_contents", v, c, sort=AttrA)


def isobject(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


def opted(v):
    return And(uf("has_process_typography", v, sort=Bool), uf("process_typography", v, sort=Bool))


def option(e, o):
    if not e.branch(uf("has_process_typography", e.V(o), sort=Bool)):
        raise PyRaise("AttributeError")
    return Val.bool(uf("process_typography", e.V(o), sort=Bool))


def recurse(e, a, kw):
    """the function itself on a part of the element"""
    d = dict(zip(("tag", "tag_base_cls"), a), **kw)
    if set(d) - {"tag", "tag_base_cls", "level"} or not e.entails(e.V(d["tag_base_cls"]) == vcls("Tag")):
        raise Unsupported("arguments of the recursion")
    v = e.deep(e.V(d["tag"]))
    c = e.arr("a_content")
    e.arrs["a_content"] = contents(v, c)
    r = out(v, c)
    e.assume(Implies(Val.is_ref(r), Val.r(r) < 0))
    return r


each = Fold("typographic_elements", ["seq", "arr"], lambda h, s, p: [cat(s[0], unit(out(h, s[1]))), contents(h, s[1])])


class Tag(Contract):
    """a text is typeset; of a tag that opts in the content is processed in place, any other tag is left alone with its
    content; of a list every element is processed, in place; anything else is left alone"""
    target = MOD + "process_tag_typography"
    attrs = {"content": True}
    loops = [LoopUse(each)]
    trusted = ("which places the patterns match (bounded oracle)", "tags form trees: no list or tag is reached twice")
    defaults = {"level": 1}

    def __init__(self):
        super().__init__()
        self.ext = {"typography.%s.sub" % n: subst(n) for n, _ in STEPS}
        self.ext.update({".process_typography?": option, "process_typography": self.part, "process_tag_typography": self.part})
        self.variants = [("text", lambda e: self.args(e, sym_str(e, "text"))), ("object", lambda e: self.args(e, self.obj(e))),
                         ("list", lambda e: self.args(e, e.new_list(XS))), ("number", lambda e: self.args(e, Val.int(z3.Int("number")))),
                         ("none", lambda e: self.args(e, NONE))]

    def part(self, e, a, kw):
        """a recursion: on a part of the element, so that it ends"""
        if e.V(kw.get("tag", a[0] if a else NONE)).eq(e.top):
            raise Unsupported("recursion on the same element")
        return recurse(e, a, kw)

    def obj(self, e):
        e.assume(isobject(V))
        return V

    def elem(self, e, h, s):
        e.assume(Or(Val.is_str(h), Val.is_int(h), Val.is_none(h), isobject(h), Val.is_lst(h)))

    def args(self, e, v):
        e.arr("a_content")
        e.top = v
        return {"tag": v, "tag_base_cls": e.from_resolved(src.resolve("disseminate.tags.tag", "Tag"), "Tag"), "level": Val.int(z3.Int("level"))}

    def spec(self, e, tag, tag_base_cls, level):
        if e.box(tag) is not None:
            fin = run_fold(e, each, e.box(tag).seq, [EMPTY, e.arr("a_content")])[1]
            e.setbox(tag, seq=fin[0])
            e.arrs["a_content"] = fin[1]
            return tag
        if e.kind(tag) == "str":
            return Val.str(typeset(Val.s(tag)))
        if e.kind(tag) == "ref" and e.branch(And(isa("Tag", tag), opted(tag))):
            c = e.arr("a_content")
            inner = z3.Select(c, Val.r(tag))
            e.arrs["a_content"] = z3.Store(contents(inner, c), Val.r(tag), out(inner, c))
        return tag


class Receiver(Tag):
    """the receiver is the function on the created tag"""
    target = MOD + "process_typography"
    defaults = {}

    def __init__(self):
        super().__init__()
        self.ext = {"process_tag_typography": recurse}
        self.variants = [("object", self.one)]

    def one(self, e):
        d = self.args(e, self.obj(e))
        del d["level"]
        e.assume(isobject(z3.Const("kw", Val)))
        return d

    def spec(self, e, tag, tag_base_cls):
        return recurse(e, [tag, tag_base_cls], {})


CONTRACTS = [Tag, Receiver]
