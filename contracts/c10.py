"""C10: navigation between documents and formats (tags/navigation.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.interp import IterV
from pyvc.engine import STup, Unsupported, is_val
import pyvc.source as src

ROOT, LMAN, LABELS = z3.Const("root_document", Val), z3.Const("label_manager", Val), z3.Const("heading_labels", SeqV)
DOCS = z3.Const("documents", SeqV)
RK, RM, RD = z3.Const("root_keys", SeqV), z3.Const("root_map", MapV), z3.Const("root_dom", DomV)
k_any = z3.Const("k_any", Val)


def at(name, o):
    return z3.Select(z3.Const("H0_a_" + name, AttrA), Val.r(o))


def isref(v, cls=0):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == cls)


def isdoc(v):
    return And(isref(v), truthy_ref(v), Val.is_str(at("doc_id", v)), isref(at("context", v), 2), Val.is_lst(at("targets", v)))


# -- the documents of each target, in document order ---------------------------------------------------
def lists(s, p, done=None):
    return z3.ForAll([k_any], Implies(z3.Select(s[2], k_any), And(Val.is_str(k_any), Val.is_lst(z3.Select(s[1], k_any)))))


def add_id(h, s, p):
    keys, m, dom = s
    known = z3.Select(dom, h)
    old = ite(known, Val.litems(z3.Select(m, h)), EMPTY)
    m0 = ite(known, m, z3.Store(m, h, Val.lst(EMPTY)))
    return [ite(known, keys, cat(keys, unit(h))), z3.Store(m0, h, Val.lst(cat(old, unit(p[0])))), z3.Store(dom, h, z3.BoolVal(True))]


one_document = Fold("targets_of_document", ["seq", "map", "dom"], add_id, params=["val"], inv=lists, names=["keys", "map", "dom"])
by_target = Fold("documents_by_target", ["seq", "map", "dom"],
                 lambda h, s, p: one_document.app(Val.litems(at("targets", h)), s, [at("doc_id", h)]), inv=lists, names=["keys", "map", "dom"])

# -- the first heading of each document ------------------------------------------------------------------
LAB0 = z3.Const("a_label", Val)
GROUPS = uf("groups", LABELS, at("doc_id", LAB0), sort=SeqV)


def gkey(g):
    return Val.titems(g)[0]


def gfirst(g):
    return Val.litems(Val.titems(g)[1])[0]


firsts = Fold("first_headings", ["seq", "map", "dom"],
              lambda h, s, p: D(*s).set(gkey(h), gfirst(h)).terms(), names=["keys", "map", "dom"])


def groupby(e, a, kw):
    """itertools.groupby(xs, key): the runs of equal keys, none empty; a function of the sequence and of the key"""
    f = (list(a) + [kw.get("key")])[1]
    key = e.V(e.call(f, [LAB0], {}))
    return e.new_list(uf("groups", e.seq_of(a[0]), key, sort=SeqV))


# -- the entries of the documents -------------------------------------------------------------------------
def neighbour(ids, i):
    """the label of the i-th document of the target, when there is such a document"""
    return ids[i]


def entry(s, ctx, key, present, value):
    """set (or remove) an entry of a context"""
    r = Val.r(ctx)
    d = D(*[z3.Select(x, r) for x in s])
    new = d.set(key, value)
    gone = d.drop(key)
    out = new.ite(present, gone.ite(z3.Select(d.dom, key), d))
    return [z3.Store(x, r, y) for x, y in zip(s, out.terms())]


def weak(l):
    return uf("weakref", l)


RELS = [tup(vstr(n), vint(r)) for n, r in (("prev", -1), ("curr", 0), ("next", 1))]


def relative(h, s, p):
    """the entry <name>_<target> of the document: the first heading of the document `rel` places on among those of the target"""
    doc, target, ids, m, dom = p
    name, rel = Val.s(Val.titems(h)[0]), Val.i(Val.titems(h)[1])
    here = z3.Contains(Val.litems(ids), unit(at("doc_id", doc)))
    i = z3.IndexOf(Val.litems(ids), unit(at("doc_id", doc)), 0) + rel
    inside = And(here, i >= 0, i < z3.Length(Val.litems(ids)))
    other = Val.litems(ids)[i]
    key = Val.str(z3.Concat(name, S("_"), uf("str_strip_c", Val.s(target), S("."), sort=Str)))
    return entry(s, at("context", doc), key, And(inside, z3.Select(dom, other)), weak(z3.Select(m, other)))


relatives = Fold("entries_of_document", ["seqarr", "maparr", "domarr"], relative, params=["val", "val", "val", "map", "dom"],
                 names=["$keys", "$map", "$dom"])


def navigate(h, s, p):
    """the previous, own and next heading of a document among those of the target; entries without heading are removed"""
    return relatives.app(seq(*RELS), s, [h] + list(p))


per_document = Fold("entries_of_documents", ["seqarr", "maparr", "domarr"], navigate, params=["val", "val", "map", "dom"],
                    names=["$keys", "$map", "$dom"])
per_target = Fold("entries_of_targets", ["seqarr", "maparr", "domarr"],
                  lambda h, s, p: per_document.app(DOCS, s, [h, z3.Select(p[0], h), p[1], p[2]]), params=["map", "map", "dom"],
                  names=["$keys", "$map", "$dom"])


def dict_named(e, i):
    return [b for b in e.boxes.values() if b.kind == "dict"][i].d


class SetNavigationLabels(Contract):
    """set_navigation_labels: for every target, each document's prev/curr/next entry is the first heading of the document
    before / itself / after it among the documents of that target, in document order, and there is no such entry when there
    is no such document or it has no heading, whatever was there before"""
    target = "disseminate.tags.navigation:set_navigation_labels"
    attrs = {"doc_id": True, "context": True, "targets": True}
    summarise = staticmethod(lambda e, items: len(items) == 3)
    loops = [LoopUse(relatives, params=lambda e: e.contract.innermost(e)), LoopUse(one_document, params=lambda e: [at("doc_id", e.heads[-1])]), LoopUse(by_target), LoopUse(firsts),
             LoopUse(per_document, params=lambda e: e.contract.inner(e)), LoopUse(per_target, params=lambda e: e.contract.outer(e))]
    trusted = ("documents_list, get_labels_by_kind (C06, C07)", "itertools.groupby", "contexts are dictionaries (C04)", "weak references")

    def __init__(self):
        self.ext = {"slots": True, ".is_valid": lambda e, o, a, kw: uf("ctx_valid", e.V(a[0]), sort=Bool), "itertools.groupby": groupby,
                    ".documents_list": self.documents, ".get_labels_by_kind": self.headings,
                    "weakref.ref": lambda e, a, kw: weak(e.V(a[0]))}
        super().__init__()

    def documents(self, e, o, a, kw):
        if not (e.V(o).eq(self.root) and not a and set(kw) == {"only_subdocuments", "recursive"}):
            raise Unsupported("other documents")
        if not (e.entails(Not(e.truth(kw["only_subdocuments"]))) and e.entails(e.truth(kw["recursive"]))):
            return e.new_list(uf("other_documents", e.V(kw["only_subdocuments"]), e.V(kw["recursive"]), sort=SeqV))
        return e.new_list(DOCS)

    def headings(self, e, o, a, kw):
        k = e.V((a or [kw.get("kinds")])[0])
        return e.new_list(LABELS if e.entails(And(o == LMAN, k == vstr("heading"))) else uf("other_labels", o, k, sort=SeqV))

    def inner(self, e):
        d = dict_named(e, -2)
        l = dict_named(e, -1)
        h = e.heads[-1]
        return [h, z3.Select(d.map, h), l.map, l.dom]

    def innermost(self, e):
        d = dict_named(e, -2)
        l = dict_named(e, -1)
        t, doc = e.heads[-2], e.heads[-1]
        return [doc, t, z3.Select(d.map, t), l.map, l.dom]

    def outer(self, e):
        d, l = dict_named(e, -2), dict_named(e, -1)
        return [d.map, l.map, l.dom]

    def elem(self, e, h, s):
        if s.eq(DOCS):
            e.assume(isdoc(h))
        elif s.eq(seq(*RELS)):
            e.assume(And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2, Val.is_str(Val.titems(h)[0]), Val.is_int(Val.titems(h)[1])))
        elif s.eq(GROUPS):
            e.assume(And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2, Val.is_lst(Val.titems(h)[1]), z3.Length(Val.litems(Val.titems(h)[1])) > 0))
        elif z3.is_app(s) and s.decl().name() == "a_targets" or "H0_a_targets" in str(s):
            e.assume(Val.is_str(h))

    def setup(self, e):
        for a in self.attrs:
            e.arr("a_" + a)
        for n, s in (("$keys", SeqA), ("$map", MapA), ("$dom", DomA)):
            e.arr(n, s)
        e.assume(And(isref(LAB0), isref(LMAN)))
        root = e.new_obj("Document", {"context": e.new_obj("DocumentContext", {}, d=D(RK, RM, RD))})
        e.assume(Implies(uf("ctx_valid", vstr("label_manager"), sort=Bool), And(z3.Select(RD, vstr("label_manager")), z3.Select(RM, vstr("label_manager")) == LMAN)))
        self.root = root
        return {"root_document": root}

    def spec(self, e, root_document):
        if not e.branch(uf("ctx_valid", vstr("label_manager"), sort=Bool)):
            raise PyRaise("AssertionError")
        ids = by_target.app(DOCS, [EMPTY, NOMAP, NODOM])
        heads = firsts.app(GROUPS, [EMPTY, NOMAP, NODOM])
        s = [e.arr("$keys", SeqA), e.arr("$map", MapA), e.arr("$dom", DomA)]
        s = per_target.app(ids[0], s, [ids[1], heads[1], heads[2]])
        e.arrs["$keys"], e.arrs["$map"], e.arrs["$dom"] = s
        return NONE



# -- the tags that use the entries -------------------------------------------------------------------------
CK, CM, CD = z3.Const("ctx_keys", SeqV), z3.Const("ctx_map", MapV), z3.Const("ctx_dom", DomV)
KW = z3.Const("kwargs", Val)
TAGS = "disseminate.tags.navigation"


def cls(e, name):
    return e.from_resolved(src.resolve(TAGS, name), name)


def deref(e, fv, a, kw):
    if a or kw:
        raise Unsupported("call of a value")
    return uf("deref", e.V(fv))


class Neighbour(Contract):
    """the tag renders as the reference to the label of its entry (prev_/next_ and the format) of the page's context, as it
    is now, or to the label it is given; as nothing when there is neither; the page's context is not changed"""
    cls, fmt = None, None
    trusted = ("the rendering of a reference to a label (C11)",)

    def __init__(self):
        self.target = "%s:%s.%s_fmt" % (TAGS, self.cls, self.fmt)
        super().__init__()
        base = "disseminate.tags.ref:Ref.%s_fmt" % self.fmt
        own = "disseminate.tags.tag:Tag.%s_fmt" % self.fmt
        self.ext = {"call": deref, base: self.reference, own: self.reference}
        self.variants = [("with a cache", lambda e: {**self.setup(e), "cache": sym_dict(e, "cache")}), ("without", lambda e: {**self.setup(e), "cache": NONE})]

    def setup(self, e):
        e.assume(And(isref(KW, 2)))
        ctx = e.new_obj("DocumentContext", {}, d=D(CK, CM, CD))
        return {"self": e.new_obj(cls(e, self.cls), {"context": ctx}), "**": KW}

    def reference(self, e, a, kw):
        if len(a) != 1 or set(kw) != {"cache", "**"}:
            raise Unsupported("arguments of the reference")
        d = e.dict_of(kw["cache"])
        return uf("rendered", z3.Select(d.map, vstr("label")), z3.Select(d.dom, vstr("label")), e.V(kw["**"]))

    def spec(self, e, self_, cache):
        key = vstr("%s_%s" % (self.cls.lower(), self.fmt))
        if e.V(cache).eq(NONE):
            cache = e.new_dict()
        d = e.dict_of(cache)
        if not e.branch(z3.Select(d.dom, vstr("label"))):
            if not e.branch(z3.Select(CD, key)):
                return vstr("")
            e.put_dict(cache, d.set(vstr("label"), uf("deref", z3.Select(CM, key))))
        d = e.dict_of(cache)
        return uf("rendered", z3.Select(d.map, vstr("label")), z3.BoolVal(True), KW)


def neighbours():
    return [type("%s%s" % (c, f), (Neighbour,), {"cls": c, "fmt": f, "__doc__": Neighbour.__doc__, "target": "%s:%s.%s_fmt" % (TAGS, c, f)})
            for c in ("Prev", "Next") for f in ("html", "tex")]


# -- links to the other formats ----------------------------------------------------------------------------
TARGETS, CTX = z3.Const("targets", SeqV), z3.Const("context", Val)
OTHER = {"Txtlink": ".txt", "Texlink": ".tex", "Pdflink": ".pdf", "OtherLink": None}


def path_of(ctx, target):
    return uf("target_path", ctx, target)


class Links(Contract):
    cls = "OtherLink"
    trusted = ("context.targets and target_filepath of the document (C07, C11)", "a context is true in conditions only via `is not None`")

    def __init__(self):
        super().__init__()
        self.ext = {".targets?": self.formats, ".target_filepath": lambda e, o, a, kw: path_of(e.V(o), e.V((a or [kw["target"]])[0])),
                    ".parent?": lambda e, o: uf("folder", e.V(o)), "os.path.relpath": lambda e, a, kw: Val.str(uf("relpath", e.V(a[0]), e.V(a[1]), sort=Str)),
                    "markupsafe.escape": lambda e, a, kw: Val.str(uf("escaped", Val.s(e.V(a[0])), sort=Str))}
        self.variants = [(c, lambda e, c=c: self.page(e, c)) for c in self.classes_()]

    def classes_(self):
        return OTHER

    def formats(self, e, o):
        if not is_val(o) or e.box(o) is not None or e.kind(o) != "ref":
            return None
        return e.new_list(uf("targets_of", e.V(o), sort=SeqV))

    def context(self, e):
        e.assume(Or(CTX == NONE, And(isref(CTX), truthy_ref(CTX))))
        return CTX

    def page(self, e, c):
        self.name = c
        return {"self": e.new_obj(cls(e, c), {"context": self.context(e)}), **self.args(e)}

    def file(self, e, target):
        """the output file of this page in a format, when it is one of the page's formats"""
        if e.branch(Or(CTX == NONE, target == NONE)) or not e.branch(z3.Contains(uf("targets_of", CTX, sort=SeqV), unit(target))):
            return NONE
        return path_of(CTX, target)


def format_(e, name):
    t = z3.Const(name, Val)
    e.assume(Or(t == NONE, Val.is_str(t)))
    return t


class ThisFile(Links):
    """the page's own file in a format; none when the page is not produced in it"""
    target = TAGS + ":OtherLink.this_filepath"

    def args(self, e):
        return {"target": format_(e, "target")}

    def spec(self, e, self_, target):
        return self.file(e, target)


class OtherFile(Links):
    """the page's file in the given format, else in the format of the tag (Txtlink: .txt, Texlink: .tex, Pdflink: .pdf);
    none when the page is not produced in it"""
    target = TAGS + ":OtherLink.other_filepath"
    defaults = {"target": None}

    def args(self, e):
        return {"target": format_(e, "target")}

    def spec(self, e, self_, target):
        own = OTHER[self.name]
        if not e.branch(e.truth(target)):
            target = NONE if own is None else vstr(own)
        return self.file(e, target)


class SrcFile(Links):
    """the source link goes to the page's source file, when the context has one"""
    target = TAGS + ":Srclink.other_filepath"

    def __init__(self):
        super().__init__()
        self.variants = [("in a context", self.inside), ("without", self.outside)]

    def inside(self, e):
        return self.mk(e, e.new_obj("DocumentContext", {}, d=D(CK, CM, CD)))

    def outside(self, e):
        return self.mk(e, NONE)

    def mk(self, e, ctx):
        self.inner = ctx
        return {"self": e.new_obj(cls(e, "Srclink"), {"context": ctx}), "target": format_(e, "target")}

    def spec(self, e, self_, target):
        key = vstr("src_filepath")
        if self.inner.eq(NONE) or not e.branch(z3.Select(CD, key)):
            return NONE
        return z3.Select(CM, key)


class EpubFile(Links):
    """the epub link goes to the root document's epub file, when the root document is produced as one"""
    target = TAGS + ":Epublink.other_filepath"
    attrs = {"root_document": True, "context": True}

    def __init__(self):
        super().__init__()
        self.variants = [("epub", self.page_)]

    def page_(self, e):
        for a in self.attrs:
            e.arr("a_" + a)
        root = at("root_document", CTX)
        self.ctx = at("context", root)
        e.assume(And(Or(root == NONE, isref(root)), Or(self.ctx == NONE, isref(self.ctx))))
        return {"self": e.new_obj(cls(e, "Epublink"), {"context": self.context(e)}), "target": format_(e, "target")}

    def spec(self, e, self_, target):
        if e.branch(Or(CTX == NONE, at("root_document", CTX) == NONE, self.ctx == NONE)):
            return NONE
        if not e.branch(z3.Contains(uf("targets_of", self.ctx, sort=SeqV), unit(vstr(".epub")))):
            return NONE
        return path_of(self.ctx, vstr(".epub"))


class Relative(Links):
    """the link from this page's file to the other file is relative to the folder of this page's file, escaped; it is empty
    when either is not produced and when they are the same file"""
    target = TAGS + ":OtherLink.other_relpath"
    defaults = {"other_target": None}

    def __init__(self):
        super().__init__()
        self.ext = {**self.ext, "this_filepath": self.one("this_file", "target"), "other_filepath": self.one("other_file", "target")}

    def one(self, name, p):
        def f(e, a, kw):
            r = uf(name, e.V(dict(zip(("self", p), a), **kw).get(p, NONE)))
            e.assume(Or(r == NONE, isref(r)))
            return r
        return f

    def args(self, e):
        return {"this_target": format_(e, "this_target"), "other_target": format_(e, "other_target")}

    def spec(self, e, self_, this_target, other_target):
        a, b = uf("this_file", this_target), uf("other_file", other_target)
        if e.branch(Or(a == NONE, b == NONE)) or e.branch(e.eq(a, b)):
            return vstr("")
        return Val.str(uf("escaped", uf("relpath", b, uf("folder", a), sort=Str), sort=Str))


class Written(Links):
    fmt = None

    def __init__(self):
        super().__init__()
        self.ext = {"other_relpath": self.link}

    def classes_(self):
        return list(OTHER) + ["Srclink", "Epublink"]

    def link(self, e, a, kw):
        d = dict(zip(("self", "this_target", "other_target"), a), **kw)
        return uf("link", e.V(d["this_target"]), e.V(d.get("other_target", NONE)))

    def args(self, e):
        return {"**": e.new_dict(D(CK, CM, CD))}

    def spec(self, e, self_):
        return uf("link", vstr("." + self.fmt), NONE)


class WrittenHtml(Written):
    """in HTML the link is relative to the page's HTML file"""
    target = TAGS + ":OtherLink.html_fmt"
    fmt = "html"


class WrittenTex(Written):
    """in LaTeX the link is relative to the page's LaTeX file"""
    target = TAGS + ":OtherLink.tex_fmt"
    fmt = "tex"


CONTRACTS = [SetNavigationLabels] + neighbours() + [ThisFile, OtherFile, SrcFile, EpubFile, Relative, WrittenHtml, WrittenTex]
