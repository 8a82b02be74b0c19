"""C07: the document tree (document/document.py, document/document_context.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported, STup, is_val
import pyvc.source as src

MOD = "disseminate.document.document:"
DOC, OTHER = z3.Const("this_document", Val), z3.Const("other_document", Val)


def isobject(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0, truthy_ref(v))


def isdoc(v):
    return And(isobject(v), uf("isa_Document", v, sort=Bool))


def path_of(v):
    return uf("src_filepath", v)


def ispath(v):
    return And(isobject(v), uf("isa_SourcePath", v, sort=Bool))


def subs(v):
    """the subdocuments of a document"""
    return D(uf("subdocument_files", v, sort=SeqV), uf("subdocument_map", v, sort=MapV), uf("subdocument_dom", v, sort=DomV))


def below(v):
    """the documents of a document: itself and those below it"""
    return D(uf("tree_files", v, sort=SeqV), uf("tree_map", v, sort=MapV), uf("tree_dom", v, sort=DomV))


def put(s, k, v):
    return D(*s).set(k, v).terms()


direct = Fold("direct_subdocuments", ["seq", "map", "dom"], lambda h, s, p: put(s, path_of(p[0][h]), p[0][h]), params=["map"])
merge = Fold("merged_documents", ["seq", "map", "dom"], lambda h, s, p: put(s, h, p[0][h]), params=["map"])


def tree_step(h, s, p):
    d = below(p[0][h])
    return merge.app(d.keys, s, [d.map])


tree = Fold("documents_below", ["seq", "map", "dom"], tree_step, params=["map"])
clash = Fold("file_repeated", ["dom"], lambda h, s, p: [z3.Store(s[0], h, z3.BoolVal(True))], exits=lambda h, s, p: [(s[0][h], "break", None)])


def lemma_merge(pv):
    """documents whose files are not listed yet come after those listed, in their order"""
    K, M, Dm, Q = z3.Const("any_keys", SeqV), z3.Const("any_map", MapV), z3.Const("any_dom", DomV), z3.Const("any_values", MapV)
    P = lambda xs, K, M, Dm: Implies(clash.code(xs, [Dm], []) == 0, And(merge.app(xs, [K, M, Dm], [Q])[0] == cat(K, xs),
                                                                       merge.app(xs, [K, M, Dm], [Q])[2] == clash.app(xs, [Dm], [])[0]))
    pv.induct("lemma: merged documents", lambda xs: P(xs, K, M, Dm), lambda: [merge.nil([K, M, Dm], [Q]), clash.nil([Dm], [])],
              lambda h, t: [merge.cons(h, t, [K, M, Dm], [Q]), clash.cons(h, t, [Dm], [])],
              ih=lambda h, t: [P(t, *put([K, M, Dm], h, Q[h]))])
    # so with two children and no file repeated the listing is the document, the first child's tree, then the second's
    d, a, b = z3.Consts("any_doc any_first any_second", Val)
    m = subs(d).map
    A, B = below(m[a]), below(m[b])
    s0 = D().set(path_of(d), d).terms()
    s1 = merge.app(A.keys, s0, [A.map])
    fin = tree.app(cat(unit(a), unit(b)), s0, [m])
    pv.oblige("lemma: merged documents/preorder of two", [tree.cons(a, unit(b), s0, [m]), tree.cons(b, EMPTY, s1, [m], xs=unit(b)), tree.nil(merge.app(B.keys, s1, [B.map]), [m]),
                                                          clash.code(A.keys, [s0[2]], []) == 0, clash.code(B.keys, clash.app(A.keys, [s0[2]], []), []) == 0,
                                                          *[Implies(clash.code(x, [y[2]], []) == 0, And(merge.app(x, y, [q])[0] == cat(y[0], x), merge.app(x, y, [q])[2] == clash.app(x, [y[2]], [])[0]))
                                                            for x, y, q in ((A.keys, s0, A.map), (B.keys, s1, B.map))]],
              fin[0] == cat(unit(path_of(d)), A.keys, B.keys))


LEMMAS = [lemma_merge]


class Documents(Contract):
    """the file of the document (unless only subdocuments are wanted) and those of its subdocuments in order; recursively, each
    followed by those below it; every file with its document"""
    target = MOD + "Document.documents_dict"
    loops = [LoopUse(tree, params=lambda e: [e.contract.map(e)]), LoopUse(merge, params=lambda e: [below(e.contract.map(e)[e.heads[-1]]).map]),
             LoopUse(direct, params=lambda e: [e.contract.map(e)])]
    trusted = ("subdocuments form a tree: the recursion ends",)
    defaults = {"document": None, "only_subdocuments": False, "recursive": False}

    def __init__(self):
        super().__init__()
        self.ext = {".src_filepath?": lambda e, o: path_of(e.V(o)), ".subdocuments?": lambda e, o: e.new_dict(subs(e.V(o))), ".documents_dict": self.deeper}
        self.variants = [("%s, %s, %s" % (a, b, c), self.mk(a, b, c)) for a in ("itself", "other") for b in ("all", "subdocuments") for c in ("recursive", "direct")]

    def map(self, e):
        return subs(e.contract.root).map

    def deeper(self, e, o, a, kw):
        d = dict(zip(("document", "only_subdocuments", "recursive"), a), **kw)
        if not e.entails(e.truth(d.get("recursive", Val.bool(z3.BoolVal(False))))) or e.entails(e.truth(d.get("only_subdocuments", Val.bool(z3.BoolVal(False))))) or \
                ("document" in d and not e.entails(Or(Val.is_none(e.V(d["document"])), e.V(d["document"]) == e.V(o)))):
            raise Unsupported("arguments of documents_dict")
        return e.new_dict(below(e.V(o)))

    def elem(self, e, h, s):
        e.assume(ispath(h))

    def mk(self, a, b, c):
        def f(e):
            e.assume(And(isdoc(DOC), isdoc(OTHER)))
            self.root = OTHER if a == "other" else DOC
            return {"self": DOC, "document": OTHER if a == "other" else NONE, "only_subdocuments": Val.bool(z3.BoolVal(b == "subdocuments")), "recursive": Val.bool(z3.BoolVal(c == "recursive"))}
        return f

    def spec(self, e, self_, document, only_subdocuments, recursive):
        d = self.root
        s = D() if e.entails(e.truth(only_subdocuments)) else D().set(path_of(d), d)
        f = tree if e.entails(e.truth(recursive)) else direct
        fin = run_fold(e, f, subs(d).keys, s.terms(), [subs(d).map])[1]
        return e.new_dict(D(*fin), "OrderedDict")


CONTRACTS = [Documents]
