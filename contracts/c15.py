"""C15: paragraph grouping (tags/receivers/paragraphs.py)."""
from pyvc.contract import *
from pyvc.theory import *
import pyvc.source as src

MOD = "disseminate.tags.receivers.paragraphs:"
XS = z3.Const("elements", SeqV)


def blank(v):
    """a text of nothing but white space"""
    return And(Val.is_str(v), z3.Length(uf("str_strip", Val.s(v), sort=Str)) == 0)


def istag(v):
    return isa("Tag", v)


def group(v):
    """a group made by group_paragraphs is a list; every other element is a text or an object"""
    return Val.is_lst(v)


def item(e, h, s):
    """what a tag's content holds: texts, objects (tags) and, once grouped, lists of such"""
    e.assume(isitem(h))


def isobject(h):
    return And(Val.is_ref(h), Val.r(h) < 0, uf("refclass", h, sort=Int) == 0)


def isitem(h):
    return Or(Val.is_str(h), Val.is_int(h), isobject(h), Val.is_lst(h))


allblank = Fold("all_blank", [], lambda h, s, p: [], exits=lambda h, s, p: [(Not(blank(h)), "break", NONE)])
notable = Fold("kept_groups", ["seq"], lambda h, s, p: ite(And(group(h), allblank.code(Val.litems(h), []) == 0), s[0], cat(s[0], unit(h))))


class Clean(Contract):
    """of the elements exactly the groups holding nothing but blank texts are dropped, all others are kept in order; the
    given list is changed in place and returned"""
    target = MOD + "clean_paragraphs"
    loops = [LoopUse(allblank), LoopUse(notable)]
    elem = staticmethod(item)

    def setup(self, e):
        return {"elements": e.new_list(XS)}

    def spec(self, e, elements):
        k, fin, v = run_fold(e, notable, e.box(elements).seq, [EMPTY])
        e.setbox(elements, seq=fin[0])
        return elements


tags_in = Fold("tags", ["seq"], lambda h, s, p: ite(istag(h), cat(s[0], unit(h)), s[0]))
texts_in = Fold("texts", ["seq"], lambda h, s, p: ite(And(Val.is_str(h), Not(blank(h))), cat(s[0], unit(h)), s[0]))
tags_members = Members(tags_in, lambda v, p: And(istag(v), isobject(v)), hyp=lambda h, s, p: isitem(h))
inline = Fold("inline", ["arr"], lambda h, s, p: z3.Store(s[0], Val.r(h), vstr("inline")))


def roles(h, s, p):
    xs = Val.litems(h)
    ts, ss = tags_in.app1(xs, [EMPTY]), texts_in.app1(xs, [EMPTY])
    alone = And(z3.Length(ts) == 1, z3.Length(ss) == 0)
    return ite(group(h), ite(alone, z3.Store(s[0], Val.r(ts[0]), vstr("block")),
                             ite(z3.Length(xs) > 1, inline.app1(ts, [s[0]]), s[0])), s[0])


assigned = Fold("roles", ["arr"], roles)


class Roles(Contract):
    """in every group: a tag with no other tag and no text (other than blank) is marked as a block; in any other group of
    more than one element every tag is marked inline; nothing else is marked and the elements are left as they are"""
    target = MOD + "assign_paragraph_roles"
    attrs = {"paragraph_role": True}
    loops = [LoopUse(tags_in), LoopUse(texts_in), LoopUse(inline), LoopUse(assigned)]

    def elem(self, e, h, s):
        if not tags_members.assume(e, h, s):
            item(e, h, s)

    def setup(self, e):
        e.arr("a_paragraph_role")
        r = src.resolve("disseminate.tags.tag", "Tag")
        return {"elements": e.new_list(XS), "tag_base_cls": e.from_resolved(r, "Tag")}

    def spec(self, e, elements, tag_base_cls):
        k, fin, v = run_fold(e, assigned, e.box(elements).seq, [e.arr("a_paragraph_role")])
        e.arrs["a_paragraph_role"] = fin[0]
        return elements


# -- grouping -------------------------------------------------------------------------
def pieces(t):
    """the pieces of a text between its paragraph breaks (blank lines): at least one, all texts"""
    return uf("para_split", t, sort=SeqV)


def split(e, args, kw):
    t = e.V(args[0])
    if len(args) > 1 or kw or e.kind(t) != "str":
        raise Unsupported("split of " + e.kind(t))
    s = z3.simplify(pieces(Val.s(t)))
    e.assume(z3.Length(s) >= 1)
    e.assume(Val.is_str(s[0]))
    e.ghost.setdefault("$pieces", [])
    return e.new_list(s)


def ingroup(h):
    """may the element be in a paragraph? (its include_paragraphs, by default yes; never a list)"""
    return And(Not(Val.is_lst(h)), allowed(h))


def allowed(h):
    return Or(Not(uf("has_include_paragraphs", h, sort=Bool)), uf("include_paragraphs", h, sort=Bool))


def allowance(e, o):
    if not e.branch(uf("has_include_paragraphs", e.V(o), sort=Bool)):
        raise PyRaise("AttributeError")
    return Val.bool(uf("include_paragraphs", e.V(o), sort=Bool))


def close(done, cur):
    """the group so far is complete: kept unless it has no element"""
    return ite(z3.Length(cur) > 0, cat(done, unit(Val.lst(cur))), done)


def piece(h, s, p):
    done, cur, i = s
    cur = ite(z3.Length(Val.s(h)) > 0, cat(cur, unit(h)), cur)
    last = i == p[0] - 1
    return [ite(last, done, close(done, cur)), ite(last, cur, EMPTY), i + 1]


parts = Fold("pieces", ["seq", "seq", "int"], piece, params=["int"], names=["overall_list", "sublist", None])


def element(h, s, p):
    done, cur = s
    ps = pieces(Val.s(h))
    n = z3.Length(ps)
    text = [ite(And(n == 1, z3.Length(Val.s(ps[0])) > 0), done, parts.app(ps, [done, cur, z3.IntVal(0)], [n])[0]),
            ite(And(n == 1, z3.Length(Val.s(ps[0])) > 0), cat(cur, unit(ps[0])), parts.app(ps, [done, cur, z3.IntVal(0)], [n])[1])]
    other = [ite(ingroup(h), done, cat(close(done, cur), unit(h))), ite(ingroup(h), cat(cur, unit(h)), EMPTY)]
    return [ite(Val.is_str(h), a, b) for a, b in zip(text, other)]


groups = Fold("groups", ["seq", "seq"], element, names=["overall_list", "sublist"])


class Group(Contract):
    """the elements in order, texts replaced by their pieces (empty ones dropped), in groups: a new group starts exactly
    between two pieces of a text and around an element that may not be in a paragraph, which stays outside of the groups;
    groups without elements are dropped; the given list is changed in place and returned"""
    target = MOD + "group_paragraphs"
    loops = [LoopUse(groups), LoopUse(parts, params=lambda e: [z3.Length(pieces(Val.s(e.heads[-1]) if e.heads else z3.Const("text", Str)))])]
    ext = {"paragraphs.re_para.split": split, ".include_paragraphs?": lambda e, o: allowance(e, o)}
    trusted = ("re_para.split yields at least one text (which pieces it yields is not proved)",
               "include_paragraphs, where an element has it, is True or False")

    def __init__(self):
        super().__init__()
        self.variants = [("list", self.setup), ("text", self.text)]

    def elem(self, e, h, s):
        t = z3.simplify(s)
        if z3.is_app(t) and t.decl().name() == "para_split":
            e.assume(Val.is_str(h))
        else:
            item(e, h, s)

    def setup(self, e):
        return {"elements": e.new_list(XS)}

    def text(self, e):
        return {"elements": sym_str(e, "text")}

    def spec(self, e, elements):
        if e.kind(elements) == "str":
            fin = element(e.V(elements), [EMPTY, EMPTY], ())
            return e.new_list(close(fin[0], fin[1]))
        k, fin, v = run_fold(e, groups, e.box(elements).seq, [EMPTY, EMPTY])
        e.setbox(elements, seq=close(fin[0], fin[1]))
        return elements



# -- nothing is lost ------------------------------------------------------------------
full = Fold("nonempty_pieces", ["seq"], lambda h, s, p: ite(z3.Length(Val.s(h)) > 0, cat(s[0], unit(h)), s[0]))
full_acc = Appends(full)


def alone(h):
    return ite(Val.is_lst(h), Val.litems(h), unit(h))


def seen(h, s, p):
    return cat(s[0], ite(Val.is_str(h), full.app1(pieces(Val.s(h)), [EMPTY]), alone(h)))


visible = Fold("visible", ["seq"], seen)
visible_acc = Appends(visible)
FL = z3.Function("flat", SeqV, SeqV)


def flat(done, h):
    """flat: the elements of a list and of the groups in it, defined on the last element"""
    return FL(cat(done, unit(h))) == cat(FL(done), alone(h))


def lost_pieces(xs, done, cur, i, n):
    r = parts.app(xs, [done, cur, i], [n])
    return cat(FL(r[0]), r[1]) == cat(FL(done), cur, full.app1(xs, [EMPTY]))


def lemma_pieces(pv):
    done, cur, i, n = z3.Const("any_done", SeqV), z3.Const("any_cur", SeqV), z3.Int("any_i"), z3.Int("any_n")

    def step(h, t):
        c2 = ite(z3.Length(Val.s(h)) > 0, cat(cur, unit(h)), cur)
        return [parts.cons(h, t, [done, cur, i], [n]), full.cons(h, t, [EMPTY]), flat(done, Val.lst(c2)),
                full_acc.inst(t, full.step(h, [EMPTY], [])[0])]
    pv.induct("lemma: pieces keep the text", lambda xs: lost_pieces(xs, done, cur, i, n),
              lambda: [parts.nil([done, cur, i], [n]), full.nil([EMPTY])], step,
              ih=lambda h, t: [lost_pieces(t, *piece(h, [done, cur, i], [n]), n)])


def kept(xs, done, cur):
    r = groups.app(xs, [done, cur])
    return cat(FL(r[0]), r[1]) == cat(FL(done), cur, visible.app1(xs, [EMPTY]))


def lemma_kept(pv):
    """the groups and the elements outside of them, in order, are the given elements in order, every text replaced by its
    non-empty pieces"""
    done, cur = z3.Const("any_done", SeqV), z3.Const("any_cur", SeqV)

    h, t = z3.Const("ind_h", Val), z3.Const("ind_t", SeqV)
    ps = pieces(Val.s(h))
    n = z3.Length(ps)
    single = And(n == 1, z3.Length(Val.s(ps[0])) > 0)
    split_up = parts.app(ps, [done, cur, z3.IntVal(0)], [n])
    cases = [("a text without a break", And(Val.is_str(h), single), done, cat(cur, unit(ps[0])),
              [ps == unit(ps[0]), full.cons(ps[0], EMPTY, [EMPTY]), full.nil([unit(ps[0])])]),
             ("a text with breaks", And(Val.is_str(h), Not(single)), split_up[0], split_up[1],
              [lost_pieces(ps, done, cur, z3.IntVal(0), n)]),
             ("an element for a paragraph", And(Not(Val.is_str(h)), ingroup(h)), done, cat(cur, unit(h)), []),
             ("an element after a group", And(Not(Val.is_str(h)), Not(ingroup(h)), z3.Length(cur) > 0),
              cat(done, unit(Val.lst(cur)), unit(h)), EMPTY, [flat(done, Val.lst(cur)), flat(cat(done, unit(Val.lst(cur))), h)]),
             ("an element after no group", And(Not(Val.is_str(h)), Not(ingroup(h)), z3.Length(cur) == 0), cat(done, unit(h)), EMPTY, [flat(done, h)])]
    pv.oblige("lemma: grouping keeps every element/base", [groups.nil([done, cur]), visible.nil([EMPTY])], kept(EMPTY, done, cur))
    pv.oblige("lemma: grouping keeps every element/cases", [n >= 1], Or(*[c for _, c, _, _, _ in cases]))
    v0, v1 = visible.app1(cat(unit(h), t), [EMPTY]), visible.app1(t, [EMPTY])
    one = ite(Val.is_str(h), full.app1(ps, [EMPTY]), alone(h))
    pv.oblige("lemma: grouping keeps every element/seen", [visible.cons(h, t, [EMPTY]), visible_acc.inst(t, cat(EMPTY, one))], v0 == cat(one, v1))
    # kept(h::t, done, cur) follows: R = flat of the closed groups and the last group of the fold over h::t, which is the one over t
    # from d2, c2 (unfolding); X = flat(d2) ++ c2; F = visible(t), R == X ++ F (induction hypothesis); G, H = flat(done), cur;
    # I = what h adds, X == G ++ H ++ I (so far); visible(h::t) == I ++ F (seen)
    for name, c, d2, c2, facts in cases:
        e2 = element(h, [done, cur], ())
        g, g2 = groups.app(cat(unit(h), t), [done, cur]), groups.app(t, [d2, c2])
        pv.oblige("lemma: grouping keeps every element/next state, " + name, [c], And(e2[0] == d2, e2[1] == c2))
        pv.oblige("lemma: grouping keeps every element/unfolding, " + name, [e2[0] == d2, e2[1] == c2, groups.cons(h, t, [done, cur])],
                  And(g[0] == g2[0], g[1] == g2[1]))
        pv.oblige("lemma: grouping keeps every element/so far, " + name,
                  [c, Implies(z3.Length(cur) == 0, cur == EMPTY)] + facts, cat(FL(d2), c2) == cat(FL(done), cur, one))
    R, X, F, G, H, I = z3.Consts("R X F G H I", SeqV)
    pv.oblige("lemma: grouping keeps every element/step", [X == cat(G, H, I), R == cat(X, F)], R == cat(G, H, I, F))
    xs = z3.Const("any_xs", SeqV)
    r = groups.app(xs, [EMPTY, EMPTY])
    pv.oblige("lemma: nothing is lost by grouping", [kept(xs, EMPTY, EMPTY), FL(EMPTY) == EMPTY, flat(r[0], Val.lst(r[1]))],
              FL(close(r[0], r[1])) == visible.app1(xs, [EMPTY]))


# -- the paragraphs of a tag ------------------------------------------------------------
def content_of(g):
    return ite(z3.Length(Val.litems(g)) == 1, Val.litems(g)[0], g)


def paragraph(g, ctx):
    return uf("paragraph", g, ctx)


made = Fold("paragraphs", ["seq"], lambda h, s, p: cat(s[0], unit(ite(group(h), paragraph(content_of(h), p[0]), h))), params=["val"])


class Process(Contract):
    """the content of a tag (or the given text or list) is grouped, cleaned and the tags in the groups get their roles;
    then every group becomes one paragraph (with the single element of the group or with the list of them) in its place,
    and a single resulting element is not wrapped; other content is left alone. A tag gets the result as its content"""
    target = MOD + "process_paragraph_tags"
    attrs = {"paragraph_role": True, "content": True}
    loops = [LoopUse(made, params=lambda e: [CTX])]
    trusted = ("P(name='p', content=c, attributes='', context=x) makes a new tag of these (the tag made is a function of them)",)
    elem = staticmethod(item)

    def __init__(self):
        super().__init__()
        self.variants = [("list", lambda e: self.args(e, e.new_list(XS))), ("text", lambda e: self.args(e, sym_str(e, "text"))),
                         ("tag of a list", lambda e: self.args(e, self.tag(e, e.new_list(XS)))),
                         ("tag of a text", lambda e: self.args(e, self.tag(e, sym_str(e, "text")))),
                         ("tag of anything else", lambda e: self.args(e, self.tag(e, z3.Const("other", Val))))]
        self.ext = {"new P": self.new}

    def new(self, e, a, kw):
        if a or set(kw) != {"name", "content", "attributes", "context"}:
            raise Unsupported("arguments of a new paragraph")
        e.pv.oblige(self.label + ": paragraphs are plain p tags", e.pc, And(e.V(kw["name"]) == vstr("p"), e.V(kw["attributes"]) == vstr("")))
        p = paragraph(e.deep(e.V(kw["content"])), e.V(kw["context"]))
        e.assume(isobject(p))
        return p

    def tag(self, e, content):
        if is_val(content) and content.eq(z3.Const("other", Val)):
            e.assume(Or(Val.is_none(content), Val.is_int(content), isobject(content)))
        return e.new_obj(e.from_resolved(src.resolve("disseminate.tags.tag", "Tag"), "Tag"), {"content": content})

    def args(self, e, x):
        e.arr("a_paragraph_role")
        cls = lambda m, n: e.from_resolved(src.resolve(m, n), n)
        return {"element": x, "context": CTX, "tag_base_cls": cls("disseminate.tags.tag", "Tag"), "p_cls": cls("disseminate.tags.text", "P")}

    def spec(self, e, element, context, tag_base_cls, p_cls):
        b = e.box(element)
        tag = b is not None and b.kind == "obj"
        content = b.attrs["content"] if tag else element
        if not (e.box(content) is not None or e.kind(content) == "str"):
            return content
        g = Group.spec(None, e, content)
        Clean.spec(None, e, g)
        Roles.spec(None, e, g, tag_base_cls)
        e.setbox(g, seq=run_fold(e, made, e.box(g).seq, [EMPTY], [context])[1][0])
        r = g
        if e.branch(z3.Length(e.box(g).seq) == 1):
            r = e.box(g).seq[0]
        if not tag:
            return r
        e.set_attr(element, "content", r)
        return element


CTX = z3.Const("context", Val)
CONTRACTS = [Clean, Roles, Group, Process]
LEMMAS = [tags_members.lemma, full_acc.lemma, visible_acc.lemma, lemma_pieces, lemma_kept]
