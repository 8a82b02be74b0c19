"""C18: text lists (tags/list.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import STup, Unsupported
from pyvc.rx import start, end, text
import pyvc.source as src

MOD = "disseminate.tags.list:"
TEXT = z3.Const("text", Str)
XS = z3.Const("parsed_list", SeqV)


def bullets(s):
    """the places where a bullet is written, in order (finditer)"""
    return uf("bullets", s, sort=SeqV)


def isbullet(h, s):
    ls = lines(written(h))
    return And(Val.is_ref(h), Val.r(h) < 0, uf("refclass", h, sort=Int) == 0, truthy_ref(h), text(h) == s, 0 <= start(h), start(h) < end(h), end(h) <= z3.Length(s),
               z3.Length(ls) > 0, Val.is_str(ls[z3.Length(ls) - 1]))


def lines(t):
    return uf("str_splitlines", t, sort=SeqV)


def written(m):
    return z3.SubString(text(m), start(m), end(m) - start(m))


def level(m):
    """the indentation of a bullet: the spaces in the line of the bullet"""
    ls = lines(written(m))
    return uf("str_count", Val.s(ls[z3.Length(ls) - 1]), S(" "), sort=Int)


def strip(t):
    return uf("str_strip", t, sort=Str)


def item(lvl, t):
    return tup(Val.int(lvl), Val.str(strip(t)))


def upto(s, a, b):
    """s[a:b] of 0 <= a, b"""
    return z3.SubString(s, a, b - a)


def parse(h, s, p):
    pos, lvl, cur, items = s
    done = cat(items, unit(item(lvl, upto(p[0], pos, start(h)))))
    return [end(h), level(h), h, ite(Val.is_none(cur), items, done)]


scan = Fold("items_before", ["int", "int", "val", "seq"], parse, params=["str"], names=["current_pos", "list_level", "current_match", "parsed_list"],
            inv=lambda s, p, done: And(0 <= s[0], s[0] <= z3.Length(p[0]), Or(s[2] == NONE, And(isbullet(s[2], p[0]), s[0] == end(s[2])))))


MATCH = {".start": lambda e, o, a, kw: Val.int(start(o)), ".end": lambda e, o, a, kw: Val.int(end(o)),
         ".span": lambda e, o, a, kw: STup((Val.int(start(o)), Val.int(end(o)))),
         ".group": lambda e, o, a, kw: Val.str(written(o)) if not a or e.V(a[0]).eq(vint(0)) else NotImplemented}


class BulletLevel(Contract):
    """the level of a bullet is the number of spaces in the line it is in (as far as it belongs to the bullet)"""
    target = MOD + "bullet_level"
    ext = MATCH
    trusted = ("a text with at least one character has a line",)

    def setup(self, e):
        m = z3.Const("match", Val)
        e.assume(isbullet(m, TEXT))
        return {"match": m}

    def pre(self, e, match):
        return isbullet(match, TEXT)

    def spec(self, e, match):
        return Val.int(level(match))


def finditer(e, args, kw):
    t = e.V(args[0])
    if len(args) != 1 or kw or e.kind(t) != "str":
        raise Unsupported("finditer")
    return e.new_list(bullets(z3.simplify(Val.s(t))))


class Parse(Contract):
    """one item per bullet, in order: its level and the text, without surrounding white space, up to the next bullet or the
    end of the text; text before the first bullet is not part of an item"""
    target = MOD + "parse_string_list"
    loops = [LoopUse(scan, params=lambda e: [TEXT])]
    trusted = ("re_list.finditer yields non-overlapping, non-empty places of the text, in order (which ones is not proved)",)
    ext = {"list.re_list.finditer": finditer, **MATCH}

    def elem(self, e, h, s):
        e.assume(isbullet(h, TEXT))

    def setup(self, e):
        return {"s": Val.str(TEXT)}

    def spec(self, e, s):
        k, fin, v = run_fold(e, scan, bullets(TEXT), [z3.IntVal(0), z3.IntVal(1), NONE, EMPTY], [TEXT])
        if not e.branch(Val.is_none(fin[2])):
            return e.new_list(cat(fin[3], unit(item(fin[1], upto(TEXT, end(fin[2]), z3.Length(TEXT))))))
        return e.new_list(fin[3])



# -- the items of a text, from its bullets ------------------------------------------------------------------
ITEMS = z3.Function("items_of", SeqV, Str, SeqV)


def items_def(h, t, s):
    """items of the bullets h::t: h's level and the text up to the first bullet of t (or the end), then those of t"""
    to = ite(z3.Length(t) > 0, start(t[0]), z3.Length(s))
    return And(ITEMS(cat(unit(h), t), s) == cat(unit(item(level(h), upto(s, end(h), to))), ITEMS(t, s)), ITEMS(EMPTY, s) == EMPTY)


def parsed(f, s):
    """the result of the loop's final state"""
    return ite(Val.is_none(f[2]), f[3], cat(f[3], unit(item(f[1], upto(s, end(f[2]), z3.Length(s))))))


def one_each(t, h, acc, s):
    """after bullet h with the items acc before: acc, and the items of h::t"""
    return parsed(scan.app(t, [end(h), level(h), h, acc], [s]), s) == cat(acc, ITEMS(cat(unit(h), t), s))


def lemma_items(pv):
    """the list has exactly one item per bullet, each with the text up to the next bullet"""
    s, acc, h = TEXT, z3.Const("any_acc", SeqV), z3.Const("any_h", Val)
    g, t = z3.Const("ind_h", Val), z3.Const("ind_t", SeqV)
    st = [end(h), level(h), h, acc]
    some = Not(Val.is_none(h))
    pv.oblige("lemma: one item per bullet/last", [some, scan.nil(st, [s]), items_def(h, EMPTY, s)], one_each(EMPTY, h, acc, s))
    nxt = cat(acc, unit(item(level(h), upto(s, end(h), start(g)))))
    pv.oblige("lemma: one item per bullet/step", [some, Not(Val.is_none(g)), scan.cons(g, t, st, [s]), items_def(h, cat(unit(g), t), s), one_each(t, g, nxt, s)],
              one_each(cat(unit(g), t), h, acc, s))
    first = [z3.IntVal(0), z3.IntVal(1), NONE, EMPTY]
    pv.oblige("lemma: one item per bullet/first", [Not(Val.is_none(g)), scan.cons(g, t, first, [s]), one_each(t, g, EMPTY, s)],
              parsed(scan.app(cat(unit(g), t), first, [s]), s) == ITEMS(cat(unit(g), t), s))
    pv.oblige("lemma: no bullet, no item", [scan.nil(first, [s])], parsed(scan.app(EMPTY, first, [s]), s) == EMPTY)


# -- cleaning and levels ------------------------------------------------------------------------------------
def lvl(h):
    return Val.titems(h)[0]


def val(h):
    return Val.titems(h)[1]


def ispair(h):
    return And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2, Val.is_int(lvl(h)))


def joined(t):
    """the text with every line break followed by white space as one space"""
    return uf("lines_joined", t, sort=Str)


def sub(e, args, kw):
    if len(args) != 2 or kw or not e.entails(And(e.V(args[0]) == vstr(" "), Val.is_str(e.V(args[1])))):
        raise Unsupported("sub")
    return Val.str(joined(Val.s(e.V(args[1]))))


clean = Fold("cleaned", ["seq"], lambda h, s, p: cat(s[0], unit(tup(lvl(h), ite(Val.is_str(val(h)), Val.str(joined(Val.s(val(h)))), val(h))))))


class Pairs(Contract):
    def elem(self, e, h, s):
        e.assume(ispair(h))

    def setup(self, e):
        return {"parsed_list": e.new_list(XS)}


class Clean(Pairs):
    """every item keeps its place and level; in its text line breaks followed by white space become one space"""
    target = MOD + "clean_string_list"
    loops = [LoopUse(clean)]
    ext = {"list.re_multiline_items.sub": sub}
    trusted = ("re_multiline_items.sub(' ', text) is a text (which line breaks it joins is not proved)",)

    def spec(self, e, parsed_list):
        return e.new_list(run_fold(e, clean, e.box(parsed_list).seq, [EMPTY])[1][0])


levels = Fold("levels", ["seq"], lambda h, s, p: cat(s[0], unit(lvl(h))))
levels_acc = Appends(levels)
LEAST = levels.app1(XS, [EMPTY])


def norm(l, least, per):
    """the least integer that is no less than (l - least) / per"""
    return -(-(l - least) / per)


normed = Fold("normalised", ["seq"], lambda h, s, p: cat(s[0], unit(tup(Val.int(norm(Val.i(lvl(h)), p[0], p[1])), val(h)))), params=["int", "int"])
SPACES = z3.Int("list_level_spaces")


def div(e, a, b):
    x, y = e.V(a), e.V(b)
    if not e.entails(And(Val.is_int(x), Val.is_int(y))):
        raise Unsupported("division")
    if not e.branch(Val.i(y) != 0):
        raise PyRaise("ZeroDivisionError")
    return uf("ratio", x, y)


def ceil(e, a, kw):
    r = e.V(a[0])
    if not (z3.is_app(r) and r.decl().name() == "ratio"):
        raise Unsupported("ceil")
    x, y = Val.i(r.arg(0)), Val.i(r.arg(1))
    if not e.entails(y > 0):
        raise Unsupported("ceil of a ratio by a negative number")
    return Val.int(-(-x / y))


class Normalize(Pairs):
    """every item keeps its place; its level is (level - least level) / spaces per level, rounded up"""
    target = MOD + "normalize_levels"
    loops = [LoopUse(levels), LoopUse(normed, params=lambda e: [e.contract.least, SPACES])]
    ext = {"op Div": div, "math.ceil": ceil}
    trusted = ("min of a non-empty sequence of integers is the least of them; division of integers of list levels is exact enough for ceil",)
    least = uf("seq_min", levels.app1(XS, [EMPTY]), sort=Int)

    def __init__(self):
        super().__init__()
        self.variants = [("items", lambda e: self.some(e)), ("no items", lambda e: {"parsed_list": e.new_list(), "list_level_spaces": Val.int(SPACES)})]

    def some(self, e):
        e.assume(And(SPACES > 0, z3.Length(XS) > 0, z3.Length(levels.app1(XS, [EMPTY])) > 0))
        return {"parsed_list": e.new_list(XS), "list_level_spaces": Val.int(SPACES)}

    def spec(self, e, parsed_list, list_level_spaces):
        xs = e.box(parsed_list).seq
        if xs.eq(EMPTY):
            return e.new_list()
        return e.new_list(run_fold(e, normed, xs, [EMPTY], [self.least, SPACES])[1][0])


def lemma_levels(pv):
    """levels are never negative, the least is zero, and they grow with the indentation"""
    l, k, least, per = z3.Ints("l k least per")
    pv.oblige("lemma: levels are not negative", [l >= least, per > 0], norm(l, least, per) >= 0)
    pv.oblige("lemma: the least level is zero", [per > 0], norm(least, least, per) == 0)
    pv.oblige("lemma: levels grow with the indentation", [l <= k, per > 0], norm(l, least, per) <= norm(k, least, per))
    pv.oblige("lemma: a full step of indentation is another level", [l + per <= k, per > 0], norm(l, least, per) < norm(k, least, per))
    pv.induct("lemma: as many levels as items", lambda xs: z3.Length(levels.app1(xs, [EMPTY])) == z3.Length(xs),
              lambda: [levels.nil([EMPTY])], lambda h, t: [levels.cons(h, t, [EMPTY]), levels_acc.inst(t, unit(lvl(h)))])



# -- the list tag ---------------------------------------------------------------------------------------------
CTX, ATTRS = z3.Const("context", Val), z3.Const("given_attributes", Val)


def cls(e, name):
    return e.from_resolved(src.resolve("disseminate.tags.list", name), name)


def listitem(content, level_, ctx):
    return uf("listitem", content, level_, ctx)


def new_item(e, a, kw):
    if a or set(kw) != {"name", "content", "attributes", "context"}:
        raise Unsupported("arguments of a list item")
    return listitem(e.V(kw["content"]), e.V(kw["attributes"]), e.V(kw["context"]))


made = Fold("list_items", ["seq"],
            lambda h, s, p: cat(s[0], unit(listitem(val(h), Val.str(z3.Concat(S("level="), uf("py_str", lvl(h), sort=Str))), p[0]))), params=["val"])


class Init(Contract):
    """the content of a list is one item per bullet of its text, in order, with the item's text and level"""
    target = MOD + "List.__init__"
    loops = [LoopUse(made, params=lambda e: [CTX])]
    trusted = ("a ListItem of a content and a level is a function of them and of the context",)

    def __init__(self):
        super().__init__()
        self.ext = {"new ListItem": new_item, "new Attributes": lambda e, a, kw: uf("attributes", e.V(a[0])),
                    "parse_string_list": lambda e, a, kw: self.step(e, a, "parsed"), "clean_string_list": lambda e, a, kw: self.step(e, a, "clean"),
                    "normalize_levels": lambda e, a, kw: self.step(e, a, "normal")}

    def step(self, e, a, how):
        """the functions under contract above, here as functions of their argument"""
        if len(a) != 1:
            raise Unsupported("arguments of " + how)
        v = e.V(a[0])
        return e.new_list(uf("list_" + how, Val.s(v) if e.kind(v) == "str" else e.deep(e.seq_of(v)), sort=SeqV))

    def elem(self, e, h, s):
        e.assume(And(ispair(h), Val.i(lvl(h)) >= 0))

    def setup(self, e):
        return {"self": e.new_obj(cls(e, "List"), {}), "name": sym_str(e, "name"), "content": Val.str(TEXT), "attributes": ATTRS, "context": CTX}

    def spec(self, e, self_, name, content, attributes, context):
        items = uf("list_normal", uf("list_clean", uf("list_parsed", TEXT, sort=SeqV), sort=SeqV), sort=SeqV)
        e.set_attr(self_, "name", name)
        e.set_attr(self_, "attributes", uf("attributes", attributes))
        e.set_attr(self_, "context", context)
        e.set_attr(self_, "content", e.new_list(run_fold(e, made, items, [EMPTY], [context])[1][0]))
        return NONE


ITEMS_OF = z3.Const("list_content", SeqV)


def level_of(i):
    return uf("level_attribute", i)


def rendered(i, fmt, method, level_):
    return uf("rendered", i, fmt, method, level_)


entries = Fold("entries", ["seq"], lambda h, s, p: cat(s[0], unit(tup(level_of(h), rendered(h, *p)))), params=["val", "val", "val"])


class Html(Contract):
    """a list is rendered, with its items' levels, from the rendered items in order"""
    target = MOD + "List.html_fmt"
    defaults = {"content": None, "attributes": None, "format_func": "html_fmt", "method": "html", "level": 1}
    loops = [LoopUse(entries, params=lambda e: [z3.Const("format_func", Val), z3.Const("method", Val), Val.int(z3.Int("level") + 1)])]
    trusted = ("xhtml_list is a function of its elements and options (bounded oracle)",)

    def __init__(self):
        super().__init__()
        self.ext = {"builtins.getattr": lambda e, x, _: (lambda e2, a, kw: self.render(e2, x[0], x[1], a, kw)), "xhtml_list": self.write,
                    ".attributes?": lambda e, o: e.new_dict(D().set(vstr("level"), level_of(e.V(o)))) if e.box(o) is None else None}

    def render(self, e, o, n, a, kw):
        if a or set(kw) != {"method", "level"}:
            raise Unsupported("arguments of the item's format")
        return rendered(e.V(o), e.V(n), e.V(kw["method"]), e.V(kw["level"]))

    def write(self, e, a, kw):
        xs = seq(*[e.V(x) for x in a]) if not (len(a) == 1 and hasattr(a[0], "seq")) else e.deep(a[0].seq)
        return uf("xhtml_list", xs, tup(*[tup(vstr(k), e.V(kw[k])) for k in sorted(kw)]))

    def elem(self, e, h, s):
        e.assume(And(Val.is_ref(h), Val.r(h) < 0, uf("refclass", h, sort=Int) == 0))

    def setup(self, e):
        e.assume(Val.is_str(z3.Const("format_func", Val)))
        self.name = z3.Const("html_name", Val)
        c = z3.Const
        return {"self": e.new_obj(cls(e, "List"), {"content": e.new_list(ITEMS_OF), "html_name": self.name}), "content": c("content", Val), "attributes": ATTRS,
                "format_func": c("format_func", Val), "method": c("method", Val), "level": Val.int(z3.Int("level"))}

    def spec(self, e, self_, content, attributes, format_func, method, level):
        xs = run_fold(e, entries, ITEMS_OF, [EMPTY], [format_func, method, Val.int(z3.Int("level") + 1)])[1][0]
        kw = {"attributes": attributes, "listtype": self.name, "method": method, "level": level}
        return uf("xhtml_list", xs, tup(*[tup(vstr(k), kw[k]) for k in sorted(kw)]))


CONTRACTS = [BulletLevel, Parse, Clean, Normalize, Init, Html]
LEMMAS = [lemma_items, levels_acc.lemma, lemma_levels]
