"""C01: parsing markup (tags/receivers/content.py, utils/string.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported, STup, is_val
from pyvc.rx import Regex, start, end, group, text as matched_text
import ast
import pyvc.source as src

MOD = "disseminate.tags.receivers.content:"
TEXT, CTX, XS, LEVEL = z3.Const("text", Str), z3.Const("context", Val), z3.Const("elements", SeqV), z3.Int("level")
EMP = z3.StringVal("")


def opt(v):
    """a group that did not take part is no text"""
    return z3.If(Val.is_str(v), Val.s(v), EMP)


OPEN = Regex("content.re_open_tag", ("tag", "attributes", "open"), ("attributes", "open"))
BRACE = Regex("content.re_brace")


def source_of(name, attributes, opened, content):
    """how a tag is written"""
    return z3.Concat(z3.StringVal("@"), Val.s(name), opt(attributes),
                     z3.If(Val.is_str(opened), z3.Concat(z3.StringVal("{"), content, z3.StringVal("}")), EMP))


def open_facts(o, s):
    """the pattern of an opening: the prefix, the name, perhaps attributes in brackets, perhaps a brace"""
    name, at, op = group(o, "tag"), group(o, "attributes"), group(o, "open")
    return [Val.is_str(name), z3.Length(Val.s(name)) > 0, Or(Val.is_str(at), Val.is_none(at)), Or(op == vstr("{"), Val.is_none(op)),
            z3.SubString(s, start(o), end(o) - start(o)) == z3.Concat(z3.StringVal("@"), Val.s(name), opt(at), opt(op))]


def brace_facts(o, s):
    """a match of the brace pattern is one brace"""
    c = z3.SubString(s, start(o), end(o) - start(o))
    return [end(o) == start(o) + 1, Or(c == z3.StringVal("{"), c == z3.StringVal("}"))]


def facts(rx, t, pos):
    """what holds of the first match in the text from there on, if there is one"""
    r = rest(t, pos)
    o = rx.obj(r)
    f = [Val.is_ref(o), Val.r(o) < 0, uf("refclass", o, sort=Int) == 0, truthy_ref(o), matched_text(o) == r, 0 <= start(o), start(o) <= end(o),
         end(o) <= z3.Length(r)]
    return [Implies(rx.found(r), And(*(f + (open_facts(o, r) if rx is OPEN else brace_facts(o, r)))))]


def on_match(f):
    """a method of a match object; the loops carry such objects as values"""
    def h(e, o, a, kw):
        if kw or e.box(o) is not None or e.kind(o) != "ref":
            return NotImplemented
        return f(e, o, a)
    return h


def groups(e, o, a):
    d = D()
    for g in OPEN.groups:
        d = d.set(vstr(g), group(o, g))
    return e.new_dict(d)


MATCH = {".start": on_match(lambda e, o, a: Val.int(start(o))), ".end": on_match(lambda e, o, a: Val.int(end(o))), ".groupdict": on_match(groups),
         ".group": on_match(lambda e, o, a: group(o, e.const_str(a[0])) if a else Val.str(z3.SubString(matched_text(o), start(o), end(o) - start(o))))}


def search(rx):
    def h(e, a, kw):
        if len(a) != 1 or kw or e.kind(e.V(a[0])) != "str":
            raise Unsupported("search")
        r = z3.simplify(Val.s(e.V(a[0])))
        return ite(rx.found(r), rx.obj(r), NONE)
    return h


def rest(t, pos):
    return z3.SubString(t, pos, z3.Length(t) - pos)


def found(rx, t, pos):
    """the first match in the text from there on, or None"""
    r = rest(t, pos)
    return ite(rx.found(r), rx.obj(r), NONE)


def within(t, pos):
    return And(0 <= pos, pos <= z3.Length(t))


def brace_step(s, p):
    m, lv, pos = s
    c = z3.SubString(rest(p[0], pos), start(m), end(m) - start(m))
    pos2 = pos + end(m)
    lv2 = z3.If(c == z3.StringVal("}"), lv - 1, z3.If(c == z3.StringVal("{"), lv + 1, lv))
    return [found(BRACE, p[0], pos2), lv2, pos2]


def brace_inv(s, p):
    m, lv, pos = s
    return And(m == found(BRACE, p[0], pos), within(p[0], pos), pos >= 1, lv >= 0)


# the braces after an opening: up to where they balance (or ten are open, or none is left)
braces = While("braces", ["val", "int", "int"], lambda s, p: And(Not(Val.is_none(s[0])), s[1] > 0, s[1] < 10), brace_step,
               params=["str"], inv=brace_inv, measure=lambda s, p: z3.Length(p[0]) - s[2])


def closing(s, p):
    """where the braces end is not before where they began; when they balance it is past a closing brace"""
    lv, pos = braces.app(s, p)[1:]
    return And(s[2] <= pos, within(p[0], pos), Implies(And(lv <= 0, s[1] > 0), And(pos > s[2], z3.SubString(p[0], pos - 1, 1) == z3.StringVal("}"))))


# facts about parts of texts, proved for all texts and used at the places needed
def start_of(t, pos, n):
    return Implies(And(within(t, pos), 0 <= n, n <= z3.Length(t) - pos), z3.SubString(t, pos, n) == z3.SubString(rest(t, pos), 0, n))


def in_two(r, m, n):
    return Implies(And(0 <= m, m <= n, n <= z3.Length(r)), z3.SubString(r, 0, n) == z3.Concat(z3.SubString(r, 0, m), z3.SubString(r, m, n - m)))


def char_of(t, pos, k):
    return Implies(And(within(t, pos), 0 <= k, k + 1 <= z3.Length(t) - pos), z3.SubString(t, pos + k, 1) == z3.SubString(rest(t, pos), k, 1))


def lemma_texts(pv):
    t, a, r = z3.Consts("any_text any_front any_rest", Str)
    pos, k, n = z3.Ints("any_pos any_k any_n")
    pv.oblige("lemma: texts/start", [], start_of(t, pos, n))
    pv.oblige("lemma: texts/in two", [], in_two(t, k, n))
    pv.oblige("lemma: texts/front and rest", [within(t, pos)], t == z3.Concat(z3.SubString(t, 0, pos), rest(t, pos)))
    pv.oblige("lemma: texts/character of a concatenation", [0 <= k, k + 1 <= z3.Length(r)],
              z3.SubString(z3.Concat(a, r), z3.Length(a) + k, 1) == z3.SubString(r, k, 1))
    pv.oblige("lemma: texts/character", [t == z3.Concat(a, r), rest(t, pos) == r, z3.Length(a) == pos, z3.Length(t) == z3.Length(a) + z3.Length(r),
                                         Implies(And(0 <= k, k + 1 <= z3.Length(r)), z3.SubString(z3.Concat(a, r), z3.Length(a) + k, 1) == z3.SubString(r, k, 1))],
              char_of(t, pos, k))


def lemma_closing(pv):
    """by induction on the number of characters left"""
    t, lv, pos = z3.Const("any_text", Str), z3.Int("any_level"), z3.Int("any_pos")
    s = [found(BRACE, t, pos), lv, pos]
    ns = braces.step(s, [t])
    o = BRACE.obj(rest(t, pos))
    base = facts(BRACE, t, pos) + [within(t, pos)]
    pv.oblige("lemma: closing brace/step", base + [braces.unfold(s, [t]), braces.unfold(ns, [t]), char_of(t, pos, end(o) - 1),
                                                   Implies(And(braces.guard(s, [t])), closing(ns, [t]))], closing(s, [t]))


def tag_of(name, content, attributes, ctx):
    return uf("created_tag", name, content, attributes, ctx)


def one(s, p):
    """one tag: (next content, the level left open, next position, text before, content, match)"""
    nc, pos, m = s
    t = p[0]
    before = z3.SubString(t, pos, start(m))
    p0 = pos + end(m)
    op = group(m, "open")
    lv0 = z3.If(Val.is_none(op), z3.IntVal(0), z3.IntVal(1))
    m2, lv, p1 = braces.app([found(BRACE, t, p0), lv0, p0], [t])
    content = z3.If(Val.is_none(op), EMP, z3.SubString(t, p0, p1 - 1 - p0))
    nc1 = z3.If(z3.Length(before) > 0, cat(nc, unit(Val.str(before))), nc)
    nc2 = cat(nc1, unit(tag_of(group(m, "tag"), Val.str(content), group(m, "attributes"), p[1])))
    return nc2, lv, p1, before, content, (p0, lv0, op, m2)


def tags_step(s, p):
    nc, lv, pos, _, _, _ = one(s, p)
    return [nc, pos, found(OPEN, p[0], pos)]


tags = While("tags", ["seq", "int", "val"], lambda s, p: Not(Val.is_none(s[2])), tags_step, params=["str", "val"],
             exits=lambda s, p: [(one(s, p)[1] > 0, ("raise", "TagError"), NONE)],
             measure=lambda s, p: z3.Length(p[0]) - s[1], inv=lambda s, p: And(within(p[0], s[1]), s[2] == found(OPEN, p[0], s[1])))


def isobject(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


def grouped(s):
    """what group_strings makes of a list"""
    return uf("grouped", s, sort=SeqV)


C0 = z3.Const("H0_a_content", AttrA)


def parsed(v, lv, c):
    return uf("parsed", v, lv, c)


def parsed_contents(v, lv, c):
    return uf("parsed_contents", v, lv, c, sort=AttrA)


def refused(v, lv, c):
    """a tag somewhere in it is not closed or too deep"""
    return uf("refused", v, lv, c, sort=Bool)


each = Fold("parsed_elements", ["seq", "arr"],
            lambda h, s, p: [cat(s[0], unit(parsed(h, p[0], s[1]))), parsed_contents(h, p[0], s[1])], params=["int"],
            exits=lambda h, s, p: [(refused(h, p[0], s[1]), ("raise", "TagError"), NONE)])


def tag_hints(e, s, p):
    m, p0, lv0 = s[2], s[1] + end(s[2]), z3.If(Val.is_none(group(s[2], "open")), z3.IntVal(0), z3.IntVal(1))
    return facts(OPEN, TEXT, s[1]) + [closing([found(BRACE, TEXT, p0), lv0, p0], [TEXT])]


def lemma_consumed(pv):
    """each round takes from the text exactly what it adds to the content: what stands before the tag and the tag as written
    (its name, attributes and content as the tag is given them); so nothing is lost, duplicated or moved"""
    t, pos = z3.Const("any_text", Str), z3.Int("any_pos")
    nc = z3.Const("any_content", SeqV)
    m = OPEN.obj(rest(t, pos))
    s, p = [nc, pos, m], [t, CTX]
    _, lv, p1, before, content, (p0, lv0, op, m2) = one(s, p)
    r = rest(t, pos)
    base = facts(OPEN, t, pos) + [within(t, pos), OPEN.found(r), lv <= 0, closing([found(BRACE, t, p0), lv0, p0], [t]),
                                  Implies(Val.is_none(op), And(braces.unfold([found(BRACE, t, p0), lv0, p0], [t])))]
    written = source_of(group(m, "tag"), group(m, "attributes"), op, content)
    cases = [("with content", [op == vstr("{")]), ("without content", [Val.is_none(op)])]
    e0 = p1 - p0
    parts = [start_of(t, pos, end(m)), start_of(t, pos, start(m)), in_two(r, start(m), end(m)), start_of(t, p0, e0), start_of(t, p0, e0 - 1),
             in_two(rest(t, p0), e0 - 1, e0), char_of(t, p0, e0 - 1)]
    for n, c in cases:
        pv.oblige("lemma: consumed text/the opening, " + n, base + c + parts,
                  z3.SubString(t, pos, p0 - pos) == z3.Concat(before, z3.StringVal("@"), Val.s(group(m, "tag")), opt(group(m, "attributes")), opt(op)))
        pv.oblige("lemma: consumed text/the content, " + n, base + c + parts,
                  z3.SubString(t, p0, p1 - p0) == (z3.Concat(content, z3.StringVal("}")) if n == "with content" else EMP))
        pv.oblige("lemma: consumed text/order, " + n, base + c, And(pos <= p0, p0 <= p1, within(t, p1), pos < p1))


LEMMAS = [lemma_texts, lemma_closing, lemma_consumed]


class Parse(Contract):
    """of a text: what stands before each tag, unless empty, as it is, and the tag, made from exactly its name, attributes and
    what stands between its braces, alternate in order, then the rest; of a list every element is parsed; of a tag, unless it
    opts out, its content is; an unclosed tag or too deep nesting raises the tag error"""
    target = MOD + "parse_tags"
    attrs = {"content": lambda e, o, v: e.assume(Or(Val.is_str(v), Val.is_int(v), isobject(v), Val.is_lst(v)))}
    loops = [LoopUse(each, params=lambda e: [LEVEL + 1]), LoopUse(braces, params=lambda e: [TEXT], hints=lambda e, s, p: facts(BRACE, TEXT, s[2])), LoopUse(tags, params=lambda e: [TEXT, CTX], hints=tag_hints)]
    trusted = ("where the two patterns match; an opening is written prefix, name, attributes, brace", "tags form trees: no list or tag is reached twice",
               "making a tag does not change the text or the other tags")
    defaults = {"level": 1}

    def __init__(self):
        super().__init__()
        self.ext = dict(MATCH, **{"content.re_open_tag.search": search(OPEN), "content.re_brace.search": search(BRACE)})
        self.ext["state"] = lambda t: Or(isobject(t), Val.is_none(t))
        self.ext.update({".tag": self.make, "parse_tags": self.inner, "group_strings": self.group, ".process_content?": self.option})
        self.variants = [("text", lambda e: self.args(e, Val.str(TEXT))), ("list", lambda e: self.args(e, e.new_list(XS))),
                         ("object", lambda e: self.args(e, self.obj(e))), ("number", lambda e: self.args(e, Val.int(z3.Int("number"))))]

    def obj(self, e):
        v = z3.Const("element", Val)
        e.assume(isobject(v))
        return v

    def elem(self, e, h, s):
        e.assume(Or(Val.is_str(h), Val.is_int(h), isobject(h), Val.is_lst(h)))

    def args(self, e, v):
        e.arr("a_content")
        e.top = v
        e.assume(isobject(CTX))
        f = z3.Const("tag_factory", Val)
        e.assume(isobject(f))
        return {"content": v, "context": CTX, "tag_factory": f, "level": Val.int(LEVEL)}

    def make(self, e, o, a, kw):
        if a or set(kw) != {"tag_name", "tag_content", "tag_attributes", "context"}:
            raise Unsupported("making a tag")
        v = tag_of(e.V(kw["tag_name"]), e.V(kw["tag_content"]), e.V(kw["tag_attributes"]), e.V(kw["context"]))
        e.assume(isobject(v))
        return v

    def option(self, e, o):
        if not e.branch(uf("has_process_content", e.V(o), sort=Bool)):
            raise PyRaise("AttributeError")
        return Val.bool(uf("process_content", e.V(o), sort=Bool))

    def inner(self, e, a, kw):
        d = dict(zip(("content", "context", "tag_factory", "level"), a), **kw)
        if not e.entails(e.V(d["context"]) == CTX) or not e.entails(e.V(d["tag_factory"]) == z3.Const("tag_factory", Val)):
            raise Unsupported("arguments of the recursion")
        v, lv = e.V(d["content"]), Val.i(e.V(d.get("level", vint(1))))
        if v.eq(e.top):
            raise Unsupported("recursion on the same element")
        return self.part(e, e.deep(v), lv)

    def part(self, e, v, lv):
        c = e.arr("a_content")
        if e.branch(refused(v, lv, c)):
            raise PyRaise("TagError")
        e.arrs["a_content"] = parsed_contents(v, lv, c)
        r = parsed(v, lv, c)
        e.assume(Implies(Val.is_ref(r), Val.r(r) < 0))
        return r

    def group(self, e, a, kw):
        d = dict(zip(("lst",), a), **kw)
        l = e.V(d["lst"])
        if e.box(l) is None or e.box(l).kind != "list":
            raise Unsupported("group_strings")
        e.setbox(l, seq=grouped(e.box(l).seq))
        return l

    def spec(self, e, content, context, tag_factory, level):
        depth = ast.literal_eval(src.resolve("disseminate.settings", "tag_max_depth")[2])
        if e.branch(LEVEL >= depth):
            raise PyRaise("TagError")
        k = e.kind(content)
        if k == "str":
            s0 = [EMPTY, z3.IntVal(0), found(OPEN, TEXT, z3.IntVal(0))]
            kind, fin, v = run_while(e, tags, s0, [TEXT, CTX])
            if kind[0] == "raise":
                raise PyRaise("TagError")
            r = rest(TEXT, fin[1])
            nc = cat(fin[0], unit(Val.str(r))) if e.branch(z3.Length(r) > 0) else fin[0]
            g = grouped(nc)
            if e.branch(z3.Length(g) == 1):
                return g[0]
            return vstr("") if e.branch(z3.Length(g) == 0) else e.new_list(g)
        if e.box(content) is not None:
            kind, fin, v = run_fold(e, each, e.box(content).seq, [EMPTY, e.arr("a_content")], [LEVEL + 1])
            e.arrs["a_content"] = fin[1]
            if kind != "done":
                raise PyRaise("TagError")
            return e.new_list(fin[0])
        if k == "ref" and e.branch(uf("hasattr_content", content, sort=Bool)):
            if e.branch(And(uf("has_process_content", content, sort=Bool), Not(uf("process_content", content, sort=Bool)))):
                return content
            i = z3.Select(e.arr("a_content"), Val.r(content))
            if e.branch(Val.is_lst(i)):
                kind, fin, v = run_fold(e, each, Val.litems(i), [EMPTY, e.arr("a_content")], [LEVEL + 1])
                e.arrs["a_content"] = fin[1]
                if kind != "done":
                    raise PyRaise("TagError")
                e.arrs["a_content"] = z3.Store(fin[1], Val.r(content), Val.lst(fin[0]))
                return content
            r = self.part(e, i, LEVEL + 1)
            e.arrs["a_content"] = z3.Store(e.arr("a_content"), Val.r(content), r)
            return content
        raise PyRaise("TagError")


# -- merging strings ------------------------------------------------------------------
def runs(s):
    """itertools.groupby with the key 'is a text': the maximal runs of texts and of other elements, in order"""
    return uf("runs_of_texts", s, sort=SeqV)


def run(h):
    return Val.b(Val.titems(h)[0]), Val.litems(Val.titems(h)[1])


def joined(xs):
    return uf("str_join", EMP, xs, sort=Str)


def by_text(e, a, kw):
    d = dict(zip(("iterable", "key"), a), **kw)
    x = z3.Const("any_element", Val)
    t = e.truth(e.call(d["key"], [x], {}))
    e.pv.oblige("utils.string:group_strings: the groups are the runs of texts", e.pc, t == Val.is_str(x))
    return e.new_list(runs(e.box(d["iterable"]).seq))


nonempty = Fold("nonempty", ["seq"], lambda h, s, p: [ite(h == vstr(""), s[0], cat(s[0], unit(h)))])
merged = Fold("merged_runs", ["seq"], lambda h, s, p: [ite(run(h)[0], cat(s[0], unit(Val.str(joined(run(h)[1])))), cat(s[0], run(h)[1]))])


def below(v, c):
    return uf("grouped_element", v, c)


def below_contents(v, c):
    return uf("grouped_contents", v, c, sort=AttrA)


deeper = Fold("grouped_elements", ["seq", "arr"],
              lambda h, s, p: [cat(s[0], unit(ite(Val.is_str(h), h, below(h, s[1])))), ite(Val.is_str(h), s[1], below_contents(h, s[1]))])


class Group(Contract):
    """of a list the empty texts are dropped, every run of texts becomes one text, in place, and every other element is treated
    likewise; of a tag the content is; the list or tag itself is returned"""
    target = "disseminate.utils.string:group_strings"
    attrs = {"content": lambda e, o, v: e.assume(Or(Val.is_str(v), Val.is_int(v), isobject(v), Val.is_lst(v)))}
    loops = [LoopUse(nonempty), LoopUse(merged), LoopUse(deeper)]
    trusted = ("itertools.groupby gives the maximal runs of equal keys, in order", "tags form trees: no list or tag is reached twice")

    def __init__(self):
        super().__init__()
        self.ext = {"itertools.groupby": by_text, "group_strings": self.inner}
        self.variants = [("list", lambda e: self.args(e, e.new_list(XS))), ("object", lambda e: self.args(e, Parse.obj(self, e))),
                         ("text", lambda e: self.args(e, Val.str(TEXT))), ("number", lambda e: self.args(e, Val.int(z3.Int("number"))))]

    def elem(self, e, h, s):
        if s.decl().name() == "runs_of_texts":
            e.assume(And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2, Val.is_bool(Val.titems(h)[0]), Val.is_lst(Val.titems(h)[1])))
        else:
            e.assume(Or(Val.is_str(h), Val.is_int(h), isobject(h), Val.is_lst(h)))

    def args(self, e, v):
        e.arr("a_content")
        e.top = v
        return {"lst": v}

    def inner(self, e, a, kw):
        v = e.V(dict(zip(("lst",), a), **kw)["lst"])
        if v.eq(e.top):
            raise Unsupported("recursion on the same element")
        return self.part(e, e.deep(v))

    def part(self, e, v):
        c = e.arr("a_content")
        e.arrs["a_content"] = below_contents(v, c)
        r = below(v, c)
        e.assume(Implies(Val.is_ref(r), Val.r(r) < 0))
        return r

    def spec(self, e, lst):
        if e.box(lst) is not None:
            xs = run_fold(e, nonempty, e.box(lst).seq, [EMPTY])[1][0]
            ys = run_fold(e, merged, runs(xs), [EMPTY])[1][0]
            f = run_fold(e, deeper, ys, [EMPTY, e.arr("a_content")])[1]
            e.setbox(lst, seq=f[0])
            e.arrs["a_content"] = f[1]
        elif e.kind(lst) == "ref" and e.branch(uf("hasattr_content", lst, sort=Bool)):
            r = self.part(e, z3.Select(e.arr("a_content"), Val.r(lst)))
            e.arrs["a_content"] = z3.Store(e.arr("a_content"), Val.r(lst), r)
        return lst


# the text of a list: its texts and what stands for its other elements, one after the other
as_text = lambda v: z3.If(Val.is_str(v), Val.s(v), uf("written_form", v, sort=Str))
written_list = Fold("written_list", ["str"], lambda h, s, p: [z3.Concat(s[0], as_text(h))])
in_order = Fold("runs_in_order", ["seq"], lambda h, s, p: [cat(s[0], run(h)[1])])


def W(xs, s=EMP):
    return written_list.app1(xs, [s])


def w_acc(xs, s):
    return W(xs, s) == z3.Concat(s, W(xs))


def w_cat(a, b):
    return W(cat(a, b)) == z3.Concat(W(a), W(b))


def lemma_merged(pv):
    """dropping empty texts and merging runs keeps the text of the list (join of a run of texts is the text of that run)"""
    a, b = z3.Const("any_text", Str), z3.Const("any_b", SeqV)
    one = lambda h: as_text(h)
    pv.induct("lemma: text of a list/accumulator", lambda xs: w_acc(xs, a), lambda: [written_list.nil([a], []), written_list.nil([EMP], [])],
              lambda h, t: [written_list.cons(h, t, [a], []), written_list.cons(h, t, [EMP], [])],
              ih=lambda h, t: [w_acc(t, z3.Concat(a, one(h))), w_acc(t, z3.Concat(EMP, one(h)))])
    pv.induct("lemma: text of a concatenation", lambda xs: w_cat(xs, b), lambda: [written_list.nil([EMP], [])],
              lambda h, t: [written_list.cons(h, t, [EMP], []), written_list.cons(h, cat(t, b), [EMP], []), w_acc(t, one(h)), w_acc(cat(t, b), one(h)),
                            cat(cat(unit(h), t), b) == cat(unit(h), cat(t, b)), z3.Concat(EMP, one(h)) == one(h)],
              ih=lambda h, t: [w_cat(t, b)])
    for fold, label, other in ((nonempty, "empty texts", None), (merged, "merged runs", in_order)):
        s, h, t = z3.Const("any_s", SeqV), z3.Const("ind_h", Val), z3.Const("ind_t", SeqV)
        s2 = fold.step(h, [s], [])[0]
        if other is None:
            P = lambda xs, s: W(fold.app1(xs, [s])) == z3.Concat(W(s), W(xs))
            pv.oblige("lemma: %s/base" % label, [fold.nil([s], []), written_list.nil([EMP], [])], P(EMPTY, s))
            pv.oblige("lemma: %s/step" % label, [fold.cons(h, t, [s], []), P(t, s2), w_cat(s, unit(h)), w_cat(unit(h), t), written_list.cons(h, EMPTY, [EMP], []),
                                                 written_list.nil([one(h)], []), written_list.nil([z3.Concat(EMP, one(h))], []), cat(unit(h), EMPTY) == unit(h)],
                      P(cat(unit(h), t), s))
        else:
            r = z3.Const("any_r", SeqV)
            P = lambda xs, s, r: Implies(W(s) == W(r), W(fold.app1(xs, [s])) == W(other.app1(xs, [r])))
            r2 = other.step(h, [r], [])[0]
            j = Val.str(joined(run(h)[1]))
            pv.oblige("lemma: %s/base" % label, [fold.nil([s], []), other.nil([r], [])], P(EMPTY, s, r))
            pv.oblige("lemma: %s/next" % label, [W(s) == W(r), w_cat(s, unit(j)), w_cat(s, run(h)[1]), w_cat(r, run(h)[1]), Implies(run(h)[0], joined(run(h)[1]) == W(run(h)[1])),
                                                 written_list.cons(j, EMPTY, [EMP], []), written_list.nil([z3.Concat(EMP, one(j))], []), cat(unit(j), EMPTY) == unit(j)],
                      W(s2) == W(r2))
            pv.oblige("lemma: %s/step" % label, [fold.cons(h, t, [s], []), other.cons(h, t, [r], []), P(t, s2, r2), W(s2) == W(r2)], P(cat(unit(h), t), s, r))


LEMMAS += [lemma_merged]


class Receiver(Contract):
    """the content of a created tag is replaced by what parsing it gives"""
    target = MOD + "process_content"
    attrs = {"content": True, "context": True}

    def __init__(self):
        super().__init__()
        self.ext = {"parse_tags": self.parse}

    def parse(self, e, a, kw):
        d = dict(zip(("content", "context", "tag_factory", "level"), a), **kw)
        if set(d) != {"content", "context", "tag_factory"}:
            raise Unsupported("parse_tags")
        k = [e.V(d["content"]), e.V(d["context"]), e.V(d["tag_factory"]), e.arr("a_content")]
        if e.branch(uf("unparsable", *k, sort=Bool)):
            raise PyRaise("TagError")
        e.arrs["a_content"] = uf("all_parsed_contents", *k, sort=AttrA)
        r = uf("all_parsed", *k)
        e.assume(Implies(Val.is_ref(r), Val.r(r) < 0))
        return r

    def setup(self, e):
        t, f = z3.Const("tag", Val), z3.Const("tag_factory", Val)
        e.assume(isobject(t))
        e.arr("a_content"), e.arr("a_context")
        return {"tag": t, "tag_factory": f}

    def spec(self, e, tag, tag_factory):
        sel = lambda n: z3.Select(e.arr("a_" + n), Val.r(tag))
        r = self.parse(e, [sel("content"), sel("context"), tag_factory], {})
        e.arrs["a_content"] = z3.Store(e.arr("a_content"), Val.r(tag), r)
        return tag


CONTRACTS = [Group, Receiver, Parse]
