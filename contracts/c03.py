"""C03: attributes (attributes/attributes.py, utils/types.py)."""
from pyvc.contract import *
from pyvc.theory import *
import pyvc.source as src

AK, AM, AD = z3.Const("attr_keys", SeqV), z3.Const("attr_map", MapV), z3.Const("attr_dom", DomV)
SEP = z3.Const("sep", Str)
ATTR, TARGET = z3.Const("attr", Val), z3.Const("target", Val)
TARGETS = NODOM
for t_ in ("html", "xhtml", "tex", "css"):
    TARGETS = z3.Store(TARGETS, vstr(t_), z3.BoolVal(True))
TSEQ = uf("set_order", TARGETS, sort=SeqV)


def term(sep, t):
    return z3.Concat(sep, Val.s(t))


# the entry without the suffix of the (first) target it names
named = Fold("target_named", [], lambda h, s, p: [], params=["str", "str"],
             exits=lambda h, s, p: [(z3.SuffixOf(term(p[1], h), p[0]), "ret",
                                     Val.str(z3.SubString(p[0], 0, z3.Length(p[0]) - z3.Length(term(p[1], h)))))])


def stripped(v, sep):
    s = Val.s(v)
    has = And(Val.is_str(v), z3.Contains(s, sep))
    return ite(And(has, named.code(TSEQ, [], [s, sep]) == 1), named.value(TSEQ, [], [s, sep]), v)


def positional(v, t="PositionalValue"):
    return And(Val.is_cls(v), uf("subclass_" + t, v, sort=Bool))


def subtype(v, t):
    """v is a subclass of the positional type t"""
    return And(Val.is_cls(v), uf("subclass_of", v, t, sort=Bool))


class StripAttr(Contract):
    """the general name of an attribute: the text before the separator and the target it names, else the attribute itself"""
    target = "disseminate.attributes.attributes:strip_attr"
    loops = [LoopUse(named, params=lambda e: [Val.s(ATTR), SEP])]

    def setup(self, e):
        e.assume(z3.Length(SEP) > 0)
        e.assume(Not(Val.is_ref(ATTR)))
        return {"attr": ATTR, "sep": Val.str(SEP)}

    def elem(self, e, h, s):
        e.assume(Val.is_str(h))

    def spec(self, e, attr, sep):
        return stripped(e.V(attr), Val.s(e.V(sep)))


class Specific(Contract):
    """an attribute is target-specific iff its general name differs"""
    target = "disseminate.attributes.attributes:is_target_specific"
    setup = StripAttr.setup

    def spec(self, e, attr, sep):
        return Val.bool(e.V(attr) != stripped(e.V(attr), Val.s(e.V(sep))))


class IsPositional(Contract):
    """a positional value is a subclass of the positional type asked for"""
    target = "disseminate.utils.types:ispositional"
    ext = {"builtins.issubclass": lambda e, a, kw: positional(e.V(a[0])) if not is_val(a[1]) else subtype(e.V(a[0]), a[1])}

    def general(self, e):
        return {"p": ATTR}

    def typed(self, e):
        return {"p": ATTR, "positionalvalue_type": z3.Const("ptype", Val)}

    @property
    def variants(self):
        return [("any type", self.general), ("given type", self.typed)]

    def spec(self, e, p, positionalvalue_type):
        if not is_val(positionalvalue_type):
            return Val.bool(positional(e.V(p)))
        return Val.bool(subtype(e.V(p), positionalvalue_type))


CONTRACTS = [StripAttr, Specific, IsPositional]


# -- lookup ------------------------------------------------------------------------------
def pos_t(v, t):
    return subtype(v, t)


def key(h):
    return Val.titems(h)[0]


def val(h):
    return Val.titems(h)[1]


is_pair = lambda v: And(Val.is_tup(v), z3.Length(Val.titems(v)) == 2, Val.is_str(key(v)))
typed = Fold("entries_of_type", ["seq"], lambda h, s, p: ite(subtype(p[0][h], p[1]), cat(s[0], unit(tup(h, p[0][h]))), s[0]), params=["map", "val"])
typed_members = Members(typed, lambda v, p: is_pair(v), hyp=lambda h, s, p: Val.is_str(h))
for_target = Fold("entries_for_target", ["seq"], lambda h, s, p: ite(z3.SuffixOf(p[0], Val.s(key(h))), cat(s[0], unit(h)), s[0]), params=["str"])
general = Fold("general_entries", ["seq"], lambda h, s, p: ite(key(h) == stripped(key(h), p[0]), cat(s[0], unit(h)), s[0]), params=["str"])
for_members = Members(for_target, lambda v, p: is_pair(v), hyp=lambda h, s, p: is_pair(h))
gen_members = Members(general, lambda v, p: is_pair(v), hyp=lambda h, s, p: is_pair(h))


def norm(target):
    """the target without dots around it"""
    return ite(Val.is_str(target), Val.str(uf("str_strip_c", Val.s(target), S("."), sort=Str)), target)


def find(d, attr, target, sep):
    """-> (kind of match, key, value): the entry for the target, else the general one, else for a type the first positional
    entry of this type for the target, else the first general one, else none"""
    t = norm(target)
    tkey = Val.str(z3.Concat(Val.s(attr), sep, Val.s(t)))
    return t, tkey


class Attrs(Contract):
    def attrs_(self, e, keys=True):
        c = e.from_resolved(src.resolve("disseminate.attributes.attributes", "Attributes"), "Attributes")
        self.me = e.new_obj(c, {}, d=D(AK, AM, AD))
        e.assume(z3.Length(SEP) > 0)
        return self.me

    def elem(self, e, h, s):
        if s.eq(AK):
            e.assume(Val.is_str(h))
        elif s.eq(TSEQ):
            e.assume(Val.is_str(h))
        else:
            any(m.assume(e, h, s) for m in (typed_members, for_members, gen_members))


def find_item(e, d, attr, target, default, sep):
    t = norm(target)
    if not e.branch(Val.is_none(t)):
        k = Val.str(z3.Concat(e.tostr(attr), sep, Val.s(t)))
        if e.branch(d.dom[k]):
            return tup(k, d.map[k])
    if e.branch(d.dom[attr]):
        return tup(attr, d.map[attr])
    if e.branch(positional(attr)):
        es = typed.app1(d.keys, [EMPTY], [d.map, attr])
        if e.branch(And(Not(Val.is_none(t)), z3.Length(Val.s(t)) > 0)):
            f = for_target.app1(es, [EMPTY], [z3.Concat(sep, Val.s(t))])
            if e.branch(z3.Length(f) > 0):
                e.assume(is_pair(f[0]))
                return f[0]
        g = general.app1(es, [EMPTY], [sep])
        if e.branch(z3.Length(g) > 0):
            e.assume(is_pair(g[0]))
            return g[0]
    return default


class FindItem(Attrs):
    """lookup gives the entry written for the target, else the general one; for a positional type, the first entry of the type
    written for the target, else the first general one; else the default"""
    target = "disseminate.attributes.attributes:Attributes.find_item"
    loops = [LoopUse(typed, params=lambda e: [AM, ATTR]), LoopUse(for_target, params=lambda e: [z3.Concat(SEP, Val.s(norm(TARGET)))]),
             LoopUse(general, params=lambda e: [SEP])]

    def setup(self, e):
        e.assume(Or(Val.is_str(ATTR), Val.is_cls(ATTR)))
        e.assume(Or(Val.is_str(TARGET), Val.is_none(TARGET)))
        return {"self": self.attrs_(e), "attr": ATTR, "target": TARGET, "default": z3.Const("default", Val), "sep": Val.str(SEP)}

    def spec(self, e, self_, attr, target, default, sep):
        return find_item(e, e.box(self_).d, e.V(attr), e.V(target), e.V(default), Val.s(e.V(sep)))


class Get(Attrs):
    """get is the value of the entry found, or for a positional type the general name of that entry; else the default"""
    target = "disseminate.attributes.attributes:Attributes.get"
    setup = FindItem.setup

    def elem(self, e, h, s):
        pass

    def spec(self, e, self_, attr, target, default, sep):
        r = find_item(e, e.box(self_).d, e.V(attr), e.V(target), NONE, Val.s(e.V(sep)))
        if e.branch(Val.is_none(r)):
            return default
        if e.branch(positional(e.V(attr))):
            return stripped(key(r), Val.s(e.V(sep)))
        return val(r)


LEMMAS = [typed_members.lemma, for_members.lemma, gen_members.lemma]
CONTRACTS += [FindItem, Get]


# -- copies and rendering -----------------------------------------------------------------
def new_attributes(e, a, kw):
    """Attributes(), Attributes(**d): a new collection with the entries of d in order (dict builtin)"""
    if a or set(kw) - {"**"}:
        raise Unsupported("Attributes(...)")
    c = e.from_resolved(src.resolve("disseminate.attributes.attributes", "Attributes"), "Attributes")
    d = e.dict_of(kw["**"]) if kw else D()
    return e.new_obj(c, {}, d=D(d.keys, d.map, d.dom))


MAKE = ("Attributes(**d) is a new collection with the entries of d (its constructor without strings; bounded oracle)",)


class Copy(Attrs):
    """a copy has the same entries in the same order and is independent of the original, which stays as it was"""
    target = "disseminate.attributes.attributes:Attributes.copy"
    ext = {"new Attributes": new_attributes}
    trusted = MAKE

    def setup(self, e):
        return {"self": self.attrs_(e)}

    def spec(self, e, self_):
        return new_attributes(e, [], {"**": self_})


def entry(p, h):
    return p[0][h]


pairs = Fold("as_pairs", ["seq"], lambda h, s, p: cat(s[0], unit(ite(positional(p[0][h]), h, tup(h, p[0][h])))), params=["map"])


class ToTuple(Copy):
    """the entries in order: a positional one as its name, another as (name, value)"""
    target = "disseminate.attributes.attributes:Attributes.totuple"
    loops = [LoopUse(pairs, params=lambda e: [AM])]
    trusted = ()

    def spec(self, e, self_):
        return Val.tup(pairs.app1(AK, [EMPTY], [AM]))


def text(v):
    return ite(Val.is_str(v), Val.s(v), uf("py_str", v, sort=Str))


def rendering(name, pos, keyed):
    return Fold(name, ["seq"], lambda h, s, p: cat(s[0], unit(Val.str(ite(positional(p[0][h]), pos(text(h)), keyed(text(h), text(p[0][h])))))), params=["map"])


C_ = z3.Concat
html_entries = rendering("html_entries", lambda k: k, lambda k, v: C_(k, S("='"), v, S("'")))
tex_args = rendering("tex_arguments", lambda k: C_(S("{"), k, S("}")), lambda k, v: C_(S("{"), v, S("}")))
tex_opts = rendering("tex_optionals", lambda k: k, lambda k, v: C_(k, S("="), v))


class Html(Copy):
    """every entry once in order, name='value' or just the name of a positional one, separated by blanks"""
    target = "disseminate.attributes.attributes:Attributes.html"
    loops = [LoopUse(html_entries, params=lambda e: [AM]), LoopUse(tex_args, params=lambda e: [AM]), LoopUse(tex_opts, params=lambda e: [AM])]
    trusted = ()

    def spec(self, e, self_):
        return Val.str(uf("str_join", S(" "), html_entries.app1(AK, [EMPTY], [AM]), sort=Str))


class TexArgs(Html):
    """every entry once in order: {value}, or {name} of a positional one"""
    target = "disseminate.attributes.attributes:Attributes.tex_arguments"

    def spec(self, e, self_):
        xs = tex_args.app1(AK, [EMPTY], [AM])
        if e.branch(z3.Length(xs) > 0):
            return Val.str(uf("str_join", S(""), xs, sort=Str))
        return vstr("")


class TexOpts(Html):
    """every entry once in order: name=value, or the name of a positional one, separated by commas in brackets; nothing when empty"""
    target = "disseminate.attributes.attributes:Attributes.tex_optionals"

    def spec(self, e, self_):
        xs = tex_opts.app1(AK, [EMPTY], [AM])
        if e.branch(z3.Length(xs) > 0):
            return Val.str(C_(S("["), uf("str_join", S(", "), xs, sort=Str), S("]")))
        return vstr("")


class Append(Attrs):
    """append without a value adds a positional entry; an absent entry gets the value; a list gains it as an item; another value
    becomes the text of both separated by a blank"""
    target = "disseminate.attributes.attributes:Attributes.append"

    def elem(self, e, h, s):
        pass

    def setup(self, e):
        v = z3.Const("value", Val)
        e.assume(Not(Val.is_ref(v)))
        e.assume(Val.is_str(ATTR))
        cur = AM[ATTR]
        e.assume(Implies(AD[ATTR], Or(Val.is_str(cur), Val.is_int(cur), Val.is_cls(cur), Val.is_none(cur))))
        return {"self": self.attrs_(e), "attr": ATTR, "value": v}

    def missing(self, e):
        a = self.setup(e)
        a.pop("value")
        return a

    @property
    def variants(self):
        return [("value", self.setup), ("no value", self.missing)]

    def spec(self, e, self_, attr, value):
        b = e.box(self_)
        v = e.V(value)
        if e.branch(v == vcls("_MissingAttribute")):
            new = vcls("PositionalValue")
        elif e.branch(Not(AD[ATTR])):
            new = v
        else:
            new = Val.str(C_(e.tostr(AM[ATTR]), S(" "), e.tostr(v)))
        e.setbox(self_, d=b.d.set(ATTR, new))
        return NONE


# -- strip and filter -----------------------------------------------------------------------
specific_names = Fold("names_with_target_entry", ["dom"], lambda h, s, p: ite(stripped(h, p[0]) != h, z3.Store(s[0], stripped(h, p[0]), z3.BoolVal(True)), s[0]), params=["str"])
kept = Fold("without", ["seq"], lambda h, s, p: ite(p[0][h], s[0], cat(s[0], unit(h))), params=["dom"])
renamed = Fold("renamed", ["seq", "map", "dom"], lambda h, s, p: D(*s).set(stripped(h, p[1]), p[0][h]).terms(), params=["map", "str"])
kept_members = Members(kept, lambda v, p: AD[v], hyp=lambda h, s, p: AD[h])


def strip_spec(e, self_, sep):
    d = e.box(self_).d
    new_attributes(e, [], {"**": self_})
    sp = specific_names.app1(d.keys, [NODOM], [sep])
    ks = kept.app1(d.keys, [EMPTY], [sp])
    fin = renamed.app(ks, [EMPTY, NOMAP, NODOM], [d.map, sep])
    e.setbox(self_, d=D(*fin))


class Strip(Attrs):
    """stripping removes the target suffix of every entry; a general entry gives way to one written for a target; entries keep
    their order and values"""
    target = "disseminate.attributes.attributes:Attributes.strip"
    loops = [LoopUse(specific_names, params=lambda e: [SEP]), LoopUse(kept, params=lambda e: [specific_names.app1(AK, [NODOM], [SEP])]),
             LoopUse(renamed, params=lambda e: [AM, SEP])]

    def elem(self, e, h, s):
        if s.eq(AK):
            e.assume(And(AD[h], Val.is_str(h)))
        elif str(s).startswith("set_order"):
            e.assume(Val.is_str(h))
        elif not kept_members.assume(e, h, s):
            pass

    def setup(self, e):
        return {"self": self.attrs_(e), "sep": Val.str(SEP)}

    def spec(self, e, self_, sep):
        strip_spec(e, self_, Val.s(e.V(sep)))
        return NONE


LEMMAS += [kept_members.lemma]
CONTRACTS += [Copy, ToTuple, Html, TexArgs, TexOpts, Append, Strip]


# filter
positions = Fold("positions", ["int", "seq", "map", "dom"], lambda h, s, p: [s[0] + 1] + D(*s[1:]).set(h, Val.int(s[0])).terms())
FLT, ATTRS = z3.Const("attrs", Val), z3.Const("attr_list", SeqV)


def position_of(d):
    return positions.app(d.keys, [z3.IntVal(0), EMPTY, NOMAP, NODOM])


def by_position(e, a, kw):
    """sorted(attrs, key): checked to order by the position of the entry in this collection, unknown ones last"""
    if len(a) > 1 or set(kw) != {"key"}:
        raise Unsupported("sorted")
    s = e.deep(e.seq_of(a[0]))
    h = z3.Const("any_attr", Val)
    o = position_of(e.contract.d0)
    sv = e.snapshot()
    e.assume(Not(Val.is_ref(h)))
    k = e.call(kw["key"], [h], {})
    e.pv.oblige(e.contract.label + "/sort key is the position of the entry", e.pc,
                e.V(k) == ite(o[3][h], o[2][h], Val.int(z3.Length(o[1]))))
    e.restore(sv)
    return e.new_list(uf("sorted_by_position", s, sort=SeqV))


def item_term(d, attr, target, sep):
    """find_item without default as a term"""
    t = norm(target)
    k = Val.str(z3.Concat(text(attr), sep, Val.s(t)))
    es = typed.app1(d.keys, [EMPTY], [d.map, attr])
    f = for_target.app1(es, [EMPTY], [z3.Concat(sep, Val.s(t))])
    g = general.app1(es, [EMPTY], [sep])
    r = ite(And(positional(attr), z3.Length(g) > 0), g[0], NONE)
    r = ite(And(positional(attr), Not(Val.is_none(t)), z3.Length(Val.s(t)) > 0, z3.Length(f) > 0), f[0], r)
    r = ite(d.dom[attr], tup(attr, d.map[attr]), r)
    return ite(And(Not(Val.is_none(t)), d.dom[k]), tup(k, d.map[k]), r)


def loser(h, s, p):
    """a general entry loses to one for the target; one for another target is never used"""
    g = stripped(h, p[1])
    return ite(g == h, s[0], ite(z3.SuffixOf(z3.Concat(p[1], Val.s(p[0])), Val.s(h)), z3.Store(s[0], g, z3.BoolVal(True)), z3.Store(s[0], h, z3.BoolVal(True))))


losers = Fold("losing_entries", ["dom"], loser, params=["val", "str"])
specifics = Fold("specific_entries", ["dom"], lambda h, s, p: ite(stripped(h, p[0]) != h, z3.Store(s[0], h, z3.BoolVal(True)), s[0]), params=["str"])


def select(h, s, p):
    r = item_term(D(*p[:3]), h, p[3], p[4])
    d = D(*s)
    return [ite(Val.is_none(r), a, b) for a, b in zip(s, d.set(key(r), val(r)).terms())]


selected = Fold("selected_entries", ["seq", "map", "dom"], select, params=["seq", "map", "dom", "val", "str"])


class Filter(Attrs):
    """filter returns a new collection: per requested attribute (all when none given), in entry order or in the requested order,
    the entry found for the target; general entries lose to those for the target, entries of other targets are dropped; with
    strip the target suffixes are removed; the attributes themselves stay as they were"""
    target = "disseminate.attributes.attributes:Attributes.filter"
    ext = {"new Attributes": new_attributes, "uniq": lambda e, a, kw: e.new_list(uf("uniq", e.deep(e.seq_of(a[0])), sort=SeqV)), "sorted": by_position}
    loops = [LoopUse(positions), LoopUse(losers, params=lambda e: [e.contract.t, SEP]), LoopUse(specifics, params=lambda e: [SEP]),
             LoopUse(kept, params=lambda e: [e.contract.lost(e)]),
             LoopUse(selected, params=lambda e: [AK, AM, AD, e.contract.t, SEP])]
    trusted = MAKE + ("uniq keeps the first of equal elements (C13)",
                      "sorted(xs, key) is the stable permutation of xs in increasing order of the key (builtin)")
    timeout = 20000

    def lost(self, e):
        return self.losers

    def elem(self, e, h, s):
        if s.eq(AK):
            e.assume(And(AD[h], Val.is_str(h)))
        elif str(s).startswith("set_order"):
            e.assume(Val.is_str(h))
        else:
            e.assume(Or(Val.is_str(h), And(Val.is_cls(h), positional(h))))

    def mk(self, attrs, tgt, sort_by, strip):
        def f(e):
            m = self.attrs_(e)
            self.d0 = D(AK, AM, AD)
            self.t = norm(TARGET) if tgt else NONE
            if tgt:
                e.assume(Val.is_str(TARGET))
            a = {"none": lambda: NONE, "one": lambda: FLT, "list": lambda: e.new_list(ATTRS)}[attrs]()
            if attrs == "one":
                e.assume(Or(Val.is_str(FLT), And(Val.is_cls(FLT), positional(FLT))))
            xs = {"none": AK, "one": unit(FLT), "list": ATTRS}[attrs]
            xs = uf("uniq", xs, sort=SeqV)
            self.order = xs if sort_by else uf("sorted_by_position", xs, sort=SeqV)
            self.losers = losers.app1(self.order, [NODOM], [self.t, SEP]) if tgt else specifics.app1(self.order, [NODOM], [SEP])
            return {"self": m, "attrs": a, "target": TARGET if tgt else NONE, "sep": Val.str(SEP), "sort_by_attrs": z3.BoolVal(sort_by), "strip": z3.BoolVal(strip)}
        return f

    @property
    def variants(self):
        return [("%s%s%s%s" % (a, ", target" if t else "", ", requested order" if s else "", ", strip" if st else ""), self.mk(a, t, s, st))
                for a in ("none", "one", "list") for t in (0, 1) for s in (False, True) for st in (False, True)]

    def spec(self, e, self_, attrs, target, sep, strip):
        d = new_attributes(e, [], {})
        xs = kept.app1(self.order, [EMPTY], [self.losers])
        fin = selected.app(xs, [EMPTY, NOMAP, NODOM], [AK, AM, AD, self.t, SEP])
        e.setbox(d, d=D(*fin))
        if e.entails(strip):
            strip_spec(e, d, SEP)
        return d


CONTRACTS += [Filter]
