"""C02: macros (utils/string.py, tags/receivers/macros.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported, STup, is_val
from pyvc.interp import StarSeq
from pyvc.rx import Regex, start, end, group, text as matched_text
import pyvc.source as src

DICTS, TEXT = z3.Const("dictionaries", SeqV), z3.Const("text", Str)
EMP = z3.StringVal("")
MACRO = Regex("string._re_macro", ("macro",))


def isobject(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


def plain(v):
    return Or(Val.is_none(v), Val.is_str(v), isobject(v))


# dictionaries: which names they define, and as what
def defines(d, k):
    return uf("defines", d, k, sort=Bool)


def entry(d, k):
    return uf("entry", d, k)


def has(o, k):
    return uf("has_attribute", o, k, sort=Bool)


def attribute(o, k):
    return uf("attribute", o, k)


defined_ = Fold("defined", [], lambda h, s, p: [], params=["val"], exits=lambda h, s, p: [(defines(h, p[0]), "break", None)])
first_ = Fold("first_definition", ["val"], lambda h, s, p: [s[0]], params=["val"],
              exits=lambda h, s, p: [(defines(h, p[0]), "break", None)], exit_state=lambda h, s, p: [entry(h, p[0])])


def defined(k, ds=DICTS):
    """some dictionary defines the name"""
    return defined_.code(ds, [], [k]) == 1


def definition(k, ds=DICTS, otherwise=NONE):
    """the value in the first dictionary that defines the name"""
    return first_.app1(ds, [otherwise], [k])


# a dotted name: as many pieces as lead to something are used
def tail(s):
    return z3.SubSeq(s, 1, z3.Length(s) - 1)


def texts(s):
    """every element is a text"""
    return uf("texts", s, sort=Bool)


def texts_tail(s):
    return Implies(And(texts(s), z3.Length(s) > 0), And(Val.is_str(s[0]), texts(tail(s))))


def by_name(s):
    return And(Val.is_none(s[1]), defined(s[0][0]))


walk = While("walk", ["seq", "val"], lambda s, p: z3.Length(s[0]) > 0,
             lambda s, p: [ite(Or(by_name(s), has(s[1], s[0][0])), tail(s[0]), s[0]),
                           ite(by_name(s), definition(s[0][0]), ite(has(s[1], s[0][0]), attribute(s[1], s[0][0]), s[1]))],
             exits=lambda s, p: [(And(Not(by_name(s)), Not(has(s[1], s[0][0]))), "break", None)],
             measure=lambda s, p: z3.Length(s[0]), inv=lambda s, p: And(texts(s[0]), plain(s[1])), left=lambda s, p: And(texts(s[0]), plain(s[1])))
dotted = Fold("dotted", ["seq"], lambda h, s, p: [cat(s[0], unit(Val.str(z3.Concat(z3.StringVal("."), Val.s(h)))))])


def split(t):
    return uf("str_split", t, z3.StringVal("."), sort=SeqV)


def shown(v):
    return uf("py_str", v, sort=Str)


def meaning(macro):
    """what a reference stands for: None, or the text of the object its pieces lead to, followed by the remaining pieces"""
    rest, obj = walk.app([split(macro), NONE])
    left = uf("str_join", EMP, dotted.app1(rest, [EMPTY]), sort=Str)
    return ite(Val.is_none(obj), NONE, Val.str(z3.Concat(ite(Val.is_str(obj), Val.s(obj), shown(obj)), left)))


# expansion
def frame(t, pos, names):
    return Val.tup(seq(Val.str(t), Val.int(pos), names))


def init(s):
    return z3.SubSeq(s, 0, z3.Length(s) - 1)


def parts(f):
    """text, position and names in use of a frame"""
    return uf("frame_text", f, sort=Str), uf("frame_position", f, sort=Int), Val.tup(uf("frame_names", f, sort=SeqV))


def well_formed(f):
    t, pos, names = parts(f)
    return And(f == frame(t, pos, names), 0 <= pos, pos <= z3.Length(t))


def frames(s):
    """every element is a text, a position in it and the names in use"""
    return uf("frames", s, sort=Bool)


def frames_of(s):
    return And(Implies(z3.Length(s) > 0, And(frames(s) == And(frames(init(s)), well_formed(s[z3.Length(s) - 1])),
                                             s == cat(init(s), unit(s[z3.Length(s) - 1])))), frames(EMPTY))


def frames_snoc(s, t, pos, names):
    """definition, at a frame made of the three"""
    f = frame(t, pos, names)
    return And(frames(cat(s, unit(f))) == And(frames(s), well_formed(f)), *[x == y for x, y in zip(parts(f), (t, pos, names))])


def in_use(names, name):
    return uf("seq_count", Val.titems(names), name, sort=Int)


def name_of(m):
    return split(Val.s(group(m, "macro")))[0]


def within(names, name):
    return Val.tup(cat(Val.titems(names), unit(name)))


def steps(f):
    """number of rounds expanding a text takes"""
    return uf("steps", f, sort=Int)


def total(s):
    return uf("total_steps", s, sort=Int)


def expanded(s, p):
    processed, stack = s
    f = stack[z3.Length(stack) - 1]
    rest = init(stack)
    t, pos, names = parts(f)
    found, m = MACRO.found(t, pos), MACRO.obj(t, pos)
    before = z3.SubString(t, pos, start(m) - pos)
    ref = z3.SubString(t, start(m), end(m) - start(m))
    v, n = meaning(Val.s(group(m, "macro"))), name_of(m)
    kept = Or(Val.is_none(v), in_use(names, n) > 1)
    later = frame(t, end(m), names)
    inner = frame(Val.s(v), z3.IntVal(0), within(names, n))
    return f, rest, t, pos, names, found, m, before, ref, v, n, kept, later, inner


def expand_step(s, p):
    processed, stack = s
    f, rest, t, pos, names, found, m, before, ref, v, n, kept, later, inner = expanded(s, p)
    done = cat(processed, unit(Val.str(before)))
    return [ite(found, ite(kept, cat(done, unit(Val.str(ref))), done), cat(processed, unit(Val.str(z3.SubString(t, pos, z3.Length(t) - pos))))),
            ite(found, ite(kept, cat(rest, unit(later)), cat(rest, unit(later), unit(inner))), rest)]


expand = While("expand", ["seq", "seq"], lambda s, p: z3.Length(s[1]) > 0, expand_step, inv=lambda s, p: frames(s[1]),
               measure=lambda s, p: total(s[1]))

def match_facts(t, pos):
    """what holds of the first match from there on: it is not empty, and its name is a text"""
    m = MACRO.obj(t, pos)
    g = group(m, "macro")
    return Implies(MACRO.found(t, pos), And(isobject(m), truthy_ref(m), matched_text(m) == t, pos <= start(m), start(m) < end(m),
                                            end(m) <= z3.Length(t), Val.is_str(g), texts(split(Val.s(g))), z3.Length(split(Val.s(g))) > 0))


def expand_hints(e, s, p):
    f, rest, t, pos, names, found, m, before, ref, v, n, kept, later, inner = expanded(s, p)
    one = cat(rest, unit(later))
    return [frames_of(s[1]), match_facts(t, pos), frames_snoc(rest, t, end(m), names), frames_snoc(one, Val.s(v), z3.IntVal(0), within(names, n)), total_of(rest, f), total_of(rest, later), total_of(one, inner),
            steps_of(f, s), cat(one, unit(inner)) == cat(rest, unit(later), unit(inner))]


def total_of(s, f):
    """definition of the total at a stack and its last element"""
    return And(total(cat(s, unit(f))) == total(s) + steps(f), total(s) >= 0)


def steps_of(f, s):
    """definition of the number of rounds, along the recursion that lemma_ends shows to end"""
    _, _, _, _, _, found, _, _, _, _, _, kept, later, inner = expanded(s, [])
    return And(steps(f) == 1 + ite(found, steps(later) + ite(kept, 0, steps(inner)), 0), steps(later) >= 1, steps(inner) >= 1)


def search(e, a, kw):
    if len(a) != 2 or kw or e.kind(e.V(a[0])) != "str":
        raise Unsupported("search %d %s %s %s" % (len(a), kw, e.kind(e.V(a[0])), e.V(a[0])))
    t, pos = z3.simplify(Val.s(e.V(a[0]))), e.intval(a[1])
    e.assume(match_facts(t, pos))
    return MACRO.obj(t, pos) if e.branch(MACRO.found(t, pos)) else NONE


def both(k, ds):
    """a name some dictionary defines has a first definition, which is a text or an object"""
    return And(defined_.code(ds, [], [k]) == first_.code(ds, [NONE], [k]), plain(first_.app1(ds, [NONE], [k])))


def lemma_both(pv):
    k = z3.Const("any_name", Val)
    pv.induct("lemma: first definition", lambda xs: both(k, xs), lambda: [defined_.nil([], [k]), first_.nil([NONE], [k])],
              lambda h, t: [defined_.cons(h, t, [], [k]), first_.cons(h, t, [NONE], [k]), plain(entry(h, k))])


def walk_hints(e, s, p):
    return [texts_tail(s[0]), both(s[0][0], DICTS), plain(attribute(s[1], s[0][0]))]


# what the loop computes: the pieces of the expansion, defined by recursion
def pieces(f):
    return uf("pieces_of_expansion", f, sort=SeqV)


def all_pieces(s):
    """those of the frames of a stack, from its end"""
    return uf("pieces_of_stack", s, sort=SeqV)


def pieces_of(f, s):
    _, _, t, pos, _, found, m, before, ref, _, _, kept, later, inner = expanded(s, [])
    rest = z3.SubString(t, pos, z3.Length(t) - pos)
    return pieces(f) == ite(found, cat(unit(Val.str(before)), ite(kept, unit(Val.str(ref)), pieces(inner)), pieces(later)), unit(Val.str(rest)))


def pieces_snoc(s, f):
    return all_pieces(cat(s, unit(f))) == cat(pieces(f), all_pieces(s))


def lemma_pieces(pv):
    """the loop's result are the pieces of the frames on its stack, from the end, after what is processed: by induction on the
    number of rounds left.  So every text between references is copied once and in order, a reference is replaced by the
    expansion of what it stands for, and kept as it is only when it stands for nothing or its name is in use twice"""
    done, stack = z3.Const("any_processed", SeqV), z3.Const("any_stack", SeqV)
    s = [done, stack]
    f, rest, t, pos, names, found, m, before, ref, v, n, kept, later, inner = expanded(s, [])
    ns = expand.step(s, [])
    one = cat(rest, unit(later))
    claim = lambda x: expand.app(x, [])[0] == cat(x[0], all_pieces(x[1]))
    pv.oblige("lemma: pieces/nothing left", [expand.unfold(s, []), z3.Length(stack) == 0, all_pieces(EMPTY) == EMPTY], claim(s))
    for nm, c in (("no reference", Not(found)), ("kept", And(found, kept)), ("replaced", And(found, Not(kept)))):
        pv.oblige("lemma: pieces/" + nm, [expand.unfold(s, []), z3.Length(stack) > 0, c, claim(ns), pieces_of(f, s), pieces_snoc(rest, f), pieces_snoc(rest, later),
                                          pieces_snoc(one, inner), stack == cat(rest, unit(f)), cat(one, unit(inner)) == cat(rest, unit(later), unit(inner))], claim(s))
    # from the start: the pieces of the text
    f0 = frame(TEXT, z3.IntVal(0), tup())
    pv.oblige("lemma: pieces/of the text", [claim([EMPTY, unit(f0)]), pieces_snoc(EMPTY, f0), all_pieces(EMPTY) == EMPTY],
              expand.app([EMPTY, unit(f0)], [])[0] == pieces(f0))


def lemma_unchanged(pv):
    """a text with no reference to a defined macro is left unchanged: its only piece is itself, or each reference is kept between
    what stands before and after it"""
    t, pos = z3.Const("any_text", Str), z3.Int("any_pos")
    f = frame(t, pos, tup())
    s = [EMPTY, unit(f)]
    own = [x == y for x, y in zip(parts(f), (t, pos, tup()))]
    _, _, _, _, _, found, m, before, ref, v, n, kept, later, inner = expanded(s, [])
    whole = lambda a, x: uf("str_join", EMP, pieces(frame(t, a, tup())), sort=Str) == x
    rest = z3.SubString(t, pos, z3.Length(t) - pos)
    a, b, p = z3.Const("piece_a", Val), z3.Const("piece_b", Val), pieces(frame(t, end(m), tup()))
    joins = [uf("str_join", EMP, unit(Val.str(rest)), sort=Str) == rest,
             uf("str_join", EMP, cat(unit(Val.str(before)), unit(Val.str(ref)), p), sort=Str) == z3.Concat(before, ref, uf("str_join", EMP, p, sort=Str))]
    base = own + joins + [pieces_of(f, s), 0 <= pos, pos <= z3.Length(t), match_facts(t, pos)]
    pv.oblige("lemma: unchanged/no reference", base + [Not(found)], whole(pos, rest))
    after = z3.SubString(t, end(m), z3.Length(t) - end(m))
    x, y = z3.Int("any_start"), z3.Int("any_end")
    split3 = lambda t, x, y: z3.SubString(t, pos, z3.Length(t) - pos) == z3.Concat(z3.SubString(t, pos, x - pos), z3.SubString(t, x, y - x), z3.SubString(t, y, z3.Length(t) - y))
    pv.oblige("lemma: unchanged/three parts", [0 <= pos, pos <= x, x <= y, y <= z3.Length(t)], split3(t, x, y))
    pv.oblige("lemma: unchanged/undefined reference", base + [found, Val.is_none(v), whole(end(m), after), split3(t, start(m), end(m))], whole(pos, rest))


# termination: along the recursion the names in use grow, none beyond two, or the rest of the text shrinks
def count_in(names, k):
    return uf("seq_count", names, k, sort=Int)


slack = Fold("slack", ["int"], lambda h, s, p: [s[0] + 2 - count_in(p[0], h)], params=["seq"])
occurs = Fold("occurrences", ["int"], lambda h, s, p: [s[0] + ite(h == p[0], z3.IntVal(1), z3.IntVal(0))], params=["val"])


def lemma_ends(pv):
    """the recursion ends: in the order of (how often the defined names may still be used, the length of what is left)"""
    names, n, k = z3.Const("any_names", SeqV), z3.Const("any_name", Val), z3.Const("any_key", Val)
    a, b, c = z3.Ints("any_a any_b any_c")
    grown = cat(names, unit(n))
    snoc = lambda k: count_in(grown, k) == count_in(names, k) + ite(k == n, z3.IntVal(1), z3.IntVal(0))
    less = lambda xs, a, b, c: Implies(a == b - c, slack.app1(xs, [a], [grown]) == slack.app1(xs, [b], [names]) - occurs.app1(xs, [c], [n]))
    one = lambda h: ite(h == n, z3.IntVal(1), z3.IntVal(0))
    pv.induct("lemma: ends/using a name", lambda xs: less(xs, a, b, c), lambda: [slack.nil([a], [grown]), slack.nil([b], [names]), occurs.nil([c], [n])],
              lambda h, t: [slack.cons(h, t, [a], [grown]), slack.cons(h, t, [b], [names]), occurs.cons(h, t, [c], [n]), snoc(h)],
              ih=lambda h, t: [less(t, a + 2 - count_in(grown, h), b + 2 - count_in(names, h), c + one(h))])
    pv.induct("lemma: ends/a defined name occurs", lambda xs: occurs.app1(xs, [c], [n]) >= c + ite(z3.Contains(xs, unit(n)), z3.IntVal(1), z3.IntVal(0)),
              lambda: [occurs.nil([c], [n])],
              lambda h, t: [occurs.cons(h, t, [c], [n]), z3.Contains(cat(unit(h), t), unit(n)) == Or(h == n, z3.Contains(t, unit(n))), occurs.app1(t, [c], [n]) >= c],
              ih=lambda h, t: [occurs.app1(t, [c + one(h)], [n]) >= c + one(h) + ite(z3.Contains(t, unit(n)), z3.IntVal(1), z3.IntVal(0))])
    pv.induct("lemma: ends/never below zero", lambda xs: Implies(a >= 0, slack.app1(xs, [a], [names]) >= 0), lambda: [slack.nil([a], [names])],
              lambda h, t: [slack.cons(h, t, [a], [names]), count_in(names, h) <= 2],
              ih=lambda h, t: [Implies(a + 2 - count_in(names, h) >= 0, slack.app1(t, [a + 2 - count_in(names, h)], [names]) >= 0)])
    pv.oblige("lemma: ends/at most twice", [snoc(k), count_in(names, k) <= 2, count_in(names, n) <= 1], count_in(grown, k) <= 2)
    t, pos = z3.Const("any_text", Str), z3.Int("any_pos")
    m = MACRO.obj(t, pos)
    pv.oblige("lemma: ends/the rest is shorter", [match_facts(t, pos), MACRO.found(t, pos), 0 <= pos, pos <= z3.Length(t)],
              And(z3.Length(t) - end(m) < z3.Length(t) - pos, z3.Length(t) - end(m) >= 0))


# what a reference stands for
def lemma_names(pv):
    """a name no dictionary defines stands for nothing; one that is defined for its first definition, whose attributes the other
    pieces read; with no other pieces, for the text of the definition; so only defined names are ever put in use"""
    t = z3.Const("any_macro", Str)
    ps = split(t)
    n = ps[0]
    s0 = [ps, NONE]
    obj = definition(n)
    pv.induct("lemma: names/undefined anywhere", lambda xs: Or(defined_.code(xs, [], [n]) == 0, defined_.code(xs, [], [n]) == 1),
              lambda: [defined_.nil([], [n])], lambda h, r: [defined_.cons(h, r, [], [n])])
    base = [z3.Length(ps) > 0, walk.unfold(s0, []), Not(has(NONE, n))]
    pv.oblige("lemma: names/undefined", base + [Not(defined(n))], Val.is_none(meaning(t)))
    s1 = [tail(ps), obj]
    pv.oblige("lemma: names/defined", base + [defined(n)], And(walk.app(s0, [])[0] == walk.app(s1, [])[0], walk.app(s0, [])[1] == walk.app(s1, [])[1]))
    pv.oblige("lemma: names/without a dot", base + [defined(n), z3.Length(ps) == 1, walk.unfold(s1, []), Val.is_str(obj), dotted.nil([EMPTY], []),
                                                    uf("str_join", EMP, EMPTY, sort=Str) == EMP], meaning(t) == obj)
    rest, o = z3.Const("any_rest", SeqV), z3.Const("any_object", Val)
    s = [rest, o]
    pv.oblige("lemma: names/attribute", [walk.unfold(s, []), z3.Length(rest) > 0, Not(Val.is_none(o)), has(o, rest[0])],
              And(*[x == y for x, y in zip(walk.app(s, []), walk.app([tail(rest), attribute(o, rest[0])], []))]))
    pv.oblige("lemma: names/remainder", [walk.unfold(s, []), z3.Length(rest) > 0, Not(Val.is_none(o)), Not(has(o, rest[0]))],
              And(*[x == y for x, y in zip(walk.app(s, []), s)]))


def reaches(a, b):
    return uf("reaches", a, b, sort=Bool)


def lemma_left(pv):
    """the names in use reach, through the values of macros, every macro referred to in the text being expanded; so a reference
    kept though its name is defined is to a macro that reaches itself"""
    x, n, n2 = z3.Consts("any_x any_n any_n2", Val)
    names = z3.Const("any_names", SeqV)
    used = lambda s, k: z3.Contains(s, unit(k))
    grown = cat(names, unit(n))
    pv.oblige("lemma: left/within a value", [Implies(used(names, x), reaches(x, n)), reaches(n, n2), Implies(And(reaches(x, n), reaches(n, n2)), reaches(x, n2)),
                                             used(grown, x) == Or(used(names, x), x == n)], Implies(used(grown, x), reaches(x, n2)))
    pv.oblige("lemma: left/kept", [Implies(used(names, n), reaches(n, n)), count_in(names, n) > 1, Implies(count_in(names, n) > 0, used(names, n))], reaches(n, n))


LEMMAS = [lemma_both, lemma_pieces, lemma_unchanged, lemma_ends, lemma_names, lemma_left]


def on_match(f):
    def h(e, o, a, kw):
        return NotImplemented if kw or e.box(o) is not None or e.kind(o) != "ref" else f(e, o, a)
    return h


class Substitute(Contract):
    """a reference stands for what the pieces of its name lead to: the first piece is looked up in the first dictionary that has
    it, the others are attributes, and the text of the object found is followed by the pieces not found; or for nothing"""
    target = "disseminate.utils.string:replace_macros._substitute"
    loops = [LoopUse(walk, hints=walk_hints), LoopUse(first_, params="locals"), LoopUse(dotted), LoopUse(defined_, params="locals")]
    trusted = ("values of macros and attributes are texts, objects or None",)

    def __init__(self):
        super().__init__()
        self.ext = {"state": lambda t: plain(t), "popped": self.popped, "string._re_macro.search": search, "contains": lambda e, c, x: defines(e.V(c), e.V(x)), "[]": self.lookup,
                    ".start": on_match(lambda e, o, a: Val.int(start(o))), ".end": on_match(lambda e, o, a: Val.int(end(o))),
                    ".group": on_match(lambda e, o, a: Val.str(z3.SubString(matched_text(o), start(o), end(o) - start(o)))),
                    ".groupdict": on_match(lambda e, o, a: e.new_dict(D().set(vstr("macro"), group(o, "macro")))),
                    "builtins.hasattr": lambda e, a, kw: has(e.V(a[0]), e.V(a[1])), "builtins.getattr": self.getattr}

    def closure(self, e):
        return {"dicts": Val.tup(DICTS)}

    def setup(self, e):
        m, t = z3.Const("match", Val), z3.Const("macro", Str)
        e.assume(And(isobject(m), truthy_ref(m), group(m, "macro") == Val.str(t), texts(split(t)), z3.Length(split(t)) > 0))
        return {"m": m}

    def spec(self, e, m):
        return self.found(e, m)

    @staticmethod
    def found(e, m):
        t = Val.s(group(m, "macro"))
        v = meaning(t)
        return STup((split(t)[0], NONE if e.branch(Val.is_none(v)) else Val.str(Val.s(v))))

    def popped(self, e, v, s, last):
        if v.decl().name() in ("tup", "str"):
            return None
        if e.discovering:           # only steers the search for the loops' state
            e.assume(well_formed(v) if last else Val.is_str(v))
        if e.entails(texts(s)):
            e.assume(Val.is_str(v))
        elif last and e.entails(frames(s)):
            e.assume(well_formed(v))
        elif not e.discovering:
            return None
        fresh = [e.fresh("frame", k) for k in (Str, Int, SeqV)] if last else [e.fresh("piece", Str)]
        r = frame(fresh[0], fresh[1], Val.tup(fresh[2])) if last else Val.str(fresh[0])
        e.assume(v == r)
        if last:
            e.assume(And(*[x == y for x, y in zip(parts(v), (fresh[0], fresh[1], Val.tup(fresh[2])))]))
        return r

    def getattr(self, e, a, kw):
        if len(a) != 2 or not e.branch(has(e.V(a[0]), e.V(a[1]))):
            raise PyRaise("AttributeError")
        e.assume(plain(attribute(e.V(a[0]), e.V(a[1]))))
        return attribute(e.V(a[0]), e.V(a[1]))

    def lookup(self, e, o, k):
        if not e.branch(defines(e.V(o), e.V(k))):
            raise PyRaise("KeyError")
        e.assume(plain(entry(e.V(o), e.V(k))))
        return entry(e.V(o), e.V(k))

    def elem(self, e, h, s):
        t = z3.simplify(s)
        if t.eq(DICTS):
            e.assume(isobject(h))
        elif e.discovering:
            e.assume(Val.is_str(h))
        e.assume(Implies(texts(s), Val.is_str(h)))


class Replace(Substitute):
    """references are replaced from the left by the text they stand for, itself expanded, unless they stand for nothing or their
    name is already in use twice; all else is copied"""
    target = "disseminate.utils.string:replace_macros"
    loops = [LoopUse(expand, hints=expand_hints)] + Substitute.loops
    trusted = ("where the macro pattern matches; a match is not empty",) + Substitute.trusted
    closure = None

    def __init__(self):
        super().__init__()
        self.ext["_substitute"] = lambda e, a, kw: self.found(e, e.V(a[0] if a else kw["m"]))

    def setup(self, e):
        e.assume(And(frames(EMPTY), frames_snoc(EMPTY, TEXT, z3.IntVal(0), tup())))
        return {"s": Val.str(TEXT)}

    def star_args(self, e):
        return [StarSeq(DICTS)]

    def spec(self, e, s):
        fin = run_while(e, expand, [EMPTY, unit(frame(TEXT, z3.IntVal(0), tup()))])[1]
        return Val.str(uf("str_join", EMP, fin[0], sort=Str))


TAG, CTX = z3.Const("tag", Val), z3.Const("context", Val)


class Receiver(Contract):
    """of a tag whose content is a text the macros in it are replaced from the tag's context, and the tag is returned; any other
    tag is left as it is"""
    target = "disseminate.tags.receivers.macros:process_macros"
    attrs = {"content": True, "context": True}

    def __init__(self):
        super().__init__()
        self.ext = {"replace_macros": self.replace}
        self.defaults = {}

    def replace(self, e, a, kw):
        d = dict(zip(("s", "context"), a), **kw)
        if len(d) != 2 or not e.entails(Val.is_str(e.V(d["s"]))):
            raise Unsupported("arguments of replace_macros")
        return Val.str(uf("macros_replaced", e.deep(e.V(d["s"])), e.V(d["context"]), sort=Str))

    def setup(self, e):
        e.assume(isobject(TAG))
        e.arr("a_content")
        e.arr("a_context")
        return {"tag": TAG}

    def spec(self, e, tag):
        c = e.arr("a_content")
        v = z3.Select(c, Val.r(tag))
        if e.branch(Val.is_str(v)):
            e.arrs["a_content"] = z3.Store(c, Val.r(tag), Val.str(uf("macros_replaced", v, z3.Select(e.arr("a_context"), Val.r(tag)), sort=Str)))
            return tag
        return NONE


CONTRACTS = [Substitute, Replace, Receiver]
