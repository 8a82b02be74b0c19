"""C05: document headers (utils/string.py, context/utils.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.rx import *
from pyvc.engine import STup


def strip(t):
    return uf("str_strip", t, sort=Str)


def split(t, sep):
    return uf("str_split", t, S(sep), sort=SeqV)


stripped = Fold("stripped", ["seq"], lambda h, s, p: cat(s[0], unit(Val.str(strip(Val.s(h))))))
nonempty = Fold("nonempty", ["seq"], lambda h, s, p: ite(Val.s(h) == S(""), s[0], cat(s[0], unit(h))))


def str_list(t):
    """the items of a list given as text: separated by semicolons, else the non-blank lines when there are several, else
    separated by commas, each without surrounding space"""
    semi, comma = split(t, ";"), split(t, ",")
    lines = nonempty.app1(stripped.app1(split(t, "\n"), [EMPTY]), [EMPTY])
    st = lambda xs: stripped.app1(xs, [EMPTY])
    return ite(z3.Length(semi) > 1, st(semi), ite(z3.Length(lines) > 1, lines, ite(z3.Length(comma) > 1, st(comma), unit(Val.str(strip(t))))))


class StrToList(Contract):
    """str_to_list: the pieces between semicolons if there is one, else the non-blank lines if there are several, else the
    pieces between commas, each stripped; every piece is kept, in order"""
    target = "disseminate.utils.string:str_to_list"
    loops = [LoopUse(stripped), LoopUse(nonempty)]
    elem = staticmethod(isstr)

    def setup(self, e):
        return {"string": sym_str(e, "string")}

    def spec(self, e, string):
        return e.new_list(str_list(Val.s(string)))


def q(x):
    """strip_end_quotes as a function of the text"""
    return uf("strip_end_quotes", x, sort=Str)


quoted = Fold("unquoted_lines", ["seq"], lambda h, s, p: cat(s[0], unit(Val.str(q(Val.s(h))))))


class StripEndQuotes(Contract):
    """strip_end_quotes: a text of several lines is treated line by line and the lines joined again; the quotes of one line
    are removed, single quotes first, exactly when their number is even and only space precedes the first and follows the
    last; every other character is kept, and any other line is unchanged"""
    target = "disseminate.utils.string:strip_end_quotes"
    loops = [LoopUse(quoted)]
    elem = staticmethod(isstr)

    def setup(self, e):
        return {"s": sym_str(e, "s")}

    def apply(self, e, args, kwargs, fv):
        e.used.add("contract " + self.target)
        return Val.str(q(Val.s(e.V(args[0]))))

    def spec(self, e, s):
        t = Val.s(s)
        if e.branch(z3.Contains(t, S("\n"))):
            return Val.str(uf("str_join", S("\n"), quoted.app1(uf("str_splitlines", t, sort=SeqV), [EMPTY]), sort=Str))
        for c in "'\"":
            if e.branch(And(z3.Contains(t, S(c)), uf("str_count", t, S(c), sort=Int) % 2 == 0)):
                parts = split(t, c)
                n = z3.Length(parts)
                first, last = parts[0], parts[n - 1]
                if e.branch(And(strip(Val.s(first)) == S(""), strip(Val.s(last)) == S(""))):
                    inner = uf("str_join", S(c), z3.SubSeq(parts, z3.IntVal(1), n - 2), sort=Str)
                    return Val.str(uf("str_join", S(""), seq(first, Val.str(inner), last), sort=Str))
        return s


header = Regex("utils.re_header_block", groups=("header",))


def decoded(e, t):
    """the entries of a header text, by the contract of str_to_dict"""
    return StrToDict().spec(e, Val.str(t), True)


class LoadFromString(Contract):
    """load_from_string: when the text starts with a fenced header, the entries are those of the header's text alone and
    the rest is exactly the text after the header; otherwise there is no rest and the whole text is decoded"""
    target = "disseminate.context.utils:load_from_string"
    ext = header.ext()
    trusted = ("where the header pattern matches",)

    def setup(self, e):
        return {"string": sym_str(e, "string")}

    def spec(self, e, string):
        t = Val.s(string)
        if e.branch(header.found(t, 0, "match")):
            o = header.fact(e, t, 0, "match")
            return STup((Val.str(z3.SubString(t, end(o), z3.Length(t) - end(o))), decoded(e, Val.s(group(o, "header")))))
        return STup((NONE, decoded(e, t)))


hentries = Fold("header_entries", ["dom"], lambda h, s, p: ite(And(Val.is_str(z3.Select(p[0], h)), header.found(Val.s(z3.Select(p[0], h)), 0, "match")),
                                                                 z3.Store(s[0], h, z3.BoolVal(True)), s[0]), params=["map"])


class FindHeaderEntries(Contract):
    """find_header_entries: exactly the keys whose value is a text starting with a header"""
    target = "disseminate.context.utils:find_header_entries"
    ext = header.ext()
    loops = [LoopUse(hentries, params=lambda e: [z3.Const("context_map", MapV)])]

    def setup(self, e):
        return {"context": sym_dict(e, "context")}

    def spec(self, e, context):
        b = e.box(context)
        return e.new_set(hentries.app1(b.d.keys, [NODOM], [b.d.map]))


entry = Regex("string._re_entry", groups=("space_level", "key", "value"))


def unesc(t):
    return uf("str_replace", t, S("\\:"), S(":"), sort=Str)


def dedent(line, spaces):
    """the line without its indentation, at most `spaces` characters of it"""
    ind = z3.Length(line) - z3.Length(uf("str_lstrip", line, sort=Str))
    n = ite(spaces < ind, spaces, ind)
    return z3.SubString(line, n, z3.Length(line) - n)


def put(m, k, item):
    return z3.Store(m, k, Val.lst(cat(Val.litems(z3.Select(m, k)), unit(item))))


def entry_step(h, s, p):
    keys, m, dom, cur, spaces, orphan = s
    line = Val.s(h)
    found = entry.found(line, 0, "match")
    o = entry.obj(line, 0, "match")
    level = z3.Length(Val.s(group(o, "space_level")))
    key = Val.str(unesc(strip(Val.s(group(o, "key")))))
    value = Val.str(unesc(Val.s(group(o, "value"))))
    text_ = Val.str(unesc(ite(spaces == NONE, line, dedent(line, Val.i(spaces)))))
    new = And(found, Or(spaces == NONE, level <= Val.i(spaces)))          # an entry of its own
    known = z3.Select(dom, key)
    m1 = ite(known, m, z3.Store(m, key, Val.lst(EMPTY)))
    lost = cur == NONE                                                    # text before the first entry
    return [ite(And(new, Not(known)), cat(keys, unit(key)), keys),
            ite(new, put(m1, key, value), ite(lost, m, put(m, cur, text_))),
            ite(new, z3.Store(dom, key, z3.BoolVal(True)), dom),
            ite(new, key, cur), ite(new, Val.int(level), spaces),
            ite(And(Not(new), lost), cat(orphan, unit(text_)), orphan)]


k_any = z3.Const("k_any", Val)


def entry_inv(s, p, done):
    keys, m, dom, cur, spaces, orphan = s
    return And(z3.ForAll([k_any], Implies(z3.Select(dom, k_any), Val.is_lst(z3.Select(m, k_any)))),
               Or(cur == NONE, And(z3.Select(dom, cur), Val.is_str(cur))),
               Or(spaces == NONE, And(Val.is_int(spaces), Val.i(spaces) >= 0)), (cur == NONE) == (spaces == NONE))


entries = Fold("header_entries_of_lines", ["seq", "map", "dom", "val", "val", "seq"], entry_step, inv=entry_inv,
               names=["keys", "map", "dom", "current_entry_list", "current_spaces", "seq"])


def joined(v, quotes):
    t = uf("str_strip_c", uf("str_join", S("\n"), Val.litems(v), sort=Str), S("\n"), sort=Str)
    return Val.str(q(t)) if quotes else Val.str(t)


def joins(name, quotes):
    return Fold(name, ["seq", "map", "dom"], lambda h, s, p: [ite(z3.Select(s[2], h), s[0], cat(s[0], unit(h))),
                                                              z3.Store(s[1], h, joined(z3.Select(p[0], h), quotes)), z3.Store(s[2], h, z3.BoolVal(True))], params=["map"])


joined_q, joined_p = joins("entry_texts_unquoted", True), joins("entry_texts", False)


class StrToDict(Contract):
    """str_to_dict: a line of the form 'key: value', unless it is indented further than the current entry, starts or
    continues the entry of its key; any other line belongs to the current entry, without its share of the indentation;
    escaped colons become colons; an entry's text is its lines joined, without blank lines around it, and without quotes
    around it if asked for. Nothing is dropped except what precedes the first entry"""
    target = "disseminate.utils.string:str_to_dict"
    defaults = {"strip_quotes": True}
    ext = {**entry.ext(), "slots": True}
    loops = [LoopUse(entries), LoopUse(joined_q, params=lambda e: [e.contract.dmap(e)]), LoopUse(joined_p, params=lambda e: [e.contract.dmap(e)])]
    trusted = ("where the entry pattern matches",)

    def dmap(self, e):
        return [b for b in e.boxes.values() if b.kind == "dict"][0].d.map

    def __init__(self):
        super().__init__()
        self.variants = [(str(v), lambda e, v=v: {"string": sym_str(e, "string"), "strip_quotes": v}) for v in (True, False)]

    def spec(self, e, string, strip_quotes):
        lines = uf("str_splitlines", Val.s(string), sort=SeqV)
        keys, m, dom, cur, spaces, orphan = run_fold(e, entries, lines, [EMPTY, NOMAP, NODOM, NONE, NONE, EMPTY])[1]
        f = joined_q if e.branch(e.truth(strip_quotes)) else joined_p
        return e.new_dict(D(*f.app(keys, [EMPTY, NOMAP, NODOM], [m])))


CONTRACTS = [StrToList, StripEndQuotes, StrToDict, LoadFromString, FindHeaderEntries]
