from common import *
import copy
from disseminate.attributes import Attributes
from disseminate.attributes.attributes import strip_attr, is_target_specific
from disseminate.utils.types import PositionalValue, StringPositionalValue, IntPositionalValue, FloatPositionalValue, ispositional
from disseminate import settings

TARGETS = sorted({t.strip(".") for t in settings.tracked_deps})
POS = {"P": PositionalValue, "S": StringPositionalValue, "I": IntPositionalValue, "F": FloatPositionalValue}


def base(k):
    """(general name, target or None)"""
    for t in TARGETS:
        if k.endswith("." + t):
            return k[:-len(t) - 1], t
    return k, None


NAMES = ["class", "width", "a.b", "tex", "latex", "k", "xhtml"]
SPEC = ["tex", "html", "xhtml", "pdf"]
PNAMES = {"3": "I", "1.5": "F", "first": "S", "latex": "S", "my file.png": "S", "a.b": "S", "x": "S", "2": "I"}


def entries():
    r = rng("c03")
    alphabet = ["k=1", "k.tex=2", "k.html=3", "j=4", "j.tex=5", "+p", "+p.tex", "+latex", "+q.html"]
    for t in lists(alphabet, scale(3, 4)):
        if len(set(t)) == len(t):
            yield [[x[1:], "+S"] if x[0] == "+" else x.split("=") for x in t]
    for _ in range(scale(1500)):
        out, used = [], set()
        for _ in range(r.randint(0, 9)):
            if r.random() < .6:
                k = r.choice(NAMES) + (("." + r.choice(SPEC + TARGETS)) if r.random() < .5 else "")
                v = r.choice(["v1", "v2", "my.tex", "a.html", "x y", "", 5, 0])
            else:
                n = r.choice(list(PNAMES))
                k, v = n + (("." + r.choice(SPEC)) if r.random() < .4 else ""), "+" + PNAMES[n]
            if k not in used:
                used.add(k)
                out.append([k, v])
        yield out


def build(es):
    a = Attributes()
    for k, v in es:
        a[k] = POS[v[1]] if isinstance(v, str) and v[:1] == "+" else v
    return a


def with_target():
    for es in entries():
        for t in (None, "tex", ".html") if not THOROUGH else [None] + SPEC + [".tex"]:
            yield [es, t]


def norm(t):
    return t.strip(".") if t else t


def find(a, attr, t):
    """(key, value) for a name, by the rule: target entry, else general entry"""
    t = norm(t)
    if t is not None and attr + "." + t in a:
        return attr + "." + t
    return attr if attr in a else None


@check("lookup", with_target)
def _(case):
    "a name is looked up as the entry written for the target if any, else the general entry; the value is returned as stored"
    es, t = case
    a = build(es)
    before = list(a.items())
    for attr in sorted({base(k)[0] for k in a} | set(a)) + ["missing"]:
        k = find(a, attr, t)
        exp = None if k is None else (k, a[k])
        got = a.find_item(attr, target=t)
        if got != exp:
            return "find_item(%r, %r) = %r, expected %r" % (attr, t, got, exp)
        d = object()
        if k is None and (a.find_item(attr, target=t, default=d) is not d or a.get(attr, target=t, default=d) is not d):
            return "default is not returned for %r" % attr
        g = a.get(attr, target=t)
        if g != (None if k is None else a[k]):
            return "get(%r, %r) = %r, expected %r" % (attr, t, g, None if k is None else a[k])
    if list(a.items()) != before:
        return "lookup changed the attributes"


@check("positional_lookup", with_target)
def _(case):
    "a positional value asked for by type is the first of that type written for the target, else the first general one"
    es, t = case
    a = build(es)
    tt = norm(t)
    for p in POS.values():
        items = [k for k, v in a.items() if ispositional(v, p)]
        mine = [k for k in items if tt and base(k)[1] == tt]
        gen = [k for k in items if base(k)[1] is None]
        pick = mine or gen
        exp = (pick[0], a[pick[0]]) if pick else None
        got = a.find_item(p, target=t)
        if got != exp:
            return "find_item(%s, %r) = %r, expected %r" % (p.__name__, t, got, exp)
        g = a.get(p, target=t)
        if g != (base(pick[0])[0] if pick else None):
            return "get(%s, %r) = %r" % (p.__name__, t, g)


def spec_filter(a, names, t, strip):
    t = norm(t)
    out = []
    keys = list(a)
    for k in keys:
        b, tg = base(k)
        if tg is None:
            if t is not None and k + "." + t in a:
                continue
        elif tg != t:
            continue
        if names is not None and k not in names and b not in names:
            continue
        out.append((b if strip else k, a[k]))
    return out


@check("filter_all", with_target)
def _(case):
    "filtering for a target keeps, in order and with their values, the general entries not overridden and the entries written for that target"
    es, t = case
    a = build(es)
    before = list(a.items())
    for strip in (True, False):
        got = a.filter(target=t, strip=strip)
        exp = spec_filter(a, None, t, strip)
        if list(got.items()) != exp:
            return "filter(target=%r, strip=%r) = %r, expected %r" % (t, strip, list(got.items()), exp)
        if type(got) is not Attributes:
            return "type"
        got["new"] = 1
        got.pop(next(iter(got)))
        if list(a.items()) != before:
            return "filtering or changing its result changed the attributes"


def named():
    r = rng("named")
    for es in entries():
        ks = [k for k, v in es]
        names = sorted({base(k)[0] for k in ks} | set(ks)) + ["missing"]
        for _ in range(2):
            n = [r.choice(names) for _ in range(r.randint(0, 4))]
            yield [es, r.choice([None, "tex", "html", ".tex", "xhtml"]), n[0] if n and r.random() < .3 else n]


@check("filter_names", named)
def _(case):
    "filtering for names yields, for each name, the entry a lookup would give, and nothing else"
    es, t, names = case
    a = build(es)
    before = list(a.items())
    ns = [names] if isinstance(names, str) else names
    exp = {}
    tt = norm(t)
    for n in dict.fromkeys(ns):
        b, tg = base(n)
        if tg is not None and tg != tt:
            continue
        if tg is not None:
            k = n if n in a else find(a, n, t)
        else:
            k = find(a, n, t)
        if k is not None:
            exp[k] = a[k]
    arg = copy.copy(names)
    for sba in (False, True):
        got = a.filter(attrs=arg, target=t, strip=False, sort_by_attrs=sba)
        if dict(got) != exp:
            return "filter(%r, %r, strip=False) = %r, expected %r" % (names, t, dict(got), exp)
        order = [k for k in a if k in got]
        if not sba and all(n in a for n in ns) and not any(base(k)[1] for k in got) and list(got) != order:
            return "order %r, expected %r" % (list(got), order)
        if sba and not any(base(n)[1] for n in ns):
            want = []
            for n in dict.fromkeys(ns):
                k = find(a, n, t)
                if k in exp and k not in want:
                    want.append(k)
            if list(got) != want:
                return "sorted by names: %r, expected %r" % (list(got), want)
    got = a.filter(attrs=names, target=t)
    # after stripping the entry written for the target wins over the general one of the same name
    es2 = {}
    for k, v in exp.items():
        b, tg = base(k)
        if tg is None and any(base(q) == (k, tt) for q in exp if base(q)[1]):
            continue
        es2[b] = v
    if dict(got) != es2:
        return "filter(%r, %r) = %r, expected %r" % (names, t, dict(got), es2)
    if arg != names or list(a.items()) != before:
        return "arguments changed"


@check("filter_positional", with_target)
def _(case):
    "filtering by positional type gives the value a lookup would give"
    es, t = case
    a = build(es)
    for p in POS.values():
        f = a.find_item(p, target=t)
        for arg in (p, [p], (p,)):
            got = a.filter(attrs=arg, target=t, strip=False)
            if list(got.items()) != ([f] if f else []):
                return "filter(%r, %r) = %r, expected %r" % (arg, t, dict(got), f)


@check("strip", entries)
def _(case):
    "stripping removes target suffixes; the entry written for a target wins over the general one; order and values stay"
    seen = set()
    es = []
    for k, v in case:
        b, t = base(k)
        if t is not None:
            if b in seen:
                continue
            seen.add(b)
        es.append([k, v])
    a = build(es)
    spec = {base(k)[0] for k, v in es if base(k)[1]}
    exp = [(base(k)[0], v) for k, v in a.items() if not (base(k)[1] is None and k in spec)]
    a.strip()
    return same(list(a.items()), exp, "strip")


@check("copy", entries)
def _(case):
    "a copy is equal and independent"
    a = build(case)
    b = a.copy()
    if list(b.items()) != list(a.items()) or type(b) is not Attributes or b is a:
        return "copy %r" % b
    b["new"] = 1
    for k in list(b)[:1]:
        del b[k]
    return same(list(a.items()), list(build(case).items()), "original")


@check("render", entries)
def _(case):
    "html and LaTeX arguments write every entry exactly once in order, positional entries without a value"
    a = build(case)
    it = list(a.items())
    html = " ".join(k if ispositional(v) else "%s='%s'" % (k, v) for k, v in it)
    args = "".join("{%s}" % (k if ispositional(v) else v) for k, v in it)
    opts = "[" + ", ".join(k if ispositional(v) else "%s=%s" % (k, v) for k, v in it) + "]" if it else ""
    tup = tuple(k if ispositional(v) else (k, v) for k, v in it)
    return same(a.html, html, "html") or same(a.tex_arguments, args, "tex_arguments") or same(a.tex_optionals, opts, "tex_optionals") or \
        same(a.totuple(), tup, "totuple") or same(list(a.items()), it, "attributes")


@check("separator", with_target, scale(1500, 6000))
def _(case):
    "with another separator of name and target, lookup, filtering and stripping do the same"
    es, t = case

    def other(k):
        b, g = base(k)
        return b if g is None else b + ":" + g
    a, b = build(es), build([[other(k), v] for k, v in es])
    if len(b) != len(a):
        raise Skip
    for strip in (True, False):
        exp = [(k if strip else other(k), v) for k, v in a.filter(target=t, strip=strip).items()]
        got = list(b.filter(target=t, strip=strip, sep=":").items())
        if got != exp:
            return "filter(%r, strip=%r, sep=':') of %r = %r, expected %r" % (t, strip, list(b), got, exp)
    for k in {base(k)[0] for k in a}:
        if a.get(k, target=t) != b.get(k, target=t, sep=":"):
            return "get(%r, %r, sep=':') = %r" % (k, t, b.get(k, target=t, sep=":"))
    a.strip()
    b.strip(sep=":")
    return same(list(b.items()), list(a.items()), "stripped")


def written():
    r = rng("written")
    for _ in range(scale(1500)):
        out = []
        for _ in range(r.randint(0, 6)):
            q = r.choice(["'", '"', ""])
            if r.random() < .6:
                k = r.choice(["class", "width", "width.tex", "k1", "a.b.html", "Z_"])
                v = r.choice(["v", "3", "1.5", "my.tex", "a/b-c"] + (["x y", "a=b", "p, q"] if q else []))
                out.append([k, v, q, r.choice(["=", "=", " = ", "= "])])
            else:
                v = r.choice(["first", "3", "1.5", "4.tex", "latex", "my.png", "pos.html", "a/b"] + (["two words", "x, y"] if q else []))
                out.append([None, v, q, ""])
        yield [out, r.choice([" ", "  ", "\n", " "])]


def ptype(v):
    v = base(v)[0]
    for t, p in ((int, "I"), (float, "F")):
        try:
            t(v)
            return POS[p]
        except ValueError:
            pass
    return StringPositionalValue


@check("parse", written)
def _(case):
    "an attribute text is read as its entries, in order, with their values (quotes removed) and positional types"
    es, sep = case
    txt = sep.join((k + eq + q + v + q) if k else q + v + q for k, v, q, eq in es)
    exp = {}
    for k, v, q, eq in es:
        exp[k or v] = v if k else ptype(v)
    got = Attributes(txt)
    return same(list(got.items()), list(exp.items()), "Attributes(%r)" % txt)


def appends():
    r = rng("append")
    for es in entries():
        if r.random() < .3:
            yield [es, r.choice(["class", "k", "new", "width.tex"]), r.choice([None, "v", 3])]


@check("append", appends)
def _(case):
    "appending adds a value to the entry of that name (separated by a space) or creates it; other entries stay"
    es, k, v = case
    a = build(es)
    if v is not None and ispositional(a.get(k)):
        return
    old = list(a.items())
    a.append(k, v) if v is not None else a.append(k)
    exp = dict(old)
    if v is None:
        exp[k] = PositionalValue
    else:
        exp[k] = (str(exp[k]) + " " + str(v)) if k in exp else v
    return same(list(a.items()), list(exp.items()), "append")
