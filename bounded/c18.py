import re
from common import *
import project as P
from lxml import etree
from lxml.builder import E as EL
from disseminate.formats import xhtml_list
from disseminate.tags.list import List, OrderedList, parse_string_list, clean_string_list, normalize_levels

BUL = re.compile(r"^[ \t]*[*-]")


def model(s):
    """[(spaces before the bullet, text)] of a text list, line by line"""
    out = []
    for line in s.split("\n"):
        if BUL.match(line):
            ind, rest = re.match(r"([ \t]*)[*-](.*)$", line, re.S).groups()
            out.append([ind.count(" "), rest])
        elif out:
            out[-1][1] += "\n" + line
    return [(n, t.strip()) for n, t in out]


def norm(s):
    return " ".join(s.split())


def texts():
    for s in strings(["- a", "\n", "  ", "b"], scale(5, 7)):
        yield [s]
    r = rng("c18")
    for _ in range(scale(3000)):
        ls = []
        for _ in range(r.randint(0, 8)):
            k = r.random()
            if k < .65:
                ls.append(" " * r.choice([0, 0, 1, 2, 2, 3, 4, 6, 9]) + r.choice("-*") + r.choice([" ", "", "  "]) + r.choice(["it", "one two", "a - b", "x*y", ""]) + str(len(ls)))
            elif k < .8:
                ls.append(" " * r.randint(1, 6) + "cont %d" % len(ls))
            elif k < .9:
                ls.append(" " * r.choice([0, 0, 1, 3, 5]))
            else:
                ls.append("flat%d" % len(ls))
        yield ["\n".join(ls) + r.choice(["", "\n", "\n  "])]


@check("parse", texts)
def _(case):
    "a text list has one item per bullet line, in order, with the text up to the next bullet, and the item's level is its indentation"
    s = case[0]
    got = parse_string_list(s)
    exp = model(s)
    r = same([(n, t) for n, t in got], exp, "items of %r" % s)
    if r:
        return r
    cl = clean_string_list(got)
    if [(n, norm(t)) for n, t in cl] != [(n, norm(t)) for n, t in exp]:
        return "cleaned items %r, expected %r" % (cl, exp)
    for (n, t), (m, u) in zip(cl, exp):
        if re.search(r"\n\s", t):
            return "continuation lines of %r are not joined" % t
        if re.sub(r"\s*\n+\s+", " ", u) != t:
            return "item %r cleaned to %r" % (u, t)
    if got != exp:
        return "cleaning changed its argument"


def levels():
    for t in lists([0, 1, 2, 3, 4, 7], 4):
        yield [t]
    r = rng("lv")
    for _ in range(scale(800)):
        yield [[r.randint(0, 20) for _ in range(r.randint(0, 10))]]


@check("levels", levels)
def _(case):
    "normal levels are integers >= 0, smallest zero, and grow with the indentation; the items stay"
    ls = case[0]
    arg = [(n, "i%d" % k) for k, n in enumerate(ls)]
    got = normalize_levels(list(arg))
    if [t for _, t in got] != [t for _, t in arg]:
        return "items %r" % got
    lv = [n for n, _ in got]
    if any(type(n) is not int or n < 0 for n in lv) or lv and min(lv) != 0:
        return "levels %r for %r" % (lv, ls)
    for a, x in zip(ls, lv):
        for b, y in zip(ls, lv):
            if a < b and not x <= y or a == b and x != y or a + 2 <= b and not x < y:
                return "levels %r for indentations %r" % (lv, ls)


def tree(e):
    """[(depth, text)] of the items below a list element, checking where lists stand"""
    out = []

    def go(e, d, parent_ok):
        prev = None
        for c in e:
            if c.tag in ("ol", "ul"):
                if prev is None:
                    out.append((d, "LIST WITHOUT ITEM"))
                go(c, d + 1, True)
            else:
                out.append((d, c.text))
                prev = c
    go(e, 0, True)
    return out


def depths(ls):
    """depth of each item: inside the list of the nearest preceding item of smaller level"""
    d = []
    for i, n in enumerate(ls):
        j = next((j for j in range(i - 1, -1, -1) if ls[j] < n), None)
        d.append(0 if j is None else d[j] + 1)
    return d


def nests():
    for t in lists([0, 1, 2, 3], 5):
        yield [t]
    r = rng("nest")
    for _ in range(scale(500)):
        yield [[r.randint(0, 5) for _ in range(r.randint(1, 14))]]


@check("nesting", nests)
def _(case):
    "rendered list items keep their order and each stands in the list of the nearest preceding item of smaller level"
    ls = case[0]
    els = lambda: [(n, EL("li", "i%d" % k)) for k, n in enumerate(ls)]
    exp = [(d, "i%d" % k) for k, d in enumerate(depths(ls))]
    for kind in ("ol", "ul"):
        for m in ("html", "xhtml"):
            e = xhtml_list(*els(), listtype=kind, level=2, method=m, attributes="class=top id=x")
            if e.tag != kind or any(x.tag not in (kind, "li") for x in e.iter()):
                return "elements %r" % [x.tag for x in e.iter()]
            r = same(tree(e), exp, "items of levels %r" % ls)
            if r:
                return r
            if e.get("class") != "top" or any(x.get("class") for x in list(e.iter())[1:]):
                return "attributes are not on the outer list only"
    s = xhtml_list(*els(), listtype="ul", level=1, method="xhtml")
    return same(tree(etree.fromstring(s)), exp, "written items of levels %r" % ls)


def tags():
    r = rng("tags")
    for _ in range(scale(400)):
        ls = []
        for k in range(r.randint(1, 7)):
            ls.append(" " * r.choice([0, 2, 2, 4, 4, 6, 1, 3]) + "- w%dw @b{x}" % k)
            if r.random() < .3:
                ls.append("        more")
            if r.random() < .2:
                ls.append(" " * r.randint(0, 4))
        yield ["\n".join(ls), r.choice(["list", "orderedlist"])]


@check("tags", tags)
def _(case):
    "a list tag has one item per bullet with its level; html and LaTeX keep the items in order with their nesting"
    s, name = case
    c = P.shared_context()
    t = (List if name == "list" else OrderedList)(name=name, content=s, attributes="", context=c)
    m = model(s)
    lo = min(n for n, _ in m)
    exp = [-(-(n - lo) // 2) for n, _ in m]
    if [i.attributes["level"] for i in t.content] != exp:
        return "levels %r, expected %r" % ([i.attributes["level"] for i in t.content], exp)
    words = [re.search(r"w\d+w", x).group() for _, x in m]
    if [re.search(r"w\d+w", str(i.txt)).group() for i in t.content] != words:
        return "items %r" % [i.txt for i in t.content]
    e = etree.fromstring(t.xhtml)
    got = [(d, x.strip()) for d, x in tree(e)]
    r = same(got, list(zip(depths(exp), words)), "rendered items")
    if r:
        return r
    tex = [(len(a) - 1, b) for a, b in re.findall(r"^(\u00a7+) (w\d+w)", t.tex, re.M)]
    return same(tex, list(zip(exp, words)), "LaTeX items")
