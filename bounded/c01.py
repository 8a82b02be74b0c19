from common import *
import project as P
from disseminate.tags.tag import Tag, TagFactory
from disseminate.tags.exceptions import TagError
from disseminate.tags.receivers.content import parse_tags
from disseminate.utils.string import group_strings
from disseminate.attributes import Attributes
from disseminate import settings


class Bad(Exception):
    pass


MAXBRACE = 10


def ref(text):
    """reference parser: content of a text; Bad when a brace is not closed or nested too deeply"""
    out, i, lit = [], 0, ""
    while i < len(text):
        if text[i] == "@" and i + 1 < len(text) and text[i + 1].isalnum() and text[i + 1].isascii():
            j = i + 1
            while j < len(text) and (text[j].isalnum() or text[j] == "_"):
                j += 1
            name, attrs = text[i + 1:j], None
            if j < len(text) and text[j] == "[":
                k = text.find("]", j + 1)
                if k > j + 1:
                    attrs, j = text[j:k + 1], k + 1
            content = ""
            if j < len(text) and text[j] == "{":
                depth, k = 1, j + 1
                while k < len(text) and depth:
                    if text[k] == "{": depth += 1
                    elif text[k] == "}": depth -= 1
                    if depth >= MAXBRACE: raise Bad
                    k += 1
                if depth:
                    raise Bad
                content, j = ref(text[j + 1:k - 1]), k
            if lit:
                out.append(lit)
            lit = ""
            out.append((name, attrs, content))
            i = j
        else:
            lit += text[i]
            i += 1
    if lit:
        out.append(lit)
    return out[0] if len(out) == 1 else out if out else ""


def view(c):
    "content as strings, lists and (name, attributes, content)"
    if isinstance(c, str):
        return c
    if isinstance(c, list):
        return [view(x) for x in c]
    return (c.name, list(c.attributes.items()), view(c.content))


def norm(c):
    if isinstance(c, str):
        return c
    if isinstance(c, list):
        return [norm(x) for x in c]
    return (c[0], list(Attributes(c[1]).items()), norm(c[2]))


def ctx():
    return P.shared_context()


def bodycontent(text):
    return Tag(name="root", content=text, attributes="", context=ctx()).content


def holds(text, parser):
    try:
        exp = norm(ref(text))
    except Bad:
        exp = None
    try:
        got = parser(text)
    except TagError:
        return None if exp is None else "tag error for the well-formed text %r" % text
    if exp is None:
        return "no tag error for %r, but content %s" % (text, short(view(got)))
    return same(view(got), exp, "content of %r" % text)


def both(text):
    return (holds(text, lambda t: parse_tags(content=t, context=ctx(), tag_factory=TagFactory)) or holds(text, bodycontent))


PIECES = ["@aa", "@x1{", "{", "}", "t", " ", "[k=v]", "[", "]", "@", "@bb[p]{"]


def enum():
    for t in lists(PIECES, scale(4, 5)):
        yield ["".join(t)]


@check("texts", enum)
def _(case):
    "parsing yields exactly the tags written, in order, with name, attributes and content, and every other character unchanged; an unclosed tag raises a tag error"
    return both(case[0])


def gen(r, depth):
    out = []
    for _ in range(r.randint(0, 4)):
        k = r.random()
        if k < .45 or depth == 0:
            out.append(r.choice(["text", " ", "\n", "a, b; c", "x_y", "é∂", "@ ", "@@", "[z]", "é@", "(1)", "\t", "&<>", "\\", "$", "%", "#"]))
        elif k < .55:
            out.append("{" + gen(r, depth - 1) + "}")
        else:
            out.append("@" + r.choice(["qa", "b", "i", "Zz", "q_1", "9a", "sup"]) + r.choice(["", "", "[u]", '[a=1 b=qr]', "[.c]"])
                       + r.choice(["", "{" + gen(r, depth - 1) + "}", "{" + gen(r, depth - 1) + "}"]))
    return "".join(out)


def rand():
    r = rng("c01")
    for _ in range(scale(2500)):
        t = gen(r, r.randint(1, 5))
        yield [t]
        if r.random() < .3 and t:
            # damage it
            i = r.randrange(len(t))
            yield [t[:i] + t[i + 1:]]
            yield [t[:i] + r.choice("{}@[]") + t[i:]]


@check("random", rand)
def _(case):
    "the same over random nested sources, well-formed and damaged"
    return both(case[0])


@check("depth", lambda: ([n, k, o] for n in range(1, 14) for k in range(4) for o in ("", "}", "{")))
def _(case):
    "nesting up to the allowed depth is parsed exactly, deeper nesting and unclosed braces raise a tag error"
    n, k, o = case
    if k == 0: t = "@aa{" * n + "x" + "}" * n
    elif k == 1: t = "@aa" + "{" * n + "x" + "}" * n
    elif k == 2: t = "p @aa{" + "{q}" * n + "@bb{" * n + "}" * n + "} z"
    else: t = "@aa{" * n + "}" * (n - 1) + ("}" if o else "")
    return both(t + o)


def lens():
    for n in (50, 1000, 20000):
        for k in range(3):
            yield [n, k]


@check("long", lens, limit=60)
def _(case):
    "long texts lose nothing"
    n, k = case
    t = ["w " * n, "@aa{x} y\n" * (n // 10), "@aa{" + "{z} q " * (n // 10) + "}"][k]
    return both(t)


@check("listdepth", lambda: ([n] for n in range(0, settings.tag_max_depth + 4)))
def _(case):
    "structured content nested beyond the allowed depth raises a tag error, else it is kept"
    n = case[0]
    c = "x"
    for _ in range(n):
        c = [c]
    deep = n + 1 >= settings.tag_max_depth
    try:
        got = parse_tags(content=c, context=ctx(), tag_factory=TagFactory)
    except TagError:
        return None if deep else "tag error for content nested %d deep" % n
    return "no tag error for content nested %d deep" % n if deep else same(got, c, "content")


def struct():
    r = rng("c01s")

    def item(d):
        k = r.random()
        if k < .5 or d == 0:
            return r.choice(["", "a", "p @qa{r} s", "@qb", "@qa{x @qb{y}}", " "])
        if k < .75:
            return [item(d - 1) for _ in range(r.randint(0, 3))]
        return {"name": r.choice(["qc", "qd"]), "c": item(d - 1)}
    for _ in range(scale(800)):
        yield [[item(3) for _ in range(r.randint(0, 4))]]


@check("structured", struct)
def _(case):
    "content that is already structured keeps its structure: each list keeps its items, each tag stays the same tag, and only the texts in it are parsed; parsing again changes nothing"
    tags = []

    def build(x):
        if isinstance(x, list):
            return [build(y) for y in x]
        if isinstance(x, dict):
            t = Tag(name=x["name"], content="", attributes="k=1", context=ctx())
            t.content = build(x["c"])
            tags.append(t)
            return t
        return x

    def exp(x):
        if isinstance(x, list):
            return [exp(y) for y in x]
        if isinstance(x, dict):
            return (x["name"], [("k", "1")], exp(x["c"]))
        return norm(ref(x))
    got = parse_tags(content=build(case[0]), context=ctx(), tag_factory=TagFactory)
    m = same(view(got), exp(case[0]), "content")
    if m:
        return m
    ids = []

    def walk(c):
        if isinstance(c, list):
            for x in c: walk(x)
        elif not isinstance(c, str):
            ids.append(id(c)); walk(c.content)
    walk(got)
    if any(id(t) not in ids for t in tags):
        return "a tag was replaced by another one"
    before = view(got)
    again = parse_tags(content=got, context=ctx(), tag_factory=TagFactory)
    return same(view(again), before, "content parsed again")


class Num:
    def __init__(self, n): self.n = n
    def __bool__(self): return bool(self.n)
    def __eq__(self, o): return isinstance(o, Num) and o.n == self.n
    def __repr__(self): return "N%d" % self.n


def groups():
    al = ["", "a", "b ", 0, 1, ["L"], ["", "x", "y"], []]
    for t in lists(list(range(len(al))), scale(4, 5)):
        yield [[al[i] for i in t]]
    r = rng("c01g")

    def item(d):
        if d and r.random() < .4:
            x = [item(d - 1) for _ in range(r.randint(0, 4))]
            return x if r.random() < .5 else {"c": x}
        return r.choice(["", "p", "q", 0, 2])
    for _ in range(scale(1000)):
        yield [[item(3) for _ in range(r.randint(0, 5))]]


@check("group_strings", groups)
def _(case):
    "adjacent strings are merged, empty ones dropped, and everything else keeps its place"
    def build(x):
        if isinstance(x, list): return [build(y) for y in x]
        if isinstance(x, dict):
            t = Tag(name="qa", content="", attributes="", context=ctx())
            t.content = build(x["c"])
            return t
        return Num(x) if isinstance(x, int) else x

    def exp(x):
        if isinstance(x, list):
            out = []
            for y in x:
                if y == "": continue
                z = exp(y)
                if isinstance(z, str) and out and isinstance(out[-1], str): out[-1] += z
                else: out.append(z)
            return out
        if isinstance(x, dict): return ("qa", [], exp(x["c"]))
        return Num(x) if isinstance(x, int) else x

    def vw(c):
        if isinstance(c, list): return [vw(x) for x in c]
        if isinstance(c, Tag): return (c.name, [], vw(c.content))
        return c
    lst = build(case[0])
    got = group_strings(lst)
    m = same(vw(got), exp(case[0]), "grouped")
    if m:
        return m
    got2 = group_strings(got)
    return same(vw(got2), exp(case[0]), "grouped again")


KNOWN = ["b", "i", "p", "list", "featurebox", "body", "sup", "eq", "table", "figure", "note", "verb", "code"]


@check("known_tags", lambda: ([n, b] for n in KNOWN for b in ["{}", "{ }", "", "{x}", "{@b{}}"]))
def _(case):
    "a tag written in a text is present after parsing, even when its content is empty"
    n, b = case
    c = bodycontent("s0 @%s%s e1" % (n, b))
    if not isinstance(c, list) or len(c) != 3 or c[0] != "s0 " or c[2] != " e1" or getattr(c[1], "name", None) != n:
        return "content is %r" % (c,)
