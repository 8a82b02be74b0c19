from common import *
import project as P
from disseminate.attributes import Attributes
from disseminate.tags import Tag
from disseminate.tags.tag import TagFactory
from disseminate.tags.text import Bold, Italics, Verb
from disseminate.tags.utils import repl_tags, replace_context, copy_tag, format_content, content_to_str


class Ctx(dict):
    pass


class Bolder(Bold):
    aliases = ()


CLS = {"tag": Tag, "b": Bold, "i": Italics, "bb": Bolder}


def trees(tag, lists_in_lists, n, extra=[]):
    r = rng(tag)

    def item(d, inlist=False):
        k = r.random()
        if k < .45 or d == 0:
            return r.choice(["x", "y z", "", "1"])
        if k < .6 and (not inlist or lists_in_lists):
            return [item(d - 1, True) for _ in range(r.randint(0, 4))]
        return {"n": r.choice(["tag", "b", "i", "zz"] + extra), "a": r.choice([[], [["k", "v"]], [["k", "v"], ["class.tex", "q"]]]), "c": item(d - 1)}
    for _ in range(n):
        yield [{"n": "tag", "a": [], "c": item(5)}]
    for k in (1, 3, 60):
        c = "end"
        for j in range(k):
            c = {"n": "b", "a": [["k", str(j)]], "c": c if j % 2 else ["s", c, "t"]}
        yield [c]


def build(x, c, made):
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return [build(i, c, made) for i in x]
    t = CLS.get(x["n"], Tag)(name=x["n"], content="", attributes=Attributes(dict(map(tuple, x["a"]))), context=c)
    made.append(t)
    t.content = build(x["c"], c, made)
    return t


def view(x):
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return [view(i) for i in x]
    return {"n": x.name, "a": [list(i) for i in x.attributes.items()], "c": view(x.content), "t": type(x).__name__, "x": id(x.context)}


def walk(x):
    if isinstance(x, list):
        yield x
        for i in x:
            for j in walk(i):
                yield j
    elif not isinstance(x, str):
        yield x
        for j in walk(x.content):
            yield j


@check("copy", lambda: trees("copy", True, scale(1200), ["bb"]))
def _(case):
    "a copied tag equals the original at every level and shares no tag, list or attributes with it; changing or moving the copy leaves the original as it was, and the other way round"
    c, c2 = Ctx(), Ctx()
    t = build(case[0], c, [])
    before = view(t)
    cp = t.copy()
    if cp != t or not (cp == t):
        return "the copy is not equal"
    r = same(view(cp), before, "copy") or same(view(t), before, "original after copying")
    if r:
        return r
    mine = {id(i) for i in walk(t)} | {id(i.attributes) for i in walk(t) if isinstance(i, Tag)}
    for i in walk(cp):
        if id(i) in mine or isinstance(i, Tag) and id(i.attributes) in mine:
            return "the copy shares %r with the original" % (i,)
    moved = t.copy(new_context=c2)
    if any(i.context is not c2 for i in walk(moved) if isinstance(i, Tag)):
        return "a tag of the moved copy has the old context"
    r = same(view(t), before, "original after moving the copy")
    if r:
        return r
    kept = t.copy()
    for a, b in ((cp, t), (t, kept)):
        for i in list(walk(a)):
            if isinstance(i, list):
                i.append("new")
                i.insert(0, Tag(name="new", content="", attributes="", context=c2))
            else:
                i.attributes["new"] = "1"
                i.attributes.pop("k", None)
                i.context = c2
                i.name += "!"
                if isinstance(i.content, str):
                    i.content = "changed"
        r = same(view(b), before, "the other tag after changing one")
        if r:
            return r


@check("equal", lambda: trees("equal", False, scale(300)))
def _(case):
    "tags that differ in a name, an attribute, a text or the context at any level are not equal"
    c = Ctx()
    n = [0]
    t = build(case[0], c, [])
    for k, i in enumerate(x for x in walk(t)):
        o = t.copy()
        j = list(walk(o))[k]
        if isinstance(j, list):
            j.append("z")
            if o == t:
                return "equal though a content differs"
            continue
        for f in ("name", "attr", "content", "context"):
            o = t.copy()
            j = list(walk(o))[k]
            if f == "name":
                j.name += "z"
            elif f == "attr":
                j.attributes["z"] = "1"
            elif f == "content":
                j.content = [j.content, "z"]
            else:
                n.append(Ctx())
                j.context = n[-1]
            if o == t:
                return "equal though a %s differs" % f


@check("flatten", lambda: trees("flatten", True, scale(1200)))
def _(case):
    "flattening lists the tag and every nested tag once, in document order; moving to a context moves all of them"
    c, c2 = Ctx(), Ctx()
    made = []
    t = build(case[0], c, made)
    got = t.flatten()
    if [id(i) for i in got] != [id(i) for i in made]:
        return "flattened %r, expected %r" % (got, made)
    if [id(i) for i in t.flatten(filter_tags=False) if isinstance(i, Tag)] != [id(i) for i in made]:
        return "flattening with all items lists other tags"
    for m in made[1:3]:
        if [id(i) for i in t.flatten(tag=m)] != [id(i) for i in walk(m) if isinstance(i, Tag)]:
            return "flattening a nested tag"
    replace_context(t, c2)
    if any(i.context is not c2 for i in made):
        return "a tag was not moved"


@check("replace", lambda: trees("replace", True, scale(1200), ["bb"]))
def _(case):
    "replacing tags of a class (or a subclass) replaces every outermost one, at any depth, and keeps everything else in order"
    c = Ctx()
    t = build(case[0], c, [])
    for rep in ("R", Tag(name="rep", content="q", attributes="", context=c)):
        t = build(case[0], c, [])
        top = isinstance(t, Bold)

        def exp(x):
            if isinstance(x, str):
                return x
            if isinstance(x, list):
                return [exp(i) for i in x]
            if isinstance(x, Bold):
                return view(rep)
            v = view(x)
            v["c"] = exp(x.content)
            return v
        want = exp(t)
        got = repl_tags(t, Bold, rep)
        r = same(view(got), want, "after replacing")
        if r:
            return r
        if not top and got is not t:
            return "another tag is returned"


@check("render", lambda: trees("render", False, scale(600)))
def _(case):
    "rendering reaches every nested tag and keeps every text in order, and leaves the tag as it was"
    c = Ctx()
    t = build(case[0], c, [])
    before = view(t)
    n = [0]

    def txt(x):
        if isinstance(x, str):
            return x
        if isinstance(x, list):
            return "".join(txt(i) for i in x)
        return txt(x.content)

    def tex(x):
        if isinstance(x, str):
            return x
        if isinstance(x, list):
            return "".join(tex(i) for i in x)
        s = tex(x.content)
        return "\\%s{%s}" % ({"Bold": "textbf", "Italics": "textit"}[type(x).__name__], s) if isinstance(x, (Bold, Italics)) else s

    def html(x):
        if isinstance(x, str):
            return x
        if isinstance(x, list):
            return "".join(html(i) for i in x)
        s = html(x.content)
        n, a = (x.html_name, "") if x.html_name else ("span", ' class="%s"' % x.name)
        return "<%s%s>%s</%s>" % (n, a, s, n) if s or True else ""
    def has_empty_list(x):
        return isinstance(x.content, list) and not x.content or any(isinstance(i, list) and not i for i in walk(x))
    r = same(t.txt, txt(t), "text") or same(t.default, txt(t), "default") or same(t.tex, tex(t), "tex")
    if r:
        return r
    h = re.sub(r"\s*\n\s*", "", str(t.html))
    r = same(h.replace(" ", ""), html(t).replace(" ", "").replace("\n", ""), "html")
    if r:
        return r
    x = re.sub(r"\s*\n\s*", "", str(t.xhtml))
    e = re.sub(r"<(\w+)([^>]*)></\1>", r"<\1\2/>", html(t))
    return same(x.replace(" ", ""), e.replace(" ", ""), "xhtml") or same(view(t), before, "tag after rendering")


import re


def imgs():
    for first in ("copy", "orig"):
        for how in ("content", "attr"):
            for kind in ("img", "eq"):
                yield [first, how, kind]


@check("images", imgs, limit=60)
def _(case):
    "changing a copied image or equation does not change what the original renders to, nor vice versa"
    first, how, kind = case
    import disseminate.tags.img as I
    seen = []

    class Out(type(__import__("pathlib").Path())):
        def get_url(self, **kw):
            return str(self)

    def fake(parameters, context, **kw):
        e = context.get("eq")
        seen.append(e.content if e is not None else str(parameters[0]))
        return [Out("/out/%d" % len(seen))]
    c = P.shared_context()
    old = I.add_file.emit
    I.add_file.emit = lambda **kw: fake(**kw)
    try:
        t = TagFactory.tag(tag_name=kind, tag_content="aa", tag_attributes="k=1", context=c)
        if first == "orig":
            t.html
            del seen[:]
        cp = t.copy()
        cp.content = "bb"
        if first == "copy":
            cp.html
            if not seen or "bb" not in seen[-1]:
                return "the changed copy renders %r" % seen
            del seen[:]
            t.html
            return None if seen and "aa" in seen[-1] else "the original renders %r" % (seen or "the file of the copy")
        cp.html
        return None if seen and "bb" in seen[-1] else "the changed copy renders %r" % (seen or "the file of the original")
    finally:
        I.add_file.emit = old
