import re
from common import *
import project as P
from disseminate.tags import Tag
from disseminate.tags.tag import TagFactory
from disseminate.tags.receivers.typography import process_tag_typography, process_typography

WORD = re.compile(r"\w")


def space(c):
    return c.isspace()


def model(s):
    """typographic form of a text, character by character"""
    def sub(s, toks, ch):
        out, i = "", 0
        while i < len(s):
            t = next((t for t in toks if s.startswith(t, i)), None)
            if t:
                out = out.rstrip() + ch
                i += len(t)
                while i < len(s) and space(s[i]):
                    i += 1
            else:
                out += s[i]
                i += 1
        return out
    s = sub(s, ["---", "\u2014"], "\u2014")
    s = sub(s, ["--", "\u2013"], "\u2013")
    word = lambda i: 0 <= i < len(s) and bool(WORD.match(s[i]))
    solid = lambda i: 0 <= i < len(s) and not space(s[i])
    res = []
    for i, c in enumerate(s):
        if c == "'":
            if word(i - 1) and word(i + 1):
                c = "\u2019"
            elif not word(i - 1) and solid(i + 1):
                c = "\u2018"
            elif solid(i - 1) and not word(i + 1):
                c = "\u2019"
        elif c == '"':
            if not word(i - 1) and solid(i + 1):
                c = "\u201c"
            elif solid(i - 1) and not word(i + 1):
                c = "\u201d"
        res.append(c)
    return "".join(res)


def texts():
    for s in strings(["a", " ", "-", "'", '"'], scale(6, 7)):
        yield [s]
    for s in strings(["--", "---", " ", "\u2013", "\u2014", "x", "\u00a0", "\n"], scale(4, 5)):
        yield [s]
    r = rng("c16")
    for _ in range(scale(4000)):
        yield [randstr(r, ["a", "B9", " ", "-", "--", "---", "'", '"', "\u2013", "\u2014", "\u2019", ".", ",", "(", "\u00a0", "\n", "\t", "_", "\u00e9", "@"], 14)]


@check("text", texts)
def _(case):
    "only double and triple hyphens with the space around them and straight quotes change, to the dash and the quote for their place; all other characters stay in order; doing it twice is doing it once"
    s = case[0]
    got = process_tag_typography(s, tag_base_cls=Tag)
    r = same(got, model(s), "typography of %r" % s)
    if r:
        return r
    rest = lambda x: [c for c in re.sub(r"[\s\u00a0]*(-{2,}|\u2013|\u2014)[\s\u00a0]*", "", re.sub(r"['\u2019\u2018]", "'", re.sub('["\u201c\u201d]', '"', x)))]
    if "---" not in s.replace(" ", "") and rest(got) != rest(s):
        return "other characters of %r changed: %r" % (s, got)
    return same(process_tag_typography(got, tag_base_cls=Tag), got, "typography done again")


def trees():
    r = rng("trees")

    def item(d):
        k = r.random()
        if k < .45 or d == 0:
            return randstr(r, ["a", " ", "--", "---", "'", '"'], 5)
        if k < .6:
            return [item(d - 1) for _ in range(r.randint(0, 3))]
        return {"c": item(d - 1), "off": r.random() < .3}
    for _ in range(scale(2500)):
        yield [item(4)]


@check("trees", trees)
def _(case):
    "typography reaches every text in tags and lists, except inside tags that opt out, and keeps the structure and the tags themselves"
    made = []

    def build(x):
        if isinstance(x, str):
            return x
        if isinstance(x, list):
            return [build(i) for i in x]
        t = Tag(name="t", content="", attributes="", context=CTX)
        t.content = build(x["c"])
        if x["off"]:
            t.process_typography = False
        made.append(t)
        return t

    def exp(x, off=False):
        if isinstance(x, str):
            return x if off else model(x)
        if isinstance(x, list):
            return [exp(i, off) for i in x]
        return {"c": exp(x["c"], off or x["off"]), "off": x["off"]}
    seen = []

    def view(x):
        if isinstance(x, str):
            return x
        if isinstance(x, list):
            return [view(i) for i in x]
        c = {"c": view(x.content), "off": not x.process_typography}
        seen.append(id(x))
        return c
    t = build(case[0])
    got = process_tag_typography(t, tag_base_cls=Tag)
    if not isinstance(t, str) and got is not t:
        return "another object is returned"
    r = same(view(got), exp(case[0]), "content")
    if r:
        return r
    if seen != [id(x) for x in made]:
        return "the tags are not the same objects"
    process_tag_typography(got, tag_base_cls=Tag)
    return same(view(got), exp(case[0]), "content after doing it again")


CTX = type("C", (dict,), {})()

SRC = ["a -- 'b'", "@b{x---y \"q\"}", "@verb{a -- 'b' @b{--}}", "@python{x -- '@i{y}'}", "@i{a -- @verb{'c' -- d} -- e}", "\n\n", "@zz{don't @b{--}}", "@v{---}", "word"]


def docs():
    r = rng("docs")
    for n in (1, 2):
        for x in lists(SRC, n, n):
            yield [x]
    for _ in range(scale(100)):
        yield [[r.choice(SRC) for _ in range(r.randint(1, 6))]]


@check("documents", docs, limit=30)
def _(case):
    "in a document body the contents of verbatim and code tags stay as written, wherever they are, and all other text is typographic"
    c = P.shared_context()
    src = " ".join(case[0])
    body = TagFactory.tag(tag_name="body", tag_content=src, tag_attributes="", context=c)
    verb = []
    bad = []

    def walk(x):
        if isinstance(x, list):
            for i in x:
                walk(i)
        elif isinstance(x, str):
            if model(x) != x:
                bad.append(x)
        elif x.process_typography:
            walk(x.content)
        else:
            verb.append(x.content)
    walk(body)
    if bad:
        return "text %r of %r is not typographic" % (bad, src)
    want = re.findall(r"@(?:verb|v|python)\{((?:[^{}]|\{[^{}]*\})*)\}", src)
    return same(verb, want, "verbatim contents of %r" % src)
