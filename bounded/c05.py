from common import *
import project as P
from disseminate.context import BaseContext
from disseminate.context.utils import load_from_string, find_header_entries
from disseminate.utils.string import str_to_dict, str_to_list, strip_end_quotes


def fence(line):
    "the dashes of a fence line, or None"
    t = line.strip(" \t")
    return t if len(t) >= 3 and set(t) == {"-"} else None


def split(text):
    """reference: (header, body) or None. The opening fence is the first non-blank line; the header is not empty;
    the closing fence is the first later line with the same dashes. None: no header; Skip: not specified."""
    lines = text.split("\n")
    i = 0
    while i < len(lines) and lines[i].strip(" \t") == "":
        i += 1
    if i >= len(lines) or fence(lines[i]) is None or i + 1 >= len(lines):
        return None
    d = fence(lines[i])
    j = i + 1
    # blank lines after the opening fence do not make a header
    while j < len(lines) and lines[j].strip(" \t") == "":
        j += 1
    if j >= len(lines):
        return None
    if fence(lines[j]) == d:
        raise Skip          # empty header
    k = j
    while k < len(lines) and fence(lines[k]) != d:
        k += 1
    if k >= len(lines):
        return None
    return "\n".join(lines[i + 1:k]), "\n".join(lines[k + 1:])


LINES = ["---", "----", "-----", " ---", "--- ", "", "a: 1", "  b", "--", "text --- dash", "---x", "- item", "b: ---", "#--- c"]


def fences():
    for n in range(1, 5):
        for t in itertools.product(LINES if n < 4 else LINES[:7] + ["---x", "- item"], repeat=n):
            yield ["\n".join(t)]
            if n < 4:
                yield ["\n".join(t) + "\n"]


@check("split", fences)
def _(case):
    "a text beginning with a header fenced by matching dashed lines gives a body that is exactly the text after the closing fence, else the whole text is the body"
    text = case[0]
    exp = split(text)
    ctx = BaseContext()
    rest, d = load_from_string(text)
    body = ctx.load(text)
    if exp is None:
        if rest is not None:
            return "no header in %r, but the body is %r" % (text, rest)
        m = same(body, text, "loaded body")
        return m or same(bool(find_header_entries({"body": text})), False, "found a header entry")
    h, b = exp
    m = same(rest, b, "body of %r" % text) or same(body, b, "loaded body")
    if m:
        return m
    if not find_header_entries({"body": text, "n": 1, "o": "x"}) == {"body"}:
        return "header entry not found"
    m = same(ctx.load(text, strip_header=False), text, "text when the header is kept")
    if m:
        return m
    try:
        return same(d, entries(h), "entries of %r" % text)
    except Skip:
        return None


def longs():
    r = rng("c05")
    for _ in range(scale(3000)):
        k = r.randint(3, 6)
        d = "-" * k
        other = "-" * r.choice([x for x in range(1, 9) if x != k])
        hdr = [r.choice(["k%d: v" % i, "  more", "", "x: " + d + " y", "z " + d, other, "  n: m", d + ": t", "u\\: w"]) for i in range(r.randint(1, 5))]
        body = [r.choice(["text", "", d, other, "  ind", "a: b", "--- x", "@b{c}"]) for _ in range(r.randint(0, 5))]
        lead = r.choice(["", "\n", " \n\n", "  "])
        yield [lead + d + r.choice(["", " "]) + "\n" + "\n".join(hdr) + "\n" + r.choice(["", "  "]) + d + "\n" + "\n".join(body)]


@check("split_random", longs)
def _(case):
    "the same over random headers and bodies"
    text = case[0]
    exp = split(text)
    rest, d = load_from_string(text)
    if exp is None:
        return None if rest is None else "no header in %r, but the body is %r" % (text, rest)
    m = same(rest, exp[1], "body of %r" % text)
    if m:
        return m
    try:
        return same(d, entries(exp[0]), "entries of %r" % text)
    except Skip:
        return None


def colon(s):
    "index of the first colon that is not escaped, or -1"
    for i, c in enumerate(s):
        if c == ":" and (i == 0 or s[i - 1] != "\\"):
            return i
    return -1


def unesc(s):
    return s.replace("\\:", ":")


def unquote(line):
    "reference: one line without its matched end quotes"
    t = line.strip()
    for q in "'\"":
        if len(t) >= 2 and t[0] == q and t[-1] == q and t.count(q) % 2 == 0:
            i, j = line.index(q), line.rindex(q)
            return line[:i] + line[i + 1:j] + line[j + 1:]
    return line


def entries(h, strip_quotes=True):
    d, cur, level = {}, None, None
    for line in h.split("\n"):
        body = line.lstrip(" ")
        ind = len(line) - len(body)
        i = colon(body)
        if i == 0:
            raise Skip          # a line beginning with a colon
        if i > 0 and body[:i].strip() == "":
            raise Skip
        if i > 0 and (level is None or ind <= level):
            level = ind
            cur = d.setdefault(unesc(body[:i].strip()), [])
            cur.append(unesc(body[i + 1:].lstrip()))
        elif cur is not None:
            cur.append(unesc(line[min(level, ind):]))
    out = {}
    for k, v in d.items():
        s = "\n".join(v).strip("\n")
        out[k] = "\n".join(map(unquote, s.split("\n"))) if strip_quotes else s
    return out


HL = ["a: 1", "b:", "  c: 2", "  item", "d:x: y", "a: 3", "", "   ", "e\\: f", "g: h\\:i", "j\\:k: l", "plain", " m: n", "q: 'r'", 's: "t" u', "  'v'", "@w: @x[y=1]{z}"]


def dicts():
    for n in (1, 2):
        for t in itertools.product(HL, repeat=n):
            yield ["\n".join(t)]
    r = rng("c05d")
    for t in itertools.product(HL[:12], repeat=3):
        yield ["\n".join(t)]
    for _ in range(scale(4000)):
        yield ["\n".join(" " * r.randint(0, 4) + r.choice(HL) for _ in range(r.randint(3, 8)))]


@check("entries", dicts)
def _(case):
    "every header line of the form key: value is an entry, further-indented or non-entry lines belong to the entry above, a repeated key accumulates, an escaped colon is a colon"
    h = case[0]
    e1, e2 = entries(h), entries(h, False)
    return (same(str_to_dict(h), e1, "entries of %r" % h) or same(list(str_to_dict(h)), list(e1), "order of the keys of %r" % h)
            or same(str_to_dict(h, strip_quotes=False), e2, "entries with quotes of %r" % h))


@check("quotes", lambda: ([s] for s in strings(["'", '"', "a", " ", "b\n"], scale(6, 8))))
def _(case):
    "only matched quotes at the ends of a line are removed, everything else is kept"
    s = case[0]
    if s.endswith("\n"):
        raise Skip
    return same(strip_end_quotes(s), "\n".join(unquote(x) for x in s.split("\n")), "quotes of %r" % s)


@check("to_list", lambda: ([s] for s in strings(["a", "b c", ",", ";", "\n", " "], scale(6, 7))))
def _(case):
    "list text is split at semicolons, else lines, else commas, without losing an item"
    s = case[0]
    got = str_to_list(s)
    sep = ";" if ";" in s else ("\n" if len([x for x in s.split("\n") if x.strip()]) > 1 else ("," if "," in s else None))
    exp = [x.strip() for x in (s.split(sep) if sep else [s])]
    g = [x.strip() for x in got if x.strip()]
    m = same(g, [x for x in exp if x], "items of %r" % s)
    if m:
        return m
    if any(x != x.strip() for x in got):
        return "items of %r keep the space around them: %r" % (s, got)


def typed():
    r = rng("c05t")
    for _ in range(scale(300)):
        items = [r.choice(["p", "q r", "s-t", "u.v"]) for _ in range(r.randint(1, 4))]
        yield [items, r.choice([", ", "; ", "\n  "])]


@check("header_update", typed)
def _(case):
    "header entries are decoded into the types the context has, and the body stays untouched"
    items, sep = case
    text = "---\nlst: %s\nst: %s\nnum: 4\nflag: true\nnew: %s\nmap:\n  x: 1\n  y: %s\n---\nbody: 1\n---\nrest" % (
        (sep if sep[0] == "\n" else "") + sep.join(items), (sep if sep[0] == "\n" else "") + sep.join(items), items[0], items[-1])
    c = BaseContext(lst=["old"], st=set(), num=1, flag=False, map={"x": 0})
    b = c.load(text)
    m = same(b, "body: 1\n---\nrest", "body")
    return m or same(dict(c), {"lst": items + ["old"], "st": set(items), "num": 4, "flag": True, "map": {"x": 1, "y": items[-1]}, "new": items[0]}, "entries")


DOC = ["body", "---\ntitle: T\n---\nbody", "---\na: 1\n---\n\n~~~\nb: 2\n~~~\n", "----\na: 1\n---\nb: 2\n----\nbody: x", "\n---\ntitle: x\n---\n\n  body\n"]


@check("document_body", lambda: ([t] for t in DOC))
def _(case):
    "a document's body is exactly the text after its header"
    text = case[0]
    env, doc = P.project({"test.dm": text})
    try:
        exp = split(text)
        body = text if exp is None else exp[1]
        got = doc.context["body"]
        src = "".join(flat(got.content))
        return same(src.strip(), body.strip(), "body of the document")
    finally:
        P.drop(env.scratch)


def flat(c):
    if isinstance(c, str):
        return [c]
    if isinstance(c, list):
        return [y for x in c for y in flat(x)]
    return flat(c.content)
