import re
from common import *
import project as P
from disseminate.tags import Tag
from disseminate.tags.tag import TagFactory
from disseminate.tags.text import P as PTag
from disseminate.tags.receivers.paragraphs import process_paragraph_tags, group_paragraphs, clean_paragraphs, assign_paragraph_roles

BLANK = re.compile(r"\s*\n\s*\n\s*")


class Ctx(dict):
    pass


def ctx():
    return Ctx(process_paragraphs=[])


def mk(x, c):
    if isinstance(x, str):
        return x
    k = {"i": "in", "x": "out"}[x[0]]
    t = Tag(name=k, content=x[1], attributes="", context=c)
    if k == "out":
        t.include_paragraphs = False
    return t


def model(items):
    """paragraphs (lists of items) and the elements outside of them, in order"""
    out, cur = [], []

    def flush():
        if any(not isinstance(i, str) or i.strip() for i in cur):
            out.append(list(cur))
        del cur[:]
    for it in items:
        if isinstance(it, str):
            for n, piece in enumerate(BLANK.split(it)):
                if n:
                    flush()
                if piece:
                    cur.append(piece)
        elif getattr(it, "include_paragraphs", True):
            cur.append(it)
        else:
            flush()
            out.append(it)
    flush()
    return out


def contents():
    texts = ["a", " ", "\n", "\n\n", "a\n\nb", " \n \n a", "a\n", "\n\n\n", "a \n\t\n\n b\n\nc", ""]
    for s in strings(["a", " ", "\n"], scale(7, 9)):
        yield [s]
    for n in range(1, 4):
        for t in lists(["T", "U", "i", "x"], n, n):
            for _ in range(1):
                r = rng(json.dumps(t))
                yield [[[k, "w%d" % j] if k in "ix" else r.choice(texts) for j, k in enumerate(t)]]
    r = rng("c15")
    for _ in range(scale(3000)):
        out = []
        for j in range(r.randint(0, 7)):
            if out and isinstance(out[-1], str) or r.random() < .5:
                out.append([r.choice("iix"), "w%d" % j])
            else:
                out.append(r.choice(texts) if r.random() < .5 else randstr(r, ["a", "b", " ", "\n", "\t"], 8))
        yield [out]


def shape(x):
    if isinstance(x, list):
        return [shape(i) for i in x]
    if isinstance(x, str):
        return x
    if isinstance(x, PTag):
        return {"p": shape(x.content)}
    return [x.name, x.content, x.paragraph_role]


def expect(items):
    res = []
    for g in model(items):
        if not isinstance(g, list):
            res.append([g.name, g.content, None])
            continue
        tags = [i for i in g if not isinstance(i, str)]
        text = any(isinstance(i, str) and i.strip() for i in g)
        role = "block" if len(tags) == 1 and not text else "inline"
        g = [i if isinstance(i, str) else [i.name, i.content, role] for i in g]
        res.append({"p": g[0] if len(g) == 1 else g})
    return res


@check("grouping", contents)
def _(case):
    "content grouped into paragraphs has, in order, every tag and every non-blank text in paragraphs split exactly at blank lines and around elements that may not be in one; a lone tag is a block, others inline"
    c = ctx()
    raw = case[0]
    for tagged in (False, True):
        items = [raw] if isinstance(raw, str) else [mk(x, c) for x in raw]
        exp = expect(items)
        ids = [id(i) for i in items if not isinstance(i, str)]
        content = raw if isinstance(raw, str) else list(items)
        if tagged:
            el = Tag(name="body", content="", attributes="", context=c)
            el.content = content
            ret = process_paragraph_tags(el, context=c, tag_base_cls=Tag, p_cls=PTag)
            if ret is not el:
                return "another tag is returned"
            got = el.content
        else:
            got = process_paragraph_tags(content, context=c, tag_base_cls=Tag, p_cls=PTag)
        if isinstance(got, list):
            flat = got
        else:
            flat = [got]
        r = same([shape(i) for i in flat], exp, "paragraphs of %r" % (raw,))
        if r:
            return r
        if len(exp) == 1 and isinstance(got, list):
            return "a single paragraph is left in a list"
        got_ids = []
        for i in flat:
            if isinstance(i, PTag):
                got_ids += [id(j) for j in (i.content if isinstance(i.content, list) else [i.content]) if not isinstance(j, str)]
                if i.name != "p" or i.context is not c or dict(i.attributes):
                    return "paragraph tag %r" % i
            else:
                got_ids.append(id(i))
        if got_ids != ids:
            return "the tags are not the same objects"


@check("steps", contents)
def _(case):
    "splitting drops only blank lines, cleaning drops only groups of whitespace"
    raw = case[0]
    c = ctx()
    items = [raw] if isinstance(raw, str) else [mk(x, c) for x in raw]
    g = group_paragraphs(raw if isinstance(raw, str) else list(items))
    txt = lambda xs: re.sub(r"\s+", "", "".join(x if isinstance(x, str) else "<%s>" % x.content for x in xs))
    flat = [j for i in g for j in (i if isinstance(i, list) else [i])]
    if txt(flat) != txt(items):
        return "text %r became %r" % (txt(items), txt(flat))
    k = clean_paragraphs(list(g))
    want = [i for i in g if not (isinstance(i, list) and all(isinstance(j, str) and not j.strip() for j in i))]
    if len(k) != len(want) or any(a is not b for a, b in zip(k, want)):
        return "cleaning %r gave %r" % (g, k)
    if assign_paragraph_roles(k, Tag) is not k or len(k) != len(want):
        return "assigning roles changed the content"


SRC = ["word", "@b{word}", "@section{word}", "@marginfig{word}", "\n\n", "\n", " ", "@eqz{word}", "@i{word @b{word}}", "@p{word}", "@examplebox{word}", "@verb{word @b{x}}"]


def docs():
    r = rng("docs")
    for _ in range(scale(150)):
        yield [[r.choice(SRC) for _ in range(r.randint(1, 9))]]


@check("documents", docs, limit=30)
def _(case):
    "the body of a document keeps every word in order, no element that may not be in a paragraph is directly in one, and no text stands outside of a paragraph when there are several elements"
    n = [0]

    def w(m):
        n[0] += 1
        return "w%dw" % n[0]
    c = P.shared_context()
    src = re.sub("word", w, "".join(case[0]))
    c["label_manager"].labels.clear()
    body = TagFactory.tag(tag_name="body", tag_content=src, tag_attributes="", context=c)
    words = []

    def walk(x, inp):
        if isinstance(x, str):
            words.extend(re.findall(r"w\d+w", x))
        elif isinstance(x, list):
            for i in x:
                r = walk(i, inp)
                if r:
                    return r
        else:
            if inp and not x.include_paragraphs:
                return "@%s is in a paragraph" % x.name
            return walk(x.content, isinstance(x, PTag))
    r = walk(body, False)
    if r:
        return r
    if words != ["w%dw" % (i + 1) for i in range(n[0])]:
        return "words of %r: %r" % (src, words)
    if isinstance(body.content, list):
        for i in body.content:
            if isinstance(i, str):
                return "text %r outside of a paragraph in %r" % (i, src)
