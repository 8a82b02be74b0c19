import os
from common import *
import project as P
from os.path import relpath
from markupsafe import escape

T0 = [1000000000]
TS = ["html", "tex", "txt", "xhtml"]


def text(d, names):
    h = []
    if d["t"] is not None:
        h.append("targets: " + (", ".join(d["t"]) or "none"))
    if d["inc"]:
        h.append("include:\n" + "\n".join("  " + names[i] for i in d["inc"]))
    s = "---\n" + "\n".join(h) + "\n---\n" if h else ""
    return s + "\n".join("@section{h%d}" % k for k in range(d["h"])) + "\ntext @prev @next\n"


NAMES = ["r.dm", "a.dm", "sub/b.dm", "c.dm", "sub/d.dm"]


def rel(i, j):
    return os.path.relpath(NAMES[j], os.path.dirname(NAMES[i]) or ".")


def projects():
    r = rng("c10")

    def doc(i, k, kids):
        m = r.random()
        t = None if m < .35 else r.sample(TS, r.randint(0, 3))
        return {"t": t, "h": r.choice([0, 1, 1, 2]), "inc": kids}
    for _ in range(scale(90)):
        states = []
        k = r.randint(1, 5)
        for _ in range(r.randint(1, 3)):
            kids = [[] for _ in range(k)]
            for i in range(1, k):
                if r.random() < .9:
                    kids[r.choice([0, 0, r.randrange(i)])].append(i)
            if states and r.random() < .5:
                s = json.loads(json.dumps(states[-1]))
                j = r.randrange(k)
                s[j] = doc(j, k, s[j]["inc"])
                if r.random() < .3:
                    s[0]["inc"] = s[0]["inc"][::-1]
                states.append(s)
            else:
                states.append([doc(i, k, kids[i]) for i in range(k)])
        yield [states]


def write(d, s, old):
    for i, x in enumerate(s):
        if old is not None and old[i] == x:
            continue
        f = d / NAMES[i]
        f.parent.mkdir(exist_ok=True)
        f.write_text(text(x, [rel(i, j) for j in range(len(s))]))
        T0[0] += 10
        os.utime(str(f), (T0[0], T0[0]))


def order(s):
    out = []

    def go(i):
        out.append(i)
        for j in s[i]["inc"]:
            go(j)
    go(0)
    return out


def eff(s):
    """effective targets of each document: its own or those of the document including it (default: html)"""
    t = {}

    def go(i, up):
        t[i] = set(s[i]["t"]) if s[i]["t"] is not None else up
        for j in s[i]["inc"]:
            go(j, t[i])
    go(0, {"html"})
    return t


@check("navigation", projects, limit=60)
def _(case):
    "for every target each document's prev/curr/next entries name the first heading of its neighbours among the documents produced for that target, at first load and after edits, and are absent otherwise; the html links point there"
    d = P.scratch()
    old = None
    env = None
    try:
        for n, s in enumerate(case[0]):
            write(d, s, old)
            old = s
            if env is None:
                env, root = P.project({}, "r.dm", d)
            else:
                root.load()
            docs = root.documents_list(recursive=True)
            idx = [NAMES.index(str(x.src_filepath.subpath)) for x in docs]
            if idx != order(s):
                return "state %d: documents %r" % (n, idx)
            have = [{t.strip(".") for t in x.targets} for x in docs]
            lm = root.context["label_manager"]
            first = {}
            for l in lm.get_labels_by_kind(kinds="heading"):
                first.setdefault(l.doc_id, l)
            for t in TS + ["pdf"]:
                seq = [x for x, h in zip(docs, have) if t in h]
                for x in docs:
                    exp = {"prev": None, "curr": None, "next": None}
                    if x in seq:
                        p = seq.index(x)
                        exp["curr"] = first.get(x.doc_id)
                        exp["prev"] = first.get(seq[p - 1].doc_id) if p else None
                        exp["next"] = first.get(seq[p + 1].doc_id) if p + 1 < len(seq) else None
                    for k, e in exp.items():
                        got = x.context.get(k + "_" + t)
                        got = got() if got is not None else None
                        if got is not e or (e is None and k + "_" + t in x.context):
                            return "state %d, %s of %s for %s: %r, expected %r" % (n, k, x.src_filepath.subpath, t, getattr(got, "id", got), getattr(e, "id", e))
                    if t in ("html",) and t in x.targets or "." + t in x.targets and t == "html":
                        here = x.target_filepath(".html")
                        for k in ("prev", "next"):
                            html = x.context[k].html
                            if exp[k] is None:
                                if html != "":
                                    return "%s link of %s: %r, expected none" % (k, x.src_filepath.subpath, html)
                            else:
                                o = [y for y in docs if y.doc_id == exp[k].doc_id][0]
                                u = relpath(str(o.target_filepath(".html")), str(here.parent)) + "#" + exp[k].id
                                if 'href="%s"' % u not in html:
                                    return "%s link of %s: %r, expected %s" % (k, x.src_filepath.subpath, html, u)
                    if t == "tex" and "." + t in x.targets:
                        for k in ("prev", "next"):
                            tex = x.context[k].tex
                            if (tex == "") != (exp[k] is None):
                                return "tex %s of %s: %r" % (k, x.src_filepath.subpath, tex)
                            if "<" in tex:
                                return "tex %s of %s contains html: %r" % (k, x.src_filepath.subpath, tex)
    finally:
        if env is not None:
            env.decider._db and env.decider.db.close()
        P.drop(d)


def links():
    r = rng("links")
    for _ in range(scale(80)):
        yield [[r.sample(["html", "tex", "txt", "pdf", "epub"], r.randint(0, 4)) for _ in range(2)], r.choice(["a.dm", "sub/a&b.dm"])]


@check("other_formats", links, limit=60)
def _(case):
    "links to the source and to other formats of a page are the path of that file relative to the page, and empty when that format is not produced or is the page itself"
    from disseminate.tags.navigation import Srclink, Txtlink, Texlink, Pdflink, Epublink
    ts, sub = case
    files = {"r.dm": "---\ntargets: %s\ninclude: %s\n---\n@section{x}\n" % (", ".join(ts[0]) or "none", sub),
             sub: "---\ntargets: %s\n---\n@section{x}\n" % (", ".join(ts[1]) or "none")}
    env, root = P.project(files, "r.dm")
    try:
        docs = root.documents_list(recursive=True)
        for doc, t in zip(docs, ts):
            for cls, o in ((Srclink, None), (Txtlink, "txt"), (Texlink, "tex"), (Pdflink, "pdf"), (Epublink, "epub")):
                tag = cls(name="link", content="", attributes="", context=doc.context)
                for here, fmt in (("html", "html"), ("tex", "tex")):
                    got = getattr(tag, fmt)
                    if here not in t or o == here:
                        exp = ""
                    else:
                        page = doc.target_filepath("." + here)
                        if o is None:
                            f = doc.src_filepath
                        elif o == "epub":
                            f = root.target_filepath(".epub") if "epub" in ts[0] else None
                        else:
                            f = doc.target_filepath("." + o) if o in t else None
                        exp = escape(relpath(str(f), str(page.parent))) if f is not None else ""
                    if str(got) != str(exp):
                        return "%s of %s in %s: %r, expected %r" % (cls.__name__, doc.src_filepath.subpath, here, got, exp)
    finally:
        env.decider._db and env.decider.db.close()
        P.drop(env.scratch)
