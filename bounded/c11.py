import copy, os, pathlib
from common import *
import project as P
from disseminate.paths import SourcePath, TargetPath
from disseminate.paths.utils import rename, find_file, find_files
from html import unescape

PP = pathlib.PurePosixPath
ROOTS = ["", ".", "/r", "/r/s", "q", "../q"]
SUBS = ["", "a", "a.dm", "d/a.b.dm", "d/e/x.tar.gz", ".hid", "../u/v.x", "d", "a b.txt", "d/.h.x"]
TARGETS = ["", "html", ".html", "tex", ".pdf"]


def structures():
    for r in ROOTS:
        for s in SUBS:
            yield ["s", r, "", s]
            for t in TARGETS:
                yield ["t", r, t, s]


def model(kind, r, t, s):
    return (PP(r) / s) if kind == "s" else (PP(r) / t.strip(".") / s)


def mkp(kind, r, t, s):
    return SourcePath(project_root=r, subpath=s) if kind == "s" else TargetPath(target_root=r, target=t, subpath=s)


def parts(p, kind):
    return (str(p), str(p.project_root if kind == "s" else p.target_root), "" if kind == "s" else str(p.target), str(p.subpath))


def expect(kind, r, t, s):
    return (str(model(kind, r, t, s)), str(PP(r)), "" if kind == "s" else str(PP(t.strip("."))), str(PP(s)))


@check("structure", structures)
def _(case):
    "a source or target path is root / target / subpath in that order with these parts; copies are equal in all parts; use_name, use_suffix and use_subpath change only the part they name; absolute subpaths are rejected"
    kind, r, t, s = case
    p = mkp(*case)
    e = expect(*case)
    if parts(p, kind) != e:
        return "path %r has parts %r, expected %r" % (case, parts(p, kind), e)
    for c in (copy.copy(p), copy.deepcopy(p)):
        if parts(c, kind) != e or type(c) is not type(p) or c != p:
            return "copy of %r is %r" % (e, parts(c, kind))
    S = PP(s)
    ops = [("use_subpath", x, PP(x)) for x in ["", "n/m.o", "k"]]
    if S.name:
        ops += [("use_name", x, S.with_name(x)) for x in ["n.o", "n"]]
        ops += [("use_suffix", x, S.with_suffix(x)) for x in ["", ".svg", ".a.b"]]
    for op, x, ns in ops:
        n = getattr(p, op)(x)
        if parts(n, kind) != expect(kind, r, t, str(ns)) or type(n) is not type(p):
            return "%s(%r) of %r: %r, expected %r" % (op, x, e, parts(n, kind), expect(kind, r, t, str(ns)))
        if parts(p, kind) != e:
            return "%s(%r) changed the path itself" % (op, x)
    for a in ("/abs", "/abs/x.dm"):
        try:
            mkp(kind, r, t, a)
        except AssertionError:
            pass
        else:
            return "absolute subpath accepted"


def renames():
    for p in ["", "a", "/t/a.png", "d/a.b.png", "d.e/a", ".hid", "d/.h.x", "/a"]:
        for f in [None, "n", "n.m"]:
            for a in [None, "", "_x", ".y"]:
                for e in [None, "", "svg", ".svg", "tar.gz"]:
                    for st in [True, False]:
                        yield [p, f, a, e, st]


@check("rename", renames)
def _(case):
    "renaming gives parent / (name + appended text + extension), with the path's own stem and suffix for what is not given"
    p, f, a, e, st = case
    m = PP(p)
    name = (m.stem if f is None else f) + (a or "")
    ext = m.suffix if e is None else (e if e.startswith(".") or not e else "." + e)
    got = rename(p if st else pathlib.Path(p), filename=f, append=a, extension=e)
    return same(str(got), str(m.parent / (name + ext)), "rename%r" % (tuple(case),))


def outfiles():
    for kind in ("s", "t", "p"):
        for s in ["a.dm", "d/a.b.dm", "media/x.png", "x", "/abs/y.png", "d/a"]:
            for target in [None, "", "html", ".tex"]:
                for a, e in [(None, None), ("_c", ".svg"), (None, "pdf")]:
                    for cache in (False, True):
                        for media in (False, True):
                            yield [kind, s, target, a, e, cache, media]


@check("outfilepath", outfiles)
def _(case):
    "the output file of a build is the target root (or cache) / target / (media folder) / renamed input subpath, and the first path among the parameters decides"
    from disseminate.builders.utils import generate_outfilepath
    kind, s, target, a, e, cache, media = case
    absolute = s.startswith("/")
    if kind != "p" and absolute:
        raise Skip

    class Env:
        cache_path = "/r/.cache"
        target_root = "/r"
        media_path = "media"
    i = {"s": lambda: SourcePath("/src", s), "t": lambda: TargetPath("/src", "tex", s), "p": lambda: pathlib.Path(s)}[kind]()
    m = PP(PP(s).name if absolute else s)
    if media and m.parts[0] != "media":
        m = "media" / m
    ext = m.suffix if e is None else "." + e.strip(".")
    m = m.parent / (m.stem + (a or "") + ext)
    t = target.strip(".") if target is not None else ("tex" if kind == "t" else "")
    got = generate_outfilepath(Env, ["txt", i, pathlib.Path("other.x")], target=target, append=a, ext=e, use_cache=cache, use_media=media)
    exp = PP("/r/.cache" if cache else "/r") / t / m
    if str(got) != str(exp) or str(got.target) != str(PP(t)) or str(got.subpath) != str(m):
        return "%r: %s (%s, %s), expected %s" % (case, got, got.target, got.subpath, exp)
    if generate_outfilepath(Env, ["txt", 3], target=target) is not None:
        return "a file without an input path"


def urls():
    subs = ["a.x", "d/a.x", "d/e/a.x", "f/b.x", "a b.x", "d/d/a.x"]
    for root in ["/r", "r", "."]:
        for page in subs:
            for f in subs:
                for pt in ["html", ".html"]:
                    yield [root, page, f, pt, "tex"]
                    yield [root, page, f, pt, "html"]


@check("get_url", urls)
def _(case):
    "the relative link of a file, resolved against the folder of the page it is on, is that file; without a document or with relative links off it is /target/subpath, or the base_url filled in"
    root, page, f, pt, ft = case
    asked = []

    class Doc:
        def target_filepath(self, target):
            asked.append(target)
            return TargetPath(target_root=root, target=target, subpath=page)
    doc = Doc()
    p = TargetPath(target_root=root, target=ft, subpath=f)
    for ref in (doc, __import__("weakref").ref(doc)):
        for key in ("document", "root_document"):
            del asked[:]
            u = p.get_url({key: ref}, target=pt)
            base = str(TargetPath(target_root=root, target=pt, subpath=page).parent)
            if os.path.normpath(os.path.join(base, u)) != os.path.normpath(str(p)):
                return "link %r on %s/%s: %s, not %s" % (u, pt, page, os.path.normpath(os.path.join(base, u)), p)
            if asked != [".html"]:
                return "page of targets %r was used" % asked
            u2 = p.get_url({key: ref})
            base = str(TargetPath(target_root=root, target=ft, subpath=page).parent)
            if os.path.normpath(os.path.join(base, u2)) != os.path.normpath(str(p)):
                return "link %r without a target resolves to another file than %s" % (u2, p)
    for ctx in (None, {}, {"document": doc, "relative_links": False}):
        r = same(p.get_url(ctx), "/%s/%s" % (ft, f), "absolute link") or same(p.get_url(ctx, target=pt), "/%s/%s" % (pt.strip("."), f), "absolute link for a target")
        if r:
            return r
    return same(p.get_url({"base_url": "http://h.org/{subpath}?t={target}"}), "http://h.org/%s?t=%s" % (f, ft), "base_url link")


FILES = ["x.txt", "d/x.txt", "d/y.txt", "e/x.txt", "e/d/y.txt", "e/z.txt", "w/x"]


def finds():
    r = rng("find")
    for _ in range(scale(150)):
        have = [f for f in FILES if r.random() < .5]
        ps = [[r.choice("psqt"), r.choice(["", "d", "e", "w", "nodir"])] for _ in range(r.randint(0, 4))]
        yield [have, ps, [r.choice(["x.txt", "d/y.txt", "z.txt", "y.txt", "d", "missing", "x", "ABS/e/z.txt", "ABS/nope"]) for _ in range(3)]]


@check("find_file", finds)
def _(case):
    "looking a file up returns the path itself when it is a file, else the first file among the search paths in order, else an error (or None); looking several up keeps their order and skips the missing"
    have, ps, asks = case
    d = P.scratch()
    old = os.getcwd()
    try:
        for f in have:
            (d / f).parent.mkdir(parents=True, exist_ok=True)
            (d / f).write_text("x")
        (d / "cwd").mkdir()
        (d / "cwd" / "missing").mkdir()
        os.chdir(str(d / "cwd"))
        paths, bases = [], []
        for k, s in ps:
            b = d / s
            paths.append({"p": pathlib.Path(b), "s": SourcePath(d, s), "q": SourcePath(b), "t": TargetPath(d, "", s)}[k])
            bases.append(b)
        ctx = {"paths": list(paths)}
        found = []
        for q in asks:
            q = q.replace("ABS", str(d))
            cands = [pathlib.Path(q)] + ([] if q.startswith("/") else [b / q for b in bases])
            exp = next((c for c in cands if c.is_file()), None)
            found += [str(exp)] if exp else []
            for arg in (q, pathlib.Path(q), " %s\nother" % q):
                got = find_file(arg, ctx, raise_error=False)
                if (str(got) if got else got) != (str(exp) if exp else None):
                    return "find_file(%r): %s, expected %s" % (arg, got, exp)
                if got is not None and got.__class__.__name__ == "SourcePath" and str(got.project_root / got.subpath) != str(got):
                    return "parts of the found path do not join to it"
                try:
                    find_file(arg, ctx)
                    err = None
                except FileNotFoundError as e:
                    err = e
                if (err is None) != (exp is not None):
                    return "find_file(%r) error: %r" % (arg, err)
        got = [str(x) for x in find_files("\n".join(q.replace("ABS", str(d)) for q in asks), ctx)]
        if got != found:
            return "find_files: %r, expected %r" % (got, found)
        if ctx != {"paths": paths}:
            return "the search paths were changed"
    finally:
        os.chdir(old)
        P.drop(d)


NAMES = ["r.dm", "a.dm", "sub/b.dm", "sub/deep/c.dm", "o/a.dm"]
TS = ["html", "xhtml", "tex", "pdf", "txt"]


def refs():
    r = rng("refs")
    for _ in range(scale(45)):
        k = r.randint(1, 5)
        par = [0] + [r.randrange(i) for i in range(1, k)]
        ts = [r.sample(TS, r.randint(1, 4)) for _ in range(k)]
        yield [par, ts, r.randint(0, 2 ** 20)]


def reltext(i, j):
    return os.path.relpath(NAMES[j], os.path.dirname(NAMES[i]) or ".")


@check("references", refs, limit=90)
def _(case):
    "the link of a reference resolves, from the page it is on, to the referenced document's output for that target with the label as anchor; inside one document it is the anchor alone; without such an output there is no link; every format renders the reference"
    from disseminate.tags.ref import Ref
    from disseminate.label_manager.types import DocumentLabel
    par, ts, sd = case
    k = len(par)
    files = {}
    for i in range(k):
        kids = [j for j in range(1, k) if par[j] == i]
        files[NAMES[i]] = "---\ntargets: %s\n%s---\n@section[id=sec%d]{Head %d}\n@chapter[id=chp%d]{Ch}\n@marginfig{@caption[id=cap%d]{cap}}\ntext %s\n" % (
            ", ".join(ts[i]), "include:\n" + "".join("  %s\n" % reltext(i, j) for j in kids) if kids else "", i, i, i, i,
            " ".join("@ref{sec%d} @ref{cap%d}" % (j, j) for j in range(k)))
    env, root = P.project(files, "r.dm")
    try:
        docs = {str(x.src_filepath.subpath): x for x in root.documents_list(recursive=True)}
        docs = [docs[NAMES[i]] for i in range(k)]
        have = [{t.strip(".") for t in x.targets} for x in docs]
        for i in range(k):
            for j in range(k):
                for lab in ("sec%d" % j, "chp%d" % j, "cap%d" % j, "doc:" + NAMES[j].replace("/", "-").replace(".", "-")):
                    tag = Ref(name="ref", content=lab, attributes="", context=docs[i].context)
                    isdoc = isinstance(tag.label, DocumentLabel)
                    if tag.document() is not docs[j]:
                        return "%s in %s refers to document %r" % (lab, NAMES[i], tag.document())
                    for t in TS:
                        if t not in have[i]:
                            continue
                        page = docs[i].target_filepath("." + t)
                        for anchor in (True, False):
                            u = tag.url(target=t, include_anchor=anchor)
                            a = "#" + lab if anchor else ""
                            if i == j:
                                exp = a
                                if u != exp:
                                    return "%s in its own document: %r" % (lab, u)
                                continue
                            if t not in have[j]:
                                if u is not None:
                                    return "%s on %s: link %r though there is no %s of %s" % (lab, page, u, t, NAMES[j])
                                continue
                            f = str(root.env.target_root / t / NAMES[j][:-3]) + "." + t if hasattr(root, "env") else None
                            f = str(pathlib.Path(str(docs[j].target_filepath("." + t))))
                            if not f.endswith("/%s/%s.%s" % (t, NAMES[j][:-3], t)):
                                return "output file of %s for %s is %s" % (NAMES[j], t, f)
                            if not u.endswith(a) or os.path.normpath(os.path.join(str(page.parent), u[:len(u) - len(a)])) != f:
                                return "%s on %s: link %r does not resolve to %s%s" % (lab, page, u, f, a)
                    for t, fmt in (("html", "html"), ("xhtml", "xhtml"), ("tex", "tex"), ("txt", "txt")):
                        if t not in have[i] and not (t == "tex" and "pdf" in have[i]):
                            continue
                        out = str(getattr(tag, fmt))
                        if t in ("html", "xhtml"):
                            u = tag.url(target=t, include_anchor=not isdoc)
                            h = re.search(r'href="([^"]*)"', out)
                            h = unescape(h.group(1)) if h else None
                            if u and h != u:
                                return "%s of %s on %s: href %r, url %r" % (fmt, lab, page, h, u)
                            if u is None and h is not None:
                                return "%s of %s is a link to %r" % (fmt, lab, h)
                        if t == "tex" and "pdf" in have[i]:
                            u = tag.url(target="pdf", include_anchor=not isdoc)
                            if u and ("\\href{%s}" % u) not in out or not u and "\\href" in out:
                                return "tex of %s: %r, url %r" % (lab, out, u)
    finally:
        env.decider._db and env.decider.db.close()
        P.drop(env.scratch)


import re
