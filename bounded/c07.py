import os
from common import *
import project as P
from disseminate.document import Document
from disseminate.document.exceptions import DocumentException

T0 = [1000000000]


def text(incs, body="x", style=0):
    if not incs:
        return body
    if style == 1 and len(incs) == 1:
        return "---\ninclude: %s\n---\n%s" % (incs[0], body)
    return "---\ninclude%s:\n%s\n---\n%s" % ("s" if style == 2 else "", "\n".join("  " + i for i in incs), body)


def name(i):
    return ["r.dm", "a.dm", "b.dm", "c.dm", "d.dm", "e.dm"][i]


def expected(g):
    "depth-first, each once, in include order"
    out, seen = [], set()

    def go(i):
        out.append(i); seen.add(i)
        for j in g[i]:
            if j not in seen:
                go(j)
    go(0)
    return out


def expected_tree(g):
    seen = set()

    def go(i):
        seen.add(i)
        out = []
        for j in g[i]:
            if j not in seen:
                out.append(go(j))
        return [name(i), out]
    return go(0)


def write(d, g, changed=None):
    for i, incs in enumerate(g):
        if changed is not None and i not in changed:
            continue
        f = d / name(i)
        t = text([name(j) for j in incs], "doc %d" % i, (i + len(g) + sum(map(len, g))) % 3)
        f.write_text(t.replace("---\n", "---\n@mark%d: x\n" % i, 1) if t.startswith("---") else "---\n@mark%d: x\n---\n" % i + t)
        T0[0] += 10
        os.utime(str(f), (T0[0], T0[0]))


def order(doc):
    return [str(x.src_filepath.subpath) for x in doc.documents_list(recursive=True)]


def tree(doc):
    return [str(doc.src_filepath.subpath), [tree(x) for x in doc.subdocuments.values()]]


def consistent(doc, g, what):
    exp = [name(i) for i in expected(g)]
    m = same(order(doc), exp, what + ": documents") or same(tree(doc), expected_tree(g), what + ": tree")
    if m:
        return m
    docs = doc.documents_list(recursive=True)
    d = doc.documents_dict(recursive=True)
    if list(d.values()) != docs or [k for k in d] != [x.src_filepath for x in docs]:
        return what + ": documents by path"
    # each document object hangs in the tree exactly once
    flat = []

    def go(t):
        flat.append(t[0])
        for x in t[1]:
            go(x)
    go(tree(doc))

    def marks(x, above):
        i = [name(j) for j in range(6)].index(str(x.src_filepath.subpath))
        above = above | {"@mark%d" % i}
        got = {k for k in x.context if k.startswith("@mark")}
        if got != above:
            return "%s inherits %r, expected %r" % (name(i), got, above)
        for y in x.subdocuments.values():
            m = marks(y, above)
            if m: return m
    m = marks(doc, set())
    if m:
        return what + ": " + m
    m = same(flat, exp, what + ": tree")
    if m:
        return m
    m = same(list(doc.documents_by_id()), [x.doc_id for x in docs], what + ": document ids") or same(doc.doc_ids, [x.doc_id for x in docs], what + ": doc_ids")
    if m:
        return m
    m = same([str(x.src_filepath.subpath) for x in doc.documents_list(only_subdocuments=True, recursive=True)], exp[1:], what + ": subdocuments")
    if m:
        return m
    return same([str(x.src_filepath.subpath) for x in doc.documents_list(only_subdocuments=True)], [t[0] for t in tree(doc)[1]], what + ": direct subdocuments")


def graphs():
    n = 3
    alts = [[], [0], [1], [2], [1, 2], [2, 1], [1, 1], [0, 1, 2], [2, 0, 1]]
    for a in alts:
        for b in alts:
            for c in alts if THOROUGH else ([], [1], [0, 1, 2]):
                yield [[a, b, c]]
    r = rng("c07")
    for _ in range(scale(100)):
        k = r.randint(3, 6)
        yield [[[r.randrange(k) for _ in range(r.choice([0, 1, 2, 2, 3]))] for _ in range(k)]]


def load(g):
    d = P.scratch()
    write(d, g)
    return P.project({}, "r.dm", d)


@check("tree", graphs)
def _(case):
    "the documents are the root followed depth-first by the included documents, in include order, each once, also for repeated, shared and circular includes"
    g = case[0]
    env, doc = load(g)
    try:
        return consistent(doc, g, "fresh")
    finally:
        P.drop(env.scratch)


def edits():
    r = rng("c07e")
    for i in range(scale(220)):
        k = r.randint(2, 5)
        gs = [[[r.randrange(k) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(k)]]
        for _ in range(r.randint(1, 4)):
            g = [list(x) for x in gs[-1]]
            for _ in range(r.randint(1, 2)):
                j = r.randrange(k)
                g[j] = [r.randrange(k) for _ in range(r.choice([0, 1, 2, 3]))] if r.random() < .6 else list(reversed(g[j]))
            gs.append(g)
        yield [gs]


@check("reload", edits)
def _(case):
    "reloading after include lists changed gives the same tree as loading afresh, and keeps the objects of the documents that are still included"
    gs = case[0]
    env, doc = load(gs[0])
    try:
        m = consistent(doc, gs[0], "fresh")
        if m:
            return m
        for n, (old, new) in enumerate(zip(gs, gs[1:])):
            before = {str(x.src_filepath.subpath): x for x in doc.documents_list(recursive=True)}
            write(env.scratch, new, [i for i in range(len(new)) if old[i] != new[i]])
            doc.load()
            m = consistent(doc, new, "after edit %d (%r)" % (n + 1, new))
            if m:
                return m
            for x in doc.documents_list(recursive=True):
                o = before.get(str(x.src_filepath.subpath))
                if o is not None and o is not x:
                    return "after edit %d (%r) %s is a new document object" % (n + 1, new, x.src_filepath.subpath)
            doc.load()
            m = consistent(doc, new, "after loading again")
            if m:
                return m
    finally:
        P.drop(env.scratch)


@check("subfolders", lambda: ([k] for k in range(3)))
def _(case):
    "includes are relative to the including document; an included document does not inherit the list"
    st = case[0]
    files = {"r.dm": text(["s/a.dm", "b.dm"], "x", st), "s/a.dm": text(["t/c.dm", "b.dm"], "x", st), "s/t/c.dm": "c", "s/b.dm": "sb", "b.dm": "b"}
    env, doc = P.project(files, "r.dm")
    try:
        return same(order(doc), ["r.dm", "s/a.dm", "s/t/c.dm", "s/b.dm", "b.dm"], "documents")
    finally:
        P.drop(env.scratch)


@check("spelling", lambda: ([a, b] for a in ["b.dm", "./b.dm", "s/../b.dm", "s/t/../../b.dm"] for b in ["../b.dm", "../s/../b.dm", "./../r.dm", "../s/a.dm"]))
def _(case):
    "a file included under differently written relative paths is one document"
    a, b = case
    env, doc = P.project({"r.dm": text(["s/a.dm", a, "b.dm"]), "s/a.dm": text([b]), "b.dm": text(["s/a.dm", "./r.dm"])}, "r.dm")
    try:
        got = [str(x.src_filepath.resolve().relative_to(env.scratch.resolve())) for x in doc.documents_list(recursive=True)]
        return same(got, ["r.dm", "s/a.dm", "b.dm"], "documents")
    finally:
        P.drop(env.scratch)


@check("ids", lambda: ([k] for k in range(2)))
def _(case):
    "document ids are unique or an error is raised"
    env, doc = load([[1, 2], [], [3], []])
    try:
        docs = doc.documents_list(recursive=True)
        if case[0]:
            class D(type(docs[3])):
                doc_id = docs[1].doc_id
            docs[3].__class__ = D
            try:
                doc.documents_by_id()
            except DocumentException:
                return None
            return "no error for two documents with the id %r" % docs[1].doc_id
        ids = doc.documents_by_id()
        if list(ids.values()) != docs or len(ids) != 4:
            return "documents by id: %r" % ids
    finally:
        P.drop(env.scratch)


@check("names", lambda: ([n, st] for n in ["my file.dm", "a b  c.dm", "a.b.dm", "no-extension", "#x.dm", "a'b.dm", "sp ace/f g.dm"] for st in range(3)))
def _(case):
    "documents with unusual file names"
    n, st = case
    env, doc = P.project({"r.dm": text(["x.dm", n, "y.dm"], "r", st), n: "n", "x.dm": "x", "y.dm": "y"}, "r.dm")
    try:
        return same(order(doc), ["r.dm", "x.dm", n, "y.dm"], "documents") or same(doc.doc_ids, ["r.dm", "x.dm", n, "y.dm"], "ids")
    finally:
        P.drop(env.scratch)


@check("clock", lambda: ([a, b] for a in (0, .25, .5) for b in (.5, .75, 1, 1.25) if b > a))
def _(case):
    "an edit later than the loaded version is picked up however soon it comes"
    a, b = case
    d = P.scratch()

    def w(n, s, t):
        (d / n).write_text(s)
        os.utime(str(d / n), (1e9 + t, 1e9 + t))
    for n in ("a.dm", "b.dm", "c.dm"):
        w(n, n, 0)
    w("r.dm", text(["a.dm", "b.dm"], "r"), a)
    env, doc = P.project({}, "r.dm", d)
    try:
        m = same(order(doc), ["r.dm", "a.dm", "b.dm"], "documents")
        if m:
            return m
        w("r.dm", text(["c.dm", "b.dm"], "r"), b)
        doc.load()
        return same(order(doc), ["r.dm", "c.dm", "b.dm"], "documents after an edit %s s after the first" % (b - a))
    finally:
        P.drop(env.scratch)


@check("missing", lambda: ([k] for k in range(2)))
def _(case):
    "an include that does not exist is an error"
    try:
        env, doc = P.project({"r.dm": text(["a.dm", "nope.dm"]), "a.dm": "a"}, "r.dm")
        list(doc.documents_list())
    except DocumentException:
        return None
    return "no error"
