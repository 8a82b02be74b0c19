from common import *
from collections import OrderedDict
from disseminate.label_manager import LabelManager, ContentLabel, DocumentLabel
from disseminate.label_manager.exceptions import DuplicateLabel, LabelNotFound
from disseminate import settings

SEP = settings.default_context["label_sep"]


from labelctx import mk, Ctx

KINDS = ["part", "chapter", "section", "figure", "equation", ["heading", "chapter"], ["heading", "section"], ["caption", "figure"], ["a", "b", "c"], []]
RESETS = [None, {}, {"part": ["chapter"], "chapter": ["section", "figure"], "section": ["figure", "subsection"]},
          {"chapter": ["figure", "equation"], "heading": ["caption"]}, {"a": ["b", "c"], "figure": ["equation"]}]


def cases():
    r = rng("c06")
    docs = ["d1", "d2", "sub/d3", "d4"]
    for _ in range(scale(2500)):
        order = docs[:]
        r.shuffle(order)
        order = order[:r.randint(1, 4)] if r.random() < .9 else None
        ops = []
        for _ in range(r.randint(1, 14)):
            x = r.random()
            if x < .72:
                ops.append(["add", r.choice(docs), r.choice(["l1", "l2", "l3", "l4", "l5", "", "a:b"]), r.choice(KINDS), r.random() < .5, r.random() < .8])
            elif x < .8:
                ops.append(["reset", r.choice([None, "d1", ["d1", "d2"], "nodoc", [], "d"])])
            elif x < .9:
                ops.append(["docs", [d for d in docs if r.random() < .7]])
            else:
                ops.append(["register"])
        ops.append(["register"])
        yield [order, r.choice(RESETS), ops, r.choice([None, None, "@@"])]


def expected_orders(labels, resets):
    """labels: list of (doc, id, kind tuple); the number of a kind counts the labels of that kind since the last label that resets it"""
    out = []
    for i, (d, l, kind) in enumerate(labels):
        o = []
        for pos, k in enumerate(kind):
            n = 0
            for j in range(i + 1):
                ks = labels[j][2]
                for q, kk in enumerate(ks):
                    if j == i and q > pos:
                        break
                    if kk == k:
                        n += 1
                    if k in (resets or {}).get(kk, ()):
                        n = 0
            o.append(n)
        out.append(tuple(o))
    return out


@check("registry", cases)
def _(case):
    "registration, duplicate rejection, document order, purge and numbering follow the model for every history"
    order, resets, ops, sep = case
    c = mk(order, resets, sep)
    s = sep or SEP
    lm = LabelManager(root_context=c)
    model = []          # (doc, id, kind) in creation order
    for op in ops:
        if op[0] == "add":
            _, doc, lid, kind, qualified, content = op
            if s in lid:
                continue
            cc = Ctx(c, doc_id=doc)
            k = tuple(kind) if isinstance(kind, list) else kind
            kt = k if isinstance(k, tuple) else (k,)
            before = list(lm.labels.items())
            bo = [l.order for _, l in before]
            dup = any(m[0] == doc and m[1] == lid for m in model)
            try:
                f = lm.add_content_label if content else lm.add_document_label
                lab = f(id=(doc + s + lid) if qualified else lid, kind=k, title="T", context=cc)
            except DuplicateLabel:
                if not dup:
                    return "label (%r, %r) rejected though it is new" % (doc, lid)
                if list(lm.labels.items()) != before or [l.order for _, l in before] != bo or \
                        any(a is not b for (_, a), b in zip(before, lm.labels.values())):
                    return "a rejected registration changed the registry"
                continue
            if dup:
                return "duplicate label (%r, %r) accepted" % (doc, lid)
            if (lab.doc_id, lab.id, lab.kind, lab.title) != (doc, lid, kt, "T"):
                return "label has %r" % ((lab.doc_id, lab.id, lab.kind, lab.title),)
            if type(lab) is not (ContentLabel if content else DocumentLabel):
                return "label type %r" % type(lab)
            model.append((doc, lid, kt))
        elif op[0] == "reset":
            ids = op[1]
            lm.reset(doc_ids=ids)
            gone = None if ids is None else ([ids] if isinstance(ids, str) else ids)
            model = [m for m in model if gone is not None and m[0] not in gone]
            if [(l.doc_id, l.id) for l in lm.labels.values()] != [m[:2] for m in model]:
                return "after reset(%r): %r, expected %r" % (ids, list(lm.labels), [m[:2] for m in model])
        elif op[0] == "docs":
            if order is None:
                continue
            c.root_document.doc_ids = list(op[1])
            lm.registered = False
        else:
            lm.register()
            docs = list(c.root_document.doc_ids) if order is not None else list(dict.fromkeys(m[0] for m in model))
            # labels of removed documents disappear; the order is the order of documents, then of creation
            if lm.registered is not True:
                return "not registered"
            model = [m for d in docs for m in model if m[0] == d]
            got = [(l.doc_id, l.id, l.kind) for l in lm.labels.values()]
            if got != model:
                return "labels %r, expected %r" % (got, model)
            if list(lm.labels) != [m[:2] for m in model]:
                return "keys %r" % list(lm.labels)
            exp = expected_orders(model, resets)
            go = [l.order for l in lm.labels.values()]
            if go != exp:
                return "orders %r, expected %r for %r" % (go, exp, model)
            if [l.number for l in lm.labels.values()] != [o[-1] if o else None for o in exp]:
                return "numbers"
            m = lookups(lm, c, model, s)
            if m:
                return m


def lookups(lm, c, model, s):
    docs = sorted({m[0] for m in model}) + ["nodoc"]
    ids = sorted({m[1] for m in model}) + ["nolabel"]
    for lid in ids:
        first = [m for m in model if m[1] == lid]
        try:
            g = lm.get_label(lid)
            if not first or (g.doc_id, g.id) != first[0][:2]:
                return "get_label(%r) = %r, expected %r" % (lid, g, first[:1])
        except LabelNotFound:
            if first:
                return "get_label(%r) not found" % lid
        for d in docs:
            hit = [m for m in first if m[0] == d]
            try:
                g = lm.get_label(d + s + lid)
                if not hit or (g.doc_id, g.id) != (d, lid):
                    return "get_label(%r, %r) = %r" % (d, lid, g)
            except LabelNotFound:
                if hit:
                    return "get_label(%r) not found" % (d + s + lid)
    kinds = sorted({k for m in model for k in m[2]}) + ["nokind"]
    for d in [None] + docs:
        base = [m for m in model if d is None or m[0] == d]
        for ks in [None] + kinds + [kinds[:2], tuple(kinds[::-1][:2])]:
            want = [ks] if isinstance(ks, str) else ks
            exp = base if not ks else [m for k in want for m in base if k in m[2]]
            got = [(l.doc_id, l.id, l.kind) for l in lm.get_labels_by_kind(doc_id=d, kinds=ks)]
            if got != exp:
                return "get_labels_by_kind(%r, %r) = %r, expected %r" % (d, ks, got, exp)
    some = [m[0] + s + m[1] for m in model][:3]
    for t in (list, tuple):
        if [(l.doc_id, l.id) for l in lm.get_labels_by_id(t(some))] != [m[:2] for m in model][:3]:
            return "get_labels_by_id"
    if some and [(l.doc_id, l.id) for l in lm.get_labels_by_id(some[0])] != [model[0][:2]]:
        return "get_labels_by_id of one id"
    try:
        lm.get_labels_by_id(some + ["nolabel"])
        return "get_labels_by_id with an unknown id did not fail"
    except LabelNotFound:
        pass


@check("implicit_registration", cases)
def _(case):
    "looking up a label registers pending labels first"
    order, resets, ops, sep = case
    c = mk(order, resets, sep)
    lm = LabelManager(root_context=c)
    n = 0
    for op in ops:
        if op[0] == "add" and (sep or SEP) not in op[2]:
            try:
                lm.add_content_label(id=op[2], kind=tuple(op[3]) if isinstance(op[3], list) else op[3], title=None, context=Ctx(c, doc_id=op[1]))
                n += 1
            except DuplicateLabel:
                pass
            if n % 2:
                got = lm.get_labels_by_kind()
                if any(l.order is None for l in got):
                    return "labels without numbers after a lookup"


def documents():
    r = rng("c06docs")
    for _ in range(scale(25, 120)):
        yield [[r.choice(["chapter", "section", "subsection", "figure", "eq"]) for _ in range(r.randint(0, 6))] for _ in range(r.randint(1, 3))]


@check("documents", documents, limit=60)
def _(case):
    "labels of real documents are in document order and numbered; reloading a changed document leaves no stale or duplicate label"
    from project import project, drop
    import os, time

    def text(i, items, extra=""):
        out = []
        for j, k in enumerate(items):
            if k in ("chapter", "section", "subsection"):
                out.append("@%s[id=%s%d%d]{T%d}\n\n" % (k, k, i, j, j))
            elif k == "figure":
                out.append("@marginfig{@caption[id=fig%d%d]{cap}}\n\n" % (i, j))
            else:
                out.append("text %d\n\n" % j)
        return "".join(out) + extra
    subs = case[1:]
    head = "---\ntargets: html\ninclude:\n" + "".join("  sub%d.dm\n" % i for i in range(len(subs))) + "---\n" if subs else "---\ntargets: html\n---\n"
    files = {"test.dm": head + text(0, case[0])}
    for i, s in enumerate(subs):
        files["sub%d.dm" % i] = "---\ntargets: html\n---\n" + text(i + 1, s)
    env, doc = project(files)
    try:
        lm = doc.context["label_manager"]

        def ids():
            return [(l.doc_id, l.id) for l in lm.get_labels_by_kind() if isinstance(l, ContentLabel) and l.kind[-1] in ("chapter", "section", "subsection")]

        def want(cs):
            out = []
            for i, items in enumerate(cs):
                out += [("test.dm" if i == 0 else "sub%d.dm" % (i - 1), "%s%d%d" % (k, i, j)) for j, k in enumerate(items) if k in ("chapter", "section", "subsection")]
            return out
        docs = doc.documents_list()
        exp = want(case)
        if ids() != exp:
            return "labels %r, expected %r" % (ids(), exp)
        nums = [l.order for l in lm.get_labels_by_kind(kinds="section")]
        # change the first document: drop its first item
        c2 = [case[0][1:]] + case[1:]
        p = env.scratch / "test.dm"
        p.write_text(head + text(0, case[0][1:]))
        st = os.stat(str(p))
        os.utime(str(p), (st.st_atime + 10, st.st_mtime + 10))
        for d in doc.documents_list(only_subdocuments=False, recursive=True):
            d.load()
        if ids() != want(c2):
            return "after a reload: labels %r, expected %r" % (ids(), want(c2))
        from disseminate.label_manager import LabelManager as _
        resets = doc.context["label_resets"] if "label_resets" in doc.context else {}
        lab = list(lm.labels.values())
        e = expected_orders([(l.doc_id, l.id, l.kind) for l in lab if l.kind is not None], resets)
        g = [l.order for l in lab if l.kind is not None]
        if g != e:
            return "numbers %r, expected %r" % (g, e)
    finally:
        drop(env.scratch)
