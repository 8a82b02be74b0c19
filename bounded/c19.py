from common import *
from labelctx import mk, Ctx
from disseminate.label_manager import LabelManager, ContentLabel
from disseminate.label_manager.exceptions import DuplicateLabel
from disseminate.label_manager.register_content_labels import register_content_labels
from disseminate.label_manager.types import DocumentLabel

RANKS = ["part", "chapter", "section", "subsection", "subsubsection"]
KINDS = RANKS + ["figure"]


def spec(seq):
    """for each label kind sequence element: the enclosing headings (index or None) per rank"""
    out = []
    for i in range(len(seq)):
        enc = []
        for rank, name in enumerate(RANKS):
            found = None
            for j in range(i, -1, -1):
                k = seq[j]
                if k == name:
                    found = j
                    break
                if k in RANKS and RANKS.index(k) < rank:
                    break
            enc.append(found)
        out.append(enc)
    return out


def check_labels(labs, kinds):
    exp = spec(kinds)
    for i, l in enumerate(labs):
        got = [getattr(l, r + "_label") for r in RANKS]
        want = [None if x is None else labs[x] for x in exp[i]]
        if any(a is not b for a, b in zip(got, want)):
            return "label %d of %r encloses %r, expected %r" % (i, kinds, got, want)
        for r, w in zip(RANKS, want):
            n, t = getattr(l, r + "_number"), getattr(l, r + "_title")
            if n != (w.order[-1] if w is not None and w.order else ""):
                return "%s_number of label %d is %r" % (r, i, n)
            if t != (w.title if w is not None else ""):
                return "%s_title of label %d is %r" % (r, i, t)
        tn = ".".join(str(w.order[-1]) for w in want if w is not None and w.order and w.order[-1])
        if l.tree_number != tn:
            return "tree number of label %d is %r, expected %r" % (i, l.tree_number, tn)


def first():
    for t in lists(KINDS, scale(4, 5), 1):
        yield [t]


@check("enclosing", first)
def _(case):
    "after registration each label refers to exactly its enclosing headings, and its tree number joins their numbers"
    return histories(case)


def multi():
    r = rng("c19")
    for _ in range(scale(1500)):
        yield [[r.choice(KINDS) for _ in range(r.randint(1, 9))] for _ in range(r.randint(1, 3))]


def histories(case):
    c = mk(["d1"], {"part": ["chapter"], "chapter": ["section"], "section": ["subsection"], "subsection": ["subsubsection"]})
    lm = LabelManager(root_context=c)
    cache = {}
    for kinds in case:
        # the same labels, in a new sequence (a heading moved, removed or changed rank) - the labels themselves persist
        lm.labels.clear()
        lm.registered = False
        labs = []
        for i, k in enumerate(kinds):
            key = (k, sum(1 for q in kinds[:i] if q == k))
            lid = "%s%d" % key
            if key not in cache:
                cache[key] = lm.add_content_label(id=lid, kind=("heading", k) if k in RANKS and i % 2 else k, title="t" + lid, context=c)
            lm.labels[("d1", lid)] = cache[key]
            labs.append(cache[key])
        lm.register()
        got = list(lm.labels.values())
        if got != labs:
            return "labels changed order"
        m = check_labels(labs, kinds)
        if m:
            return m


@check("reregistration", multi)
def _(case):
    "whatever the labels referred to before, registration makes them refer to their present enclosing headings, and to none where there is none"
    return histories(case)


def direct():
    r = rng("c19direct")
    for _ in range(scale(600)):
        yield [r.choice(KINDS + ["doc"]) for _ in range(r.randint(1, 10))]


@check("with_document_labels", direct)
def _(case):
    "labels that are not content labels do not affect the enclosing headings, and headings carry over documents"
    labs = []
    for i, k in enumerate(case):
        if k == "doc":
            labs.append(DocumentLabel(doc_id="d%d" % (i // 3), id="l%d" % i, kind="document", title="x"))
        else:
            labs.append(ContentLabel(doc_id="d%d" % (i // 3), id="l%d" % i, kind=k, title="t%d" % i, order=(i % 3,)))
    register_content_labels(labels={(l.doc_id, l.id): l for l in labs}, root_context=None)
    sel = [(l, k) for l, k in zip(labs, case) if k != "doc"]
    return check_labels([l for l, k in sel], [k for l, k in sel])


@check("unnumbered", lambda: ([a, b] for a in [None, (), (1,), (2, 3), (0,)] for b in [None, (), (4,), (0,)]))
def _(case):
    "headings without a number are left out of the tree number"
    a, b = [tuple(x) if x is not None else None for x in case]
    ch = ContentLabel("d", "c", "chapter", "C", order=a)
    se = ContentLabel("d", "s", "section", "S", order=b)
    fi = ContentLabel("d", "f", "figure", None, order=(9,))
    register_content_labels(labels={1: ch, 2: se, 3: fi})
    exp = ".".join(str(x[-1]) for x in (a, b) if x and x[-1])
    return same(fi.tree_number, exp, "tree_number")
