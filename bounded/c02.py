from collections import namedtuple
from common import *
import project as P
from disseminate.utils.string import replace_macros

import re
REF = re.compile(r"(@[\w.]+)(\{\s*\})?")


class O:
    "an object with attributes"
    def __init__(self, text, **kw):
        self.__dict__.update(kw)
        self._t = text
    def __str__(self):
        return self._t


def mkobj(v):
    if isinstance(v, dict):
        return O(v["#"], **{k: mkobj(x) for k, x in v.items() if k != "#"})
    return v


def value(ref, dicts):
    """(name, text a reference stands for) or None"""
    parts = ref.split(".")
    for d in dicts:
        if parts[0] in d:
            obj = d[parts[0]]
            break
    else:
        return None
    i = 1
    while i < len(parts) and not isinstance(obj, str) and parts[i] in getattr(obj, "__dict__", {}):
        obj = getattr(obj, parts[i])
        i += 1
    return parts[0], str(obj) + "".join("." + p for p in parts[i:])


def expand(s, dicts, active=()):
    out, pos = [], 0
    for m in REF.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        v = value(m.group(1), dicts)
        if v is None or v[0] in active:
            out.append(m.group())
        else:
            out.append(expand(v[1], dicts, active + (v[0],)))
    return "".join(out) + s[pos:]


def graph(dicts):
    """names -> names their values mention"""
    g = {}
    for d in dicts:
        for k, v in d.items():
            if k in g:
                continue
            texts = [str(v)] + ([str(x) for x in deep(v)])
            g[k] = {m.group(1).split(".")[0] for t in texts for m in REF.finditer(t)}
    return g


def deep(v):
    for x in getattr(v, "__dict__", {}).values():
        yield x
        yield from deep(x)


def cyclic(g):
    out = set()
    for k in g:
        seen, todo = set(), list(g[k])
        while todo:
            x = todo.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            todo += g[x]
        if k in seen:
            out.add(k)
    return out


def holds(s, dicts):
    got = replace_macros(s, *dicts)
    cyc = cyclic(graph(dicts))
    reach = cyc | {k for k in graph(dicts) if closure(k, graph(dicts)) & cyc}
    used = {m.group(1).split(".")[0] for m in REF.finditer(s)}
    if not used & reach:
        return same(got, expand(s, dicts), "expansion of %r with %s" % (s, short(dicts)))
    # with self-referential macros: terminates, and no other defined macro is left
    for m in REF.finditer(got):
        n = m.group(1).split(".")[0]
        if n in graph(dicts) and n not in cyc:
            return "reference to %s left in %r" % (n, got)
    # texts outside references keep their order
    plain = [t for t in re.split(r"@[\w.]+(?:\{\s*\})?", s) if t]
    pos = 0
    for t in plain:
        j = got.find(t, pos)
        if j < 0:
            return "text %r lost in %r" % (t, got)
        pos = j + len(t)


def closure(k, g):
    seen, todo = set(), list(g[k])
    while todo:
        x = todo.pop()
        if x in g and x not in seen:
            seen.add(x)
            todo += g[x]
    return seen


TEXTS = ["@a", "@b", "@c", "@a.x", "@b.y.z", "@a{}", "@a{ }t", "@a{t}", "@zz", "@ab", "x@a.", "@", "@@a", "@a@b", " ", "t", "@b{}c", "{@a}", "@c.x.q"]
VALS = ["1", "@b", "p @c q", "@c@c", "@zz", "@b.y", "@sup{x}", "", "@a", "x@a", "@b @a", "@a @a", {"#": "OBJ", "x": "7", "y": {"#": "Y", "z": "@c"}}, {"#": "@b", "x": "@b"}]


def small():
    for t in lists(TEXTS, 2, 1):
        for va in VALS:
            for vb in (VALS[:9] if len(t) == 1 else VALS[:4]):
                yield ["".join(t), [{"@a": va, "@b": vb, "@c": "C"}]]


@check("expansion", small, limit=5)
def _(case):
    "after expansion no reference to a defined, non-self-referential macro remains; dotted names read attributes; other text is unchanged"
    return holds(case[0], [{k: mkobj(v) for k, v in d.items()} for d in case[1]])


def rand():
    r = rng("c02")
    names = ["@m%d" % i for i in range(8)] + ["@a"]
    for _ in range(scale(4000)):
        ds = []
        dag = r.random() < .6
        for _ in range(r.randint(1, 3)):
            d = {}
            for n in r.sample(names, r.randint(1, 6)):
                pool = [x for x in names if not dag or x > n]
                if r.random() < .2:
                    d[n] = {"#": "T" + n[1:], "x": (r.choice(pool) if pool else "v"), "y": {"#": "Y", "x": "deep"}}
                else:
                    d[n] = "".join(r.choice([r.choice(pool) if pool else "", " ", "w", ".x", "@sup{2}", "{}"]) for _ in range(r.randint(0, 3)))
            ds.append(d)
        s = "".join(r.choice([r.choice(names), " ", "t", ".x", ".y.x", ".zz", "{}", "{a}", "\n", ".", ", "]) for _ in range(r.randint(1, 8)))
        yield [s, ds]


@check("random", rand, limit=5)
def _(case):
    "the same over random macro dictionaries; the first dictionary that defines a macro wins"
    return holds(case[0], [{k: mkobj(v) for k, v in d.items()} for d in case[1]])


@check("chains", lambda: ([n, k] for n in [1, 2, 3, 4, 5, 8, 20, 100, scale(1500, 4000)] for k in range(4)), limit=20)
def _(case):
    "macros written in terms of other macros are expanded whatever the length of the chain"
    n, k = case
    d = {"@m%d" % i: ["@m%d", "x@m%d", "@m%dy", "<@m%d>"][k] % (i + 1) for i in range(n)}
    d["@m%d" % n] = "END"
    exp = ["END", "x" * n + "END", "END" + "", "<" * n + "END" + ">" * n][k]
    if k == 2:
        d = {"@m%d" % i: "@m%d y" % (i + 1) for i in range(n)}
        d["@m%d" % n] = "END"
        exp = "END" + " y" * n
    return same(replace_macros("a @m0 b", d), "a " + exp + " b", "chain of %d" % n)


@check("loops", lambda: ([c, t] for c in range(1, 5) for t in ["@m%d", "@m%d @m%d", "x@m%d", "@m%d{}@m%dy", "@m%d.z"]), limit=5)
def _(case):
    "expansion terminates for self-referential macros"
    c, t = case
    d = {"@m%d" % i: t.replace("%d", str((i + 1) % c)) for i in range(c)}
    d["@ok"] = "@m0 OK"
    r = replace_macros("q @ok @m0 @ok", d)
    if not (r.startswith("q ") and "OK" in r):
        return "text lost: %r" % r
    return "defined macro left: %r" % r if "@ok" in r else None


def incontext():
    for v, t, e in [("@y", "@x", "Z"), ("1 @y 2", "@x", "1 Z 2"), ("@y@y", "a @x b", "a ZZ b"), ("@w", "@x", "Z"), ("@b{q} @w", "@x", "q Z")]:
        yield [v, t, e]


@check("documents", incontext)
def _(case):
    "macros defined in a document's header are expanded in its text"
    v, t, e = case
    env, doc = P.project({"test.dm": "---\n@x: %s\n@w: @y\n@y: Z\n---\n@p{%s}" % (v, t)})
    try:
        return same(doc.context["body"].txt.strip(), e, "text of the document")
    finally:
        P.drop(env.scratch)
