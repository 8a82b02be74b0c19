import copy as _copy
from common import *
import project as P
from disseminate.context.context import BaseContext, ContextException
from disseminate.utils.string import str_to_dict, str_to_list
from disseminate.document.document_context import DocumentContext
from disseminate import settings

# JSON encoding of values: plain str/int/float/bool/None/list/dict, {"#": "set", "v": [...]}, {"#": "tuple", ...}


class Obj:
    "an opaque object"
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Obj) and o.n == self.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return "Obj(%r)" % self.n


def dec(v):
    if isinstance(v, dict):
        if "#" in v:
            t = v["#"]
            if t == "set": return set(dec(x) for x in v["v"])
            if t == "tuple": return tuple(dec(x) for x in v["v"])
            if t == "obj": return Obj(v["v"])
            if t == "float": return float(v["v"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def snap(v):
    "an independent copy of a value"
    if isinstance(v, dict): return {k: snap(x) for k, x in v.items()}
    if isinstance(v, list): return [snap(x) for x in v]
    if isinstance(v, set): return set(v)
    if isinstance(v, tuple): return tuple(snap(x) for x in v)
    return v


def typed(v):
    "a value with its types, for comparison (True is not 1)"
    if isinstance(v, dict): return ("d", [(k, typed(x)) for k, x in v.items()])
    if isinstance(v, list): return ("l", [typed(x) for x in v])
    if isinstance(v, tuple): return ("t", [typed(x) for x in v])
    if isinstance(v, set): return ("s", sorted(map(repr, v)))
    return (type(v).__name__, repr(v))


def utyped(v):
    "like typed, for entries whose order is unspecified (the top level)"
    return sorted((k, typed(x)) for k, x in v.items())


class TooDeep(Exception):
    pass


def update(orig, changes, keys=None, overwrite=True, replace=(), level=1):
    """reference: orig updated in place by changes"""
    if isinstance(changes, str):
        changes = str_to_dict(changes)
    if level >= settings.context_max_depth:
        raise TooDeep()
    for k in (changes.keys() if keys is None else keys):
        if k not in changes:
            continue
        c = snap(changes[k])
        if k not in orig:
            orig[k] = c
            continue
        if not overwrite:
            continue
        o = orig[k]
        if isinstance(o, (list, set)):
            items = str_to_list(c) if isinstance(c, str) else list(c)
            if isinstance(o, list):
                orig[k] = items + ([] if k in replace else o)
            else:
                orig[k] = set(items) | (set() if k in replace else o)
        elif isinstance(o, dict):
            if k in replace:
                o.clear()
            update(o, str_to_dict(c) if isinstance(c, str) else dict(c), level=level + 1)
        elif isinstance(o, bool):
            if isinstance(c, bool):
                orig[k] = c
            elif isinstance(c, str) and c.strip().lower() in ("true", "false"):
                orig[k] = c.strip().lower() == "true"
        elif isinstance(o, int) or isinstance(o, float):
            try:
                orig[k] = (int if isinstance(o, int) else float)(c)
            except (ValueError, TypeError, OverflowError):
                pass
        elif type(o) == type(c):
            orig[k] = c


def fresh(orig, parent, init, dni, exempt, replace):
    keep = {k: v for k, v in orig.items() if k in exempt}
    if parent is not None:
        update(keep, {k: v for k, v in parent.items() if k not in dni}, replace=replace)
    update(keep, init, replace=replace)
    return keep


def cls(dni=(), exempt=(), replace=()):
    class C(BaseContext):
        pass
    C.do_not_inherit = set(dni)
    C.exclude_from_reset = set(exempt)
    C.replace = set(replace)
    C._do_not_inherit = None
    return C


SCALARS = [1, -2, 0, True, False, "x", "", " 3 ", "4.5", "true", " FALSE", "a: 1\nb: 2", "a, b", "p; q", "l1\nl2", {"#": "float", "v": "2.5"}, None,
           {"#": "obj", "v": 1}, [], ["u"], ["u", ["v"]], [["w"], {"q": [1]}], {}, {"a": 1}, {"a": [1], "b": {"c": ["d"]}}, {"a": {"b": 2}},
           {"#": "set", "v": ["s"]}, {"#": "set", "v": ["s", "t"]}, {"#": "tuple", "v": [1, 2]}]


def compatible(o, c):
    "updating o by c is specified (a text, or a value of the kind o holds)"
    if isinstance(o, (list, set)):
        return isinstance(c, (str, list, set, tuple)) and not (isinstance(o, set) and any(isinstance(x, (list, dict, set)) for x in c))
    if isinstance(o, dict):
        if isinstance(c, str):
            return True
        return isinstance(c, dict) and all(compatible(o[k], c[k]) for k in c if k in o)
    return True


def pairs():
    for i, a in enumerate(SCALARS):
        for j, b in enumerate(SCALARS):
            for ov in (True, False):
                for rep in (False, True):
                    yield [a, b, ov, rep]


@check("update_pair", pairs)
def _(case):
    "updating an entry keeps its type: lists prepended, sets united, mappings merged, booleans/integers/floats parsed from text, unparsable values ignored; the values updated from are unchanged"
    o, c, ov, rep = dec(case[0]), dec(case[1]), case[2], case[3]
    if not compatible(o, c):
        raise Skip
    if rep and isinstance(o, (bool, int, float, str, type(None), Obj, tuple)):
        raise Skip
    C = cls(replace=["k"] if rep else [])
    ctx, ref = C(k=o), {"k": snap(o)}
    changes = {"k": c, "n": c}
    before = snap(changes)
    obefore = snap(o)
    ctx.match_update(changes, overwrite=ov)
    update(ref, before, overwrite=ov, replace=C.replace)
    if utyped(ctx) != utyped(ref):
        return "entry %r updated by %r (overwrite=%r, replace=%r): got %r, expected %r" % (o, c, ov, rep, dict(ctx), ref)
    if typed(changes) != typed(before):
        return "the changes were modified: %r -> %r" % (before, changes)
    return shares(ctx, changes) or same(typed(o), typed(obefore), "the initial value changed")


def shares(a, b, path=""):
    """do two structures share something mutable?"""
    ids = {}

    def walk(v, p):
        if isinstance(v, (list, dict, set)):
            ids[id(v)] = (p, v)
        if isinstance(v, dict):
            for k, x in v.items(): walk(x, p + "[%r]" % k)
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v): walk(x, p + "[%d]" % i)
    walk(dict(a), "")
    hit = []

    def look(v, p):
        if isinstance(v, (list, dict, set)) and id(v) in ids and ids[id(v)][1] is v:
            hit.append("%s is the same object as %s" % (p, ids[id(v)][0]))
        if isinstance(v, dict):
            for k, x in v.items(): look(x, p + "[%r]" % k)
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v): look(x, p + "[%d]" % i)
    look(dict(b), "source")
    return ("updating shares mutable values with its source: " + hit[0]) if hit else None


KEYS = ["a", "b", "c", "d"]


def rvalue(r, depth=0):
    k = r.random()
    if depth < 4 and k < .45:
        t = r.randint(0, 2)
        if t == 0:
            return [rvalue(r, depth + 1) for _ in range(r.randint(0, 2))]
        if t == 1:
            return {q: rvalue(r, depth + 1) for q in r.sample(KEYS, r.randint(0, 2))}
        return {"#": "set", "v": [r.choice("stuv") for _ in range(r.randint(0, 2))]}
    return r.choice([3, 2, True, False, "x", "true", "False ", "7", "zz", "a: 1\n  b: 2", "m, n", "m; n", {"#": "float", "v": "1.5"}, None])


def rentries(r):
    return {q: rvalue(r) for q in r.sample(KEYS, r.randint(0, 4))}


def trees():
    r = rng("c04")
    for i in range(scale(2500)):
        n = r.randint(2, 4)
        ctxs = [[None if j == 0 else r.randint(0, j - 1), rentries(r)] for j in range(n)]
        ops = []
        for _ in range(r.randint(1, 6)):
            o = r.random()
            t = r.randrange(n)
            if o < .5:
                ops.append(["update", t, rentries(r), r.random() < .8, r.choice([None, None, KEYS[:2], ["a", "zz"]])])
            elif o < .6:
                ops.append(["text", t, "\n".join("%s: %s" % (q, r.choice(["1", "true", "x, y", "p; q"])) for q in r.sample(KEYS, r.randint(0, 3)))])
            elif o < .8:
                ops.append(["reset", t])
            elif o < .9:
                ops.append(["set", t, r.choice(KEYS), rvalue(r)])
            else:
                ops.append(["mutate", t, r.randint(0, 9)])
        meta = {"dni": r.choice([[], ["a"], ["b", "c"]]), "replace": r.choice([[], ["a"], ["d"]])}
        yield [ctxs, ops, meta]


def mutate(v, n):
    "change the n-th mutable value reachable from v, in place"
    cells = []

    def walk(x):
        if isinstance(x, (list, dict, set)):
            cells.append(x)
        if isinstance(x, dict):
            for q in x.values(): walk(q)
        elif isinstance(x, (list, tuple)):
            for q in x: walk(q)
    for q in v.values():
        walk(q)
    if not cells:
        return None
    x = cells[n % len(cells)]
    if isinstance(x, list): x.append("mut")
    elif isinstance(x, dict): x["mut"] = 1
    else: x.add("mut")


@check("histories", trees)
def _(case):
    "over histories of updates, resets, assignments and in-place changes on a tree of contexts: each context's entries are what its own history gives, and no operation on one changes another, its initial values or the values it was updated from"
    ctxs, ops, meta = case
    C = cls(dni=meta["dni"], replace=meta["replace"])
    real, refs, inits, init0 = [], [], [], []
    for p, init in ctxs:
        d = dec(init)
        kw = dict(d)
        try:
            rf = fresh({}, refs[p] if p is not None else None, d, set(meta["dni"]), set(), C.replace) if ok(refs[p] if p is not None else {}, d, meta) else None
        except TooDeep:
            raise Skip
        if rf is None:
            raise Skip
        if p is not None:
            kw["parent_context"] = real[p]
        c = C(**kw)
        real.append(c); refs.append(rf); inits.append(d); init0.append(snap(d))
        m = compare(real, refs, inits, init0, "building context %d" % (len(real) - 1))
        if m: return m
    for i, op in enumerate(ops):
        t = op[1]
        src, src0 = None, None
        if op[0] in ("update", "text"):
            src = dec(op[2])
            src0 = snap(src)
            eff = str_to_dict(src) if isinstance(src, str) else src
            if not all(compatible(refs[t][k], eff[k]) for k in eff if k in refs[t]):
                continue
            kw = {} if op[0] == "text" else dict(overwrite=op[3], keys=op[4])
            saved = snap(refs[t])
            try:
                update(refs[t], src0, replace=C.replace, **kw)
            except TooDeep:
                try:
                    real[t].match_update(src, **kw)
                    return "step %d: nesting beyond the maximum depth was accepted" % i
                except ContextException:
                    return compare([x for j, x in enumerate(real) if j != t], [x for j, x in enumerate(refs) if j != t],
                                   inits, init0, "a rejected update of context %d" % t)
            real[t].match_update(src, **kw)
        elif op[0] == "reset":
            p = ctxs[t][0]
            pr = refs[p] if p is not None else None
            if not ok(pr or {}, init0[t], meta):
                continue
            try:
                refs[t] = fresh({}, pr, init0[t], set(meta["dni"]), set(), C.replace)
            except TooDeep:
                raise Skip
            real[t].reset()
        elif op[0] == "set":
            real[t][op[2]] = dec(op[3]); refs[t][op[2]] = dec(op[3])
        elif op[0] == "mutate":
            # the same place in both: by sorted key order
            a = {k: real[t][k] for k in sorted(real[t])}; b = {k: refs[t][k] for k in sorted(refs[t])}
            mutate(a, op[2]); mutate(b, op[2])
        m = compare(real, refs, inits, init0, "step %d %r" % (i, op[:2]))
        if m: return m
        if src is not None and typed(src) != typed(src0):
            return "step %d: the values updated from were changed: %r -> %r" % (i, src0, src)


def ok(parent, init, meta):
    "building on parent with these initial values is specified"
    inh = {k: v for k, v in parent.items() if k not in meta["dni"]}
    return all(compatible(inh[k], init[k]) for k in init if k in inh)


def compare(real, refs, inits, init0, what):
    for j, (c, rf) in enumerate(zip(real, refs)):
        if utyped(c) != utyped(rf):
            return "%s: context %d is %s, expected %s" % (what, j, short(dict(c)), short(rf))
    for j, (a, b) in enumerate(zip(inits, init0)):
        if typed(a) != typed(b):
            return "%s: initial values of context %d changed: %r -> %r" % (what, j, b, a)


def resets():
    r = rng("c04reset")
    for _ in range(scale(600)):
        yield [rentries(r), rentries(r), rentries(r), r.sample(KEYS, r.randint(0, 3)), r.sample(KEYS, r.randint(0, 2))]


@check("reset_exempt", resets)
def _(case):
    "resetting restores exactly the state built from the parent and the initial values, keeping the entries exempt from reset as they are"
    parent, init, later, dni, exempt = case
    parent, init, later = dec(parent), dec(init), dec(later)
    meta = {"dni": dni}
    # exempt entries are set afterwards only
    for d in (parent, init):
        for k in exempt:
            d.pop(k, None)
    if not ok(parent, init, meta):
        raise Skip

    class Base(BaseContext):
        exclude_from_reset = set(exempt[:1])
        do_not_inherit = set(dni[:1])

    class C(Base):
        exclude_from_reset = set(exempt[1:])
        do_not_inherit = set(dni[1:])
    Pc = BaseContext(**parent)
    p0 = snap(dict(Pc))
    try:
        exp = fresh({}, Pc, init, set(dni), set(), ())
    except TooDeep:
        raise Skip
    c = C(parent_context=Pc, **init)
    if utyped(c) != utyped(exp):
        return "built context %r, expected %r" % (dict(c), exp)
    for k, v in later.items():
        c[k] = snap(v)
    c["extra"] = 1
    c.reset()
    exp2 = dict(snap(exp), **{k: v for k, v in later.items() if k in exempt})
    if utyped(c) != utyped(exp2):
        return "after reset %r, expected %r (exempt %r)" % (dict(c), exp2, exempt)
    if c.parent_context is not Pc:
        return "parent context lost"
    return same(utyped(Pc), utyped(p0), "parent changed")


def depth():
    for n in range(1, 9):
        for k in range(1, 9):
            yield [n, k]


@check("depth", depth)
def _(case):
    "merging mappings nested to the maximum depth or beyond raises a context error instead of recursing"
    n, k = case

    def nest(m):
        d = {"x": 1}
        for _ in range(m):
            d = {"a": d}
        return d
    c = BaseContext(**nest(n))
    exp = snap(dict(c))
    try:
        update(exp, nest(k))
    except TooDeep:
        exp = None
    try:
        c.match_update(nest(k))
    except ContextException:
        return None if exp is None else "context error for depth %d merged with %d" % (n, k)
    if exp is None:
        return "no context error for depth %d merged with %d" % (n, k)
    return same(utyped(c), utyped(exp), "merged")


def filters():
    r = rng("c04f")
    for _ in range(scale(300)):
        yield [rentries(r), r.sample(KEYS + ["zz"], r.randint(0, 4))]


@check("filter", filters)
def _(case):
    "filtering a context gives copies of exactly the named entries that exist"
    e, keys = dec(case[0]), case[1]
    c = BaseContext(**e)
    f = c.filter(keys)
    if type(f) is not BaseContext:
        return "type %r" % type(f)
    m = same(utyped(f), utyped({k: v for k, v in e.items() if k in keys}), "filtered")
    return m or shares(f, c) or same(utyped(c), utyped(e), "original")


TYPES = {"int": int, "str": str, "list": list, "any": None}


@check("is_valid", lambda: ([dict(zip("pqr", vs)), keys, me] for vs in itertools.product([1, "s", ["l"], "-"], repeat=3)
                            for keys in ([], ["p"], ["q", "zz"], ["r", "p"]) for me in (True, False)))
def _(case):
    "a context is valid exactly when each requested entry exists (if it must) and has its declared type"
    e, keys, me = case
    e = {k: v for k, v in e.items() if v != "-"}

    class C(BaseContext):
        validation_types = {"p": int, "q": (list, str), "r": None}
    c = C(**e)
    exp = True
    for k in keys or ["p", "q", "r"]:
        if k not in e:
            if me:
                exp = False
            continue
        t = C.validation_types.get(k)
        if t is not None and not isinstance(e[k], t):
            exp = False
    return same(c.is_valid(*keys, must_exist=me), exp, "is_valid")


def tagcases():
    for name in ("title", "b"):
        for text in ("plain", "with @b{bold} text", ""):
            yield [name, text]


@check("tags", tagcases)
def _(case):
    "tag entries are copied into the child context: updating or changing the child's tag leaves the parent's alone"
    from disseminate.tags.tag import Tag, TagFactory
    name, text = case
    ctx = P.shared_context()
    parent = BaseContext(ctx)
    tag = Tag(name=name, content=text, attributes="x=1", context=parent)
    parent["t"] = tag
    before = tag.txt
    child = BaseContext(parent_context=parent)
    ct = child["t"]
    if ct is tag or ct.txt != before or ct.context is not child or tag.context is not parent:
        return "tag was not copied into the child context"
    ct.content = "changed"
    ct.attributes["y"] = "2"
    child.match_update({"t": "new text"})
    if type(child["t"]) is not type(tag) or child["t"].txt != "new text" or child["t"].context is not child:
        return "a tag entry updated from text is not a tag with that text"
    child.match_update({"t": 5})
    if getattr(child["t"], "txt", None) != "new text":
        return "an unusable value replaced a tag entry"
    other = Tag(name="i", content="other", attributes="", context=parent)
    child.match_update({"t": other})
    if child["t"] is other or child["t"].name != "i" or child["t"].txt != "other" or child["t"].context is not child or other.context is not parent:
        return "a tag entry updated by a tag is not a copy of it in this context"
    if parent["t"] is not tag or tag.txt != before or "y" in tag.attributes:
        return "parent tag changed"


def docs():
    for hdr in ["label_resets:\n  chapter: figure, table\n", "label_fmts:\n  document: X\n", "targets: tex\n", "inactive_tags: sidenote\n",
                "process_paragraphs: abstract\n", "relative_links: false\nbase_url: q\n", "macro: {}\n"]:
        yield [hdr]


@check("documents", docs)
def _(case):
    "a subdocument's header changes neither the root document's context, its sibling's, nor the default context; reloading restores the same state"
    hdr = case[0]
    d0 = _copy.deepcopy({k: v for k, v in settings.default_context.items()})
    files = {"r.dm": "---\ntargets: html, tex\ninclude:\n  a.dm\n  b.dm\n  c.dm\n---\nroot", "a.dm": "a", "b.dm": "---\n" + hdr + "---\nb", "c.dm": "c"}
    env, doc = P.project(files, "r.dm")
    plain = dict(files, **{"b.dm": "---\n---\nb"})
    env2, doc2 = P.project(plain, "r.dm")
    try:
        view = lambda c: {k: snap(c[k]) for k in c if isinstance(c[k], (str, int, list, dict, set, tuple)) and k not in ("mtime", "paths", "doc_id", "builders")}
        A, B = doc.documents_list(), doc2.documents_list()
        if len(A) != 4 or len(B) != 4:
            return "project has %d documents" % len(A)
        for x, y in ((0, 0), (1, 1), (3, 3)):
            a, b = view(A[x].context), view(B[y].context)
            if a != b:
                k = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
                return "document %d: entry %r is %r, but %r without the sibling's header" % (x, k[0], a.get(k[0]), b.get(k[0]))
        first = view(A[2].context)
        (env.scratch / "b.dm").write_text(files["b.dm"])
        for i in range(2):
            for x in A:
                x.load(reload=True)
        again = view(doc.documents_list()[2].context)
        if first != again:
            k = [k for k in set(first) | set(again) if first.get(k) != again.get(k)]
            return "entry %r is %r after reloading the same file, was %r" % (k[0], again.get(k[0]), first.get(k[0]))
        now = {k: v for k, v in settings.default_context.items()}
        if now != d0:
            return "the default context changed"
    finally:
        P.drop(env.scratch); P.drop(env2.scratch)
