from common import *
import copy, hashlib
from disseminate.utils import list as L
from disseminate.utils.dict import find_entry

ALPH = [1, 2, 3, "a"]


def seqs():
    yield from lists(ALPH, scale(5, 6))
    r = rng("seqs")
    for _ in range(scale(300)):
        yield [r.choice([1, 2, 3, 4, 5, 6, "a", "b", "", None]) for _ in range(r.randint(6, 40))]


KEYS = {"none": None, "mod2": lambda x: str(x)[-1:], "len": lambda x: len(str(x)), "const": lambda x: 0}


def keyed():
    for s in seqs():
        for k in KEYS:
            yield [s, k]


@check("uniq", keyed)
def _(case):
    "uniq keeps the first occurrence of each element (by key) in order, and does not change its argument"
    s, k = case
    f = KEYS[k] or (lambda x: x)
    exp, seen = [], []
    for x in s:
        if f(x) not in seen:
            seen.append(f(x))
            exp.append(x)
    a = copy.deepcopy(s)
    return same(L.uniq(a, key=KEYS[k]), exp, "uniq") or same(a, s, "argument") or \
        same(list(L.unique_everseen(iter(s), KEYS[k])), exp, "unique_everseen over an iterator")


@check("dupes", keyed)
def _(case):
    "dupes keeps exactly the elements whose key occurs more than once, in order"
    s, k = case
    f = KEYS[k] or (lambda x: x)
    ks = [f(x) for x in s]
    exp = [x for x in s if ks.count(f(x)) > 1]
    a = copy.deepcopy(s)
    return same(L.dupes(a, key=KEYS[k]), exp, "dupes") or same(a, s, "argument")


def trees(depth, width, leaves):
    if depth == 0:
        return list(leaves)
    sub = trees(depth - 1, width, leaves)
    out = list(leaves)
    for n in range(width + 1):
        out += [list(t) for t in itertools.product(sub, repeat=n)]
    return out


def nested():
    for t in trees(2, 2, [1, "ab"]):
        if isinstance(t, list):
            yield t
    r = rng("nested")

    def rt(d):
        if d == 0 or r.random() < .4:
            return r.choice([1, 2, "x", "", None, "ab"])
        return [rt(d - 1) for _ in range(r.randint(0, 4))]
    for _ in range(scale(300)):
        yield [rt(4) for _ in range(r.randint(0, 4))]


def leaves(t):
    return [y for x in t for y in leaves(x)] if isinstance(t, list) else [t]


@check("flatten", nested)
def _(case):
    "flatten lists every leaf in order"
    a = copy.deepcopy(case)
    return same(list(L.flatten(a)), leaves(case), "flatten") or same(a, case, "argument")


@check("flatten_tuples", lambda: [0])
def _(case):
    "tuples are leaves; empty lists contribute nothing; strings are not split"
    return same(list(L.flatten([(1, 2), [[], [(3, [4])]], "ab"])), [(1, 2), (3, [4]), "ab"])


@check("unwrap", lambda: itertools.chain(nested(), [1, "a", None, [[]], [[[]]], [[[[3]]]], [[1, 2]], [[["ab"]]], [["", ""]]]))
def _(case):
    "unwrap removes only single-element nesting"
    e = case
    while isinstance(e, list) and len(e) == 1:
        e = e[0]
    a = copy.deepcopy(case)
    return same(L.unwrap(a), e, "unwrap") or same(a, case, "argument")


@check("chunks", lambda: ([n, k, t] for n in range(0, 14) for k in range(1, 16) for t in (0, 1)))
def _(case):
    "chunks are consecutive pieces of the size given (the last may be shorter) which join back to the sequence"
    n, k, t = case
    s = tuple(range(n)) if t else list(range(n))
    cs = list(L.chunks(s, k))
    joined = [x for c in cs for x in c]
    if joined != list(s):
        return "chunks do not join back: %r" % cs
    if any(len(c) != k for c in cs[:-1]) or any(not 1 <= len(c) <= k for c in cs[-1:]):
        return "chunk sizes: %r" % cs


def tables():
    yield from lists([[], [1], [1, 2], ["a", "b", "c"]], 4)


@check("transpose", tables)
def _(case):
    "entry (i, j) moves to (j, i); rows are cut at the shortest"
    n = min(map(len, case)) if case else 0
    exp = [[row[j] for row in case] for j in range(n)]
    a = copy.deepcopy(case)
    r = L.transpose(a)
    return same(r, exp, "transpose") or same(a, case, "argument") or \
        same([type(x) for x in r], [list] * n, "row types")


def md5spec(x):
    return hashlib.md5("".join(md5spec(i) if isinstance(i, (list, tuple)) else str(i) for i in x).encode()).hexdigest()


@check("md5hash", nested)
def _(case):
    "equal nested lists hash alike; different nested leaves hash differently; tuples hash like lists"
    a = copy.deepcopy(case)

    def tt(x):
        return tuple(tt(i) for i in x) if isinstance(x, list) else x
    h = L.md5hash(a)
    return same(a, case, "argument") or same(L.md5hash(copy.deepcopy(case)), h, "hash of an equal list") or \
        same(L.md5hash(tt(case)), h, "hash of the equal tuple") or \
        (None if L.md5hash(case + ["zz"]) != h else "appending an element does not change the hash") or \
        (None if L.md5hash([case]) != h or not case else "nesting does not change the hash")


def fe_cases():
    parts = ["a", "b", "c"]
    r = rng("fe")
    names = []
    for n in (1, 2, 3):
        for t in itertools.product(parts, repeat=n):
            names.append("_".join(t))
    for _ in range(scale(2500)):
        sep = r.choice(["_", "_", "_", "-", ""])
        ks = [r.choice(parts) for _ in range(r.randint(0, 4))]
        suf = r.choice([None, None, "tex", "c", "a", ""])
        pool = names + [n + "_tex" for n in names] + ["a-b", "a-b-c", "ab", "abc", "a-tex", "atex", "_tex", "tex", "", "a_"]
        rel = []
        for n in range(len(ks) + 1):
            t = sep.join(ks[:n])
            rel += [t, t + sep + (suf or "")]
        dicts = []
        for i in range(r.randint(0, 3)):
            dicts.append({r.choice(rel if r.random() < .7 else pool): r.choice([i * 100 + j, None, 0, ""]) for j in range(r.randint(0, 4))})
        yield [dicts, ks, suf, sep, r.random() < .3]


@check("find_entry", fe_cases)
def _(case):
    "first mapping, then longest key, then suffixed before plain; KeyError when nothing matches"
    dicts, ks, suf, sep, single = case
    if single:
        arg = dict(dicts[0]) if dicts else {}
        look = [arg]
    else:
        arg = copy.deepcopy(dicts)
        look = arg
    exp = KeyError
    for d in look:
        for n in range(len(ks), 0, -1):
            t = sep.join(ks[:n])
            hit = [x for x in ([t + sep + suf] if suf is not None else []) + [t] if x in d]
            if hit:
                exp = d[hit[0]]
                break
        if exp is not KeyError:
            break
    before = copy.deepcopy(arg)
    try:
        got = find_entry(arg, *ks, suffix=suf, sep=sep) if sep != "_" else find_entry(arg, *ks, suffix=suf)
    except KeyError:
        got = KeyError
    return same(got, exp, "entry") or same(arg, before, "argument")
