import re
from common import *
import subprocess, operator
from disseminate.checkers.types import SoftwareDependency, SoftwareDependencyList, Any, All, Optional
from disseminate.checkers.utils import name_and_version
from disseminate.checkers.python import PythonChecker
from disseminate.checkers.checker import Checker
from disseminate.checkers.pdf import PdfChecker
import disseminate.checkers.checker as C
import disseminate.checkers.pdf as PDF

KINDS = {"any": Any, "all": All, "opt": Optional, "plain": SoftwareDependencyList}
OPS = {"==": operator.eq, ">=": operator.ge, "<=": operator.le, ">": operator.gt, "<": operator.lt, "!=": operator.ne}


def build(x, leaves):
    if not isinstance(x, list):
        d = SoftwareDependency("d%d" % len(leaves))
        d.available = x
        leaves.append(d)
        return d
    return KINDS[x[0]](x[0], *[build(i, leaves) for i in x[1]])


def truth(x):
    if not isinstance(x, list):
        return x is True
    v = [truth(i) for i in x[1]]
    return {"any": any(v), "all": all(v), "opt": True, "plain": False}[x[0]]


def groups():
    for k in ("any", "all", "opt"):
        for t in lists([True, False, None], 3):
            yield [[k, t]]
        for k2 in ("any", "all", "opt"):
            for t in lists([True, False, None], 2):
                for u in ([], [True], [None]):
                    yield [[k, [[k2, t]] + u]]
    r = rng("c20")

    def item(d):
        if d == 0 or r.random() < .5:
            return r.choice([True, True, False, None])
        return [r.choice(["any", "all", "opt", "any", "all", "plain"]), [item(d - 1) for _ in range(r.randint(0, 4))]]
    for _ in range(scale(1500)):
        x = item(4)
        yield [x if isinstance(x, list) else ["all", [x]]]
    for n in (15, 16, 17, 18, 40):
        for leaf in (True, None):
            x = leaf
            for i in range(n):
                x = [["any", "all"][i % 2], [x]]
            yield [x]


@check("groups", groups)
def _(case):
    "an any group is available iff a member is, an all group iff every member is, an optional one always; unchecked counts as missing; asking changes nothing"
    leaves = []
    g = build(case[0], leaves)
    before = [d.available for d in leaves]
    got = g.available
    r = same(got, truth(case[0]), "availability")
    if r:
        return r
    if [d.available for d in leaves] != before:
        return "asking changed a dependency"
    for d in leaves:  # checked later: the answer follows
        old = d.available
        d.available = True
        if g.available is not truth(case[0]) and g.available is not True:
            return "making a member available made the group unavailable"
        d.available = old


@check("listing", groups)
def _(case):
    "listing a group yields every nested member once, parents first, in order, with its depth; members are found by name"
    g = build(case[0], [])
    exp = []

    def go(x, d):
        for i in x.dependencies:
            exp.append((d, id(i)))
            if isinstance(i, SoftwareDependencyList):
                go(i, d + 1)
    go(g, 1)
    r = same([(n, id(i)) for n, i in g.flatten()], exp, "listing")
    if r:
        return r
    if len(g) != len(g.dependencies):
        return "length"
    for k in {getattr(i, "category", None) or i.name for i in g.dependencies} | {"nope", "d0"}:
        hit = [i for i in g.dependencies if getattr(i, "name", None) == k or getattr(i, "category", None) == k]
        if (k in g) != bool(hit):
            return "%r in group: %r" % (k, k in g)
        try:
            x = g[k]
        except KeyError:
            x = None
        if x is not (hit[0] if hit else None):
            return "group[%r] is %r" % (k, x)
    return same(g.keys(), [getattr(i, "category", None) or i.name for i in g.dependencies], "keys")


def reqs():
    for name in ["a", "a-b_c", "pdfCropMargins", "x.y", "jinja2"]:
        for op in ["", *OPS]:
            for v in ["", "1", "1.2", "0.10.3", "2018.11.22", "10.0"]:
                for sp in ["", " "]:
                    if (v == "") == (op == ""):
                        yield [name, op, v, sp]


@check("decode", reqs)
def _(case):
    "a requirement text is decoded into name, comparison and numeric version"
    name, op, v, sp = case
    got = name_and_version(name + sp + op + sp + v)
    return same(got, (name, OPS.get(op), tuple(map(int, v.split("."))) if v else None), "requirement %r" % (name + sp + op + sp + v))


def pad(a, b):
    n = max(len(a), len(b))
    return a + (0,) * (n - len(a)), b + (0,) * (n - len(b))


class Pip(PythonChecker):
    def __init__(self, freeze, deps):
        Checker.__init__(self, "python", *deps)
        self.freeze = tuple(i.lower() for i in freeze)


VERS = ["1", "1.2", "1.2.0", "1.10", "2.11", "2.9.9", "10.0", "0.9", "1.2.3", "2"]


def pips():
    for op in OPS:
        for a in VERS:
            for b in VERS:
                yield [["x==" + a], "x%s%s" % (op, b)]
                yield [["x-more==99", "x==" + a, "xy==0.1"], "X%s%s" % (op, b)]
    for f in (["x-more==1"], ["xy==1"], [], ["y==1", "x==1"], ["x==1.2.dev0"], ["x==1.2.post1"], ["x==1.2rc1"], ["x"], ["a-x==3"]):
        for q in ("x", "x>=1", "x==1.2", "X>1.1", "y", "x<1"):
            yield [f, q]


@check("packages", pips)
def _(case):
    "a package requirement is met iff the package of that name is installed and the comparison holds for its version component by component"
    freeze, q = case
    d = SoftwareDependency(q)
    inner = All("packages", Any("g", d))
    Pip(freeze, [inner]).check_packages_pip()
    m = re.match(r"([\w.-]+?)(==|>=|<=|!=|>|<)?([\d.]*)$", q)
    name, op, v = m.group(1).lower(), m.group(2), m.group(3)
    exp = False
    for f in freeze:
        n, _, fv = f.partition("==")
        if n == name:
            if op is None:
                exp = True
            elif fv:
                num = tuple(int(i) for i in re.match(r"[\d.]*", fv).group().split(".") if i)
                exp = OPS[op](*pad(num, tuple(map(int, v.split(".")))))
    return same(bool(d.available), exp, "%r with %r installed" % (q, freeze)) or same(inner.available, exp, "group")


def execs():
    r = rng("ex")
    for _ in range(scale(300)):
        yield [[r.sample("abcdef", r.randint(0, 4)), [r.choice("abcdef") for _ in range(r.randint(0, 3))], r.sample("abcdef", r.randint(0, 6)), r.choice(["a", None]), r.choice(["any", "all", "opt"])]]


@check("executables", execs)
def _(case):
    "an executable is available iff it is found, a decision already made is kept, and the checker's answer follows its groups"
    top, sub, have, pre, kind = case[0]
    grp = KINDS[kind]("alt", *sub)
    exe = All("executables", *(list(top) + [grp]))
    ck = Checker("x", exe)
    if pre and top:
        exe.dependencies[0].available = False
    old = C.shutil.which
    C.shutil.which = lambda n: "/bin/" + n if n in have else None
    try:
        got = ck.check()
    finally:
        C.shutil.which = old
    for i, d in enumerate(exe.dependencies[:-1]):
        e = False if pre and i == 0 else d.name in have
        if d.available is not e or (e and d.path != "/bin/" + d.name):
            return "%s is %r, expected %r" % (d.name, d.available, e)
    tops = [False if pre and i == 0 else n in have for i, n in enumerate(top)]
    subs = [n in have for n in sub]
    exp = all(tops) and {"any": any(subs), "all": all(subs), "opt": True}[kind]
    return same(got, exp, "checker") or same([d.available for d in grp.dependencies], subs, "nested")


def tex():
    r = rng("tex")
    for _ in range(scale(200)):
        yield [[r.sample("abcdefghijkl", r.randint(0, 9)), r.sample("abcdefghijkl", r.randint(0, 12)), r.random() < .9]]


@check("kpsewhich", tex)
def _(case):
    "a LaTeX package, font or class is available iff it is found, whatever the order the queries are answered in; without the query program it stays unchecked"
    names, have, prog = case[0]
    k = len(names) // 2
    mk = lambda c: All(c, *names[:k], Any("alt", *names[k:]))
    groups = {"packages": mk("packages"), "fonts": mk("fonts"), "classes": mk("classes")}
    ck = PdfChecker(All("pdf", *groups.values()))
    asked = []

    class Popen:
        def __init__(self, args, **kw):
            asked.append(args)
            n, ext = args[1].rsplit(".", 1)
            self.ok = n in have
            self.ext = ext

        def communicate(self):
            self.returncode = 0 if self.ok else 1
            return b"", b""
    ck.find_executable = lambda n: "/bin/x" if prog else None
    old = PDF.subprocess.Popen
    PDF.subprocess.Popen = Popen
    try:
        ck.check()
    finally:
        PDF.subprocess.Popen = old
    for c, ext in (("packages", "sty"), ("fonts", "tfm"), ("classes", "cls")):
        for _, d in groups[c].flatten():
            if isinstance(d, SoftwareDependency):
                e = (d.name in have) if prog else None
                if d.available is not e:
                    return "%s %s is %r, expected %r" % (c, d.name, d.available, e)
                if prog and ("kpsewhich", d.name + "." + ext) not in asked:
                    return "%s.%s was not asked for" % (d.name, ext)
