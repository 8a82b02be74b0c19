from common import *
from project import scratch, drop, project
import io, pathlib
from collections import Counter
from disseminate.builders.deciders import Decider, Md5Decider
from disseminate.builders.deciders.utils_hash import hash_items, hash_file, hash_pdf, line_splitter
from disseminate.builders.builder import Builder
from disseminate.builders.copy import Copy
from disseminate.builders.save_temp import SaveTempFile
from disseminate.paths import SourcePath, TargetPath

VOL = (b"/CreationDate", b"/ModDate", b"/ID")


def norm(name, data):
    """what the fingerprint of a file stands for"""
    if name.endswith(".pdf"):
        return tuple(l for l in data.split(b"\n") if not l.startswith(VOL))
    return data


PDFPARTS = ["/CreationDate (D:1)", "/CreationDate", "/ModDate(x)", "/ID [1]", "/ID", "/I", "D", " /ID", "x/ModDate", "a", "b", "", "\r", "/Creation"]


def contents():
    r = rng("contents")
    for n in (0, 1, 2, 3):
        for t in itertools.product(["a", "/ID", "", " /ID"], repeat=n):
            yield ["f.pdf", "\n".join(t)]
    for _ in range(scale(500)):
        yield [r.choice(["f.pdf", "g.pdf", "f.txt", "f.PDFx"]), "\n".join(r.choice(PDFPARTS) for _ in range(r.randint(0, 7)))]
    for n in (4095, 4096, 4097, 8191, 8192, 8193):
        for nl in (None, 0, 1, 4094, 4095, 4096, n - 1):
            for name in ("f.pdf", "f.txt"):
                t = ["a"] * n
                if nl is not None and nl < n:
                    t[nl] = "\n"
                yield [name, "".join(t)]


def pairs():
    r = rng("pairs")
    base = ["a\nb", "ab", "a\nb\n", "a\n\nb", "\nab", "ab\n", "", "\n", "/ID 1\na", "/ID 2\na", "a\n/ID 1", "a", "a/ID 1", " /ID 1\na", " /ID 2\na",
            "a\n/ModDate q\nb", "a\n/CreationDate q\nb", "a\n/CreationDat q\nb", "/ID\n", "b\na"]
    for x in base:
        for y in base:
            for n in (["f.pdf", "g.pdf"], ["f.txt", "g.dat"]):
                yield [n[0], x, n[1], y]
    for _ in range(scale(1500)):
        x = [r.choice(PDFPARTS) for _ in range(r.randint(0, 5))]
        y = list(x)
        m = r.random()
        if m < .3 and y:
            y[r.randrange(len(y))] = r.choice(PDFPARTS)
        elif m < .6:
            y.insert(r.randint(0, len(y)), r.choice(PDFPARTS))
        elif m < .8:
            r.shuffle(y)
        s = "\n".join(y)
        if m >= .8 and s:
            i = r.randrange(len(s))
            s = s[:i] + r.choice(["\n", "a", ""]) + s[i + r.randint(0, 1):]
        n = r.choice([["f.pdf", "g.pdf"], ["f.txt", "g.txt"]])
        yield [n[0], "\n".join(x), n[1], s]


@check("chunk_size", contents)
def _(case):
    "the fingerprint of a file does not depend on the size of the chunks it is read in"
    d = scratch()
    try:
        p = d / case[0]
        p.write_bytes(case[1].encode())
        hs = {}
        n = len(case[1])
        for c in ({1, 2, 3, 7, 4096, 8192} if n < 100 else {1000, 4096, 4097, 8192}) | {max(1, n), n + 1, max(1, n - 1)}:
            hs[c] = hash_items(p, chunk_size=c)
        hs["default"] = hash_items(p)
        if len(set(hs.values())) != 1:
            return "fingerprints differ by chunk size: %r" % hs
    finally:
        drop(d)


@check("content_sensitivity", pairs)
def _(case):
    "two files have the same fingerprint exactly when their contents agree (for pdf: after dropping volatile lines), whatever their names"
    d = scratch()
    try:
        (d / "x").mkdir(), (d / "y").mkdir()
        p, q = d / "x" / case[0], d / "y" / case[2]
        p.write_bytes(case[1].encode()), q.write_bytes(case[3].encode())
        exp = norm(case[0], case[1].encode()) == norm(case[2], case[3].encode())
        got = hash_items(p) == hash_items(q)
        if exp != got:
            return "contents %s but fingerprints %s" % (("agree", "differ")[not exp], ("agree", "differ")[not got])
        got = hash_items(p, "s", chunk_size=3) == hash_items("s", q, chunk_size=5)
        if exp != got:
            return "with a second item: contents %s but fingerprints %s" % (("agree", "differ")[not exp], ("agree", "differ")[not got])
    finally:
        drop(d)


def itemcases():
    r = rng("items")
    al = ["a", "b", "ab", "", "1", ["n", "v"], 1, "a\nb"]
    for n in range(0, 4):
        for t in itertools.combinations_with_replacement(range(len(al)), n):
            yield [[al[i] for i in t], [al[i] for i in t[::-1]]]
    for _ in range(scale(600)):
        x = [r.choice(al) for _ in range(r.randint(0, 4))]
        y = list(x)
        r.shuffle(y)
        if r.random() < .7:
            k = r.random()
            if k < .4:
                y.append(r.choice(al))
            elif y:
                y[r.randrange(len(y))] = r.choice(al)
        yield [x, y]


@check("items", itemcases)
def _(case):
    "the fingerprint of several items depends on the multiset of their contents only, not on their order, and differs when it differs"
    x, y = [[tuple(i) if isinstance(i, list) else i for i in c] for c in case]
    kx, ky = [Counter(str(i) for i in c) for c in (x, y)]
    if (kx == ky) != (hash_items(*x) == hash_items(*y)):
        return "contents %s, fingerprints %s" % (kx == ky, hash_items(*x) == hash_items(*y))
    bx = [i.encode() if isinstance(i, str) else i for i in x]
    if hash_items(*bx) != hash_items(*x):
        return "bytes and text of the same content have different fingerprints"


# -- histories of builds and edits ----------------------------------------------------
def hist():
    r = rng("hist")
    for _ in range(scale(350)):
        h = []
        for _ in range(r.randint(2, 14)):
            op = r.choice(["write", "write", "out", "complete", "rm", "rmout", "check", "args", "new", "swap"])
            if op == "write":
                h.append([op, r.randint(0, 1), r.choice(["one", "two", "", "a\nb", "ab", "/ID 1\nx", "/ID 2\nx"])])
            elif op == "out":
                h.append([op, r.choice(["o1", "o2", "", "/ID 1\nx", "/ID 2\nx"])])
            elif op == "rm":
                h.append([op, r.randint(0, 1)])
            elif op == "args":
                h.append([op, r.choice(["x", "y"])])
            else:
                h.append([op])
        yield [r.choice([".txt", ".pdf"]), r.choice([".txt", ".pdf"]), h]


class EnvStub:
    def __init__(self, p):
        self.cache_path = p


@check("decision_history", hist, limit=20)
def _(case):
    "over histories of edits, removals and completed builds a build is needed exactly when a file is missing or the output differs from the one recorded for these input contents"
    ie, oe, h = case
    d = scratch()
    env = EnvStub(d)
    try:
        dec = Md5Decider(env=env)
        base = Decider(env=env).decision
        ins = [SourcePath(project_root=d, subpath="i%d%s" % (k, ie)) for k in range(2)]
        out = TargetPath(target_root=d, subpath="o" + oe)
        arg, order = "x", 1
        decision = dec.decision
        model, mine = {}, None

        def state():
            if not (all(i.exists() for i in ins) and out.exists()):
                return None
            key = (frozenset(Counter([repr(norm(i.name, i.read_bytes())) for i in ins]).items()), arg)
            return key, norm(out.name, out.read_bytes())
        for n, op in enumerate(h + [["check"]]):
            if op[0] == "write":
                ins[op[1]].write_text(op[2])
            elif op[0] == "out":
                out.write_text(op[1])
            elif op[0] == "rm":
                ins[op[1]].exists() and ins[op[1]].unlink()
            elif op[0] == "rmout":
                out.exists() and out.unlink()
            elif op[0] == "args":
                arg = op[1]
            elif op[0] == "new":
                dec.db.close()
                dec._db = None
                dec = Md5Decider(env=env)
                decision, mine = dec.decision, None
            elif op[0] == "swap":
                order = -order
            elif op[0] == "complete":
                st = state()
                got = decision.build_needed(inputs=(ins + [arg])[::order], output=out, reset=True)
                if got != (st is None):
                    return "step %d: build_needed(reset) is %r" % (n, got)
                if st:
                    model[st[0]], mine = st[1], st
            st = state()
            exp = st is None or (model.get(st[0], None) != st[1] and mine != st)
            got = decision.build_needed(inputs=(ins + [arg])[::order], output=out)
            if got != exp:
                return "after step %d %r: build needed reported %r, expected %r" % (n, op, got, exp)
            exp = st is None
            got = base.build_needed(inputs=ins + [arg], output=out)
            if got != exp:
                return "after step %d %r: existence decision %r, expected %r" % (n, op, got, exp)
        dec.db.close()
        dec._db = None
    finally:
        drop(d)


# -- builders ---------------------------------------------------------------------------
class CpCmd(Builder):
    action = "cp {builder.infilepaths} {builder.outfilepath}"
    active_requirements = ("priority",)
    priority = 1


def bhist():
    r = rng("bhist")
    for _ in range(scale(60)):
        h = []
        for _ in range(r.randint(2, 8)):
            op = r.choice(["write", "out", "build", "build", "rmout", "new"])
            h.append([op] + ([r.choice(["one", "two", "three"])] if op in ("write", "out") else []))
        yield [r.choice(["cmd", "copy"]), h]


@check("builder_history", bhist, limit=30)
def _(case):
    "over histories of edits and builds, a build leaves the output equal to the input, a builder reports done exactly when no build is needed, and no run is repeated when nothing changed"
    kind, h = case
    env, doc = project({"test.dm": "x", "in.txt": "zero"})
    try:
        src = SourcePath(project_root=env.scratch, subpath="in.txt")
        out = TargetPath(target_root=env.scratch, subpath="out.txt")
        cls = CpCmd if kind == "cmd" else Copy
        b = cls(env, parameters=src, outfilepath=out)
        rec = {}
        for n, op in enumerate(h + [["build"]]):
            if op[0] == "write":
                src.write_text(op[1])
            elif op[0] == "out":
                out.write_text(op[1])
            elif op[0] == "rmout":
                out.exists() and out.unlink()
            elif op[0] == "new":
                b = cls(env, parameters=src, outfilepath=out)
            else:
                need = not (out.exists() and rec.get(src.read_text()) == out.read_text())
                before = (out.stat().st_ino, out.stat().st_mtime_ns) if out.exists() else None
                st = b.build(complete=True)
                if st != "done":
                    return "step %d: build reports %r" % (n, st)
                if need and out.read_text() != src.read_text():
                    return "step %d: build reports done but the output is stale" % n
                if not need and (out.stat().st_ino, out.stat().st_mtime_ns) != before:
                    return "step %d: the output was built again though nothing changed" % n
                rec[src.read_text()] = out.read_text()
            need = not (out.exists() and rec.get(src.read_text()) == out.read_text())
            if bool(b.build_needed()) != need:
                return "after step %d %r: build_needed %r, expected %r" % (n, op, b.build_needed(), need)
            if (b.status == "done") != (not need):
                return "after step %d %r: status %r, build needed: %r" % (n, op, b.status, need)
    finally:
        env.decider.db.close()
        drop(env.scratch)
