from common import *
from project import project, drop
from disseminate.builders.builder import Builder
from disseminate.builders.composite_builders import SequentialBuilder, ParallelBuilder
from disseminate.builders.composite_builders.composite_builder import CompositeBuilder
from disseminate.builders.copy import Copy
from disseminate.paths import SourcePath, TargetPath

_p = None


def env():
    global _p
    if _p is None:
        _p = project({"test.dm": "x", "in.txt": "zero"})
    return _p[0]


class Step(Builder):
    """a step that counts down: done / ready / missing; once started it takes `polls` status checks or is done at once"""
    priority = 1
    active_requirements = ("priority",)

    def __init__(self, kind, name, log):
        self.env = env()
        self.kind, self.name, self.log = kind, name, log
        self.state = {"d": "done", "m": "missing (parameters)", "i": "inactive"}.get(kind[0], "ready")
        self.polls = int(kind[1:] or 0) if kind[0] == "r" else 0
        self.started = 0
        self.resets = 0

    _started = True

    @property
    def status(self):
        return self.state

    def tick(self):
        if self.state == "building":
            self.polls -= 1
            if self.polls <= 0:
                self.state = "done"

    def build(self, complete=False):
        self.log.append((self.name, self.state))
        self.started += 1
        self.state = "building" if self.polls else "done"
        return self.state

    def build_needed(self, reset=False):
        self.resets += reset
        return self.state != "done"

    parameters = property(lambda self: [], lambda self, v: None)
    outfilepath = property(lambda self: None, lambda self, v: None)


def mk(t, name, log, leaves, clear):
    if isinstance(t, str):
        s = Step(t, name, log)
        leaves.append(s)
        return s
    subs = [mk(x, name + (i,), log, leaves, clear) for i, x in enumerate(t[1])]
    if t[0] == "s":
        b = SequentialBuilder.__new__(Seq)
    else:
        b = ParallelBuilder.__new__(Par)
    b.env, b.subbuilders, b.clear_done, b.path, b.resets = env(), subs, clear, name, 0
    return b


class Seq(SequentialBuilder):
    def build_needed(self, reset=False):
        self.resets += reset
        return any(x.build_needed() for x in self.subbuilders)


class Par(ParallelBuilder):
    pass


def trees():
    r = rng("trees")
    leaf = ["d", "r0", "r1", "r3", "m"]
    for k in "sp":
        for n in range(0, 4):
            for t in itertools.product(leaf, repeat=n):
                for clear in (False, True):
                    yield [clear, [k, list(t)]]

    def t(d):
        if d == 0 or r.random() < .4:
            return r.choice(["d", "r0", "r0", "r1", "r2", "r3"] + (["m", "i"] if r.random() < .15 else []))
        return [r.choice("sp"), [t(d - 1) for _ in range(r.randint(0, 4))]]
    for _ in range(scale(2500)):
        x = t(3)
        yield [r.random() < .5, x if isinstance(x, list) else ["s", [x]]]


def model_status(b, subs):
    for x in subs[id(b)]:
        st = model_status(x, subs) if id(x) in subs else x.state
        if st != "done":
            return st
    return "done"


def wire(b, subs):
    """remember the steps of each composite: done ones may be cleared from the lists"""
    subs[id(b)] = list(b.subbuilders)
    for x in b.subbuilders:
        if hasattr(x, "subbuilders"):
            wire(x, subs)


@check("status_and_build", trees)
def _(case):
    "a composite is done exactly when all steps are, else reports its first unfinished step; passes of build start exactly the steps that may start, none twice, and a completed build runs every step once in order"
    clear, t = case
    log, leaves = [], []
    b = mk(t, (), log, leaves, clear)
    subs = {}
    wire(b, subs)
    kinds = {x.name: x for x in leaves}
    if b.status != model_status(b, subs):
        return "initial status %r, expected %r" % (b.status, model_status(b, subs))
    expected = []

    def expect(x):
        """the steps one pass over composite x starts (in the current state); -> the pass's outcome"""
        par = isinstance(x, ParallelBuilder)
        if model_status(x, subs) not in ("building", "ready"):
            return
        state = dict(sim)

        def st(y):
            if id(y) in subs:
                for z in subs[id(y)]:
                    s = st(z)
                    if s != "done":
                        return s
                return "done"
            return sim[y.name]

        def run(y):
            if id(y) not in subs:
                expected.append(y.name)
                sim[y.name] = "building" if y.polls else "done"
                return
            if st(y) not in ("building", "ready"):
                return
            for z in subs[id(y)]:
                s = st(z)
                if s == "done":
                    continue
                if s == "building":
                    if isinstance(y, ParallelBuilder):
                        continue
                    return
                if s == "ready":
                    run(z)
                    if isinstance(y, ParallelBuilder):
                        continue
                    return
                return
        run(x)
    rounds = 0
    while rounds < 60:
        rounds += 1
        sim = {x.name: x.state for x in leaves}
        expected.clear()
        del log[:]
        before = model_status(b, subs)
        expect(b)
        rv = b.build(complete=False)
        got = [n for n, s in log]
        if got != expected:
            return "round %d: started %r, expected %r" % (rounds, got, expected)
        if any(s != "ready" for n, s in log):
            return "round %d: started a step that is not ready: %r" % (rounds, log)
        if rv != model_status(b, subs):
            return "round %d: build returned %r, status is %r" % (rounds, rv, model_status(b, subs))
        if b.status != model_status(b, subs):
            return "round %d: status %r, expected %r" % (rounds, b.status, model_status(b, subs))
        if rv == "done":
            left = [x for x in b.subbuilders]
            if clear and left:
                return "done steps not cleared"
            if not clear and left != subs[id(b)]:
                return "steps were removed"
        if rv not in ("ready", "building"):
            break
        for x in leaves:
            x.tick()
    else:
        return "did not finish"
    if rv == "done":
        bad = [x.name for x in leaves if x.started != (0 if x.kind == "d" else 1)]
        if bad:
            return "steps not run exactly once: %r" % bad


def ctrees():
    for c in trees():
        if "r1" not in json.dumps(c) and "r2" not in json.dumps(c) and "r3" not in json.dumps(c):
            yield c


@check("complete", ctrees)
def _(case):
    "build(complete=True) runs every step that was not done exactly once, earlier steps of a sequence first, until done or a step cannot proceed"
    clear, t = case
    log, leaves = [], []
    b = mk(t, (), log, leaves, clear)
    subs = {}
    wire(b, subs)
    st = b.build(complete=True)
    if st != model_status(b, subs):
        return "returned %r, status is %r" % (st, model_status(b, subs))
    if st in ("ready", "building"):
        return "complete build stopped with status %r" % st
    runs = [x.started for x in leaves]
    if any(x.started > (x.kind[0] == "r") for x in leaves):
        return "a step was run twice or needlessly: %r" % [(x.name, x.kind, x.started) for x in leaves]
    if st == "done":
        if any(x.started != (x.kind[0] == "r") for x in leaves):
            return "a step was not run"
    # order within sequences
    order = [n for n, s in log]

    def seq(y):
        for x in subs.get(id(y), []):
            seq(x)
        if isinstance(y, SequentialBuilder):
            prev = -1
            for x in subs[id(y)]:
                ln = len(names(x)[0]) if 0 else None
                pos = [order.index(n) for n in names(x) if n in order]
                if pos:
                    if min(pos) < prev:
                        raise Bad("sequence %r: step started before an earlier one was done: %r" % (y.path, order))
                    prev = max(pos)

    def names(x):
        if id(x) not in subs:
            return [x.name]
        return [n for z in subs[id(x)] for n in names(z)]
    try:
        seq(b)
    except Bad as e:
        return str(e)


class Bad(Exception):
    pass


@check("flatten", trees)
def _(case):
    "flattening lists every nested step exactly once, parents before children in order; futures are those of the flattened list"
    clear, t = case
    log, leaves = [], []
    b = mk(t, (), log, leaves, clear)

    def flat(x):
        o = [x]
        for y in getattr(x, "subbuilders", []):
            o += flat(y)
        return o
    got, exp = b.flatten(), flat(b)
    if [id(x) for x in got] != [id(x) for x in exp]:
        return "flatten lists %d steps, expected %d, or another order" % (len(got), len(exp))
    for i, x in enumerate(exp):
        if i % 2:
            x.future = "f%d" % i
    if b.futures() != ["f%d" % i for i in range(len(exp)) if i % 2]:
        return "futures %r" % b.futures()
    for x in b.subbuilders:
        if hasattr(x, "subbuilders"):
            if [id(y) for y in b.flatten(builder=x)] != [id(y) for y in flat(x)]:
                return "flatten(builder=sub) does not list the steps of that builder"


def seqs():
    for n in range(0, 5):
        for copy in (True, False):
            for given in (True, False):
                yield [n, copy, given]


class CatCmd(Builder):
    action = "cp {builder.infilepaths} {builder.outfilepath}"
    active_requirements = ("priority",)
    priority = 1
    outfilepath_append = "_x"


@check("chain", seqs, limit=30)
def _(case):
    "the steps of a sequential build are chained: each takes the previous one's output, the first the build's input, a final copy delivers the build's output; the finished output is the input passed through all steps"
    n, copy, given = case
    e, doc = project({"test.dm": "x", "in.txt": "zero"})
    try:
        src = SourcePath(project_root=e.scratch, subpath="in.txt")
        out = TargetPath(target_root=e.scratch, subpath="final.txt")

        class S(SequentialBuilder):
            pass
        S.copy = copy
        b = S(e, parameters=src, outfilepath=out if given else None, subbuilders=[CatCmd(e, use_cache=True) for _ in range(n)])
        if n == 0:
            return same(len(b.subbuilders), 0, "steps of an empty sequence")
        if len(b.subbuilders) != n + copy:
            return "%d steps for %d subbuilders" % (len(b.subbuilders), n)
        prev = src
        for i, x in enumerate(b.subbuilders):
            if x.infilepaths[:1] != [prev]:
                return "step %d takes %r, expected %r" % (i, x.infilepaths, prev)
            prev = x.outfilepath
        if copy and prev != b.outfilepath:
            return "the last step writes %r, the build's output is %r" % (prev, b.outfilepath)
        if b.build(complete=True) != "done" or b.status != "done":
            return "status %r" % b.status
        if prev.read_text() != "zero":
            return "output content %r" % prev.read_text()
    finally:
        e.decider.db.close()
        drop(e.scratch)
