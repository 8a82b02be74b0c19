"""pyvc: path-wise symbolic execution of the real function bodies (parsed from
/repo on every run) against contracts.  Loops are cut by fold/while summaries
whose step obligations are discharged for an arbitrary iteration; callees with
a contract are replaced by it, callees without one are inlined."""
import ast, itertools
from dataclasses import dataclass, replace, field
import z3
from .core import *
from . import source as src


class Unsupported(Exception):
    """The verifier cannot express this construct (never a violation)."""


class PathAbort(Exception):
    pass


class PoisonRead(Exception):
    def __init__(self, name):
        self.name = name


class Carry(Exception):
    """retry with this local carried through the loops that assign it"""
    def __init__(self, names):
        self.names = frozenset(names)


class PyRaise(Exception):
    def __init__(self, cls, val=None):
        self.cls, self.val = cls, val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Undef:
    def __init__(self, name=""):
        self.name = name


@dataclass(frozen=True)
class Box:
    kind: str                     # list | dict | set | obj
    cls: object = None            # class name
    seq: object = None
    d: object = None
    attrs: object = None          # dict name -> value (obj)


class Frame:
    def __init__(self, vars, parent, mod, cls=None, selfv=None):
        self.vars, self.parent, self.mod, self.cls, self.selfv = vars, parent, mod, cls, selfv
        self.nonlocals = set()


@dataclass(frozen=True)
class PyFunc:
    node: object
    frame: object
    mod: str
    cls: object = None
    bound: object = None
    qual: str = ""


@dataclass(frozen=True)
class ClassRef:
    name: str
    info: object = None


@dataclass(frozen=True)
class Ext:
    name: str


@dataclass(frozen=True)
class Method:
    obj: object
    name: str


@dataclass(frozen=True)
class STup:
    items: tuple


class Slot:
    """the list stored in a dict under a key (an alias of it), or, when the key is None, another list"""
    def __init__(self, d, key, orphan=None):
        self.d, self.key, self.orphan = d, key, orphan


def tested(t):
    """of a test of a value's constructor or of a reference's class: (which value, outcome)"""
    if not z3.is_app(t):
        return None
    if t.decl().kind() == z3.Z3_OP_DT_IS:
        return ("c", t.arg(0).get_id()), t.decl().params()[0].name() if t.decl().params() else str(t.decl())
    if z3.is_eq(t):
        for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            if z3.is_int_value(y) and z3.is_app(x) and x.decl().name() == "refclass":
                return ("r", x.arg(0).get_id()), y.as_long()
    return None


def flat_concat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in flat_concat(c)]
    return [t]


class LazyIter:
    """a lazy filter/filterfalse/map object; consumed once, either by a for loop or eagerly"""
    def __init__(self, e, how, f, x):
        self.how, self.f, self.x = how, f, x

    def force(self, e):
        fn = {"filter": e.bi_filter_eager, "filterfalse": e.bi_itertools_filterfalse_eager, "map": e.bi_map_eager}[self.how]
        return fn(self.f, self.x)

    def feed(self, e, h, body):
        if self.how == "map":
            return body(e.call(self.f, [h], {}))
        if (isinstance(self.f, Ext) and self.f.name == "builtins.bool") or (is_val(self.f) and ctor(z3.simplify(self.f)) == "none"):
            t = e.truth(h)
        else:
            t = e.truth(e.call(self.f, [h], {}))
        if e.branch(t) == (self.how == "filter"):
            return body(h)


class LazyGen(LazyIter):
    """a generator expression: the first iterable is evaluated at creation, the elements when consumed (once)"""
    def __init__(self, e, node, frame, first):
        self.node, self.frame, self.first, self.used = node, frame, first, False

    def consume(self):
        if self.used:
            raise Unsupported("generator consumed twice")
        self.used = True

    def force(self, e):
        self.consume()
        acc = e.new_list()

        def elt(cf):
            v = e.V(e.eval(self.node.elt, cf))
            e.setbox(acc, seq=cat(e.box(acc).seq, unit(v)))
        e.comp_gen(self.node, self.frame, elt, self.first)
        return acc

    def each(self, e, body):
        self.consume()
        return e.comp_gen(self.node, self.frame, lambda cf: body(e.eval(self.node.elt, cf)), self.first)


@dataclass(frozen=True)
class IterV:
    """lazy iterable: wrap(head, idx) over a symbolic sequence"""
    seq: object
    wrap: object
    use_idx: bool = False
    start: object = 0
    live: object = None          # the box iterated over (a list or dictionary may not change while it is iterated, see sym_loop)


EXC = {  # builtin exception hierarchy (name -> bases)
    "KeyError": ("LookupError",), "IndexError": ("LookupError",), "LookupError": ("Exception",),
    "AttributeError": ("Exception",), "TypeError": ("Exception",), "ValueError": ("Exception",),
    "StopIteration": ("Exception",), "AssertionError": ("Exception",), "OSError": ("Exception",),
    "FileNotFoundError": ("OSError",), "NotImplementedError": ("RuntimeError",), "RuntimeError": ("Exception",),
    "Exception": ("BaseException",), "ZeroDivisionError": ("ArithmeticError",), "ArithmeticError": ("Exception",),
    "UnicodeDecodeError": ("ValueError",), "FileExistsError": ("OSError",), "CalledProcessError": ("Exception",)}


def exc_bases(name, extra):
    out, todo = [], [name]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.append(n)
        todo += list(EXC.get(n, ())) + list(extra.get(n, ()))
    return out


def is_val(v):
    return isinstance(v, z3.ExprRef) and v.sort() == Val


def ctor(v):
    if z3.is_app(v):
        n = v.decl().name()
        if n in ("none", "bool", "int", "str", "ref", "tup", "lst", "obj", "cls", "oth") and v.sort() == Val:
            return n
    return None


def static_items(s):
    """elements of a syntactically known sequence, or None"""
    s = z3.simplify(s)
    if z3.is_app(s):
        k = s.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return []
        if k == z3.Z3_OP_SEQ_UNIT:
            return [s.arg(0)]
        if k == z3.Z3_OP_SEQ_CONCAT:
            out = []
            for i in range(s.num_args()):
                p = static_items(s.arg(i))
                if p is None:
                    return None
                out += p
            return out
    return None


def ref_ids(t, acc=None, seen=None):
    """concrete box ids occurring in a term"""
    acc = set() if acc is None else acc
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == "ref" and x.sort() == Val and z3.is_int_value(x.arg(0)):
                acc.add(x.arg(0).as_long())
            todo += x.children()
    return acc


MAXPATHS = 600
_q = {}


def has_quantifier(ts):
    todo, seen = list(ts), set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
    return False


class Engine:
    def __init__(self, prover, contract, registry):
        self.pv, self.contract, self.registry = prover, contract, registry
        self.boxes, self.arrs, self.pc = {}, {}, []
        self.ctr, self.nref = 0, 1
        self.nobj = None          # objects created during verification are numbered apart, in creation order
        self.frames = []
        self.prefix, self.dec = [], []
        self.outer_dec = ()
        self.loop_cache = {}
        self.solver = None
        self.depth = 0
        self.exc_extra = dict(getattr(contract, "exceptions", {}))
        self.used = set()          # functions inlined or verified
        self.feas_cache = {}
        self.ghost = {}            # named ghost terms for contracts
        self.ext = {}
        self.yields = []
        self.trace = []
        self.discovering = 0
        self.atom_cache = {}
        self.slots = {}            # locals that alias a list stored in a dict: name -> (dict, list bound before the loop)
        self.heads = []            # elements of the enclosing symbolic loops

    # -- state ---------------------------------------------------------------
    def snapshot(self):
        return (dict(self.boxes), dict(self.arrs), list(self.pc), self.ctr, self.nref,
                list(self.frames), [dict(f.vars) for f in self.frames], dict(self.ghost),
                list(self.yields), self.depth, self.nobj)

    def restore(self, s):
        self.boxes, self.arrs, self.pc = dict(s[0]), dict(s[1]), list(s[2])
        self.ctr, self.nref = s[3], s[4]
        self.frames = list(s[5])
        for f, v in zip(s[5], s[6]):
            f.vars = dict(v)
        self.ghost = dict(s[7])
        self.yields = list(s[8])
        self.depth = s[9]
        self.nobj = s[10]
        self.solver = None

    def explore(self, thunk, what=""):
        saved = self.snapshot()
        sprefix, sdec, souter = self.prefix, self.dec, self.outer_dec
        results, prefix = [], []
        self.outer_dec = souter + (tuple((c for c, _ in sdec)), what)
        n = 0
        try:
            while True:
                n += 1
                if n > MAXPATHS:
                    raise Unsupported("too many paths in " + what)
                self.restore(saved)
                self.prefix, self.dec = list(prefix), []
                try:
                    out = thunk()
                    results.append((out, self.snapshot()))
                except PathAbort:
                    pass
                d = self.dec
                while d and not d[-1][1]:
                    d.pop()
                if not d:
                    break
                d[-1] = (not d[-1][0], False)
                prefix = d
        finally:
            self.restore(saved)
            self.prefix, self.dec, self.outer_dec = sprefix, sdec, souter
        return results

    def fresh(self, hint, sort):
        self.ctr += 1
        return z3.Const("%s!%d" % (hint, self.ctr), sort)

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(c)

    def _solver(self):
        if self.solver is None:
            s = z3.Solver()
            s.set("timeout", 1500)
            if has_quantifier(self.pc) or has_quantifier(self.pv.axioms):
                s.set("smt.mbqi", False)
                s.set("timeout", 700)
            for a in self.pv.axioms:
                s.add(a)
            for a in self.pc:
                s.add(a)
            self.solver = s
        return self.solver

    def feasible(self, c):
        key = (tuple(a.get_id() for a in self.pc), c.get_id())
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        s = self._solver()
        s.push()
        s.add(c)
        r = s.check() != z3.unsat
        s.pop()
        self.feas_cache[key] = (r, c, list(self.pc))
        return r

    def atoms(self, a):
        """the conjuncts of a path condition: (ids, id of the tested value -> the constructor it has, or refclass)"""
        i = a.get_id()
        r = self.atom_cache.get(i)
        if r is None:
            ids, kinds = set(), {}
            todo = [a]
            while todo:
                t = todo.pop()
                if z3.is_and(t):
                    todo += t.children()
                    continue
                ids.add(t.get_id())
                q = tested(t)
                if q:
                    kinds[q[0]] = q[1]
            r = self.atom_cache[i] = (ids, kinds, a)
        return r

    def known(self, c):
        """True / False when the path condition contains c, its negation or another kind of the same value literally"""
        i = c.get_id()
        n = c.arg(0).get_id() if z3.is_not(c) else None
        q = tested(c)
        for a in self.pc:
            ids, kinds, _ = self.atoms(a)
            if i in ids:
                return True
            if n is not None and n in ids:
                return False
            if q and q[0] in kinds and kinds[q[0]] != q[1]:
                return False
            if z3.is_not(a) and a.arg(0).get_id() == i:
                return False
        return None

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known(c)
        if k is not None and k:
            return True
        return not self.feasible(z3.Not(c))

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self.known(cond)
        if k is not None:
            return k
        pos = len(self.dec)
        if pos < len(self.prefix):
            choice, alt = self.prefix[pos]
            self.dec.append((choice, alt))
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathAbort()
            choice = t
            self.dec.append((choice, t and f))
        self.assume(cond if choice else z3.Not(cond))
        return choice

    # -- boxes ---------------------------------------------------------------
    def new_box(self, box):
        if box.kind == "obj" and self.nobj is not None:
            i = self.nobj
            self.nobj += 1
        else:
            i = self.nref
            self.nref += 1
        self.boxes[i] = box
        return Val.ref(z3.IntVal(i))

    def new_list(self, s=None):
        return self.new_box(Box("list", "list", seq=EMPTY if s is None else s))

    def new_dict(self, d=None, cls="dict"):
        return self.new_box(Box("dict", cls, d=D() if d is None else d))

    def new_set(self, dom=None):
        return self.new_box(Box("set", "set", d=D(dom=dom)))

    def new_obj(self, cls, attrs=None, d=None, seq_=None):
        return self.new_box(Box("obj", cls, d=d, seq=seq_, attrs=dict(attrs or {})))

    def box_id(self, v):
        if not is_val(v):
            return None
        v = z3.simplify(v)
        if ctor(v) == "ref" and z3.is_int_value(v.arg(0)):
            k = v.arg(0).as_long()
            return k if k in self.boxes else None
        # a symbolic reference that may denote a known box: entailment only
        return None

    def box(self, v):
        k = self.box_id(v)
        return None if k is None else self.boxes[k]

    def setbox(self, v, **kw):
        k = self.box_id(v)
        self.boxes[k] = replace(self.boxes[k], **kw)

    def deep(self, t, since=0, stop=()):
        """freeze: replace references to owned boxes by their (immutable) content"""
        if isinstance(t, STup):
            t = self.V(t)
        for _ in range(50):
            ids = [i for i in ref_ids(t) if i in self.boxes and i >= since and i not in stop
                   and self.boxes[i].kind in ("list", "set")]
            if not ids:
                return t
            t = z3.substitute(t, *[(Val.ref(z3.IntVal(i)), self.freeze_box(self.boxes[i])) for i in ids])
        raise Unsupported("cyclic ownership")

    def freeze_box(self, b):
        if b.kind == "list":
            return Val.lst(b.seq)
        if b.kind == "set":
            return vobj("set", uf("dom_code", b.d.dom))
        raise Unsupported("freeze " + b.kind)

    # -- conversions ---------------------------------------------------------
    def V(self, v):
        """to a Val term"""
        if is_val(v):
            return v
        if v is None:
            return NONE
        if isinstance(v, bool):
            return vbool(v)
        if isinstance(v, int):
            return vint(v)
        if isinstance(v, str):
            return vstr(v)
        if isinstance(v, STup):
            return tup(*[self.V(x) for x in v.items])
        if isinstance(v, ClassRef):
            return vcls(v.name)
        if isinstance(v, Ext):
            if v.name in ("builtins.list", "builtins.dict", "builtins.set", "builtins.tuple", "builtins.str", "builtins.int", "builtins.bool"):
                return vcls(v.name[9:])
            return uf("ext:" + v.name)
        if isinstance(v, IterV):
            return self.new_list(self.iter_seq(v))
        if isinstance(v, LazyIter):
            return v.force(self)
        if isinstance(v, z3.ExprRef):
            if v.sort() == Bool:
                return Val.bool(v)
            if v.sort() == Int:
                return Val.int(v)
            if v.sort() == Str:
                return Val.str(v)
            if v.sort() == SeqV:
                return Val.lst(v)
        if isinstance(v, Slot):
            if v.orphan is not None and self.branch(v.key == NONE):
                return v.orphan
            return z3.simplify(z3.Select(self.dict_of(v.d).map, v.key))
        if isinstance(v, PyFunc):
            return uf("fn:" + (v.qual or str(id(v.node))))
        if isinstance(v, Undef):
            raise PoisonRead(v.name)
        raise Unsupported("value " + repr(v)[:80])

    def init_val(self, t):
        """t is a value existing before this verification scope: any reference in it is not one of our boxes"""
        self.assume(Implies(Val.is_ref(t), Val.r(t) < 0))
        return t

    def kind(self, v):
        """none bool int str tup lst ref obj cls oth or box kinds list dict set obj; forks when unknown"""
        if not is_val(v):
            if isinstance(v, STup):
                return "tup"
            if isinstance(v, IterV):
                return "iter"
            return "py"
        b = self.box(v)
        if b is not None:
            return b.kind
        v = z3.simplify(v)
        c = ctor(v)
        if c == "ref":
            return self.refkind(v)
        if c:
            return c
        for c in ("str", "ref", "none", "int", "bool", "tup", "lst", "obj", "cls"):
            if self.branch(getattr(Val, "is_" + c)(v)):
                return self.refkind(v) if c == "ref" else c
        return "oth"

    def refkind(self, v):
        for k in ("list", "dict", "set"):
            p = self.refpred(k, v)
            if self.branch(p):
                return "heap_" + k
        return "ref"

    def refpred(self, k, v):
        # the three predicates are mutually exclusive: one classifier function
        n = {"list": 1, "dict": 2, "set": 3}[k]
        return uf("refclass", v, sort=Int) == n

    def truth(self, v):
        """z3 Bool / bool"""
        if isinstance(v, (STup,)):
            return len(v.items) > 0
        if isinstance(v, (PyFunc, ClassRef, Ext, Method)):
            return True
        if isinstance(v, IterV):
            return True
        if isinstance(v, z3.ExprRef) and v.sort() == Bool:
            return v
        v = self.V(v)
        b = self.box(v)
        if b is not None:
            if b.kind == "list":
                return z3.Length(b.seq) > 0
            if b.kind == "dict" or (b.kind == "obj" and b.d is not None):
                return self.nonempty_dict(b)
            if b.kind == "set":
                return b.d.dom != NODOM
            if b.seq is not None:
                return z3.Length(b.seq) > 0
            return True
        s = z3.simplify(v)
        if ctor(s) is None or ctor(s) == "ref":
            if ctor(s) == "ref":
                k = self.refkind(s)
                if k == "heap_list":
                    return z3.Length(self.lcontent(s)) > 0
                if k == "heap_dict":
                    return z3.Length(self.hdict(s).keys) > 0
                return truthy_ref(v)
        return z3.If(Val.is_none(v), False, z3.If(Val.is_bool(v), Val.b(v), z3.If(
            Val.is_int(v), Val.i(v) != 0, z3.If(Val.is_str(v), z3.Length(Val.s(v)) > 0, z3.If(
                Val.is_tup(v), z3.Length(Val.titems(v)) > 0, z3.If(
                    Val.is_lst(v), z3.Length(Val.litems(v)) > 0, z3.If(
                        Val.is_ref(v), truthy_ref(v), z3.If(Val.is_oth(v), uf("truthy_o", v, sort=Bool), True))))))))

    def nonempty_dict(self, b):
        return z3.Length(b.d.keys) > 0

    def tostr(self, v):
        """String term of str(v)"""
        v = self.V(v)
        s = z3.simplify(v)
        c = ctor(s)
        if c == "str":
            return s.arg(0)
        if c == "int" and z3.is_int_value(s.arg(0)):
            return S(str(s.arg(0).as_long()))
        if c == "none":
            return S("None")
        v = self.deep(v)
        return z3.If(Val.is_str(v), Val.s(v), uf("py_str", v, sort=Str))

    def hdict(self, v):
        r = Val.r(v)
        return D(self.arr("$keys", SeqA)[r], self.arr("$map", MapA)[r], self.arr("$dom", DomA)[r])

    def set_hdict(self, v, d):
        r = Val.r(v)
        self.arrs["$keys"] = z3.Store(self.arr("$keys", SeqA), r, d.keys)
        self.arrs["$map"] = z3.Store(self.arr("$map", MapA), r, d.map)
        self.arrs["$dom"] = z3.Store(self.arr("$dom", DomA), r, d.dom)

    def lcontent(self, v):
        return self.arr("$list", SeqA)[Val.r(v)]

    def arr(self, name, sort=None):
        if name not in self.arrs:
            sort = sort if sort is not None else {"$list": SeqA, "$keys": SeqA, "$map": MapA, "$dom": DomA}.get(name, AttrA)
            self.arrs[name] = z3.Const("H0_" + name, sort)
        return self.arrs[name]

    # sequence content of a list/tuple-like value
    def seq_of(self, v):
        if isinstance(v, STup):
            return seq(*[self.V(x) for x in v.items])
        if isinstance(v, IterV):
            return self.iter_seq(v)
        if isinstance(v, LazyIter):
            return self.box(v.force(self)).seq
        v = self.V(v)
        k = self.kind(v)
        b = self.box(v)
        if k == "list":
            return b.seq
        if k == "obj" and b is not None and b.seq is not None:
            return b.seq
        if k == "tup":
            return Val.titems(v)
        if k == "lst":
            return Val.litems(v)
        if k == "heap_list":
            return self.lcontent(v)
        if k == "dict" or (k == "obj" and b is not None and b.d is not None):
            return b.d.keys
        if k == "heap_dict":
            return self.hdict(v).keys
        if k == "set":
            return uf("set_order", b.d.dom, sort=SeqV)
        if k == "heap_set":
            return uf("set_order", self.arr("$dom", DomA)[Val.r(v)], sort=SeqV)
        if k == "str":
            return uf("str_chars", Val.s(v), sort=SeqV)
        if k in ("none", "int", "bool"):
            raise PyRaise("TypeError")
        h = self.contract.ext.get("iter") if hasattr(self.contract, "ext") else None
        if h:
            return h(self, v)
        raise Unsupported("iterate over " + k)

    def iter_seq(self, it):
        """materialise a lazy iterable"""
        items = static_items(it.seq)
        if items is None:
            if getattr(it.wrap, "ident", False):
                return it.seq
            name = getattr(it.wrap, "seqname", None)
            if name:
                return name(it.seq)
            raise Unsupported("materialise iterable")
        return seq(*[self.V(it.wrap(h, z3.IntVal(i))) for i, h in enumerate(items)])

    def dict_of(self, v):
        b = self.box(v)
        if b is not None and b.d is not None:
            return b.d
        if is_val(v) and self.kind(v) == "heap_dict":
            return self.hdict(v)
        raise Unsupported("not a dictionary: " + str(v)[:60])

    def put_dict(self, v, d, slot=False):
        if not slot and any(isinstance(x, Slot) and x.d.eq(v) for f in self.frames for x in f.vars.values()):
            raise Unsupported("dict changed while a list in it has a name")
        if self.box(v) is not None:
            self.setbox(v, d=d)
        else:
            self.set_hdict(v, d)

    # -- names ---------------------------------------------------------------
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Undef):
                    raise PoisonRead(v.name or name)
                return v
            f = f.parent
        return self.global_name(frame.mod, name)

    def global_name(self, mod, name):
        key = mod + "." + name
        ext = self.contract.ext
        for k in (key, mod.split(".")[-1] + "." + name, name):
            if k in ext:
                h = ext[k]
                if callable(h):
                    return Ext(k)
                return h
        r = src.resolve(mod, name)
        if r is None:
            if name in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[name]
            return Ext("builtins." + name)
        return self.from_resolved(r, name)

    def from_resolved(self, r, name):
        if r[0] == "func":
            return PyFunc(r[2], None, r[1], qual=r[1] + ":" + r[2].name)
        if r[0] == "class":
            return ClassRef(r[2].name, src.classinfo(r[1], r[2]))
        if r[0] == "module":
            return Ext("module:" + r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "assign":
            try:
                c = ast.literal_eval(r[2])
            except Exception:
                return Ext(r[1].split(".")[-1] + "." + name)
            return self.constant(c, r[1].split(".")[-1] + "." + name)
        raise Unsupported("name " + name)

    def constant(self, c, name=""):
        if c is None or isinstance(c, (bool, int, str)):
            return self.V(c)
        if isinstance(c, tuple):
            return STup(tuple(self.constant(x) for x in c))
        if isinstance(c, list):
            return self.new_list(seq(*[self.V(self.constant(x)) for x in c]))
        if isinstance(c, dict) and len(c) <= 20:
            d = D()
            for k, v in c.items():
                d = d.set(self.V(self.constant(k)), self.V(self.constant(v)))
            return self.new_dict(d)
        if isinstance(c, (float, bytes)):
            return uf("const:" + repr(c))
        if isinstance(c, set) and not c:
            return self.new_set(NODOM)
        return Ext(name)

    # -- calls ---------------------------------------------------------------
    def run_function(self, pf, args, kwargs, frame_cls=None):
        """inline execution of a repo function"""
        node = pf.node
        if self.depth > 40:
            raise Unsupported("inlining depth (recursion without contract) in " + getattr(node, "name", "lambda"))
        self.used.add(pf.qual or getattr(node, "name", "<lambda>"))
        vars = self.bind_args(node, pf, args, kwargs)
        f = Frame(vars, pf.frame, pf.mod, pf.cls, vars.get("self"))
        self.frames.append(f)
        self.depth += 1
        if isinstance(node, ast.Lambda):
            try:
                return self.eval(node.body, f)
            finally:
                self.depth -= 1
                self._popframe(f)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        if is_gen:
            self.yields.append(self.new_list())
        try:
            self.exec_block(node.body, f)
            rv = NONE
        except Ret as r:
            rv = r.v
        finally:
            self.depth -= 1
            self._popframe(f)
            if is_gen:
                y = self.yields.pop()
        return y if is_gen else rv

    def _popframe(self, f):
        # frames referenced by closures stay reachable through PyFunc.frame; keep the record for snapshots
        pass

    def bind_args(self, node, pf, args, kwargs):
        a = node.args
        args = list(args)
        kwargs = dict(kwargs)
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        dflt_frame = Frame({}, pf.frame, pf.mod, pf.cls)
        if pf.bound is not None:
            args = [pf.bound] + args
        for n, v in zip(names, args):
            if isinstance(v, interp.StarSeq):
                raise Unsupported("*args into named parameters")
            vars[n] = v
        rest = args[len(names):]
        if rest and not a.vararg:
            raise PyRaise("TypeError")
        if a.vararg:
            if any(isinstance(x, interp.StarSeq) for x in rest):
                vars[a.vararg.arg] = Val.tup(cat(*[x.seq if isinstance(x, interp.StarSeq) else unit(self.V(x)) for x in rest]))
            else:
                vars[a.vararg.arg] = STup(tuple(rest))
        nd = len(names) - len(a.defaults)
        for i, n in enumerate(names):
            if n in vars:
                if n in kwargs:
                    raise PyRaise("TypeError")
                continue
            if n in kwargs:
                vars[n] = kwargs.pop(n)
            elif i >= nd:
                vars[n] = self.eval(a.defaults[i - nd], dflt_frame)
            else:
                raise PyRaise("TypeError")
        for n, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg in kwargs:
                vars[n.arg] = kwargs.pop(n.arg)
            elif dflt is not None:
                vars[n.arg] = self.eval(dflt, dflt_frame)
            else:
                raise PyRaise("TypeError")
        if a.kwarg:
            d = D()
            for k, v in kwargs.items():
                if k == "**":
                    continue
                d = d.set(vstr(k), self.V(v))
            if "**" in kwargs:
                if kwargs.keys() - {"**"}:
                    raise Unsupported("mixed ** call")
                vars[a.kwarg.arg] = kwargs["**"]
            else:
                vars[a.kwarg.arg] = self.new_dict(d)
        elif kwargs:
            if "**" in kwargs:
                raise Unsupported("** into named parameters")
            raise PyRaise("TypeError")
        return vars

    def call(self, fv, args, kwargs, node=None):
        if isinstance(fv, PyFunc):
            for k in (fv.qual, getattr(fv.node, "name", None)):
                if k and k in self.contract.ext and callable(self.contract.ext[k]):
                    a = ([fv.bound] if fv.bound is not None else []) + list(args)
                    return self.contract.ext[k](self, a, kwargs)
            c = self.registry.get(fv.qual)
            if c is not None and c is not self.contract.current_inline and getattr(c, "spec", None) is not None:
                if not (c is self.contract and self.depth == 0):
                    a = ([fv.bound] if fv.bound is not None else []) + list(args)
                    return c.apply(self, a, kwargs, fv)
            return self.run_function(fv, args, kwargs)
        if isinstance(fv, Method):
            return self.call_method(fv.obj, fv.name, args, kwargs)
        if isinstance(fv, ClassRef):
            return self.construct(fv, args, kwargs)
        if isinstance(fv, Ext):
            return self.call_ext(fv.name, args, kwargs)
        if callable(fv) and not isinstance(fv, z3.ExprRef):
            return fv(self, args, kwargs)
        if is_val(fv):
            h = self.contract.ext.get("call")
            if h:
                return h(self, fv, args, kwargs)
        raise Unsupported("call of " + str(fv)[:60])

    def construct(self, c, args, kwargs):
        h = self.contract.ext.get("new " + c.name)
        if h:
            return h(self, args, kwargs)
        if c.info is not None and any(str(b) in EXC or b == "Exception" for b in c.info.base_names() if isinstance(b, str)):
            return self.new_obj(c.name)
        if c.info is not None:
            # a constructor applied mechanically: allocate and run __init__
            m = c.info.lookup("__init__")
            bases = c.info.base_names()
            o = self.new_obj(c.name, {}, d=D() if "dict" in bases else None)
            self.setbox(o, cls=c)
            if m:
                pf = PyFunc(m[2], None, m[0].modname, m[0], o, m[0].modname + ":" + m[0].name + ".__init__")
                self.call(pf, args, kwargs)
            elif args or kwargs:
                raise Unsupported("constructor " + c.name)
            return o
        raise Unsupported("constructor " + c.name)

    def call_ext(self, name, args, kwargs):
        ext = self.contract.ext
        if name in ext and callable(ext[name]):
            return ext[name](self, args, kwargs)
        short = name.split(".", 1)[-1] if name.startswith("builtins.") else name
        m = getattr(self, "bi_" + short.replace(".", "_").replace(":", "_"), None)
        if m:
            return m(*args, **kwargs)
        if short in EXC:
            return self.new_obj(short)
        raise Unsupported("call of " + name)

    # builtins -----------------------------------------------------------------
    def bi_len(self, x):
        if isinstance(x, STup):
            return len(x.items)
        k = self.kind(x)
        if k == "str":
            return z3.Length(Val.s(x))
        if k in ("set", "heap_set"):
            return uf("card", self.box(x).d.dom if k == "set" else self.arr("$dom", DomA)[Val.r(x)], sort=Int)
        b = self.box(x)
        if b is not None and b.kind == "obj" and isinstance(b.cls, ClassRef) and b.d is None:
            return self.call_method(x, "__len__", [], {})
        return z3.Length(self.seq_of(x))

    def bi_isinstance(self, x, c):
        if isinstance(c, STup):
            return z3.simplify(Or(*[self._b(self.bi_isinstance(x, i)) for i in c.items]))
        return self.isinst(x, c)

    def _b(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def isinst(self, x, c):
        if is_val(c):
            s = z3.simplify(c)
            h = self.contract.ext.get("isinstance")
            if h:
                return h(self, x, c)
            return uf("isinst_dyn", self.V(x), c, sort=Bool)
        name = c.name if isinstance(c, ClassRef) else c.name.split(".")[-1]
        if isinstance(x, STup):
            return name == "tuple"
        if isinstance(x, (PyFunc, Method)):
            return name in ("FunctionType",)
        if isinstance(x, ClassRef):
            return name == "type"
        if isinstance(x, IterV):
            return False
        if isinstance(x, Ext):
            x = self.V(x)
        if isinstance(x, z3.ExprRef) and x.sort() != Val:
            x = self.V(x)
        x = self.V(x)
        b = self.box(x)
        if b is not None:
            if b.kind == "obj":
                cn = b.cls.info.base_names() if isinstance(b.cls, ClassRef) and b.cls.info else {b.cls if isinstance(b.cls, str) else b.cls.name}
                cn = set(cn)
                decl = self.contract.classes.get(b.cls if isinstance(b.cls, str) else b.cls.name)
                if decl:
                    cn |= set(decl)
                if b.d is not None:
                    cn.add("dict")
                return name in cn
            return name == b.kind or name == b.cls or (b.cls in ("OrderedDict", "Counter") and name == "dict")
        simple = {"str": Val.is_str, "int": lambda v: Or(Val.is_int(v), Val.is_bool(v)), "bool": Val.is_bool, "tuple": Val.is_tup,
                  "type": Val.is_cls}
        if name in simple:
            return simple[name](x)
        if name == "list":
            return Or(Val.is_lst(x), And(Val.is_ref(x), self.refpred("list", x)))
        if name in ("dict", "set"):
            return And(Val.is_ref(x), self.refpred(name, x))
        if name in ("float", "bytes"):
            return And(Val.is_oth(x), uf("isa_" + name, x, sort=Bool))
        if name == "object":
            return True
        return isa(name, x)

    def bi_issubclass(self, a, b):
        bn = b.name
        return And(Val.is_cls(a), uf("subclass_" + bn, a, sort=Bool)) if is_val(a) else bn in a.info.base_names()

    def bi_bool(self, x=False):
        t = self.truth(x)
        return t if not isinstance(t, bool) else t

    def bi_str(self, x=""):
        return Val.str(self.tostr(x))

    def bi_repr(self, x):
        return Val.str(uf("py_repr", self.deep(self.V(x)), sort=Str))

    def bi_int(self, x=0):
        x = self.V(x)
        k = self.kind(x)
        if k in ("int",):
            return x
        if k == "bool":
            return Val.int(z3.If(Val.b(x), 1, 0))
        if k == "str":
            if self.branch(uf("int_ok", Val.s(x), sort=Bool)):
                return Val.int(uf("int_of", Val.s(x), sort=Int))
            raise PyRaise("ValueError")
        if k == "oth":
            if self.branch(uf("int_ok_o", x, sort=Bool)):
                return Val.int(uf("int_of_o", x, sort=Int))
            raise PyRaise("ValueError")
        raise PyRaise("TypeError")

    def isfloat(self, t):
        self.assume(Val.is_oth(t))
        return t

    def bi_float(self, x=0):
        x = self.V(x)
        k = self.kind(x)
        if k in ("int", "oth", "bool"):
            return self.isfloat(uf("float_of", x))
        if k == "str":
            if self.branch(uf("float_ok", Val.s(x), sort=Bool)):
                return self.isfloat(uf("float_of", x))
            raise PyRaise("ValueError")
        raise PyRaise("TypeError")

    def bi_list(self, x=None):
        return self.new_list(EMPTY if x is None else self.seq_of(x))

    def bi_tuple(self, x=None):
        if isinstance(x, STup):
            return x
        return STup(()) if x is None else Val.tup(self.seq_of(x))

    def bi_set(self, x=None):
        if x is None:
            return self.new_set(NODOM)
        k = self.kind(x) if is_val(x) else ""
        if k == "set":
            return self.new_set(self.box(x).d.dom)
        if k == "heap_set":
            return self.new_set(self.arr("$dom", DomA)[Val.r(x)])
        s = self.seq_of(x)
        return self.new_set(self.seq_dom(s))

    def seq_dom(self, s):
        items = static_items(s)
        if items is None:
            return uf("seq_dom", s, sort=DomV)
        d = NODOM
        for i in items:
            d = z3.Store(d, i, z3.BoolVal(True))
        return d

    def bi_frozenset(self, x=None):
        return self.bi_set(x)

    def bi_dict(self, *args, **kw):
        d = D()
        if args:
            x = args[0]
            k = self.kind(x)
            b = self.box(x)
            if (b is not None and b.d is not None and k in ("dict", "obj")):
                d = b.d
            elif k == "heap_dict":
                d = self.hdict(x)
            elif k in ("str", "none", "int", "bool"):
                raise PyRaise("ValueError" if k == "str" else "TypeError")
            else:
                s = self.seq_of(x)
                items = static_items(s)
                if items is None:
                    d = D(uf("pairs_keys", s, sort=SeqV), uf("pairs_map", s, sort=MapV), uf("pairs_dom", s, sort=DomV))
                else:
                    for i in items:
                        t = static_items(Val.titems(i))
                        if t is None or len(t) != 2:
                            raise Unsupported("dict() of pairs")
                        d = d.set(t[0], t[1])
        for k, v in kw.items():
            d = d.set(vstr(k), self.V(v))
        return self.new_dict(d)

    def bi_collections_OrderedDict(self, *a, **k):
        r = self.bi_dict(*a, **k)
        self.setbox(r, cls="OrderedDict")
        return r

    def bi_collections_Counter(self, *a):
        r = self.new_dict(D(), "Counter")
        if a:
            raise Unsupported("Counter(x)")
        return r

    def bi_enumerate(self, x, start=0):
        it = self.iterable(x)
        if isinstance(it, list):
            return STup(tuple(STup((vint(i + start), h)) for i, h in enumerate(it)))
        w = it.wrap
        st = start

        def wrap(h, i):
            return STup((Val.int(i + st if not (isinstance(st, int) and st == 0) else i), w(h, i)))
        return IterV(it.seq, wrap, True, live=it.live)

    def bi_zip(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], interp.StarSeq):
            s = uf("zip_star", self.deep(xs[0].seq), sort=SeqV)

            def wrap1(h, i):
                self.assume(Val.is_tup(h))
                return h
            return IterV(s, wrap1)
        its = [self.iterable(x) for x in xs]
        if all(isinstance(i, list) for i in its):
            return STup(tuple(STup(t) for t in zip(*its)))
        ss = [self.seq_of(x) if not isinstance(i, list) else seq(*[self.V(q) for q in i]) for x, i in zip(xs, its)]
        s = uf("seq_zip%d" % len(ss), *ss, sort=SeqV)
        n = len(ss)

        def wrap(h, i):
            return STup(tuple(Val.titems(h)[k] for k in range(n)))
        wrap.seqname = lambda s: s
        return IterV(s, wrap)

    def bi_range(self, *a):
        a = [z3.simplify(Val.i(self.V(x))) for x in a]
        if all(z3.is_int_value(x) for x in a):
            return STup(tuple(vint(i) for i in range(*[x.as_long() for x in a])))
        lo, hi, st = (z3.IntVal(0), a[0], z3.IntVal(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else z3.IntVal(1))
        s = uf("seq_range", lo, hi, st, sort=SeqV)

        def wrap(h, i):
            self.assume(Val.is_int(h))
            if z3.is_int_value(st) and st.as_long() > 0:
                self.assume(And(lo <= Val.i(h), Val.i(h) < hi))
            return h
        wrap.ident = True
        return IterV(s, wrap)

    def bi_reversed(self, x):
        it = self.iterable(x)
        if isinstance(it, list):
            return STup(tuple(reversed(it)))
        return self.new_list(uf("seq_rev", self.seq_of(x), sort=SeqV))

    def bi_iter(self, x):
        return x

    def bi_print(self, *a, **k):
        return NONE

    def bi_type(self, x):
        if is_val(x):
            b = self.box(x)
            if b is not None:
                return vcls(b.cls if isinstance(b.cls, str) else b.cls.name) if b.kind == "obj" else vcls(b.kind)
        return uf("type_of", self.V(x))

    def bi_id(self, x):
        return Val.int(uf("py_id", self.V(x), sort=Int))

    def bi_callable(self, x):
        if isinstance(x, (PyFunc, ClassRef, Method)):
            return True
        return uf("py_callable", self.V(x), sort=Bool)

    def bi_min(self, *a, **k):
        return self._minmax("min", *a, **k)

    def bi_max(self, *a, **k):
        return self._minmax("max", *a, **k)

    def _minmax(self, which, *a, **kw):
        if kw:
            raise Unsupported(which + " with keywords")
        if len(a) == 1:
            s = self.deep(self.seq_of(a[0]))
            if not self.branch(z3.Length(s) > 0):
                raise PyRaise("ValueError")
            return Val.int(uf("seq_" + which, s, sort=Int))
        r = Val.i(self.V(a[0]))
        for x in a[1:]:
            y = Val.i(self.V(x))
            r = z3.If(y < r, y, r) if which == "min" else z3.If(y > r, y, r)
        return Val.int(r)

    def bi_abs(self, x):
        x = self.V(x)
        if self.kind(x) != "int":
            raise PyRaise("TypeError") if self.kind(x) in ("none", "str") else Unsupported("abs")
        return Val.int(z3.If(Val.i(x) < 0, -Val.i(x), Val.i(x)))

    def bi_hash(self, x):
        return Val.int(uf("py_hash", self.V(x), sort=Int))

    def bi_super(self, *a):
        return Ext("super")

    def bi_getattr(self, o, name, *dflt):
        n = self.const_str(name)
        if n is None:
            h = self.contract.ext.get("getattr")
            if h:
                return h(self, o, name, dflt)
            raise Unsupported("getattr with dynamic name")
        try:
            return self.get_attr(o, n)
        except PyRaise as e:
            if e.cls == "AttributeError" and dflt:
                return dflt[0]
            raise

    def bi_hasattr(self, o, name):
        n = self.const_str(name)
        if n is None:
            h = self.contract.ext.get("hasattr")
            if h:
                return h(self, o, name)
            raise Unsupported("hasattr with dynamic name")
        return self.has_attr(o, n)

    def bi_setattr(self, o, name, v):
        n = self.const_str(name)
        if n is None:
            raise Unsupported("setattr with dynamic name")
        self.set_attr(o, n, v)
        return NONE

    def const_str(self, v):
        if isinstance(v, str):
            return v
        if is_val(v):
            s = z3.simplify(v)
            if ctor(s) == "str" and z3.is_string_value(s.arg(0)):
                return s.arg(0).as_string()
        return None

    def bi_any(self, x):
        return self.anyall(x, True)

    def bi_all(self, x):
        return self.anyall(x, False)

    def anyall(self, x, which):
        if isinstance(x, LazyGen) and len(x.node.generators) == 1:
            if not isinstance(x.first, LazyIter):
                x.first = self.iterable(x.first)
            if not isinstance(x.first, list):
                def stop(h):
                    if self.branch(self.truth(h)) == which:
                        raise Brk()
                return (x.each(self, stop) == "break") == which
        it = self.iterable(x)
        if isinstance(it, list):
            ts = [self._b(self.truth(v)) for v in it]
            return z3.simplify(z3.Or(*ts) if which else z3.And(*ts)) if ts else (not which)
        cell = {}

        def body(h):
            if self.branch(self.truth(h)) == which:
                raise Brk()
        node = cell
        r = self.sym_loop(("any" if which else "all", self.cur_node()), it, body, set(), None)
        return (r == "break") == which

    def cur_node(self):
        return self.trace[-1] if self.trace else None

    def bi_next(self, x, *dflt):
        it = self.iterable(x)
        if isinstance(it, list):
            if it:
                return it[0]
        else:
            s = it.seq
            if self.branch(z3.Length(s) > 0):
                return it.wrap(s[0], z3.IntVal(0))
        if dflt:
            return dflt[0]
        raise PyRaise("StopIteration")

    def bi_map(self, f, *xs):
        if len(xs) != 1:
            raise Unsupported("map with several iterables")
        return LazyIter(self, "map", f, xs[0])

    def bi_map_eager(self, f, *xs):
        return self.comp_list(("map", self.cur_node()), xs[0], lambda h, add: add(self.call(f, [h], {})))

    def bi_filter(self, f, x):
        return LazyIter(self, "filter", f, x)

    def bi_filter_eager(self, f, x):
        def el(h, add):
            t = self.truth(h) if (isinstance(f, Ext) and f.name == "builtins.bool") or (is_val(f) and ctor(z3.simplify(f)) == "none") \
                else self.truth(self.call(f, [h], {}))
            if self.branch(t):
                add(h)
        return self.comp_list(("filter", self.cur_node()), x, el)

    def bi_itertools_filterfalse(self, f, x):
        return LazyIter(self, "filterfalse", f, x)

    def bi_itertools_filterfalse_eager(self, f, x):
        def el(h, add):
            if not self.branch(self.truth(self.call(f, [h], {}))):
                add(h)
        return self.comp_list(("filterfalse", self.cur_node()), x, el)

    def bi_sum(self, x, start=0):
        return Val.int(uf("seq_sum", self.deep(self.seq_of(x)), sort=Int))

    def bi_sorted(self, x, key=None, reverse=None):
        s = self.deep(self.seq_of(x))
        h = self.contract.ext.get("sorted")
        if h:
            return h(self, s, key)
        if key is None or (is_val(key) and ctor(z3.simplify(key)) == "none"):
            return self.new_list(uf("sorted", s, sort=SeqV))
        raise Unsupported("sorted with a key")

    def comp_list(self, uid, x, el):
        """list built by an element action over an iterable; returns list value"""
        acc = self.new_list()

        def add(v):
            self.setbox(acc, seq=cat(self.box(acc).seq, unit(self.V(v))))
        self.for_each(uid, x, lambda h: el(h, add), set(), None)
        return acc

    # -- iteration -------------------------------------------------------------
    def iterable(self, x):
        """list of engine values when the elements are known, else IterV"""
        if isinstance(x, STup):
            return list(x.items)
        if isinstance(x, LazyIter):
            x = x.force(self)
        if isinstance(x, IterV):
            items = static_items(x.seq)
            if items is not None:
                return [x.wrap(h, z3.IntVal(i)) for i, h in enumerate(items)]
            return x
        if isinstance(x, list):
            return x
        h = self.contract.ext.get("iterable")
        if h:
            r = h(self, x)
            if r is not None:
                return r
        c = self.const_str(x) if is_val(x) else None
        if c is not None:
            return [vstr(ch) for ch in c]
        s = self.seq_of(x)
        items = static_items(s)
        if items is not None:
            return items

        def wrap(h, i):
            return self.init_head(h, s)
        wrap.ident = True
        return IterV(s, wrap, live=self.live_id(x))

    def live_id(self, x):
        i = self.box_id(x) if is_val(x) else None
        return i if i is not None and self.boxes[i].kind in ("list", "dict", "obj") else None

    def init_head(self, h, s):
        if not ref_ids(s):
            self.assume(Implies(Val.is_ref(h), Val.r(h) < 0))
        if any(s.eq(x) for x in self.ghost.get("$strseqs", ())):
            self.assume(Val.is_str(h))
            return h
        elem = self.contract.elem
        if elem:
            elem(self, h, s)
        return h

    def for_each(self, uid, x, body, assigned, frame):
        if isinstance(x, LazyGen):
            if len(x.node.generators) == 1 and not assigned:
                return x.each(self, body)
            x = x.force(self)
        if isinstance(x, LazyIter):
            lz = x
            return self.for_each(uid, lz.x, lambda h: lz.feed(self, h, body), assigned, frame)
        it = self.iterable(x)
        if isinstance(it, list) and self.contract.summarise is not None and self.contract.summarise(self, it):
            sq = seq(*[self.V(v) for v in it])
            it = IterV(sq, lambda h, i: self.init_head(h, sq))
        if isinstance(it, list):
            lid = self.live_id(x)
            start = self.boxes[lid] if lid is not None else None
            for h in it:
                if lid is not None and self.changed(start, self.boxes[lid]):
                    raise Unsupported("list or dictionary changed while it is iterated")
                try:
                    body(h)
                except Cont:
                    continue
                except Brk:
                    return "break"
            return "done"
        return self.sym_loop(uid, it, body, assigned, frame)

    def changed(self, a, b):
        """has the order or number of the elements of a list, or of the keys of a dictionary, changed?"""
        for x, y in ((a.seq, b.seq), (a.d and a.d.keys, b.d and b.d.keys)):
            if x is not None and x is not y and not x.eq(y) and not self.entails(x == y):
                return True
        return False

    def live_comps(self, mods, it):
        """the list iterated over may change only at and before the current element: its component is the changed part"""
        if it is None or it.live is None:
            return mods
        return {("live", it.live, None) if c == ("box", it.live, "seq") else c for c in mods}

    def comps_diff(self, base, snap, since):
        """modified components (names) between two snapshots"""
        out = set()
        for i, b in base[0].items():
            n = snap[0].get(i)
            if n is b:
                continue
            if b.seq is not None and n.seq is not b.seq and not n.seq.eq(b.seq):
                out.add(("box", i, "seq"))
            if b.d is not None and n.d is not b.d:
                if not n.d.keys.eq(b.d.keys):
                    out.add(("box", i, "keys"))
                if not n.d.map.eq(b.d.map):
                    out.add(("box", i, "map"))
                if not n.d.dom.eq(b.d.dom):
                    out.add(("box", i, "dom"))
            if b.attrs is not None:
                for a in set(n.attrs) | set(b.attrs):
                    if a not in b.attrs:
                        raise Unsupported("attribute created in loop: " + a)
                    x, y = b.attrs.get(a), n.attrs.get(a)
                    if x is y or (is_val(x) and is_val(y) and x.eq(y)):
                        continue
                    out.add(("battr", i, a))
        for a, t in snap[1].items():
            o = base[1].get(a)
            if o is None:
                if not z3.is_const(t):
                    out.add(("arr", a, None))
            elif not t.eq(o):
                out.add(("arr", a, None))
        return out

    def comp_get(self, comp, frame, since, types):
        kind, a, f = comp
        if kind == "box":
            b = self.boxes[a]
            t = b.seq if f == "seq" else getattr(b.d, f)
            return self.deep(t, since) if f in ("seq", "map", "keys") else t
        if kind == "live":
            now = self.ghost.get("$live")
            if now is None or now[0] != a:
                return EMPTY
            _, prefix, head, rest, ended = now
            if not ended:
                return prefix
            parts = flat_concat(z3.simplify(self.deep(self.boxes[a].seq, since)))
            if not parts or not parts[-1].eq(rest):
                raise Unsupported("list changed ahead of the current element while it is iterated")
            new = cat(*parts[:-1]) if len(parts) > 1 else EMPTY
            if not self.entails(z3.Length(new) == z3.Length(prefix) + 1):
                raise Unsupported("list changed in length while it is iterated")
            return new
        if kind == "battr":
            v = self.V(self.boxes[a].attrs[f])
            return self.coerce(self.deep(v, since), types.get(comp, "val"))
        if kind == "arr":
            return self.arr(a)
        if kind == "idx":
            return self.ghost["$idx"]
        if kind == "loc":
            v = frame.vars[a]
            ty = types[comp]
            if ty == "slot":
                if isinstance(v, Slot):
                    return v.key
                if is_val(v) and v.eq(self.slots[a][1]):
                    return NONE
                raise Unsupported("list %s is an alias of a dictionary entry and rebound to another list" % a)
            if ty == "seq":
                return self.deep(self.seq_of(v), since)
            if ty in ("keys", "map", "dom"):
                raise Unsupported("dict rebinding in loop")
            return self.coerce(self.deep(self.V(v), since), ty)
        raise Unsupported(str(comp))

    def coerce(self, v, ty):
        if ty == "val":
            return v
        sel = {"int": Val.i, "bool": Val.b, "str": Val.s}[ty]
        tst = {"int": Val.is_int, "bool": Val.is_bool, "str": Val.is_str}[ty]
        if not self.entails(tst(v)):
            raise Demote()
        return z3.simplify(sel(v))

    def comp_set(self, comp, frame, term, types):
        kind, a, f = comp
        if kind == "box":
            b = self.boxes[a]
            if f == "seq":
                self.boxes[a] = replace(b, seq=term)
            else:
                nd = D(b.d.keys, b.d.map, b.d.dom)
                setattr(nd, f, term)
                self.boxes[a] = replace(b, d=nd)
        elif kind == "live":
            self.boxes[a] = replace(self.boxes[a], seq=term)
        elif kind == "battr":
            b = self.boxes[a]
            at = dict(b.attrs)
            at[f] = self.uncoerce(term, types.get(comp, "val"))
            self.boxes[a] = replace(b, attrs=at)
        elif kind == "arr":
            self.arrs[a] = term
        elif kind == "idx":
            self.ghost["$idx"] = term
        elif kind == "loc":
            ty = types[comp]
            if ty == "slot":
                frame.vars[a] = Slot(self.slots[a][0], term, self.slots[a][1])
                return
            frame.vars[a] = self.new_list(term) if ty == "seq" else self.uncoerce(term, ty)

    def uncoerce(self, t, ty):
        return {"val": lambda x: x, "int": Val.int, "bool": Val.bool, "str": Val.str}[ty](t)

    def comp_sort(self, comp, types):
        kind, a, f = comp
        if kind == "box":
            return {"seq": "seq", "keys": "seq", "map": "map", "dom": "dom"}[f]
        if kind == "live":
            return "seq"
        if kind == "arr":
            s = self.arr(a).sort()
            return {str(AttrA): "arr", str(SeqA): "seqarr", str(MapA): "maparr", str(DomA): "domarr"}[str(s)]
        if kind == "idx":
            return "int"
        if types.get(comp) == "slot":
            return "val"
        return types.get(comp, "val")

    def infer_type(self, v):
        if isinstance(v, (bool,)):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, str):
            return "str"
        if isinstance(v, z3.ExprRef) and v.sort() != Val:
            return {str(Int): "int", str(Bool): "bool", str(Str): "str"}.get(str(v.sort()), "val")
        if is_val(v):
            b = self.box(v)
            if b is not None and b.kind == "list":
                return "seq"
            c = ctor(z3.simplify(v))
            if c in ("int", "bool", "str"):
                return c
            if b is not None:
                return "boxref"
        if isinstance(v, STup):
            return "val"
        return "val"

    def sym_loop(self, uid, it, body, assigned, frame, while_cond=None):
        """loop over a symbolic sequence (or a while loop): verified against a fold/while summary."""
        node = uid
        key = (repr(uid[0]) + str(id(uid[1])), self.outer_dec, tuple(c for c, _ in self.dec), len(self.pc), tuple(str(h) for h in self.heads))
        idxname = ("idx", "$idx", None)
        base = self.snapshot()
        since = self.nref
        if key in self.loop_cache:
            plan = self.loop_cache[key]
        else:
            plan = self.plan_loop(uid, it, body, assigned, frame, base, since, while_cond)
            if not self.discovering:
                self.loop_cache[key] = plan
        spec, inj, comps, types, params, same = plan
        if it is not None and it.use_idx:
            self.ghost["$idx"] = z3.IntVal(0)
        s0 = [self.comp_get(comps[i], frame, 1 << 30, types) for i in inj]
        # apply the summary
        if it is not None:
            fin = spec.app(it.seq, s0, params)
            code, val = spec.code(it.seq, s0, params), spec.value(it.seq, s0, params)
        else:
            fin = spec.app(s0, params)
            code, val = spec.code(s0, params), spec.value(s0, params)
        old_nref = self.nref
        for k, c in enumerate(comps):
            if k in inj:
                self.comp_set(c, frame, fin[inj.index(k)], types)
            elif c[0] != "arr":
                srt = SORTS[self.comp_sort(c, types)]
                t = self.fresh("havoc", srt)
                self.comp_set(c, frame, t, types)
        for n in assigned:
            if ("loc", n, None) not in comps and n not in same and frame is not None:
                # an empty sequence leaves an earlier binding; otherwise the leaked value is unconstrained
                frame.vars[n] = self.fresh("left_" + n, Val) if self.discovering else Undef(n)
        inv = spec.inv_ and (spec.inv(fin, params, it.seq) if it is not None else spec.inv(fin, params))
        if inv is not None and inv is not False and spec.inv_:
            self.assume(Or(code != 0, inv))
        ex = spec.exits_ and (spec.exits(z3.Const("_h", Val), s0, params) if it is not None else spec.exits(s0, params)) or []
        if ex and any(comps[i][0] == "live" for i in inj):
            raise Unsupported("loop left early that changes the list it iterates")
        for k, (c, kind, v) in enumerate(ex):
            if self.branch(code == k + 1):
                if kind == "ret":
                    raise Ret(v if literal(v) else val)
                if kind == "break":
                    if it is None and spec.left_:
                        self.assume(spec.left_(fin, params))
                    return "break"
                if isinstance(kind, tuple) and kind[0] == "raise":
                    raise PyRaise(kind[1], val)
                if kind == "retnone":
                    raise Ret(NONE)
        self.assume(code == 0)
        if it is None and not spec.final_:
            self.assume(Not(spec.guard(fin, params)))
        return "done"

    def plan_loop(self, uid, it, body, assigned, frame, base, since, while_cond):
        carried, mods, demoted, same, rebound = set(), set(), set(), set(), set()
        label = uid[0] if isinstance(uid[0], str) else "loop"
        carried |= {n for n in self.contract.carry if n in assigned and frame is not None and base_has(base, frame, n)
                    and not (is_val(frame.vars[n]) and self.box(frame.vars[n]) is not None)}
        lineno = getattr(uid[1], "lineno", 0)
        use_done = True
        for _round in range(40):
            comps = sorted(mods | {("loc", n, None) for n in carried}, key=str)
            if it is not None and it.use_idx:
                comps.append(("idx", "$idx", None))
            self.restore(base)
            if it is not None and it.use_idx:
                self.ghost["$idx"] = z3.IntVal(0)
            types = {}
            for c in comps:
                if c[0] == "loc":
                    ty = self.infer_type(frame.vars[c[1]])
                    if ty == "boxref":
                        raise Unsupported("rebinding of " + c[1] + " to a container in a loop")
                    types[c] = "val" if c in demoted and ty != "seq" else ty
                    if c[1] in self.slots and is_val(frame.vars[c[1]]) and frame.vars[c[1]].eq(self.slots[c[1]][1]):
                        types[c] = "slot"
                elif c[0] == "battr":
                    ty = self.infer_type(self.boxes[c[1]].attrs[c[2]])
                    types[c] = "val" if c in demoted or ty in ("seq", "boxref") else ty
                    if ty in ("seq", "boxref"):
                        raise Unsupported("attribute rebinding to container in loop")
            self.pc = list(base[2])
            consts = []
            for k, c in enumerate(comps):
                srt = SORTS[self.comp_sort(c, types)]
                t = self.fresh("st_%s" % c[1], srt)
                consts.append(t)
                if srt == Val:
                    self.assume(Implies(Val.is_ref(t), Val.r(t) < 0))
                self.comp_set(c, frame, t, types)
            for n in assigned - carried - same:
                if frame is not None:
                    frame.vars[n] = Undef(n)
            private = {self.box_id(frame.vars[n]) for n in carried if types[("loc", n, None)] == "seq"}
            head = self.fresh("head", Val)
            done = self.fresh("done", SeqV)
            rest = self.fresh("rest", SeqV)
            if it is not None:
                self.assume(it.seq == cat(done, unit(head), rest))
            for c, t in zip(comps, consts):
                if c[0] == "live":
                    self.ghost["$live"] = (c[1], t, head, rest, False)
                    self.boxes[c[1]] = replace(self.boxes[c[1]], seq=cat(t, unit(head), rest))
                    if it.use_idx:
                        self.assume(z3.Length(t) == self.ghost["$idx"])
            candidates = [u for u in self.contract.loops if (isinstance(u.spec, While) == (it is None))]
            start = self.snapshot()
            gidx = self.ghost.get("$idx")
            keys0 = self.boxes[it.live] if it is not None and it.live is not None else None

            def thunk():
                if while_cond is not None:
                    if not self.branch(self.truth(while_cond())):
                        return ("exit",)
                self.heads.append(head)
                try:
                    if it is not None:
                        body(it.wrap(head, gidx))
                    else:
                        body(None)
                    out = ("next",)
                except Cont:
                    out = ("next",)
                except Brk:
                    out = ("break",)
                except Ret as r:
                    out = ("ret", self.V(r.v))
                except PyRaise as e:
                    out = ("raise", e.cls)
                except Unsupported as e:
                    # tolerated while discovering the frame; rejected when the summary is checked
                    out = ("unsupported", str(e))
                    if DEBUG:
                        print("  while discovering the loop of line %d: %s" % (lineno, e))
                finally:
                    self.heads.pop()
                if out[0] == "next" and keys0 is not None and keys0.d is not None and \
                        self.changed(replace(keys0, seq=None), replace(self.boxes[it.live], seq=None)):
                    out = ("unsupported", "dictionary changed while it is iterated")
                if self.ghost.get("$live") and it is not None and self.ghost["$live"][0] == it.live:
                    self.ghost["$live"] = self.ghost["$live"][:4] + (True,)
                if it is not None and it.use_idx:
                    self.ghost["$idx"] = self.ghost["$idx"] + 1
                return out
            try:
                # exploration without invariants: discovers the frame
                self.discovering += 1
                likely = self.contract.ext.get("state")     # what the loop's state is likely to be: only steers the discovery
                for t in consts if likely else ():
                    if t.sort() == Val:
                        self.assume(likely(t))
                try:
                    paths = self.explore(thunk, "loop%d" % lineno)
                finally:
                    self.discovering -= 1
                newm = set()
                moved = set()
                for out, snap in paths:
                    newm |= self.live_comps({c for c in self.comps_diff(start, snap, since) if not (c[0] == "box" and c[1] in private)}, it)
                    if same:
                        self.restore(snap)
                        moved |= {n for n in same if not (is_val(frame.vars[n]) and frame.vars[n].eq(same_val[n]))}
                if moved:
                    # rebound to another list: carried by value, sound only when nothing else refers to the list
                    same -= moved
                    rebound |= moved
                    for out, snap in paths:
                        self.restore(snap)
                        slots = {n: frame.vars[n].d for n in moved if isinstance(frame.vars[n], Slot)}
                        self.restore(base)
                        self.slots.update({n: (d, frame.vars[n]) for n, d in slots.items()})
                    moved -= set(self.slots)
                    carried |= set(self.slots)
                    rebound -= set(self.slots)
                    for n in moved:
                        if self.aliased(frame, n):
                            raise Unsupported("list %s is rebound in the loop and referenced elsewhere" % n)
                    carried |= moved
                    continue
                if not newm <= mods:
                    mods |= newm
                    continue
                for out, snap in paths:
                    if out[0] == "unsupported":
                        continue
                    self.restore(snap)
                    for c in comps:
                        if c[0] == "loc" and isinstance(frame.vars[c[1]], Slot) and types[c] != "slot":
                            d = frame.vars[c[1]].d
                            self.restore(base)
                            self.slots[c[1]] = (d, frame.vars[c[1]])
                            raise Demote()
                        try:
                            self.comp_get(c, frame, since, types)
                        except Demote:
                            demoted.add(c)
                            raise
            except PoisonRead as p:
                had = base_has(base, frame, p.name)
                if p.name in carried or not had:
                    raise Unsupported("read of possibly unbound " + p.name)
                self.restore(base)
                v = frame.vars[p.name]
                b = self.box(v) if is_val(v) else None
                if b is not None and b.kind == "list" and p.name not in rebound:
                    same.add(p.name)            # the same list object throughout, as long as no path rebinds it
                else:
                    carried.add(p.name)
                same_val = {n: frame.vars[n] for n in same}
                continue
            except Demote:
                continue
            break
        else:
            raise Unsupported("loop analysis did not converge")
        # matching
        csorts = [self.comp_sort(c, types) for c in comps]
        if not candidates:
            raise Unsupported("loop without a summary (line %d)" % lineno)
        best = None
        if self.discovering:
            # the frame of an enclosing loop is being discovered: any summary of this shape will do, nothing is concluded
            for u in candidates:
                self.restore(base)
                try:
                    params = self.param_choices(u)[0]
                except IndexError:
                    continue
                for inj in injections(u.spec.state, csorts, getattr(u.spec, "names", None), comps):
                    self.restore(base)
                    return u.spec, list(inj), comps, types, params, same
        choices = []
        for u in candidates:
            self.restore(base)
            try:
                choices += [(u, params) for params in self.param_choices(u)]
            except IndexError:
                continue        # a summary for an inner loop
        for u, params in choices:
            spec = u.spec
            self.restore(base)
            explored = {}
            for inj in injections(spec.state, csorts, getattr(spec, "names", None), comps):
                ok, obls = self.check_loop(u, spec, params, inj, comps, types, start, frame, thunk, it, head, done, rest,
                                           since, lineno, base, quick=True, private=private, explored=explored)
                if ok:
                    ok, obls = True, obls
                    for o in obls:
                        self.pv.obls.append(o)
                    self.restore(base)
                    return spec, list(inj), comps, types, params, same
                if best is None or sum(o.status == "valid" for o in obls) / (len(obls) or 1) > best[0]:
                    best = (sum(o.status == "valid" for o in obls) / (len(obls) or 1), obls, spec.name, u, inj, params)
        self.restore(base)
        left = {n for n in assigned if n not in self.contract.carry and frame is not None and ("loc", n, None) not in comps
                and n not in same and n in frame.vars and not isinstance(frame.vars[n], Undef)}
        if left:
            raise Carry(left)
        if best is None:
            raise Unsupported("no loop summary of matching shape (line %d): state %s" % (lineno, list(zip(comps, csorts))))
        # re-run the best candidate with full effort
        u, inj, params = best[3:]
        ok, obls = self.check_loop(u, u.spec, params, inj, comps, types, start, frame, thunk, it, head, done, rest,
                                   since, lineno, base, quick=False, private=private)
        self.pv.obls.extend(obls)
        self.restore(base)
        return u.spec, list(inj), comps, types, params, same

    def param_choices(self, u):
        """the parameters a summary may be used with: as the contract says, or ("locals") any local value of the right sort"""
        if u.params != "locals":
            return [u.params(self) if u.params else []]
        (sort,), out = u.spec.psorts, []
        fs = list(reversed(self.frames[-3:]))
        for f in fs + [f.parent for f in fs if getattr(f, "parent", None) is not None]:
            for n in sorted(f.vars):
                v = f.vars[n]
                if is_val(v) and sort == "val" and self.box(v) is None and not any(v.eq(x) for x in out):
                    out.append(v)
        return [[v] for v in out[:12]]

    def aliased(self, frame, name):
        """does anything but this local refer to the list bound to it?"""
        me = self.box_id(frame.vars[name])
        for i, b in self.boxes.items():
            for t in [b.seq] + ([b.d.keys, b.d.map] if b.d is not None else []) + list((b.attrs or {}).values()):
                if t is None:
                    continue
                try:
                    t = self.V(t)
                except Unsupported:
                    return True
                if me in ref_ids(t):
                    return True
        for f in self.frames:
            for n, v in f.vars.items():
                if (f is frame and n == name) or isinstance(v, (Undef, PyFunc, ClassRef, Ext, Method, LazyIter, IterV, Slot)):
                    continue
                try:
                    if isinstance(v, (int, str, bool)) or v is None:
                        continue
                    if me in ref_ids(self.V(v)):
                        return True
                except (Unsupported, PyRaise):
                    return True
        return False

    def check_loop(self, u, spec, params, inj, comps, types, start, frame, thunk, it, head, done, rest, since, lineno, base, quick, private=(), explored=None):
        obls = []
        name = "%s/loop %s" % (self.contract.label, spec.name)

        def chk(what, assumptions, goal):
            import time as _t
            t0 = _t.time()
            st, be, m = self.pv.check(list(assumptions) + list(extra), goal, timeout=6000 if quick else None, quick=quick)
            d = ""
            if st != "valid":
                d = "line %d\n  goal: %s\n  path: %s" % (lineno, str(z3.simplify(goal))[:1500], "; ".join(str(a)[:200] for a in list(assumptions)[-int(__import__("os").environ.get("PYVC_LAST","8")):]))
                if m is not None:
                    d += "\n  counter-model: " + str(m)[:1500]
            obls.append(Obl(name + ": " + what, st, be, _t.time() - t0, d))
            return st == "valid"
        extra = []
        # a heap component the summary does not mention must keep its value (hypothesis here, checked on every path below)
        kept = [c for i, c in enumerate(comps) if c[0] == "arr" and i not in inj]
        if kept:
            self.restore(base)
            old = {c[1]: self.arr(c[1]) for c in kept}
            self.restore(start)
            self.arrs.update(old)
            start = self.snapshot()
        self.restore(start)
        s = [self.comp_get(comps[i], frame, 1 << 30, types) for i in inj]
        if spec.inv_:
            # initial
            self.restore(base)
            if it is not None and it.use_idx:
                self.ghost["$idx"] = z3.IntVal(0)
            s_init = [self.comp_get(comps[i], frame, 1 << 30, types) for i in inj]
            inv0 = spec.inv(s_init, params, EMPTY) if it is not None else spec.inv(s_init, params)
            if not chk("invariant holds initially", self.pc, inv0):
                return False, obls
            self.restore(start)
            inv = spec.inv(s, params, done) if it is not None else spec.inv(s, params)
            try:
                self.assume(inv)
            except PathAbort:
                pass
        if u.hints and it is not None:
            for hnt in u.hints(self, head, s, params, done, rest):
                self.assume(hnt)
        elif u.hints:
            for hnt in u.hints(self, s, params):
                self.assume(hnt)
        try:
            ekey = ("paths", tuple(c[1] for c in kept))
            if explored is not None and ekey in explored and not spec.inv_ and not u.hints:
                paths = explored[ekey]
            else:
                paths = self.explore(thunk, "loop%d" % lineno)
                if explored is not None:
                    explored[ekey] = paths
        except (PoisonRead, Unsupported) as e:
            if isinstance(e, PoisonRead) and not quick and e.name not in self.contract.carry:
                raise Carry(frozenset([e.name]))
            obls.append(Obl(name + ": exploration", "unknown", "-", 0, str(e)))
            return False, obls
        hh = head
        for out, snap in paths:
            if out[0] == "unsupported":
                obls.append(Obl(name + ": exploration", "unknown", "-", 0, out[1]))
                return False, obls
            extra_mods = self.live_comps({c for c in self.comps_diff(start, snap, since) if not (c[0] == "box" and c[1] in private)}, it) - (set(comps) - set(kept))
            if extra_mods:
                obls.append(Obl(name + ": frame", "unknown", "-", 0, str(extra_mods)))
                return False, obls
        if it is not None:
            ns = spec.step(hh, s, params)
            ex = spec.exits(hh, s, params)
            es = spec.exit_state(hh, s, params) if ex else None
        else:
            ns, ex = spec.step(s, params), spec.exits(s, params)
            es = ns
        anyex = Or(*[c for c, _, _ in ex]) if ex else z3.BoolVal(False)
        if not paths and it is not None and self.entails(z3.Length(it.seq) == 0):
            obls.append(Obl(name + ": never entered", "valid", "z3 " + z3.get_version_string(), 0))
            return True, obls
        if not paths:
            obls.append(Obl(name + ": body reachable", "refuted", "-", 0, "no feasible path"))
            return False, obls
        for pi, (out, snap) in enumerate(paths):
            self.restore(snap)
            tag = "path %d" % pi
            pc = list(self.pc)
            if out[0] == "exit":
                fin = spec.final(s, params)
                if not chk(tag + " guard false", pc, Not(spec.guard(s, params))):
                    return False, obls
                for i, c in zip(range(len(inj)), inj):
                    if not chk(tag + " exit state %s" % spec.state[i], pc, self.comp_get(comps[c], frame, since, types) == fin[i]):
                        return False, obls
                continue
            if it is None:
                if not chk(tag + " guard true", pc, spec.guard(s, params)):
                    return False, obls
            if out[0] == "next":
                if ex and not chk(tag + " no exit", pc, Not(anyex)):
                    return False, obls
                for i, c in enumerate(inj):
                    try:
                        cv = self.comp_get(comps[c], frame, since, types)
                    except (Unsupported, Demote) as e:
                        obls.append(Obl(name + ": " + tag, "unknown", "-", 0, str(e)))
                        return False, obls
                    if not chk(tag + " step[%d]" % i, pc, cv == ns[i]):
                        return False, obls
                if spec.inv_:
                    iv = spec.inv(ns, params, cat(done, unit(head))) if it is not None else spec.inv(ns, params)
                    if not chk(tag + " invariant preserved", pc, iv):
                        return False, obls
                if it is None and spec.measure:
                    if not chk(tag + " measure decreases", pc, And(spec.measure(ns, params) < spec.measure(s, params), spec.measure(s, params) >= 0)):
                        return False, obls
                continue
            # early exits
            matched = False
            prior = []
            for k, (c, kind, v) in enumerate(ex):
                kk = kind if isinstance(kind, str) else kind[0]
                same = (out[0] == kk) or (out[0] == "ret" and kk == "retnone")
                if out[0] == "raise" and kk == "raise":
                    same = out[1] == kind[1]
                if same:
                    goal = And(c, *[Not(q) for q in prior])
                    if out[0] == "ret":
                        goal = And(goal, self.deep(out[1], since) == (v if v is not None else NONE))
                    if kk != "raise":
                        for i, cc in enumerate(inj):
                            if comps[cc][0] in ("box", "arr", "battr") or kk == "break":
                                goal = And(goal, self.comp_get(comps[cc], frame, since, types) == es[i])
                    if chk(tag + " exit " + kk, pc, goal):
                        matched = True
                        if it is None and spec.left_ and kk == "break" and not chk(tag + " state after break", pc, spec.left_(es, params)):
                            return False, obls
                        break
                    obls_last = obls[-1]
                    if k + 1 < len(ex):
                        obls.pop()
                prior.append(c)
            if not matched:
                obls.append(Obl(name + ": " + tag + " unexpected " + str(out[0]), "refuted", "-", 0, "line %d: body leaves the loop by %s" % (lineno, out[:2])))
                return False, obls
        return True, obls


class Demote(Exception):
    pass


def base_has(base, frame, name):
    for f, v in zip(base[5], base[6]):
        if f is frame and name in v and not isinstance(v[name], Undef):
            return True
    return False


def own_nodes(fn):
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def injections(spec_sorts, comp_sorts, names=None, comps=None):
    cand = [[j for j, c in enumerate(comp_sorts) if c == s] for s in spec_sorts]
    if names:
        def bare(c):
            n = str(c[2] if c[0] == "battr" else c[1])
            return n[2:] if n.startswith("a_") else n
        cand = [sorted(js, key=lambda j: bare(comps[j]) != n) for js, n in zip(cand, names)]
        cand = [js[:1] if js and comps[js[0]][0] == "arr" and bare(comps[js[0]]) == n else js for js, n in zip(cand, names)]
    n = 0
    for t in itertools.product(*cand):
        if len(set(t)) == len(t):
            yield t
            n += 1
            if n > (800 if names else 40):
                return


def literal(v):
    """a value without any free constant"""
    if v is None or not is_val(v):
        return False
    todo = [z3.simplify(v)]
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        todo += t.children()
    return True


DEBUG = "PYVC_DEBUG" in __import__("os").environ


class LoopUse:
    def __init__(self, spec, params=None, hints=None):
        self.spec, self.params, self.hints = spec, params, hints


from . import interp  # noqa: E402  (adds statement and expression execution)
