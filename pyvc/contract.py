"""Contracts: a specification for one function of /repo, and its verification."""
import ast, inspect, time, traceback
import z3
from .core import *
from . import source as src
from .engine import *
from .engine import Engine, Carry, Box, LoopUse, literal, STup, is_val, Undef


class Contract:
    target = None            # 'pkg.mod:func' or 'pkg.mod:Class.method'
    loops = ()
    ext = {}
    attrs = {}
    classes = {}
    elem = None
    exceptions = {}
    selfcls = None
    current_inline = None
    trusted = ()             # names of assumptions this contract rests on
    variants = ()            # list of (label, setup function) ; default one
    hint = None
    only_result = False
    label = ""
    carry = frozenset()
    summarise = None         # (e, items) -> is a loop over these known items to be summarised by a fold instead of unrolled?
    defaults = {}            # declared default values of parameters (checked)
    text_bytes = False       # bytes are modelled as text (one character per byte; str.encode is the identity)

    def __init__(self):
        self.loops = list(type(self).loops)
        self.label = self.target.replace("disseminate.", "")

    # override -------------------------------------------------------------
    def setup(self, e):
        raise NotImplementedError

    spec = None

    def post(self, e, args, ret):
        """additional postconditions: list of (name, z3 Bool), checked on normal return"""
        return []

    # use at call sites -----------------------------------------------------
    def apply(self, e, args, kwargs, fv):
        names = [p for p in inspect.signature(self.spec).parameters][1:]
        pre = getattr(self, "pre", None)
        bound, specnames = {}, names
        names = names + [p for p in (inspect.signature(pre).parameters if pre else []) if p != "e" and p not in names]
        node = fv.node
        fr = e.bind_args(node, replace_bound(fv), args, kwargs)
        for n in names:
            if n.rstrip("_") in fr:
                bound[n] = fr[n.rstrip("_")]
        if pre is not None:
            g = pre(e, **{n: v for n, v in bound.items() if n in inspect.signature(pre).parameters})
            if g is not None:
                e.pv.oblige("%s/call %s: precondition" % (e.contract.label, self.label), e.pc, g)
                e.assume(g)
        e.used.add("contract " + self.target)
        try:
            return self.spec(e, **{n: v for n, v in bound.items() if n in specnames})
        except Ret as r:
            return r.v


def replace_bound(fv):
    from dataclasses import replace
    return replace(fv, bound=None)


def obs(e, v, path="result"):
    """observable content of a value: list of (path, term)"""
    if isinstance(v, Undef):
        return [(path + ".undef", z3.BoolVal(True))]
    if isinstance(v, (PyFunc, Method, ClassRef, Ext)):
        return [(path, e.V(v) if not isinstance(v, Method) else z3.StringVal("method " + v.name))]
    if isinstance(v, STup) and any(is_val(x) and e.box(x) is not None and e.box(x).kind in ("dict", "obj") for x in v.items):
        out = []
        for i, x in enumerate(v.items):
            out += obs(e, x, "%s[%d]" % (path, i))
        return out
    v = e.V(v)
    b = e.box(v)
    if b is None:
        return [(path, e.deep(v))]
    if b.kind == "list":
        return [(path, e.deep(v))]
    if b.kind == "set":
        return [(path + ".set", b.d.dom)]
    out = []
    if b.d is not None:
        out += [(path + ".keys", e.deep(b.d.keys)), (path + ".dom", b.d.dom), (path + ".map", e.deep(b.d.map))]
    if b.seq is not None:
        out += [(path + ".seq", e.deep(b.seq))]
    if b.attrs is not None:
        out.append((path + ".class", S(b.cls if isinstance(b.cls, str) else b.cls.name)))
        for a in sorted(b.attrs):
            out += obs(e, b.attrs[a], path + "." + a) if not cyc(path, a) else []
    return out


def cyc(path, a):
    return path.count(".") > 4


def map_equal(a, b, dom):
    """mappings agree on the domain"""
    k = z3.Const("k_any", Val)
    return Implies(dom[k], a[k] == b[k])


class Result:
    def __init__(self, contract):
        self.target = contract.target
        self.label = contract.label
        self.status = "?"
        self.reason = ""
        self.obls = []
        self.inlined = []
        self.paths = 0
        self.secs = 0.0
        self.loops = 0


def verify(contract, registry, prover, only=None):
    """-> Result with status proved | failed | unsupported"""
    r = Result(contract)
    t0 = time.time()
    n0 = len(prover.obls)
    variants = contract.variants or [("", contract.setup)]
    try:
        mod, node, ci, kind = src.find_function(contract.target)
        a = node.args
        given = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        given.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, v in contract.defaults.items():
            ok = n in given and isinstance(given[n], ast.Constant) and given[n].value is v or n in given and ast.unparse(given[n]) == repr(v)
            prover.oblige("%s: %s defaults to %r" % (contract.label, n, v), [], z3.BoolVal(bool(ok)))
        for label, setup in variants if only is None else variants[only:only + 1]:
            if label:
                contract.label = contract.target.replace("disseminate.", "") + "[" + label + "]"
            while True:
                n1 = len(prover.obls)
                try:
                    _verify1(contract, registry, prover, r, mod, node, ci, kind, setup)
                    break
                except (PoisonRead, Carry) as p:
                    # a local assigned in a loop and read after it: carry it through the loop
                    names = p.names if isinstance(p, Carry) else frozenset([p.name])
                    if names <= contract.carry:
                        raise Unsupported("possibly unbound name " + ", ".join(sorted(names)))
                    contract.carry = contract.carry | names
                    del prover.obls[n1:]
        mine = prover.obls[n0:]
        if not mine:
            r.status, r.reason = "unsupported", "no obligation was generated"
        elif all(o.status == "valid" for o in mine):
            r.status = "proved"
        else:
            r.status = "failed"
    except Unsupported as u:
        r.status, r.reason = "unsupported", str(u)
    except PoisonRead as p:
        r.status, r.reason = "unsupported", "possibly unbound name " + str(p.name)
    except src.SourceError as u:
        r.status, r.reason = "unsupported", str(u)
    except (PyRaise, Ret, Brk, Cont, PathAbort) as x:
        r.status, r.reason = "unsupported", "stray " + repr(x)
    except z3.Z3Exception as x:
        r.status, r.reason = "unsupported", "encoding: " + str(x)[:200]
        import os
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc(limit=-4)
    except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError, RecursionError) as x:
        import os
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc(limit=-4)
        r.status, r.reason = "unsupported", "engine: %r" % (x,)
    r.obls = prover.obls[n0:]
    r.secs = time.time() - t0
    return r


def _verify1(contract, registry, prover, r, mod, node, ci, kind, setup):
    e = Engine(prover, contract, registry)
    if contract.selfcls is None and ci is not None:
        contract.selfcls = ci
    args = setup(e)                      # dict name -> value
    a0 = dict(args)
    base_ctr = e.ctr
    nref0 = e.nref
    e.nobj = nref0 + 1000000
    init = e.snapshot()
    # the precondition must be satisfiable
    s = z3.Solver()
    s.set("timeout", 10000)
    for c in e.pc:
        s.add(c)
    if s.check() == z3.unsat:
        prover.oblige(contract.label + "/precondition satisfiable", [], z3.BoolVal(False))
        return
    pf = PyFunc(node, None, mod, ci, None, "@self:" + contract.target)
    if kind == "classmethod":
        cref = ClassRef(ci.name, ci)
        a0 = {node.args.args[0].arg: cref, **a0}
    frame_parent = contract.closure(e) if getattr(contract, "closure", None) else None
    if frame_parent is not None:
        nref0 = max(nref0, e.nref)
        fr = Frame(frame_parent, None, mod, ci)
        e.frames.append(fr)
        pf = PyFunc(node, fr, mod, ci, None, "@self:" + contract.target)
        init = e.snapshot()

    star = contract.star_args(e) if hasattr(contract, "star_args") else None
    if star and node.args.vararg:
        a0[node.args.vararg.arg] = Val.tup(cat(*[x.seq if hasattr(x, "seq") else unit(e.V(x)) for x in star]))

    def body():
        try:
            kw = dict(a0)
            pos = []
            if star:
                kw.pop(node.args.vararg.arg, None)
                pos = [kw.pop(x.arg) for x in node.args.args if x.arg in kw] + list(star)
            rv = e.run_function(pf, pos, kw)
            return ("ret", rv)
        except PyRaise as x:
            return ("raise", x.cls)
    paths = e.explore(body, contract.label)
    r.paths += len(paths)
    r.inlined = sorted(set(r.inlined) | {u for u in e.used if not u.startswith("@self")})
    if not paths:
        prover.oblige(contract.label + "/some execution is possible", [], z3.BoolVal(False))
        return
    normal = 0
    names = [p for p in inspect.signature(contract.spec).parameters][1:] if contract.spec else []
    for i, (out, snap) in enumerate(paths):
        e.restore(snap)
        if out[0] == "ret":
            normal += 1
            for nm, g in contract.post(e, args, out[1]):
                prover.oblige("%s/path %d: %s" % (contract.label, i, nm), e.pc, g)
        if contract.spec is None:
            continue
        codeobs = collect(e, out, nref0, init)
        pc = list(snap[2])
        # run the specification from the initial state under the path condition of this execution
        st = list(init)
        st[2] = pc
        st[3] = snap[3] + 1000
        e.restore(tuple(st))
        sargs = {n: a0[n] if n in a0 else a0[n.rstrip("_")] if n.rstrip("_") in a0 else spec_default(e, node, mod, n.rstrip("_")) for n in names}

        def sp():
            try:
                return ("ret", contract.spec(e, **sargs))
            except Ret as q:
                return ("ret", q.v)
            except PyRaise as x:
                return ("raise", x.cls)
        saved = e.dec, e.prefix
        spaths = e.explore(sp, "spec" + str(i))
        for j, (sout, ssnap) in enumerate(spaths):
            e.restore(ssnap)
            tag = "%s/path %d.%d" % (contract.label, i, j)
            if sout[0] != out[0] or (out[0] == "raise" and sout[1] != out[1]):
                prover.oblige("%s: outcome is %s" % (tag, sout[0] if sout[0] == "ret" else "raise " + sout[1]), e.pc, z3.BoolVal(False),
                              "code: %s, contract: %s" % (out[:2] if out[0] == "raise" else out[0], sout[:2] if sout[0] == "raise" else sout[0]))
                continue
            specobs = collect(e, sout, nref0, init)
            compare(prover, e, tag, codeobs, specobs, contract)
    contract._normal = normal


def spec_default(e, node, mod, n):
    names = [x.arg for x in node.args.args]
    if n in names:
        i = names.index(n) - (len(names) - len(node.args.defaults))
        if i >= 0:
            return e.eval(node.args.defaults[i], Frame({}, None, mod))
    for x, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
        if x.arg == n and d is not None:
            return e.eval(d, Frame({}, None, mod))
    raise Unsupported("no value for parameter " + n)


def collect(e, out, nref0, init):
    o = []
    if out[0] == "ret":
        o += obs(e, out[1])
    for bid in sorted(b for b in e.boxes if b < nref0 and b in init[0]):
        b = e.boxes[bid]
        v = Val.ref(z3.IntVal(bid))
        if b.kind == "list":
            o.append(("state#%d" % bid, e.deep(b.seq, since=nref0)))
        else:
            o += [(p.replace("result", "state#%d" % bid), t) for p, t in obs_state(e, v, b, nref0)]
    for a in sorted(e.arrs):
        o.append(("heap." + a, e.arrs[a]))
    return o


def obs_state(e, v, b, nref0):
    out = []
    if b.kind == "set":
        return [("result.set", b.d.dom)]
    if b.d is not None:
        out += [("result.keys", e.deep(b.d.keys, nref0)), ("result.dom", b.d.dom), ("result.map", e.deep(b.d.map, nref0))]
    if b.seq is not None:
        out.append(("result.seq", e.deep(b.seq, nref0)))
    for a in sorted(b.attrs or {}):
        x = b.attrs[a]
        bid = e.box_id(x) if is_val(x) else None
        if bid is not None and bid < nref0:
            out.append(("result." + a, x))
        else:
            out += obs(e, x, "result." + a)
    return out


def compare(prover, e, tag, code, spec, contract):
    cd, sd = dict(code), dict(spec)
    ignore = getattr(contract, "ignore", ())
    for k in sorted(set(cd) | set(sd)):
        if any(k.startswith(i) for i in ignore):
            continue
        if k.startswith("heap.") and (k not in cd or k not in sd):
            x = cd.get(k, sd.get(k))
            base = z3.Const("H0_" + k[5:], x.sort())
            prover.oblige("%s: %s unchanged" % (tag, k), e.pc, x == base)
            continue
        if k not in cd or k not in sd:
            prover.oblige("%s: %s present" % (tag, k), e.pc, z3.BoolVal(False),
                          "only in %s; code has %s; contract has %s" % ("code" if k in cd else "contract", sorted(cd), sorted(sd)))
            continue
        a, b = cd[k], sd[k]
        if a.sort() != b.sort():
            prover.oblige("%s: %s sort" % (tag, k), e.pc, z3.BoolVal(False), "%s vs %s" % (a.sort(), b.sort()))
            continue
        if k.endswith(".map"):
            dom = cd.get(k[:-4] + ".dom")
            prover.oblige("%s: %s" % (tag, k), e.pc, map_equal(a, b, dom) if dom is not None else a == b)
        else:
            prover.oblige("%s: %s" % (tag, k), e.pc, a == b)


# convenience for contract authors ------------------------------------------------
def sym(e, name, sort=Val, init=True):
    t = z3.Const(name, sort)
    if sort == Val and init:
        e.assume(Implies(Val.is_ref(t), Val.r(t) < 0))
    return t


def sym_str(e, name):
    return Val.str(z3.Const(name, Str))


def sym_list(e, name):
    return e.new_list(z3.Const(name, SeqV))


def sym_dict(e, name, cls="dict"):
    return e.new_dict(D(z3.Const(name + "_keys", SeqV), z3.Const(name + "_map", MapV), z3.Const(name + "_dom", DomV)), cls)


def run_fold(e, spec, xs, s=(), p=()):
    """application of a fold inside a specification: -> (kind, final state, value)"""
    s, p = list(s), list(p)
    fin, code, val = spec.app(xs, s, p), spec.code(xs, s, p), spec.value(xs, s, p)
    for k, (c, kind, v) in enumerate(spec.exits(z3.Const("_h", Val), s, p) if spec.exits_ else []):
        if e.branch(code == k + 1):
            return kind, fin, v if literal(v) else val
    e.assume(code == 0)
    if spec.inv_:
        e.assume(spec.inv(fin, p, xs))
    return "done", fin, val


def run_while(e, spec, s=(), p=()):
    s, p = list(s), list(p)
    fin, code, val = spec.app(s, p), spec.code(s, p), spec.value(s, p)
    for k, (c, kind, v) in enumerate(spec.exits(s, p) if spec.exits_ else []):
        if e.branch(code == k + 1):
            if kind == "break" and spec.left_:
                e.assume(spec.left_(fin, p))
            return kind, fin, v if literal(v) else val
    e.assume(code == 0)
    if not spec.final_:
        e.assume(Not(spec.guard(fin, p)))
    if spec.inv_:
        e.assume(spec.inv(fin, p))
    return "done", fin, val


def pure(name, sort="val"):
    """an external function treated as a pure, total, uninterpreted function (assumed)"""
    def h(e, *a):
        args = []
        for x in a:
            if isinstance(x, (list, tuple)) and not is_val(x):
                args += [e.deep(e.V(y)) for y in x]
            elif isinstance(x, dict):
                args += [e.deep(e.V(x[k])) for k in sorted(x)]
            else:
                args.append(e.deep(e.V(x)))
        t = uf(name, *args, sort=SORTS[sort])
        if sort == "seq":
            return e.new_list(t)
        if sort == "str":
            return Val.str(t)
        if sort == "int":
            return Val.int(t)
        if sort == "val":
            e.assume(Implies(Val.is_ref(t), Val.r(t) < 0))
        return t
    return h


def isstr(e, h, s):
    e.assume(Val.is_str(h))


def isobj(e, h, s):
    """elements are (opaque) objects"""
    e.assume(And(Val.is_ref(h), uf("refclass", h, sort=Int) == 0, truthy_ref(h)))
