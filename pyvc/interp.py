"""Statements, expressions, attributes and methods of the Python subset."""
import ast
from dataclasses import replace
import z3
from .core import *
from . import engine as E
from .engine import (Engine, flat_concat, LazyGen, Unsupported, PyRaise, Ret, Brk, Cont, Undef, PoisonRead, PyFunc, ClassRef, Ext, Method, Slot,
                     STup, IterV, Frame, Box, is_val, ctor, static_items, exc_bases, own_nodes, src)


def m(fn):
    setattr(Engine, fn.__name__, fn)
    return fn


@m
def exec_block(self, stmts, f):
    for s in stmts:
        self.exec_stmt(s, f)


@m
def exec_stmt(self, s, f):
    t = type(s).__name__
    h = getattr(self, "st_" + t, None)
    if h is None:
        raise Unsupported("statement " + t + " line %d" % s.lineno)
    self.trace.append(s)
    try:
        h(s, f)
    finally:
        self.trace.pop()


@m
def st_Pass(self, s, f):
    pass


@m
def st_Expr(self, s, f):
    if isinstance(s.value, ast.Constant):
        return
    self.eval(s.value, f)


@m
def st_Return(self, s, f):
    raise Ret(NONE if s.value is None else self.eval(s.value, f))


@m
def st_Break(self, s, f):
    raise Brk()


@m
def st_Continue(self, s, f):
    raise Cont()


@m
def st_Import(self, s, f):
    for a in s.names:
        f.vars[(a.asname or a.name).split(".")[0]] = Ext(a.name)


@m
def st_ImportFrom(self, s, f):
    mod = src.module(f.mod)._abs(s.module, s.level)
    for a in s.names:
        if src.is_repo(mod):
            r = src.resolve(mod, a.name)
            f.vars[a.asname or a.name] = self.from_resolved(r, a.name) if r else Ext(mod + "." + a.name)
        else:
            f.vars[a.asname or a.name] = Ext(mod + "." + a.name)


@m
def st_FunctionDef(self, s, f):
    f.vars[s.name] = PyFunc(s, f, f.mod, f.cls, qual=self.qual_of(f) + "." + s.name)


@m
def qual_of(self, f):
    return f.mod


@m
def st_Nonlocal(self, s, f):
    f.nonlocals |= set(s.names)


st_Global = m(lambda self, s, f: (_ for _ in ()).throw(Unsupported("global")))


@m
def st_Assert(self, s, f):
    if not self.branch(self.truth(self.eval(s.test, f))):
        raise PyRaise("AssertionError")


@m
def st_Raise(self, s, f):
    if s.exc is None:
        cur = self.ghost.get("$exc")
        if cur is None:
            raise Unsupported("bare raise")
        raise PyRaise(cur[0], cur[1])
    e = s.exc
    if isinstance(e, ast.Call):
        c = self.eval(e.func, f)
        for a in e.args:           # evaluated for their effects/exceptions only
            try:
                self.eval(a, f)
            except Unsupported:
                pass
    else:
        c = self.eval(e, f)
    if isinstance(c, ClassRef):
        raise PyRaise(c.name)
    if isinstance(c, Ext):
        raise PyRaise(c.name.split(".")[-1])
    if is_val(c):
        cur = self.ghost.get("$exc")
        if cur is not None:
            raise PyRaise(cur[0], cur[1])
    raise Unsupported("raise")


@m
def exc_matches(self, cls, typ):
    if isinstance(typ, STup):
        return any(self.exc_matches(cls, t) for t in typ.items)
    n = typ.name if isinstance(typ, ClassRef) else typ.name.split(".")[-1]
    if isinstance(typ, ClassRef) and typ.info is not None:
        self.exc_extra.setdefault(typ.name, tuple(b.name if hasattr(b, "name") else b for b in typ.info.bases))
    return n in exc_bases(cls, self.exc_extra)


@m
def st_Try(self, s, f):
    def handlers(exc):
        for h in s.handlers:
            if h.type is None or self.exc_matches(exc.cls, self.eval(h.type, f)):
                if h.name:
                    f.vars[h.name] = uf("exc:" + exc.cls)
                old = self.ghost.get("$exc")
                self.ghost["$exc"] = (exc.cls, exc.val)
                try:
                    self.exec_block(h.body, f)
                finally:
                    self.ghost["$exc"] = old
                return
        raise exc
    try:
        try:
            self.exec_block(s.body, f)
        except PyRaise as e:
            handlers(e)
        else:
            self.exec_block(s.orelse, f)
    except (PyRaise, Ret, Brk, Cont):
        if s.finalbody:
            self.exec_block(s.finalbody, f)
        raise
    if s.finalbody:
        self.exec_block(s.finalbody, f)


@m
def st_ClassDef(self, s, f):
    """a class without a body of its own"""
    if s.keywords or s.decorator_list or any(not (isinstance(x, ast.Pass) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))) for x in s.body):
        raise Unsupported("local class with a body")
    bases = tuple(self.eval(b, f) for b in s.bases)
    f.vars[s.name] = self.new_obj("local class", {"__name__": vstr(s.name), "__bases__": STup(bases)})


@m
def st_With(self, s, f):
    for it in s.items:
        v = self.eval(it.context_expr, f)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, f)
    self.exec_block(s.body, f)


@m
def st_If(self, s, f):
    if self.branch(self.truth(self.eval(s.test, f))):
        self.exec_block(s.body, f)
    else:
        self.exec_block(s.orelse, f)


@m
def st_Delete(self, s, f):
    for t in s.targets:
        if isinstance(t, ast.Name):
            f.vars[t.id] = Undef(t.id)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, f)
            k = self.V(self.eval(t.slice, f))
            b = self.box(o)
            if b is not None and b.d is not None or self.kind(o) == "heap_dict":
                d = self.dict_of(o)
                if not self.branch(d.dom[k]):
                    raise PyRaise("KeyError")
                self.put_dict(o, d.drop(k))
            else:
                raise Unsupported("del")
        else:
            raise Unsupported("del")


@m
def assigned_names(self, nodes, target=None):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    if target is not None:
        tgt(target)
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            for q in ast.walk(n):
                if isinstance(q, ast.Nonlocal):
                    out.update(q.names)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                todo.append(g.iter)
            for q in ast.walk(n):
                if isinstance(q, ast.NamedExpr):
                    tgt(q.target)
            continue
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


@m
def st_For(self, s, f):
    x = self.eval(s.iter, f)

    def body(h):
        self.assign(s.target, h, f)
        self.exec_block(s.body, f)
    r = self.for_each(("for", s), x, body, self.assigned_names(s.body, s.target), f)
    if r != "break":
        self.exec_block(s.orelse, f)


@m
def st_While(self, s, f):
    uid = ("while", s)
    # concrete unrolling when the guard is decided at each step
    n = 0
    if not any(isinstance(u.spec, While) for u in self.contract.loops):
        while True:
            t = self.truth(self.eval(s.test, f))
            t = z3.simplify(t) if not isinstance(t, bool) else z3.BoolVal(t)
            if not (z3.is_true(t) or z3.is_false(t)):
                if self.entails(t):
                    t = z3.BoolVal(True)
                elif self.entails(z3.Not(t)):
                    t = z3.BoolVal(False)
                else:
                    raise Unsupported("while loop without a summary (line %d)" % s.lineno)
            if z3.is_false(t):
                break
            n += 1
            if n > 64:
                raise Unsupported("while loop unrolling (line %d)" % s.lineno)
            try:
                self.exec_block(s.body, f)
            except Brk:
                return
            except Cont:
                continue
        self.exec_block(s.orelse, f)
        return

    def cond():
        return self.eval(s.test, f)

    def body(_):
        self.exec_block(s.body, f)
    r = self.sym_loop(uid, None, body, self.assigned_names(s.body + [s.test]), f, while_cond=cond)
    if r != "break":
        self.exec_block(s.orelse, f)


@m
def st_Assign(self, s, f):
    v = self.eval(s.value, f)
    for t in s.targets:
        self.assign(t, v, f)


@m
def st_AnnAssign(self, s, f):
    if s.value is not None:
        self.assign(s.target, self.eval(s.value, f), f)


@m
def st_AugAssign(self, s, f):
    t = s.target
    if isinstance(t, ast.Name):
        cur = self.lookup(t.id, f)
        self.assign(t, self.augop(s.op, cur, self.eval(s.value, f)), f)
    elif isinstance(t, ast.Attribute):
        o = self.eval(t.value, f)
        cur = self.get_attr(o, t.attr)
        nv = self.augop(s.op, cur, self.eval(s.value, f))
        self.set_attr(o, t.attr, nv)
    elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, f)
        k = self.eval(t.slice, f)
        cur = self.get_item(o, k)
        self.set_item(o, k, self.augop(s.op, cur, self.eval(s.value, f)))
    else:
        raise Unsupported("augmented assignment")


@m
def augop(self, op, a, b):
    if is_val(a):
        bx = self.box(a)
        k = bx.kind if bx is not None else None
        if k == "list" and isinstance(op, ast.Add):
            self.setbox(a, seq=cat(self.box(a).seq, self.seq_of(b)))
            return a
        if k == "list" and isinstance(op, ast.Mult):
            raise Unsupported("list *=")
        if k is None and isinstance(op, ast.Add) and self.kind(a) == "heap_list":
            self.set_hlist(a, cat(self.lcontent(a), self.seq_of(b)))
            return a
        if isinstance(op, ast.BitOr) and (k == "set" or (k is None and self.kind(a) == "heap_set")):
            d = z3.SetUnion(self.set_dom(a), self.set_dom(b))
            self.put_set(a, d)
            return a
    return self.binop(op, a, b)


@m
def mutate_owned(self, o, s):
    """in-place change of a list held by value (owned by the container that holds it): the contract's hook stores the new
    content with the owner, and every local bound to the list sees it"""
    h = self.contract.ext.get("mutate")
    o = self.V(o)
    now = h(self, o, Val.lst(s)) if h is not None else None
    if now is None:
        raise Unsupported("mutation of a frozen list")
    for f in self.frames:
        while f is not None:
            for n, v in list(f.vars.items()):
                if is_val(v) and v.eq(o):
                    f.vars[n] = now
            f = f.parent


@m
def set_hlist(self, v, s):
    self.arrs["$list"] = z3.Store(self.arr("$list", SeqA), Val.r(v), s)


@m
def set_dom(self, v):
    b = self.box(v)
    if b is not None and b.kind == "set":
        return b.d.dom
    if b is not None and b.d is not None:
        return b.d.dom
    k = self.kind(v)
    if k in ("heap_set", "heap_dict"):
        return self.arr("$dom", DomA)[Val.r(v)]
    return self.seq_dom(self.seq_of(v))


@m
def put_set(self, v, dom):
    if self.box(v) is not None:
        self.setbox(v, d=D(dom=dom))
    else:
        self.arrs["$dom"] = z3.Store(self.arr("$dom", DomA), Val.r(v), dom)


@m
def assign(self, t, v, f):
    if isinstance(t, ast.Name):
        g = f
        if t.id in f.nonlocals:
            g = f.parent
            while g is not None and t.id not in g.vars:
                g = g.parent
            if g is None:
                raise Unsupported("nonlocal " + t.id)
        g.vars[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        n = len(t.elts)
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, STup):
            items = list(v.items)
        else:
            s = self.seq_of(v)
            items = static_items(s)
            if items is None:
                if stars:
                    raise Unsupported("starred assignment")
                if not self.branch(z3.Length(s) == n):
                    raise PyRaise("ValueError")
                items = [s[i] for i in range(n)]
                if not ref_ids_(s):
                    for i in items:
                        self.assume(Implies(Val.is_ref(i), Val.r(i) < 0))
        if stars:
            raise Unsupported("starred assignment")
        if len(items) != n:
            raise PyRaise("ValueError")
        for e, x in zip(t.elts, items):
            self.assign(e, x, f)
    elif isinstance(t, ast.Attribute):
        self.set_attr(self.eval(t.value, f), t.attr, v)
    elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, f)
        if isinstance(t.slice, ast.Slice):
            lo, hi = self.slice_bounds(t.slice, f, z3.Length(self.seq_of(o)))
            s = self.seq_of(o)
            hi = z3.If(hi < lo, lo, hi)
            ns = cat(z3.SubSeq(s, 0, lo), self.seq_of(v), z3.SubSeq(s, hi, z3.Length(s) - hi))
            lo_, hi_ = z3.simplify(lo), z3.simplify(hi)
            if z3.is_int_value(lo_) and z3.is_int_value(hi_) and lo_.as_long() == 0 and hi_.as_long() == 0:
                ns = cat(self.seq_of(v), s)
            if self.box(o) is not None:
                self.setbox(o, seq=ns)
            elif self.kind(o) == "heap_list":
                self.set_hlist(o, ns)
            else:
                self.mutate_owned(o, ns)
        else:
            self.set_item(o, self.eval(t.slice, f), v)
    else:
        raise Unsupported("assignment target")


ref_ids_ = E.ref_ids


# ---------------------------------------------------------------- expressions
@m
def eval(self, e, f):
    t = type(e).__name__
    h = getattr(self, "ex_" + t, None)
    if h is None:
        raise Unsupported("expression " + t + " line %d" % getattr(e, "lineno", 0))
    return h(e, f)


@m
def ex_Constant(self, e, f):
    c = e.value
    if c is None or isinstance(c, (bool, int, str)):
        return self.V(c)
    if isinstance(c, bytes) and self.contract.text_bytes:
        return vstr(c.decode("latin-1"))
    return uf("const:" + repr(c))


@m
def ex_Name(self, e, f):
    return self.lookup(e.id, f)


@m
def ex_Tuple(self, e, f):
    return STup(tuple(self.elts(e.elts, f)))


@m
def elts(self, es, f):
    out = []
    for x in es:
        if isinstance(x, ast.Starred):
            v = self.eval(x.value, f)
            it = self.iterable(v)
            if not isinstance(it, list):
                raise Unsupported("starred element of unknown length")
            out += it
        else:
            out.append(self.eval(x, f))
    return out


@m
def ex_List(self, e, f):
    parts, plain = [], True
    for x in e.elts:
        if isinstance(x, ast.Starred):
            parts.append(self.seq_of(self.eval(x.value, f)))
        else:
            parts.append(unit(self.V(self.eval(x, f))))
    return self.new_list(cat(*parts) if parts else EMPTY)


@m
def ex_Set(self, e, f):
    d = NODOM
    for x in self.elts(e.elts, f):
        d = z3.Store(d, self.V(x), z3.BoolVal(True))
    return self.new_set(d)


@m
def ex_Dict(self, e, f):
    d = D()
    for k, v in zip(e.keys, e.values):
        if k is None:
            o = self.dict_of(self.eval(v, f))
            if d.keys.eq(EMPTY):
                d = o
                continue
            raise Unsupported("dict display with **")
        kv = self.V(self.eval(k, f))
        d = d.set(kv, self.V(self.eval(v, f)))
    return self.new_dict(d)


@m
def ex_Lambda(self, e, f):
    return PyFunc(e, f, f.mod, f.cls, qual="")


@m
def ex_IfExp(self, e, f):
    if self.branch(self.truth(self.eval(e.test, f))):
        return self.eval(e.body, f)
    return self.eval(e.orelse, f)


@m
def ex_NamedExpr(self, e, f):
    v = self.eval(e.value, f)
    self.assign(e.target, v, f)
    return v


@m
def ex_BoolOp(self, e, f):
    v = None
    for i, x in enumerate(e.values):
        v = self.eval(x, f)
        if i == len(e.values) - 1:
            return v
        t = self.branch(self.truth(v))
        if isinstance(e.op, ast.And) and not t:
            return v
        if isinstance(e.op, ast.Or) and t:
            return v
    return v


@m
def ex_UnaryOp(self, e, f):
    v = self.eval(e.operand, f)
    if isinstance(e.op, ast.Not):
        t = self.truth(v)
        return (not t) if isinstance(t, bool) else z3.Not(t)
    if isinstance(e.op, ast.USub):
        return Val.int(-self.intval(v))
    raise Unsupported("unary operator")


@m
def intval(self, v):
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ExprRef) and v.sort() == Int:
        return v
    v = self.V(v)
    k = self.kind(v)
    if k == "int":
        return Val.i(v)
    if k == "bool":
        return z3.If(Val.b(v), 1, 0)
    if k in ("none", "str", "list", "tup"):
        raise PyRaise("TypeError")
    raise Unsupported("arithmetic on " + k)


@m
def ex_BinOp(self, e, f):
    return self.binop(e.op, self.eval(e.left, f), self.eval(e.right, f))


@m
def binop(self, op, a, b):
    o = type(op).__name__
    h = self.contract.ext.get("op " + o)
    if h:
        r = h(self, a, b)
        if r is not None:
            return r
    ka = self.kind(self.V(a) if isinstance(a, z3.ExprRef) or isinstance(a, int) else a)
    kb = self.kind(self.V(b) if isinstance(b, z3.ExprRef) or isinstance(b, int) else b)
    if o == "Add":
        if ka == "str" or kb == "str":
            if ka != kb:
                raise PyRaise("TypeError")
            return Val.str(z3.Concat(Val.s(self.V(a)), Val.s(self.V(b))))
        L = ("list", "lst", "heap_list", "iter")
        if ka in L and kb in L:
            return self.new_list(cat(self.seq_of(a), self.seq_of(b)))
        if ka == "tup" and kb == "tup":
            if isinstance(a, STup) and isinstance(b, STup):
                return STup(a.items + b.items)
            return Val.tup(cat(self.seq_of(a), self.seq_of(b)))
        if "list" in (ka, kb) or "tup" in (ka, kb):
            raise PyRaise("TypeError")
        return Val.int(self.intval(a) + self.intval(b))
    if o == "Sub":
        S_ = ("set", "heap_set", "dict", "heap_dict", "obj")
        if ka in S_ and kb in S_:
            return self.new_set(z3.SetDifference(self.set_dom(a), self.set_dom(b)))
        return Val.int(self.intval(a) - self.intval(b))
    if o == "Mult":
        if ka == "str":
            n = z3.simplify(self.intval(b))
            if z3.is_int_value(n):
                s = Val.s(self.V(a))
                k = n.as_long()
                return Val.str(z3.Concat(*([s] * k)) if k > 1 else (s if k == 1 else S("")))
            return Val.str(uf("str_rep", Val.s(self.V(a)), self.intval(b), sort=Str))
        if "oth" in (ka, kb):
            return uf("fmul", self.V(a), self.V(b))
        return Val.int(self.intval(a) * self.intval(b))
    if o == "Div":
        return uf("truediv", self.V(a), self.V(b))
    if o == "FloorDiv":
        return Val.int(self.intval(a) / self.intval(b))
    if o == "Mod" and ka == "int":
        return Val.int(self.intval(a) % self.intval(b))
    if o in ("BitOr", "BitAnd") and ka in ("set", "heap_set"):
        fn = z3.SetUnion if o == "BitOr" else z3.SetIntersect
        return self.new_set(fn(self.set_dom(a), self.set_dom(b)))
    raise Unsupported("operator %s on %s, %s" % (o, ka, kb))


@m
def ex_Compare(self, e, f):
    left = self.eval(e.left, f)
    res = None
    for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
        right = self.eval(r, f)
        c = self.compare(op, left, right)
        if i == len(e.ops) - 1:
            res = c
        else:
            if not self.branch(c):
                return False
        left = right
    return res


@m
def eq(self, a, b):
    if isinstance(a, STup) and isinstance(b, STup):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return And(*[self._b(self.eq(x, y)) for x, y in zip(a.items, b.items)])
    if isinstance(a, (PyFunc, Method)) or isinstance(b, (PyFunc, Method)):
        return z3.BoolVal(a is b)
    a, b = self.deep(self.V(a)), self.deep(self.V(b))
    for x, y in ((a, b), (b, a)):
        bx = self.box(x)
        if bx is not None and bx.kind == "list":
            s2 = self.seq_of(y)
            return bx.seq == s2
        if bx is not None and bx.kind in ("dict", "obj") and self.box(y) is not None:
            if bx is self.box(y):
                return z3.BoolVal(True)
            return uf("user_eq", a, b, sort=Bool)
    h = self.contract.ext.get("==")
    if h:
        r = h(self, a, b)
        if r is not None:
            return r
    return pyeq(a, b)


@m
def is_(self, a, b):
    if isinstance(a, z3.ExprRef) and a.sort() != Val:
        a = self.V(a)
    if isinstance(b, z3.ExprRef) and b.sort() != Val:
        b = self.V(b)
    if not is_val(a) or not is_val(b):
        if is_val(b):
            a, b = b, a
        if is_val(a) and ctor(z3.simplify(a)) == "none":
            return z3.BoolVal(b is None)
        try:
            return self.V(a) == self.V(b)
        except Unsupported:
            return z3.BoolVal(a is b)
    sa, sb = z3.simplify(a), z3.simplify(b)
    if "none" in (ctor(sa), ctor(sb)) or ctor(sa) in ("bool", "ref", "cls") or ctor(sb) in ("bool", "ref", "cls"):
        return a == b
    return And(a == b, uf("same_object", a, b, sort=Bool)) if not a.eq(b) else z3.BoolVal(True)


@m
def compare(self, op, a, b):
    o = type(op).__name__
    if o == "Is":
        return self.is_(a, b)
    if o == "IsNot":
        return z3.Not(self._b(self.is_(a, b)))
    if o == "Eq":
        return self._b(self.eq(a, b))
    if o == "NotEq":
        return z3.Not(self._b(self.eq(a, b)))
    if o in ("In", "NotIn"):
        r = self._b(self.contains(b, a))
        return r if o == "In" else z3.Not(r)
    h = self.contract.ext.get("order")
    if h:
        r = h(self, o, a, b)
        if r is not None:
            return r
    ka, kb = self.kind(self.V(a)) if not isinstance(a, STup) else "tup", self.kind(self.V(b)) if not isinstance(b, STup) else "tup"
    num = ("int", "bool")
    if ka in num and kb in num:
        x, y = self.intval(a), self.intval(b)
        return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[o]
    if ka == "none" or kb == "none" or (ka in num and kb == "str") or (kb in num and ka == "str"):
        raise PyRaise("TypeError")
    x, y = self.V(a), self.V(b)
    return {"Lt": uf("py_lt", x, y, sort=Bool), "Gt": uf("py_lt", y, x, sort=Bool),
            "LtE": uf("py_le", x, y, sort=Bool), "GtE": uf("py_le", y, x, sort=Bool)}[o]


@m
def contains(self, c, x):
    if isinstance(c, STup):
        return Or(*[self._b(self.eq(x, y)) for y in c.items]) if c.items else z3.BoolVal(False)
    if isinstance(c, IterV):
        return z3.Contains(self.iter_seq(c), unit(self.deep(self.V(x))))
    if isinstance(c, Ext):
        h = self.contract.ext.get("in " + c.name)
        if h:
            return h(self, c, x)
        raise Unsupported("membership in " + c.name)
    c = self.V(c)
    k = self.kind(c)
    b = self.box(c)
    xv = self.deep(self.V(x))
    if k == "str":
        if self.kind(xv) != "str":
            raise PyRaise("TypeError")
        return z3.Contains(Val.s(c), Val.s(xv))
    if b is not None and b.kind == "obj" and isinstance(b.cls, ClassRef) and b.cls.info.lookup("__contains__"):
        return self.truth(self.call_method(c, "__contains__", [x], {}))
    if b is not None and (b.d is not None):
        return b.d.dom[xv]
    if k in ("heap_dict", "heap_set"):
        return self.arr("$dom", DomA)[Val.r(c)][xv]
    if k in ("list", "tup", "lst", "heap_list"):
        s = self.seq_of(c)
        items = static_items(s)
        if items is not None:
            return Or(*[self._b(self.eq(xv, y)) for y in items]) if items else z3.BoolVal(False)
        return z3.Contains(s, unit(xv))
    if k in ("none", "int", "bool"):
        raise PyRaise("TypeError")
    h = self.contract.ext.get("contains")
    if h:
        return h(self, c, x)
    raise Unsupported("membership in " + k)


@m
def ex_JoinedStr(self, e, f):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(S(v.value))
        else:
            if v.format_spec is not None:
                parts.append(uf("fmt_spec", self.V(self.eval(v.value, f)), S(ast.unparse(v.format_spec)), sort=Str))
            else:
                parts.append(self.tostr(self.eval(v.value, f)))
    return Val.str(z3.Concat(*parts) if len(parts) > 1 else (parts[0] if parts else S("")))


@m
def ex_FormattedValue(self, e, f):
    return Val.str(self.tostr(self.eval(e.value, f)))


@m
def comp_gen(self, e, f, elt, first=None):
    """runs a comprehension's generators, calling elt(frame) for each selected element"""
    cf = Frame({}, f, f.mod, f.cls, f.selfv)
    self.frames.append(cf)

    def go(i):
        if i == len(e.generators):
            elt(cf)
            return
        g = e.generators[i]
        x = first if i == 0 and first is not None else self.eval(g.iter, f if i == 0 else cf)

        def body(h):
            self.assign(g.target, h, cf)
            for c in g.ifs:
                if not self.branch(self.truth(self.eval(c, cf))):
                    return
            go(i + 1)
        names = self.assigned_names([], g.target)
        return self.for_each(("comp%d" % i, e), x, body, names, cf)
    return go(0)


@m
def ex_ListComp(self, e, f):
    acc = self.new_list()

    def elt(cf):
        v = self.V(self.eval(e.elt, cf))
        self.setbox(acc, seq=cat(self.box(acc).seq, unit(v)))
    self.comp_gen(e, f, elt)
    return acc


@m
def ex_GeneratorExp(self, e, f):
    return LazyGen(self, e, f, self.eval(e.generators[0].iter, f))


@m
def ex_SetComp(self, e, f):
    acc = self.new_set(NODOM)

    def elt(cf):
        v = self.deep(self.V(self.eval(e.elt, cf)))
        self.setbox(acc, d=D(dom=z3.Store(self.box(acc).d.dom, v, z3.BoolVal(True))))
    self.comp_gen(e, f, elt)
    return acc


@m
def ex_DictComp(self, e, f):
    acc = self.new_dict()

    def elt(cf):
        k = self.deep(self.V(self.eval(e.key, cf)))
        v = self.V(self.eval(e.value, cf))
        self.setbox(acc, d=self.box(acc).d.set(k, v))
    self.comp_gen(e, f, elt)
    return acc


@m
def ex_Starred(self, e, f):
    raise Unsupported("starred")


@m
def ex_Yield(self, e, f):
    v = NONE if e.value is None else self.V(self.eval(e.value, f))
    y = self.yields[-1]
    self.setbox(y, seq=cat(self.box(y).seq, unit(v)))
    return NONE


@m
def ex_YieldFrom(self, e, f):
    s = self.seq_of(self.eval(e.value, f))
    y = self.yields[-1]
    self.setbox(y, seq=cat(self.box(y).seq, s))
    return NONE


@m
def ex_Attribute(self, e, f):
    return self.get_attr(self.eval(e.value, f), e.attr, f)


@m
def ex_Subscript(self, e, f):
    o = self.eval(e.value, f)
    if isinstance(e.slice, ast.Slice):
        return self.slice(o, e.slice, f)
    return self.get_item(o, self.eval(e.slice, f))


@m
def slice_bounds(self, sl, f, n):
    if sl.step is not None:
        raise Unsupported("slice step")

    def norm(x, d):
        if x is None:
            return d
        v = self.eval(x, f)
        if is_val(v) and ctor(z3.simplify(v)) == "none":
            return d
        i = z3.simplify(self.intval(v))
        if z3.is_int_value(i):
            k = i.as_long()
            return z3.If(n < k, n, z3.IntVal(k)) if k > 0 else (z3.IntVal(0) if k == 0 else z3.If(n + k < 0, z3.IntVal(0), n + k))
        if self.entails(z3.And(i >= 0, i <= n)):
            return i
        i = z3.If(i < 0, i + n, i)
        return z3.If(i < 0, z3.IntVal(0), z3.If(i > n, n, i))
    return norm(sl.lower, z3.IntVal(0)), norm(sl.upper, n)


@m
def slice(self, o, sl, f):
    if isinstance(o, STup):
        def cv(x):
            if x is None:
                return None
            i = z3.simplify(self.intval(self.eval(x, f)))
            if not z3.is_int_value(i):
                raise Unsupported("slice of tuple")
            return i.as_long()
        return STup(o.items[cv(sl.lower):cv(sl.upper):cv(sl.step)])
    k = self.kind(o)
    if sl.step is not None:
        st = self.eval(sl.step, f)
        if sl.lower is None and sl.upper is None and z3.simplify(self.intval(st)).as_long() == -1:
            s = self.seq_of(o)
            return self.new_list(uf("seq_rev", s, sort=SeqV))
        raise Unsupported("slice step")
    if k == "str":
        s = Val.s(o)
        lo, hi = self.slice_bounds(sl, f, z3.Length(s))
        return Val.str(z3.SubString(s, lo, z3.If(hi < lo, 0, hi - lo)))
    s = self.seq_of(o)
    items = static_items(s)
    lo, hi = self.slice_bounds(sl, f, z3.Length(s))
    if items is not None:
        l, h = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(l) and z3.is_int_value(h):
            r = seq(*items[l.as_long():h.as_long()])
            return Val.tup(r) if k == "tup" else self.new_list(r)
    r = z3.SubSeq(s, lo, z3.If(hi < lo, 0, hi - lo))
    return Val.tup(r) if k == "tup" else self.new_list(r)


@m
def const_entry(self, name, key):
    """a literal entry of a module-level dictionary display of /repo's settings"""
    if key is None or "." not in name or name.split(".")[0] != "settings":
        return None
    r = src.resolve("disseminate.settings", name.split(".")[1])
    if not r or r[0] != "assign" or not isinstance(r[2], ast.Dict):
        return None
    for kn, vn in zip(r[2].keys, r[2].values):
        if isinstance(kn, ast.Constant) and kn.value == key and isinstance(vn, ast.Constant):
            return self.constant(vn.value)
    return None


@m
def get_item(self, o, k):
    if isinstance(o, STup):
        i = z3.simplify(self.intval(k))
        if z3.is_int_value(i):
            try:
                return o.items[i.as_long()]
            except IndexError:
                raise PyRaise("IndexError")
        o = self.V(o)
    if isinstance(o, Ext):
        h = self.contract.ext.get("[] " + o.name)
        if h:
            return h(self, o, k)
        c = self.const_entry(o.name, self.const_str(k))
        if c is not None:
            return c
        raise Unsupported("subscript of " + o.name)
    kd = self.kind(o)
    b = self.box(o)
    if b is not None and b.kind == "obj" and isinstance(b.cls, ClassRef) and b.cls.info and b.cls.info.lookup("__getitem__") :
        return self.call_method(o, "__getitem__", [k], {})
    if (b is not None and b.d is not None and kd != "set") or kd == "heap_dict":
        d = self.dict_of(o)
        kv = self.deep(self.V(k))
        if b is not None and b.cls == "Counter":
            return Val.int(z3.If(d.dom[kv], Val.i(d.map[kv]), 0))
        if not self.branch(d.dom[kv]):
            raise PyRaise("KeyError")
        v = z3.simplify(d.map[kv])
        if not ref_ids_(v):
            self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
        hook = self.contract.ext.get("dictvalue")
        if hook:
            hook(self, o, kv, v)
        return v
    if kd == "str":
        s = Val.s(o)
        i = self.intval(k)
        i = z3.If(i < 0, i + z3.Length(s), i)
        if not self.branch(And(i >= 0, i < z3.Length(s))):
            raise PyRaise("IndexError")
        return Val.str(z3.SubString(s, i, 1))
    if kd in ("none", "int", "bool"):
        raise PyRaise("TypeError")
    if kd in ("ref", "oth", "obj") and (b is None or b.seq is None):
        h = self.contract.ext.get("[]")
        if h:
            return h(self, o, k)
        raise Unsupported("subscript of " + kd)
    s = self.seq_of(o)
    kk = self.V(k)
    if self.kind(kk) in ("none", "str"):
        raise PyRaise("TypeError")
    i = z3.simplify(self.intval(kk))
    items = static_items(s)
    if items is not None and z3.is_int_value(i):
        try:
            return items[i.as_long()]
        except IndexError:
            raise PyRaise("IndexError")
    if z3.is_int_value(i) and i.as_long() < 0:
        n = -i.as_long()
        if not self.branch(z3.Length(s) >= n):
            raise PyRaise("IndexError")
        v = s[z3.Length(s) - n]
    else:
        if self.branch(And(i >= 0, i < z3.Length(s))):
            v = s[i]
        elif z3.is_int_value(i) or not self.branch(And(i < 0, i >= -z3.Length(s))):
            raise PyRaise("IndexError")
        else:
            v = s[z3.Length(s) + i]
    if not ref_ids_(s):
        self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
    if any(s.eq(x) for x in self.ghost.get("$strseqs", ())):
        self.assume(Val.is_str(v))
    elif self.contract.elem:
        self.contract.elem(self, v, s)
    return v


@m
def set_at(self, s, i, v):
    """s with the i-th element replaced (0 <= i < len(s))"""
    parts = flat_concat(z3.simplify(s))
    for k, p in enumerate(parts):
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT and \
                self.entails(i == (z3.Length(cat(*parts[:k])) if k else z3.IntVal(0))):
            return cat(*parts[:k], unit(v), *parts[k + 1:])
    n = z3.Length(s)
    return cat(z3.SubSeq(s, 0, i), unit(v), z3.SubSeq(s, i + 1, n - i - 1))


@m
def set_item(self, o, k, v):
    b = self.box(o)
    kd = self.kind(o)
    if b is not None and b.kind == "obj" and isinstance(b.cls, ClassRef) and b.cls.info and b.cls.info.lookup("__setitem__"):
        return self.call_method(o, "__setitem__", [k, v], {})
    if (b is not None and b.d is not None and kd != "set") or kd == "heap_dict":
        self.put_dict(o, self.dict_of(o).set(self.deep(self.V(k)), self.V(v)))
        return
    if kd in ("list", "heap_list"):
        s = self.seq_of(o)
        i = self.intval(k)
        n = z3.Length(s)
        if not self.branch(And(i >= 0, i < n)):
            if self.branch(And(i < 0, i >= -n)):
                i = i + n
            else:
                raise PyRaise("IndexError")
        ns = self.set_at(s, i, self.V(v))
        if b is not None:
            self.setbox(o, seq=ns)
        else:
            self.set_hlist(o, ns)
        return
    h = self.contract.ext.get("[]=")
    if h:
        return h(self, o, k, v)
    raise Unsupported("item assignment on " + kd)


# ---------------------------------------------------------------- attributes
@m
def get_attr(self, o, n, f=None):
    if isinstance(o, Ext):
        if o.name == "super":
            return self.super_attr(n, f)
        if o.name.startswith("module:"):
            modname = o.name[7:]
            return self.global_name(modname, n)
        key = o.name + "." + n
        if key in self.contract.ext:
            h = self.contract.ext[key]
            return Ext(key) if callable(h) else h
        if n in ("__class__",):
            return Ext(o.name + ".__class__")
        return Ext(key)
    if isinstance(o, ClassRef):
        if n == "__name__":
            return vstr(o.name)
        if o.info is not None:
            mm = o.info.lookup(n)
            if mm:
                ci, kind, node = mm
                if kind in ("method", "staticmethod"):
                    return PyFunc(node, None, ci.modname, ci, qual=ci.modname + ":" + ci.name + "." + n)
                if kind == "classmethod":
                    return PyFunc(node, None, ci.modname, ci, o, ci.modname + ":" + ci.name + "." + n)
                if kind == "property":
                    return Method(o, n)
                return self.eval(node, Frame({}, None, ci.modname))
        return Ext(o.name + "." + n)
    if isinstance(o, PyFunc):
        if n == "__name__":
            return vstr(getattr(o.node, "name", "<lambda>"))
        raise Unsupported("function attribute " + n)
    if isinstance(o, Method):
        if isinstance(o.obj, ClassRef) and n == "fget":
            ci, kind, node = o.obj.info.lookup(o.name)
            return PyFunc(node, None, ci.modname, ci, qual=ci.modname + ":" + ci.name + "." + o.name)
        raise Unsupported("method attribute")
    if isinstance(o, (STup, IterV, Slot)):
        return Method(o, n)
    o = self.V(o)
    b = self.box(o)
    if b is not None and b.kind == "obj":
        h = self.contract.ext.get("." + n + "?")       # overriding attribute getter
        if h:
            r = h(self, o)
            if r is not None:
                return r
        if b.attrs is not None and n in b.attrs:
            return b.attrs[n]
        info = b.cls.info if isinstance(b.cls, ClassRef) else None
        if info is not None:
            mm = info.lookup(n)
            if mm:
                ci, kind, node = mm
                q = ci.modname + ":" + ci.name + "." + n
                if kind == "property":
                    return self.call(PyFunc(node, None, ci.modname, ci, o, q), [], {})
                if kind == "method":
                    return PyFunc(node, None, ci.modname, ci, o, q)
                if kind == "classmethod":
                    return PyFunc(node, None, ci.modname, ci, b.cls, q)
                if kind == "staticmethod":
                    return PyFunc(node, None, ci.modname, ci, None, q)
                if kind == "assign":
                    return self.eval(node, Frame({}, None, ci.modname))
        if n == "__class__":
            return b.cls if isinstance(b.cls, ClassRef) else ClassRef(str(b.cls))
        if b.d is not None or b.seq is not None:
            return Method(o, n)
        if info is not None and "." + n not in self.contract.ext:
            raise PyRaise("AttributeError")
        return Method(o, n)
    if b is not None:
        return Method(o, n)
    h = self.contract.ext.get("." + n + "?")
    if h:
        r = h(self, o)
        if r is not None:
            return r
    s = z3.simplify(o)
    c = ctor(s)
    if c in ("str", "tup", "lst"):
        return Method(o, n)
    if n in self.contract.attrs:
        k = self.kind(o)
        if k == "ref":
            v = z3.simplify(self.arr("a_" + n)[Val.r(o)])
            if not ref_ids_(v):
                self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
            hook = self.contract.attrs[n]
            if callable(hook):
                hook(self, o, v)
            return v
        if k == "obj":
            h = self.contract.ext.get("objattr")
            if h:
                return h(self, o, n)
        raise PyRaise("AttributeError")
    if c == "none":
        raise PyRaise("AttributeError")
    return Method(o, n)


@m
def super_attr(self, n, f):
    g = f
    while g is not None and g.selfv is None:
        g = g.parent
    if g is None:
        raise Unsupported("super()")
    b = self.box(g.selfv)
    info = b.cls.info if b is not None and isinstance(b.cls, ClassRef) else (self.contract.selfcls)
    mm = info.lookup(n, after=g.cls) if info is not None else None
    if mm:
        ci, kind, node = mm
        return PyFunc(node, None, ci.modname, ci, g.selfv, ci.modname + ":" + ci.name + "." + n)
    if b is not None and b.d is not None:
        return Method(g.selfv, "super." + n)
    return Ext("super." + n)


@m
def has_attr(self, o, n):
    if isinstance(o, (STup,)):
        return n in ("__iter__", "index", "count")
    if isinstance(o, ClassRef):
        return bool(o.info and o.info.lookup(n)) or n == "__name__"
    if isinstance(o, (PyFunc, Method)):
        return n in ("__name__", "__call__")
    if isinstance(o, Ext):
        return uf("hasattr_" + n, self.V(o), sort=Bool)
    o = self.V(o)
    b = self.box(o)
    if b is not None and b.kind == "obj":
        if b.attrs is not None and n in b.attrs:
            return not isinstance(b.attrs[n], Undef)
        info = b.cls.info if isinstance(b.cls, ClassRef) else None
        if info is not None and info.lookup(n):
            return True
        if n in ("items", "keys", "get", "update") and b.d is not None:
            return True
        return uf("hasattr_" + n, o, sort=Bool) if info is None else False
    if b is not None:
        return n in {"list": ("append", "clear", "__iter__", "copy"), "dict": ("keys", "clear", "copy", "items", "__iter__"),
                     "set": ("clear", "copy", "__iter__", "add")}[b.kind]
    k = self.kind(o)
    if k in ("none", "int", "bool"):
        return False
    if k == "str":
        return n in STR_METHODS
    if k in ("tup", "lst", "heap_list"):
        return n in ("__iter__", "index", "count") or (k != "tup" and n in ("append", "clear", "copy"))
    return uf("hasattr_" + n, o, sort=Bool)


STR_METHODS = {"strip", "split", "lower", "upper", "startswith", "endswith", "format", "join", "replace", "__iter__", "encode",
               "splitlines", "count", "find", "isspace", "title"}


@m
def set_attr(self, o, n, v):
    h = self.contract.ext.get("." + n + "=")
    if h:
        r = h(self, o, v)
        if r is not False:
            return
    b = self.box(o) if is_val(o) else None
    if b is not None and b.kind == "obj":
        info = b.cls.info if isinstance(b.cls, ClassRef) else None
        mm = info.lookup(n + "!set") if info is not None else None
        if mm:
            ci, kind, node = mm
            self.call(PyFunc(node, None, ci.modname, ci, o, ci.modname + ":" + ci.name + "." + n + "!set"), [v], {})
            return
        at = dict(b.attrs or {})
        at[n] = v
        self.setbox(o, attrs=at)
        return
    if is_val(o) and n in self.contract.attrs:
        if self.kind(o) == "ref":
            self.arrs["a_" + n] = z3.Store(self.arr("a_" + n), Val.r(o), self.deep(self.V(v)))
            return
        raise PyRaise("AttributeError")
    raise Unsupported("attribute assignment ." + n)


# ---------------------------------------------------------------- calls
@m
def ex_Call(self, e, f):
    # method call on expression
    args = []
    if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
        return Ext("super")
    fv = self.eval(e.func, f)
    if isinstance(fv, Ext) and fv.name == "super":
        return fv
    if isinstance(fv, Ext) and fv.name == "builtins.locals":
        raise Unsupported("locals()")
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = self.eval(a.value, f)
            it = self.iterable(v)
            if not isinstance(it, list):
                h = self.contract.ext.get("*args")
                if h:
                    args.append(h(self, v))
                    continue
                args.append(StarSeq(self.seq_of(v)))
                continue
            args += it
        else:
            args.append(self.eval(a, f))
    kwargs = {}
    for k in e.keywords:
        if k.arg is None:
            kwargs["**"] = self.eval(k.value, f)
        else:
            kwargs[k.arg] = self.eval(k.value, f)
    if "**" in kwargs:
        d = self.dict_of(kwargs["**"])
        items = static_items(d.keys)
        if items is not None and all(self.const_str(i) is not None for i in items):
            del kwargs["**"]
            for i in items:
                kwargs[self.const_str(i)] = z3.simplify(d.map[i])
    self.trace.append(e)
    try:
        return self.call(fv, args, kwargs, e)
    finally:
        self.trace.pop()


class StarSeq:
    """*args of unknown length"""
    def __init__(self, seq):
        self.seq = seq


E.StarSeq = StarSeq


@m
def call_method(self, o, name, args, kwargs):
    ext = self.contract.ext
    key = "." + name
    if key in ext:
        r = ext[key](self, o, args, kwargs)
        if r is not NotImplemented:
            return r
    if isinstance(o, Slot):
        if o.orphan is not None and self.branch(o.key == NONE):
            return self.call_method(o.orphan, name, args, kwargs)
        if name not in ("append", "extend"):
            raise Unsupported("method .%s on a list in a dict" % name)
        d = self.dict_of(o.d)
        v = z3.Select(d.map, o.key)
        if not self.entails(Val.is_lst(v)):
            raise Unsupported("method .%s on a dict entry not known to be a list" % name)
        add = unit(self.deep(self.V(args[0]))) if name == "append" else self.deep(self.seq_of(args[0]))
        self.put_dict(o.d, D(d.keys, z3.Store(d.map, o.key, Val.lst(cat(Val.litems(v), add))), d.dom), slot=True)
        return NONE
    if isinstance(o, STup) or isinstance(o, IterV):
        if name in ("index", "count") or isinstance(o, IterV):
            o = self.V(o)
        else:
            raise PyRaise("AttributeError")
    b = self.box(o)
    if name.startswith("super."):
        name = name[6:]
        return self.meth_dict(o, name, args, kwargs)
    if b is not None and b.kind == "obj":
        info = b.cls.info if isinstance(b.cls, ClassRef) else None
        mm = info.lookup(name) if info else None
        if mm:
            ci, kind, node = mm
            return self.call(PyFunc(node, None, ci.modname, ci, o, ci.modname + ":" + ci.name + "." + name), args, kwargs)
        if b.d is not None:
            return self.meth_dict(o, name, args, kwargs)
        if b.seq is not None:
            return self.meth_list(o, name, args, kwargs)
        raise Unsupported("method " + name)
    if b is not None:
        return getattr(self, "meth_" + b.kind)(o, name, args, kwargs)
    k = self.kind(o)
    if k == "str":
        return self.meth_str(o, name, args, kwargs)
    if k in ("heap_list", "lst", "tup"):
        return self.meth_list(o, name, args, kwargs)
    if k == "heap_dict":
        return self.meth_dict(o, name, args, kwargs)
    if k == "heap_set":
        return self.meth_set(o, name, args, kwargs)
    if k in ("none", "int", "bool"):
        raise PyRaise("AttributeError")
    raise Unsupported("method .%s on %s" % (name, k))


@m
def meth_list(self, o, name, args, kwargs):
    k = self.kind(o)

    def put(s):
        if self.box(o) is not None:
            self.setbox(o, seq=s)
        elif k == "heap_list":
            self.set_hlist(o, s)
        elif k == "tup":
            raise PyRaise("AttributeError")
        else:
            self.mutate_owned(o, s)
    s = self.seq_of(o)
    if name == "append":
        put(cat(s, unit(self.V(args[0]))))
        return NONE
    if name == "extend":
        put(cat(s, self.seq_of(args[0])))
        return NONE
    if name == "clear":
        put(EMPTY)
        return NONE
    if name == "insert":
        i = z3.simplify(self.intval(args[0]))
        if z3.is_int_value(i) and i.as_long() == 0:
            put(cat(unit(self.V(args[1])), s))
            return NONE
        raise Unsupported("insert")
    if name == "copy":
        return self.new_list(s)
    if name == "pop":
        if not self.branch(z3.Length(s) > 0):
            raise PyRaise("IndexError")
        items = static_items(s)
        n = z3.Length(s)
        if args:
            i = z3.simplify(self.intval(args[0]))
            if not (z3.is_int_value(i) and i.as_long() == 0):
                raise Unsupported("pop(i)")
            v = items[0] if items is not None else s[0]
            put(seq(*items[1:]) if items is not None else z3.SubSeq(s, 1, n - 1))
        else:
            v = items[-1] if items is not None else s[n - 1]
            put(seq(*items[:-1]) if items is not None else z3.SubSeq(s, 0, n - 1))
        if not ref_ids_(s):
            self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
        h = self.contract.ext.get("popped")     # facts about an element taken out, or a term it is known to equal
        r = h(self, v, s, not args) if h else None
        return v if r is None else r
    if name == "index":
        x = unit(self.deep(self.V(args[0])))
        if not self.branch(z3.Contains(s, x)):
            raise PyRaise("ValueError")
        return Val.int(z3.IndexOf(s, x, 0))
    if name == "remove":
        x = self.deep(self.V(args[0]))
        if not self.branch(z3.Contains(s, unit(x))):
            raise PyRaise("ValueError")
        put(uf("seq_remove", s, x, sort=SeqV))
        return NONE
    if name == "count":
        return Val.int(uf("seq_count", s, self.deep(self.V(args[0])), sort=Int))
    if name == "reverse":
        put(uf("seq_rev", s, sort=SeqV))
        return NONE
    if name == "sort":
        put(uf("sorted", s, sort=SeqV))
        return NONE
    raise PyRaise("AttributeError") if name in ("keys", "items", "lower", "strip", "values") else Unsupported("list." + name)


@m
def meth_dict(self, o, name, args, kwargs):
    d = self.dict_of(o)
    b = self.box(o)
    if name == "keys":
        return KeysView(self, o)
    if name == "values":
        d0 = d

        def wrap(h, i):
            self.init_head(h, d0.keys)
            v = z3.simplify(d0.map[h])
            self.dict_elem(o, d0, h, v)
            return v
        wrap.seqname = lambda s: self.dict_values_seq(d0)
        return IterV(d.keys, wrap, live=self.live_id(o))
    if name == "items":
        d0 = d

        def wrap(h, i):
            self.init_head(h, d0.keys)
            v = z3.simplify(d0.map[h])
            self.dict_elem(o, d0, h, v)
            return STup((h, v))
        wrap.seqname = lambda s: self.dict_items_seq(d0)
        return IterV(d.keys, wrap, live=self.live_id(o))
    if name == "get":
        k = self.deep(self.V(args[0]))
        dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        if self.branch(d.dom[k]):
            v = z3.simplify(d.map[k])
            if not ref_ids_(v):
                self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
            hook = self.contract.ext.get("dictvalue")
            if hook:
                hook(self, o, k, v)
            return v
        return dflt
    if name == "setdefault":
        k = self.deep(self.V(args[0]))
        dflt = args[1] if len(args) > 1 else NONE
        if self.branch(d.dom[k]):
            if self.contract.ext.get("slots"):
                return Slot(o, k)
            v = z3.simplify(d.map[k])
            if not ref_ids_(v):
                self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
            return v
        if self.contract.ext.get("slots") and is_val(dflt) and self.box(dflt) is not None and self.box(dflt).kind == "list":
            self.put_dict(o, d.set(k, Val.lst(self.deep(self.box(dflt).seq))), slot=True)
            return Slot(o, k)
        self.put_dict(o, d.set(k, self.V(dflt)))
        return dflt
    if name == "pop":
        k = self.deep(self.V(args[0]))
        if self.branch(d.dom[k]):
            v = z3.simplify(d.map[k])
            self.put_dict(o, d.drop(k))
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise("KeyError")
    if name == "clear":
        self.put_dict(o, D())
        return NONE
    if name == "copy":
        return self.new_dict(d)
    if name == "update":
        for a in args:
            if is_val(a) and (self.box(a) is not None and self.box(a).d is not None or self.kind(a) == "heap_dict"):
                x = self.dict_of(a)
                items = static_items(x.keys)
                if items is not None:
                    nd = d
                    for i in items:
                        nd = nd.set(i, z3.simplify(x.map[i]))
                    d = nd
                elif d.keys.eq(EMPTY):
                    d = x
                else:
                    d = dict_update(d, x)
            else:
                s = self.deep(self.seq_of(a))
                items = static_items(s)
                if items is not None:
                    for i in items:
                        tt = static_items(Val.titems(i))
                        d = d.set(tt[0], tt[1])
                else:
                    d = D(uf("upd_keys", d.keys, d.dom, s, sort=SeqV), uf("upd_map", d.map, s, sort=MapV), uf("upd_dom", d.dom, s, sort=DomV))
        for k, v in kwargs.items():
            if k == "**":
                d = dict_update(d, self.dict_of(v)) if not d.keys.eq(EMPTY) else self.dict_of(v)
            else:
                d = d.set(vstr(k), self.V(v))
        self.put_dict(o, d)
        return NONE
    if name in ("__init__",):
        if args or kwargs:
            return self.meth_dict(o, "update", args, kwargs)
        return NONE
    if name == "__setitem__":
        self.put_dict(o, d.set(self.deep(self.V(args[0])), self.V(args[1])))
        return NONE
    if name == "__contains__":
        return d.dom[self.deep(self.V(args[0]))]
    if name == "elements":
        raise Unsupported("Counter.elements")
    raise PyRaise("AttributeError") if name in ("append", "lower", "strip") else Unsupported("dict." + name)


def dict_update(d, x):
    return D(uf("upd_keysd", d.keys, d.dom, x.keys, sort=SeqV), uf("upd_mapd", d.map, x.map, x.dom, sort=MapV),
             z3.SetUnion(d.dom, x.dom))


E.dict_update = dict_update


@m
def dict_elem(self, o, d, k, v):
    self.assume(d.dom[k])
    if not ref_ids_(v):
        self.assume(Implies(Val.is_ref(v), Val.r(v) < 0))
    if self.contract.elem:
        self.contract.elem(self, v, self.dict_values_seq(d))
    hook = self.contract.ext.get("dictvalue")
    if hook:
        hook(self, o, k, v)


@m
def dict_values_seq(self, d):
    return uf("dict_values", d.keys, d.map, sort=SeqV)


@m
def dict_items_seq(self, d):
    return uf("dict_items", d.keys, d.map, sort=SeqV)


def KeysView(self, o):
    d = self.dict_of(o)

    def wrap(h, i):
        self.assume(d.dom[h])
        return self.init_head(h, d.keys)
    wrap.ident = True
    return KV(d.keys, wrap, False, 0, d.dom, self.live_id(o))


class KV(IterV):
    def __init__(self, seq, wrap, use_idx, start, dom, live=None):
        object.__setattr__(self, "live", live)
        object.__setattr__(self, "seq", seq)
        object.__setattr__(self, "wrap", wrap)
        object.__setattr__(self, "use_idx", use_idx)
        object.__setattr__(self, "start", start)
        object.__setattr__(self, "dom", dom)


_contains0 = Engine.contains


@m
def contains(self, c, x):
    if isinstance(c, KV):
        return c.dom[self.deep(self.V(x))]
    return _contains0(self, c, x)


_set_dom0 = Engine.set_dom


@m
def set_dom(self, v):
    if isinstance(v, KV):
        return v.dom
    return _set_dom0(self, v)


_binop0 = Engine.binop


@m
def binop(self, op, a, b):
    if isinstance(a, KV) or isinstance(b, KV):
        o = type(op).__name__
        if o in ("Sub", "BitOr", "BitAnd"):
            fn = {"Sub": z3.SetDifference, "BitOr": z3.SetUnion, "BitAnd": z3.SetIntersect}[o]
            return self.new_set(fn(self.set_dom(a), self.set_dom(b)))
    return _binop0(self, op, a, b)


@m
def meth_set(self, o, name, args, kwargs):
    d = self.set_dom(o)
    if name == "add":
        self.put_set(o, z3.Store(d, self.deep(self.V(args[0])), z3.BoolVal(True)))
        return NONE
    if name in ("discard",):
        self.put_set(o, z3.Store(d, self.deep(self.V(args[0])), z3.BoolVal(False)))
        return NONE
    if name == "remove":
        k = self.deep(self.V(args[0]))
        if not self.branch(d[k]):
            raise PyRaise("KeyError")
        self.put_set(o, z3.Store(d, k, z3.BoolVal(False)))
        return NONE
    if name == "update":
        for a in args:
            d = z3.SetUnion(d, self.set_dom(a))
        self.put_set(o, d)
        return NONE
    if name in ("union", "intersection", "difference"):
        fn = {"union": z3.SetUnion, "intersection": z3.SetIntersect, "difference": z3.SetDifference}[name]
        for a in args:
            d = fn(d, self.set_dom(a))
        return self.new_set(d)
    if name == "clear":
        self.put_set(o, NODOM)
        return NONE
    if name == "copy":
        return self.new_set(d)
    if name == "__contains__":
        return d[self.deep(self.V(args[0]))]
    raise Unsupported("set." + name)


def _strarg(self, v):
    v = self.V(v)
    if self.kind(v) != "str":
        raise PyRaise("TypeError")
    return Val.s(v)


FOLDABLE = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "startswith", "endswith", "replace", "split", "splitlines",
            "isspace", "isdigit", "isalpha", "isalnum", "count", "find", "index"}


def plain_literal(self, s, args):
    """the python values of a literal string and literal string arguments (printable ascii only)"""
    out = []
    for t in [s] + [a if isinstance(a, str) else z3.simplify(Val.s(a)) if is_val(a) and ctor(z3.simplify(a)) == "str" else None for a in args]:
        if isinstance(t, str):
            v = t
        elif t is not None and z3.is_string_value(t):
            v = t.as_string()
        else:
            return None
        if not all(32 <= ord(c) < 127 for c in v) or "\\u{" in v:
            return None
        out.append(v)
    return out[0], out[1:]


@m
def fold_result(self, v):
    if isinstance(v, list):
        return self.new_list(seq(*[vstr(x) for x in v]))
    return self.V(v)


@m
def meth_str(self, o, name, args, kwargs):
    s = z3.simplify(Val.s(self.V(o)))
    lit = plain_literal(self, s, args)
    if lit is not None and not kwargs and name in FOLDABLE:
        try:
            return self.fold_result(getattr(lit[0], name)(*lit[1]))
        except ValueError:
            raise PyRaise("ValueError")
    if name == "startswith" or name == "endswith":
        fn = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        a = args[0]
        if isinstance(a, STup):
            return Or(*[fn(_strarg(self, x), s) for x in a.items])
        return fn(_strarg(self, a), s)
    if name == "join":
        x = args[0]
        it = self.seq_of(x) if not isinstance(x, STup) else seq(*[self.V(i) for i in x.items])
        items = static_items(it)
        if items is not None:
            if not items:
                return vstr("")
            parts = []
            for i, v in enumerate(items):
                if self.kind(v) != "str":
                    raise PyRaise("TypeError")
                if i:
                    parts.append(s)
                parts.append(Val.s(v))
            return Val.str(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        return Val.str(uf("str_join", s, self.deep(it), sort=Str))
    if name == "format":
        return Val.str(self.format_str(s, args, kwargs))
    if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize"):
        if args:
            r = uf("str_" + name + "_c", s, _strarg(self, args[0]), sort=Str)
        else:
            r = uf("str_" + name, s, sort=Str)
        if name.endswith("strip"):
            self.assume(z3.Length(r) <= z3.Length(s))
        return Val.str(r)
    if name == "replace":
        return Val.str(uf("str_replace", s, _strarg(self, args[0]), _strarg(self, args[1]), sort=Str))
    if name == "split":
        if not args:
            return self.new_list(uf("str_splitws", s, sort=SeqV))
        if len(args) > 1:
            raise Unsupported("split with limit")
        sep = _strarg(self, args[0])
        r = uf("str_split", s, sep, sort=SeqV)
        self.assume(z3.Length(r) >= 1)
        i = z3.Int("qi")
        return self.str_list(r)
    if name == "splitlines":
        return self.str_list(uf("str_splitlines", s, sort=SeqV))
    if name == "count":
        return Val.int(uf("str_count", s, _strarg(self, args[0]), sort=Int))
    if name in ("find", "index"):
        i = z3.IndexOf(s, _strarg(self, args[0]), 0)
        if name == "index":
            if not self.branch(i >= 0):
                raise PyRaise("ValueError")
        return Val.int(i)
    if name in ("isspace", "isdigit", "isalpha", "isalnum"):
        return uf("str_" + name, s, sort=Bool)
    if name == "encode":
        return Val.str(s) if self.contract.text_bytes else uf("str_encode", s)
    raise PyRaise("AttributeError") if name in ("append", "keys", "items", "copy", "clear") else Unsupported("str." + name)


@m
def str_list(self, r):
    """a fresh list known to hold strings"""
    l = self.new_list(r)
    self.ghost.setdefault("$strseqs", ())
    self.ghost["$strseqs"] = self.ghost["$strseqs"] + (r,)
    return l


@m
def format_str(self, s, args, kwargs):
    import string
    if not z3.is_string_value(s):
        if any(k == "**" for k in kwargs):
            raise Unsupported("format with **")
        return uf("py_format", s, tup(*[self.deep(self.V(a)) for a in args]), tup(*[tup(vstr(k), self.deep(self.V(kwargs[k]))) for k in sorted(kwargs)]), sort=Str)
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(s.as_string()))
    except Exception:
        raise Unsupported("format string")
    for lit, fld, spec, conv in fields:
        if lit:
            parts.append(S(lit))
        if fld is None:
            continue
        if spec or conv:
            raise Unsupported("format spec")
        if fld == "":
            if auto >= len(args):
                raise PyRaise("IndexError")
            v = args[auto]
            auto += 1
        elif fld.isdigit():
            v = args[int(fld)]
        elif fld in kwargs:
            v = kwargs[fld]
        elif "." in fld or "[" in fld:
            raise Unsupported("format field")
        else:
            raise PyRaise("KeyError")
        parts.append(self.tostr(v))
    return z3.Concat(*parts) if len(parts) > 1 else (parts[0] if parts else S(""))
