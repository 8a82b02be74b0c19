"""Compiled regular expressions as assumed externals: where a pattern matches is an uninterpreted function of the text (and
of the position the search starts at), constrained only by what every regular expression satisfies: 0 <= start <= end <=
len(text), and start == 0 (the position) for match. Which texts a pattern matches is not proved."""
import z3
from .core import *
from .engine import *
from .engine import STup, is_val
from .theory import *


class Regex:
    def __init__(self, name, groups=(), optional=()):
        self.name, self.groups, self.optional = name, groups, optional       # name: 'module.variable'
        self.id = "rx_" + name.replace(".", "_")

    def found(self, s, pos=0, how="search"):
        return uf(self.id + "_" + how, s, z3.IntVal(pos) if isinstance(pos, int) else pos, sort=Bool)

    def obj(self, s, pos=0, how="search"):
        return uf(self.id + "_" + how + "_obj", s, z3.IntVal(pos) if isinstance(pos, int) else pos)

    def call(self, how):
        def h(e, args, kw):
            t = e.V(args[0])
            if e.kind(t) != "str":
                raise Unsupported("regular expression on " + e.kind(t))
            s = z3.simplify(Val.s(t))
            pos = e.intval(args[1]) if len(args) > 1 else z3.IntVal(0)
            if not e.branch(self.found(s, pos, how)):
                return NONE
            return self.fact(e, s, pos, how)
        return h

    def fact(self, e, s, pos=0, how="search"):
        """what holds of a match object"""
        pos = z3.IntVal(pos) if isinstance(pos, int) else pos
        o = self.obj(s, pos, how)
        st, en = start(o), end(o)
        e.assume(And(Val.is_ref(o), Val.r(o) < 0, uf("refclass", o, sort=Int) == 0, truthy_ref(o), text(o) == s,
                     pos <= st, st <= en, en <= z3.Length(s)))
        if how == "match":
            e.assume(st == pos)
        for g in self.groups:
            if g not in self.optional:
                e.assume(Val.is_str(group(o, g)))
            else:
                e.assume(Or(Val.is_str(group(o, g)), group(o, g) == NONE))
        REG[self.id] = self
        return o

    def ext(self):
        d = {self.name + "." + how: self.call(how) for how in ("match", "search", "fullmatch")}
        d.update({".groupdict": self.groupdict, ".span": lambda e, o, a, kw: STup((Val.int(start(o)), Val.int(end(o)))) if ismatch(o) else NotImplemented,
                  ".start": lambda e, o, a, kw: Val.int(start(o)) if ismatch(o) else NotImplemented,
                  ".end": lambda e, o, a, kw: Val.int(end(o)) if ismatch(o) else NotImplemented,
                  ".group": self.group})
        return d

    def groupdict(self, e, o, a, kw):
        if not ismatch(o):
            return NotImplemented
        d = D()
        for g in self.groups:
            d = d.set(Val.str(S(g)), group(o, g))
        return e.new_dict(d)

    def group(self, e, o, a, kw):
        if not ismatch(o):
            return NotImplemented
        if not a:
            return Val.str(z3.SubString(text(o), start(o), end(o) - start(o)))
        return group(o, z3.simplify(Val.s(e.V(a[0]))).as_string())


REG = {}


def ismatch(o):
    return is_val(o) and z3.is_app(o) and o.decl().name().startswith("rx_") and "_obj" in o.decl().name()


def start(o):
    return uf("match_start", o, sort=Int)


def end(o):
    return uf("match_end", o, sort=Int)


def text(o):
    return uf("match_text", o, sort=Str)


def group(o, g):
    return uf("match_group", o, S(g))


