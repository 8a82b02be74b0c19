"""C20: software dependencies (checkers/types.py, checkers/utils.py, checkers/checker.py)."""
from pyvc.contract import *
from pyvc.theory import *
import pyvc.source as src

DEPS = z3.Const("dependencies", SeqV)


def attr(name, l):
    return z3.Select(z3.Const("H0_a_" + name, AttrA), Val.r(l))


def there(i):
    """the member is available: True, not merely truthy; None (unchecked) counts as missing"""
    return attr("available", i) == Val.bool(z3.BoolVal(True))


def isdep(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


some = Fold("some_available", [], lambda h, s, p: [], exits=lambda h, s, p: [(there(h), "break", None)])
missing = Fold("some_missing", [], lambda h, s, p: [], exits=lambda h, s, p: [(Not(there(h)), "break", None)])


class Group(Contract):
    attrs = {"available": True}
    cls = "SoftwareDependencyList"
    loops = [LoopUse(some), LoopUse(missing)]

    def elem(self, e, h, s):
        e.assume(isdep(h))

    def group(self, e):
        for a in self.attrs:
            e.arr("a_" + a)
        c = e.from_resolved(src.resolve("disseminate.checkers.types", self.cls), self.cls)
        return e.new_obj(c, {"category": sym_str(e, "category"), "dependencies": e.new_list(DEPS)})

    def setup(self, e):
        return {"self": self.group(e)}


class AnyOf(Group):
    """an 'any' group is available iff some member's availability is True"""
    target = "disseminate.checkers.types:Any.available"
    cls = "Any"

    def spec(self, e, self_):
        return Val.bool(some.code(DEPS, [], []) == 1)


class AllOf(Group):
    """an 'all' group is available iff no member's availability is anything but True"""
    target = "disseminate.checkers.types:All.available"
    cls = "All"

    def spec(self, e, self_):
        return Val.bool(missing.code(DEPS, [], []) == 0)


class Opt(Group):
    """an optional group is always available"""
    target = "disseminate.checkers.types:Optional.available"
    cls = "Optional"

    def spec(self, e, self_):
        return Val.bool(z3.BoolVal(True))


KEY = z3.Const("key", Str)


def label_of(h):
    """groups are found by category, dependencies by name"""
    return Or(And(has("name", h), attr("name", h) == Val.str(KEY)), And(has("category", h), attr("category", h) == Val.str(KEY)))


def has(name, h):
    return uf("hasattr_" + name, h, sort=Bool)


def opt_attr(name):
    def get(e, o):
        if e.branch(has(name, o)):
            return e.arr("a_" + name)[Val.r(o)]
        raise PyRaise("AttributeError")
    return get


lookup = Fold("member_called", [], lambda h, s, p: [], exits=lambda h, s, p: [(label_of(h), "ret", h)])
called = Fold("is_member", [], lambda h, s, p: [], exits=lambda h, s, p: [(label_of(h), "ret", Val.bool(z3.BoolVal(True)))])


class Named(Group):
    attrs = {"name": True, "category": True, "available": True}
    ext = {".name?": opt_attr("name"), ".category?": lambda e, o: None if e.box(o) is not None else opt_attr("category")(e, o)}
    loops = [LoopUse(lookup), LoopUse(called)]

    def setup(self, e):
        return {"self": self.group(e), "key": Val.str(KEY)}


class Item(Named):
    """group[key] is the first member with this name or category; KeyError when there is none"""
    target = "disseminate.checkers.types:SoftwareDependencyList.__getitem__"

    def spec(self, e, self_, key):
        k, fin, v = run_fold(e, lookup, DEPS)
        if k == "ret":
            return v
        raise PyRaise("KeyError")


class Has(Named):
    """key in group iff some member has this name or category"""
    target = "disseminate.checkers.types:SoftwareDependencyList.__contains__"

    def spec(self, e, self_, key):
        return Val.bool(called.code(DEPS, [], []) == 1)


keylist = Fold("keys_of", ["seq"], lambda h, s, p: cat(s[0], unit(ite(has("category", h), attr("category", h), attr("name", h)))))


class Keys(Named):
    """keys() lists per member, in order, the category of a group or the name of a dependency"""
    target = "disseminate.checkers.types:SoftwareDependencyList.keys"
    loops = [LoopUse(keylist)]

    def setup(self, e):
        return {"self": self.group(e)}

    def elem(self, e, h, s):
        e.assume(And(isdep(h), Or(has("name", h), has("category", h))))

    def spec(self, e, self_):
        return e.new_list(run_fold(e, keylist, DEPS, [EMPTY])[1][0])


CONTRACTS = [AnyOf, AllOf, Opt, Item, Has, Keys]


# -- flatten -----------------------------------------------------------------------------
def leaf(v):
    return uf("isa_SoftwareDependency", v, sort=Bool)


def grp(v):
    return uf("isa_SoftwareDependencyList", v, sort=Bool)


MEMBERS = z3.Const("H0_a_dependencies", AttrA)


def listing(h, s, p):
    here = unit(tup(Val.int(p[0]), h))
    return ite(leaf(h), cat(s[0], here), ite(grp(h), cat(s[0], here, flat.app1(Val.litems(z3.Select(MEMBERS, Val.r(h))), [EMPTY], [p[0] + 1])), s[0]))


# every member with its depth, a group before its members
flat = Fold("listing", ["seq"], listing, params=["int"])


class Flatten(Group):
    """flatten lists each member with its depth, in order, a group right before its members one level deeper (recursive calls
    by contract: partial correctness)"""
    target = "disseminate.checkers.types:SoftwareDependencyList.flatten"
    attrs = {"available": True, "dependencies": lambda e, o, v: e.assume(Val.is_lst(v))}
    loops = [LoopUse(flat, params=lambda e: [z3.Int("level")])]
    ext = {".dependencies?": lambda e, o: None}

    def elem(self, e, h, s):
        e.assume(And(isdep(h), Or(leaf(h), grp(h)), Not(And(leaf(h), grp(h))), Implies(grp(h), uf("hasattr_dependencies", h, sort=Bool))))

    def whole(self, e):
        return {"self": self.group(e), "items": NONE, "level": Val.int(z3.Int("level"))}

    def part(self, e):
        g = z3.Const("group", Val)
        e.assume(And(isdep(g), grp(g), uf("hasattr_dependencies", g, sort=Bool)))
        return {"self": self.group(e), "items": g, "level": Val.int(z3.Int("level"))}

    def listed(self, e):
        return {"self": self.group(e), "items": e.new_list(z3.Const("items", SeqV)), "level": Val.int(z3.Int("level"))}

    @property
    def variants(self):
        return [("self", self.whole), ("group", self.part), ("list", self.listed)]

    def spec(self, e, self_, items, level):
        items = e.V(items)
        if e.entails(Val.is_none(items)):
            xs = DEPS
        elif e.box(items) is not None:
            xs = e.box(items).seq
        else:
            v = z3.Select(MEMBERS, Val.r(items))
            e.assume(Val.is_lst(v))
            xs = Val.litems(v)
        return e.new_list(flat.app1(xs, [EMPTY], [Val.i(e.V(level))]))


# -- requirements ---------------------------------------------------------------------------
TEXT = z3.Const("requirement", Str)
M = uf("re_search", TEXT)
VERSION = uf("re_group", M, z3.IntVal(3))
OP = uf("re_group", M, z3.IntVal(2))
OPS = {"==": "eq", ">": "gt", "<": "lt", ">=": "ge", "<=": "le", "!=": "ne"}
PARTS = uf("str_split", Val.s(VERSION), S("."), sort=SeqV)
number = lambda v: uf("py_int", Val.s(v), sort=Int)
numbers = Fold("version_numbers", ["seq"], lambda h, s, p: ite(Val.s(h) == S(""), s[0], cat(s[0], unit(Val.int(number(h))))))


class Requirement(Contract):
    """a requirement text decodes to (name, comparison, version): the comparison is the one written, the version the tuple of the
    numbers between dots; None for a text without a name"""
    target = "disseminate.checkers.utils:name_and_version"
    loops = [LoopUse(numbers)]
    ext = {"re.search": lambda e, a, kw: M, ".group": lambda e, o, a, kw: uf("re_group", o, Val.i(e.V(a[0]))),
           ".split": lambda e, o, a, kw: e.new_list(PARTS), "int": lambda e, a, kw: Val.int(number(e.V(a[0])))}
    trusted = ("the regular expression splits the text into name, comparison and version (bounded oracle)",)

    def elem(self, e, h, s):
        e.assume(Val.is_str(h))

    def setup(self, e):
        e.assume(Or(Val.is_none(M), And(Val.is_ref(M), Val.r(M) < 0, uf("refclass", M, sort=Int) == 0, truthy_ref(M))))
        e.assume(Or(Val.is_none(OP), *[OP == vstr(o) for o in OPS]))
        e.assume(Or(Val.is_none(VERSION), Val.is_str(VERSION)))
        return {"string": Val.str(TEXT)}

    def spec(self, e, string):
        if e.branch(Val.is_none(M)):
            return NONE
        op = OP
        for o, n in OPS.items():
            if e.branch(OP == vstr(o)):
                op = uf("ext:operator." + n)
                break
        v = VERSION
        if e.branch(Not(Val.is_none(VERSION))):
            v = Val.tup(run_fold(e, numbers, PARTS, [EMPTY])[1][0])
        return tup(uf("re_group", M, z3.IntVal(1)), op, v)


CONTRACTS += [Flatten, Requirement]
