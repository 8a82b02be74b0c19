"""C11: output paths, file lookup, links (paths/paths.py, paths/utils.py, tags/ref.py).  Paths are opaque objects; the operations
of pathlib (joining, parent, stem, suffix, with_name, with_suffix, is_file, the text of a path) are assumed pure functions."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import STup, Unsupported, is_val
import pyvc.source as src


def isref(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0, truthy_ref(v))


def pathv(e, v):
    """v is a path object"""
    e.assume(And(isref(v), isa("Path", v)))
    return v


def path_of(s):
    return uf("path_of", s)


def text(v):
    """str(v) of a path or text"""
    return ite(Val.is_str(v), Val.s(v), uf("path_text", v, sort=Str))


def as_path(v):
    return ite(Val.is_str(v), path_of(Val.s(v)), v)


def div(a, b):
    return uf("path_join", as_path(a), as_path(b))


def Path(e, a, kw):
    v = e.V(a[0])
    return pathv(e, path_of(z3.simplify(Val.s(v))) if e.branch(Val.is_str(v)) else v)


def op_div(e, a, b):
    return pathv(e, div(e.V(a), e.V(b)))


def attr(name, sort="val"):
    def get(e, o):
        t = uf("path_" + name, o, sort=SORTS[sort])
        return Val.str(t) if sort == "str" else pathv(e, t)
    return get


def with_(name):
    return lambda e, o, a, kw: pathv(e, uf("path_" + name, o, Val.s(e.V(a[0]))))


def to_str(e, a, kw):
    v = e.V(a[0])
    return Val.str(text(v)) if e.branch(Or(Val.is_str(v), isref(v))) else vstr("None") if e.branch(v == NONE) else e.tostr(v)


def is_file(e, o, a, kw):
    if e.branch(uf("is_file_error", o, sort=Bool)):
        raise PyRaise("OSError")
    return uf("is_file", o, sort=Bool)


PATHS = {"pathlib.Path": Path, "op Div": op_div, ".parent?": attr("parent"), ".stem?": attr("stem", "str"), ".suffix?": attr("suffix", "str"),
         ".with_name": with_("with_name"), ".with_suffix": with_("with_suffix"), ".is_file": is_file, "builtins.str": to_str,
         ".is_absolute": lambda e, o, a, kw: uf("path_absolute", o, sort=Bool)}


def optional_text(e, n):
    t = sym(e, n)
    e.assume(Or(t == NONE, Val.is_str(t)))
    return t


# -- paths/utils.py ---------------------------------------------------------------------------------
class Rename(Contract):
    """rename: the folder stays; the name is the given one or the path's own stem, plus the appended text; the extension is
    the given one (with its dot) or the path's own"""
    target = "disseminate.paths.utils:rename"
    ext = PATHS
    defaults = {"filename": None, "append": None, "extension": None}
    trusted = ("pathlib",)

    def setup(self, e):
        path = sym(e, "path")
        e.assume(Or(Val.is_str(path), And(isref(path), isa("Path", path))))
        a = {"path": path}
        for n in ("filename", "append", "extension"):
            a[n] = optional_text(e, n)
        return a

    def spec(self, e, path, filename, append, extension):
        p = z3.simplify(Path(e, [path], {}))
        name = uf("path_stem", p, sort=Str) if e.branch(filename == NONE) else Val.s(filename)
        if e.branch(And(append != NONE, Val.s(append) != S(""))):
            name = z3.Concat(name, Val.s(append))
        x = uf("path_suffix", p, sort=Str) if e.branch(extension == NONE) else Val.s(extension)
        if e.branch(x == S("")):
            return div(uf("path_parent", p), Val.str(name))
        if not e.branch(z3.PrefixOf(S("."), x)):
            x = z3.Concat(S("."), x)
        return div(uf("path_parent", p), Val.str(z3.Concat(name, x)))


def uses(p):
    return uf("hasattr_use_subpath", p, sort=Bool)


def candidate(p, path):
    """where a file of that path is in a folder of the search path: below it, and below its subpath when it has one"""
    sub = uf("path_subpath", p)
    return ite(And(Not(Val.is_str(p)), uses(p)), uf("path_use_subpath", p, ite(sub == NONE, path, div(sub, path))), div(p, path))


def err(p):
    return uf("is_file_error", p, sort=Bool)


def isfile(p):
    return uf("is_file", p, sort=Bool)


search = Fold("first_existing", [], lambda h, s, p: [], params=["val", "bool"],
              exits=lambda h, s, p: [(And(err(candidate(h, p[0])), p[1]), ("raise", "OSError"), NONE),
                                     (And(Not(err(candidate(h, p[0]))), isfile(candidate(h, p[0]))), "ret", candidate(h, p[0]))])


def quiet(pv):
    p, F = z3.Const("any_path", Val), z3.BoolVal(False)
    pv.induct("lemma: a lookup that does not raise errors raises none", lambda xs: search.code(xs, [], [p, F]) != 1,
              lambda: [search.nil([], [p, F])], lambda h, t: [search.cons(h, t, [], [p, F])])


LEMMAS = [quiet]


def subpath(e, o):
    t = uf("path_subpath", o)
    e.assume(Or(t == NONE, And(isref(t), isa("Path", t))))
    return t


LOOKUP = {**PATHS, ".use_subpath": lambda e, o, a, kw: pathv(e, uf("path_use_subpath", o, e.V(a[0]))), ".subpath?": subpath}


def first_line(t):
    lines = uf("str_splitlines", uf("str_strip", t, sort=Str), sort=SeqV)
    return ite(z3.Length(lines) > 0, Val.s(lines[0]), S(""))


def target_of(path):
    return ite(Val.is_str(path), path_of(first_line(Val.s(path))), path)


def places(context_map):
    return cat(unit(vstr(".")), Val.litems(z3.Select(context_map, vstr("paths"))))


class FindFile(Contract):
    """find_file: the path itself when it exists; else, unless it is absolute, the first existing candidate in the current
    folder and then the folders of the search path in order; none found is an error or None as asked for"""
    target = "disseminate.paths.utils:find_file"
    ext = LOOKUP
    defaults = {"raise_error": True}
    trusted = ("pathlib", "the file system does not change during a lookup", "search path entries are paths")

    loops = [LoopUse(search, params=lambda e: e.contract.loop_params)]

    @staticmethod
    def elem(e, h, s):
        e.assume(Or(Val.is_str(h), And(isref(h), isa("Path", h))))

    def setup(self, e):
        path = sym(e, "path")
        e.assume(Or(Val.is_str(path), isref(path)))
        raise_error = Val.bool(z3.Const("raise_error", Bool))
        context = sym_dict(e, "context")
        d = e.box(context).d
        e.assume(Implies(z3.Select(d.dom, vstr("paths")), Val.is_lst(z3.Select(d.map, vstr("paths")))))
        self.loop_params = [z3.simplify(target_of(path)), z3.Const("raise_error", Bool)]
        return {"path": path, "context": context, "raise_error": raise_error}

    def spec(self, e, path, context, raise_error):
        d = e.dict_of(context)
        r = e.truth(raise_error)
        if not e.branch(z3.Select(d.dom, vstr("paths"))):
            raise PyRaise("AssertionError")
        p = target_of(path)
        if not e.branch(Or(Val.is_str(path), isa("Path", path))):
            missing(e, r)
            return NONE
        if e.branch(And(err(p), r)):
            raise PyRaise("OSError")
        if e.branch(And(Not(err(p)), isfile(p))):
            return p
        if not e.branch(uf("path_absolute", p, sort=Bool)):
            if e.entails(Not(r)):
                e.assume(search.code(places(d.map), [], [p, r]) != 1)          # lemma: lookup without errors
            kind, _, v = run_fold(e, search, places(d.map), [], [p, r])
            if kind == "ret":
                return v
            if kind != "done":
                raise PyRaise("OSError")
        missing(e, r)
        return NONE


def missing(e, r):
    if e.branch(r):
        raise PyRaise("FileNotFoundError")


def lookup(e_line, m):
    """the result of find_file(line, raise_error=False) as a term"""
    p = path_of(first_line(e_line))
    xs, r = places(m), z3.BoolVal(False)
    return ite(And(Not(err(p)), isfile(p)), p, ite(Or(uf("path_absolute", p, sort=Bool), search.code(xs, [], [p, r]) != 2), NONE, search.value(xs, [], [p, r])))


files = Fold("found_files", ["seq"], lambda h, s, p: ite(Or(h == vstr(""), lookup(Val.s(h), p[0]) == NONE), s[0], cat(s[0], unit(lookup(Val.s(h), p[0])))), params=["map"])


class FindFiles(Contract):
    """find_files: the files found for the non-empty lines, in order; lines without a file are left out"""
    target = "disseminate.paths.utils:find_files"
    ext = LOOKUP
    loops = [LoopUse(files, params=lambda e: [z3.Const("context_map", MapV)])]
    trusted = FindFile.trusted

    def setup(self, e):
        context = sym_dict(e, "context")
        d = e.box(context).d
        e.assume(Implies(z3.Select(d.dom, vstr("paths")), Val.is_lst(z3.Select(d.map, vstr("paths")))))
        return {"string": sym_str(e, "string"), "context": context}

    def spec(self, e, string, context):
        d = e.dict_of(context)
        if not e.branch(z3.Select(d.dom, vstr("paths"))):
            raise PyRaise("AssertionError")
        lines = uf("str_splitlines", uf("str_strip", Val.s(string), sort=Str), sort=SeqV)
        return e.new_list(files.app1(lines, [EMPTY], [d.map]))


# -- paths/paths.py ----------------------------------------------------------------------------------
def new_path(cls, *names):
    """SourcePath(...) / TargetPath(...): recorded with its (named) parts, by the contract of __new__"""
    def h(e, a, kw):
        at = dict(zip(names, a))
        at.update(kw)
        for n in names:
            at.setdefault(n, vstr(""))
        if set(at) != set(names):
            raise PyRaise("TypeError")
        return e.new_obj(cls + " created", {n: at[n] for n in names})
    return h


PARTS = {"SourcePath": ("project_root", "subpath"), "TargetPath": ("target_root", "target", "subpath")}


class PathCopy(Contract):
    """a copy of a path has the same parts"""
    meth, change = "__copy__", None
    cls = "SourcePath"
    trusted = ("pathlib",)

    def __init__(self):
        self.ext = {**PATHS, "new " + self.cls: new_path(self.cls, *PARTS[self.cls])}
        super().__init__()

    def setup(self, e):
        c = e.from_resolved(src.resolve("disseminate.paths.paths", self.cls), self.cls)
        o = e.new_obj(c, {n: pathv(e, sym(e, n)) for n in PARTS[self.cls]})
        return {"self": o, **self.more(e)}

    def more(self, e):
        return {}

    def parts(self, e, self_, **kw):
        b = e.box(self_)
        at = {n: b.attrs[n] for n in PARTS[self.cls]}
        if self.change:
            at["subpath"] = self.change(at["subpath"], e.V(list(kw.values())[0]))
        return e.new_obj(self.cls + " created", at)

    def spec(self, e, self_):
        return self.parts(e, self_)


class PathDeepcopy(PathCopy):
    meth = "__deepcopy__"

    def more(self, e):
        return {"memo": sym(e, "memo")}


class UseName(PathCopy):
    """use_name: only the name of the subpath changes"""
    change = staticmethod(lambda sub, v: uf("path_with_name", sub, Val.s(v)))

    def more(self, e):
        return {"name": sym_str(e, "name")}

    def spec(self, e, self_, name):
        return self.parts(e, self_, name=name)


class UseSuffix(PathCopy):
    """use_suffix: only the suffix of the subpath changes"""
    change = staticmethod(lambda sub, v: uf("path_with_suffix", sub, Val.s(v)))

    def more(self, e):
        return {"suffix": sym_str(e, "suffix")}

    def spec(self, e, self_, suffix):
        return self.parts(e, self_, suffix=suffix)


class UseSubpath(PathCopy):
    """use_subpath: only the subpath changes"""
    change = staticmethod(lambda sub, v: v)

    def more(self, e):
        return {"subpath": sym(e, "new_subpath")}

    def spec(self, e, self_, subpath):
        return self.parts(e, self_, subpath=subpath)


class NewTargetPath(Contract):
    """TargetPath(root, target, subpath): the parts joined in that order, the target without dots around it, each kept as
    a path of its own; an absolute subpath is refused. The class of the result is made once and kept"""
    target = "disseminate.paths.paths:TargetPath.__new__"
    cls, flavored, params = "TargetPath", True, ("target_root", "target", "subpath")
    trusted = ("pathlib", "os.name is 'posix'")

    def __init__(self):
        self.defaults = {n: "" for n in self.params}
        self.ext = {**PATHS, "os.name": vstr("posix"), "pathlib.Path.__new__": self.make, "call": lambda e, fv, a, kw: self.part(e, fv, a)}
        super().__init__()
        self.variants = [("first use", lambda e: self.setup(e, True)), ("later", lambda e: self.setup(e, False))]

    def make(self, e, a, kw):
        return e.new_obj("path", {"class": a[0], "joined": Val.lst(seq(*[as_text(e, x) for x in a[1:]]))})

    def part(self, e, mix, a):
        """a path of the (made) class holding these parts; the constructor itself, by its contract"""
        return tup(vstr("part"), *[as_text(e, x) for x in a])

    def setup(self, e, first=False):
        mix = NONE if first else e.new_obj("local class", {"__name__": vstr(self.cls), "__bases__": STup(())})
        args = {n: sym(e, n) for n in self.params}
        for v in args.values():
            e.assume(Or(Val.is_str(v), And(isref(v), isa("Path", v))))
        return {"cls": e.new_obj("class", {"__mixclass__": mix, "__name__": vstr(self.cls)}), **args}

    def build(self, e, cls, *parts):
        b = e.box(cls)
        sub = path_of(text(parts[-1]))
        if e.branch(uf("path_absolute", sub, sort=Bool)):
            raise PyRaise("AssertionError")
        if e.V(b.attrs["__mixclass__"]).eq(NONE):
            base = e.from_resolved(src.resolve("disseminate.paths.paths", "PosixPath"), "PosixPath")
            own = e.from_resolved(src.resolve("disseminate.paths.paths", self.cls), self.cls)
            e.set_attr(cls, "__mixclass__", e.new_obj("local class", {"__name__": vstr(self.cls), "__bases__": STup((base, own))}))
        texts = [Val.str(text(p)) for p in parts[:-1]]
        if len(texts) == 2:
            texts[1] = Val.str(uf("str_strip_c", Val.s(texts[1]), S("."), sort=Str))
        texts.append(as_text(e, sub))
        n = len(texts)
        at = {"class": e.box(cls).attrs["__mixclass__"], "joined": Val.lst(seq(*texts))}
        for i, nm in enumerate(self.params):
            at[nm] = tup(vstr("part"), *[texts[j] if j == i else vstr("") for j in range(n)]) if n == 3 or i == 0 else tup(vstr("part"), vstr(""), texts[1])
        return e.new_obj("path", at)

    def spec(self, e, cls, target_root, target, subpath):
        return self.build(e, cls, target_root, target, subpath)


def as_text(e, x):
    x = e.V(x)
    return x if e.branch(Val.is_str(x)) else uf("path_as_text", x)


class NewSourcePath(NewTargetPath):
    """SourcePath(root, subpath): the parts joined in that order, each kept as a path of its own; an absolute subpath is
    refused. The class of the result is made once and kept"""
    target = "disseminate.paths.paths:SourcePath.__new__"
    cls, params = "SourcePath", ("project_root", "subpath")

    def spec(self, e, cls, project_root, subpath):
        return self.build(e, cls, project_root, subpath)


def path_methods():
    out = []
    for cls in PARTS:
        for c, m in ((PathCopy, "__copy__"), (PathDeepcopy, "__deepcopy__"), (UseName, "use_name"), (UseSuffix, "use_suffix"), (UseSubpath, "use_subpath")):
            out.append(type(cls + c.__name__, (c,), {"cls": cls, "target": "disseminate.paths.paths:%s.%s" % (cls, m), "__doc__": c.__doc__ or PathCopy.__doc__}))
    return out


# -- links -------------------------------------------------------------------------------------------
def relpath(e, a, kw):
    o = e.box(a[0])
    parts = [o.attrs[n] for n in PARTS["TargetPath"]] if o is not None else [e.V(a[0])]
    return Val.str(uf("relpath", *[e.V(x) for x in parts], e.V(a[1]), sort=Str))


def deref(e, fv, a, kw):
    """a weak reference called: the object, or None when it is gone"""
    if not e.entails(isa("ref", e.V(fv))):
        raise Unsupported("call of an unknown value")
    t = uf("deref", e.V(fv))
    e.assume(Or(t == NONE, And(isref(t), Not(isa("ref", t)))))
    return t


def filepath_of(doc, target):
    return uf("target_filepath", doc, target)


def has_target(doc, target):
    return uf("has_target", doc, target, sort=Bool)


def target_filepath(e, o, a, kw):
    v = e.V((a or [kw.get("target")])[0])
    if not e.branch(has_target(o, v)):
        raise PyRaise("TargetNotFound")
    return pathv(e, filepath_of(o, v))


LINKS = {**PATHS, "os.path.relpath": relpath, "call": deref, ".target_filepath": target_filepath,
         "paths.re_dbl_slash.sub": lambda e, a, kw: Val.str(uf("single_slashes", Val.s(e.V(a[0])), Val.s(e.V(a[1])), sort=Str))}


def dotted(e, t):
    return t if e.branch(z3.PrefixOf(S("."), t)) else z3.Concat(S("."), t)


class Url(Contract):
    ext = LINKS
    trusted = ("pathlib", "os.path.relpath", "documents give their output file of a target, or TargetNotFound")

    @staticmethod
    def dictvalue(e, o, k, v):
        pass

    def setup(self, e):
        c = e.from_resolved(src.resolve("disseminate.paths.paths", "TargetPath"), "TargetPath")
        self.o = e.new_obj(c, {n: pathv(e, sym(e, "self_" + n)) for n in PARTS["TargetPath"]})
        return {"self": self.o, "context": self.context(e), "target": optional_text(e, "target")}

    def context(self, e):
        c = sym_dict(e, "context")
        d = e.box(c).d
        for k in ("document", "root_document"):
            v = z3.Select(d.map, vstr(k))
            e.assume(Implies(z3.Select(d.dom, vstr(k)), Or(v == NONE, isref(v))))
        e.assume(Implies(z3.Select(d.dom, vstr("base_url")), Val.is_str(z3.Select(d.map, vstr("base_url")))))
        return c


def get(e, d, k):
    """d.get(k)"""
    return z3.Select(d.map, vstr(k)) if e.branch(z3.Select(d.dom, vstr(k))) else NONE


def relative_url(e, self_, context, target):
    parts = [e.box(self_).attrs[n] for n in PARTS["TargetPath"]]
    t = Val.s(target) if e.branch(And(target != NONE, target != vstr(""))) else text(parts[1])
    t = dotted(e, t)
    d = e.dict_of(context)
    doc = get(e, d, "document")
    if e.branch(doc == NONE):
        doc = get(e, d, "root_document")
    if e.branch(And(doc != NONE, isa("ref", doc))):
        doc = deref(e, doc, [], {})
    if e.branch(doc == NONE):
        return NONE
    page = target_filepath(e, doc, [Val.str(t)], {})
    return Val.str(uf("relpath", *parts, pathv(e, uf("path_parent", page)), sort=Str))


class RelativeUrl(Url):
    """_get_relative_url: the way from the folder of the page's own output file, for the target, to this path; none without
    a page"""
    target = "disseminate.paths.paths:TargetPath._get_relative_url"
    defaults = {"target": None}

    def spec(self, e, self_, context, target):
        return relative_url(e, self_, context, target)


def undotted(e, t):
    return uf("str_strip_c", t, S("."), sort=Str)


class AbsoluteUrl(Url):
    """_get_absolute_url: the base url of the context, or /target/subpath, filled in with this path's parts"""
    target = "disseminate.paths.paths:TargetPath._get_absolute_url"
    defaults = {"target": None}

    def __init__(self):
        super().__init__()
        self.variants = [("with a context", self.setup), ("without", lambda e: {**self.setup(e), "context": NONE})]

    def spec(self, e, self_, context, target):
        r, g, s = [text(e.box(self_).attrs[n]) for n in PARTS["TargetPath"]]
        t = undotted(e, Val.s(target) if e.branch(And(target != NONE, target != vstr(""))) else g)
        r, s = undotted(e, r), undotted(e, s)
        if not e.V(context).eq(NONE):
            d = e.dict_of(context)
            if e.branch(z3.Select(d.dom, vstr("base_url"))):
                parts = {"target_root": r, "target": t, "subpath": s}
                return Val.str(uf("py_format", Val.s(z3.Select(d.map, vstr("base_url"))), tup(),
                                  tup(*[tup(vstr(k), Val.str(parts[k])) for k in sorted(parts)]), sort=Str))
        return Val.str(z3.Concat(S("/"), t, S("/"), s))


def relative_opaque(e, a, kw):
    """the result of _get_relative_url as a function of what it depends on (its own contract says which)"""
    o, context, target = (list(a) + [kw.get("context"), kw.get("target", NONE)])[:3] if len(a) == 1 else (list(a) + [kw.get("target", NONE)])[:3]
    d, at = e.dict_of(context), e.box(o).attrs
    x = [at[n] for n in PARTS["TargetPath"]] + [d.map, d.dom, e.V(target)]
    if not e.branch(uf("relative_url_possible", *x, sort=Bool)):
        raise PyRaise("TargetNotFound")
    v = uf("relative_url", *x)
    e.assume(Or(v == NONE, Val.is_str(v)))
    return v


class GetUrl(Url):
    """get_url: the relative link when the context wants relative links and has a page, else the absolute one, without
    slashes at the end or twice"""
    target = "disseminate.paths.paths:TargetPath.get_url"
    defaults = {"context": None, "target": None}
    ext = {**LINKS, "_get_relative_url": relative_opaque}
    trusted = Url.trusted + ("re_dbl_slash makes double slashes single",)

    def __init__(self):
        super().__init__()
        self.variants = [("with a context", self.setup), ("without", lambda e: {**self.setup(e), "context": NONE})]

    def spec(self, e, self_, context, target):
        url = NONE
        if not e.V(context).eq(NONE):
            d = e.dict_of(context)
            rel = z3.Select(d.map, vstr("relative_links"))
            if not e.branch(z3.Select(d.dom, vstr("relative_links"))) or e.branch(e.truth(rel)):
                url = relative_opaque(e, [self_, context, target], {})
        if e.branch(url == NONE):
            url = AbsoluteUrl().spec(e, self_, context, target)
        return Val.str(uf("single_slashes", S("/"), uf("str_rstrip_c", Val.s(url), S("/"), sort=Str), sort=Str))


# -- tags/ref.py ------------------------------------------------------------------------------------
LMAN, PAGE, LABEL_ID = z3.Const("label_manager", Val), z3.Const("page", Val), z3.Const("label_id", Val)
CK, CM, CD = z3.Const("ctx_keys", SeqV), z3.Const("ctx_map", MapV), z3.Const("ctx_dom", DomV)


def lab(name, l):
    return z3.Select(z3.Const("H0_a_" + name, AttrA), Val.r(l))


def islabel(e, v):
    e.assume(And(isref(v), Val.is_str(lab("id", v)), Or(lab("doc_id", v) == NONE, Val.is_str(lab("doc_id", v)))))
    return v


def known(i):
    return uf("label_known", LMAN, i, sort=Bool)


def get_label(e, o, a, kw):
    i = e.V((a or [kw.get("id")])[0])
    if not e.entails(o == LMAN):
        raise Unsupported("label of another manager")
    if not e.branch(known(i)):
        raise PyRaise("LabelNotFound")
    return islabel(e, uf("label_of", LMAN, i))


def documents_by_id(e, o, a, kw):
    how = tup(*[e.V(x) for x in a], *[tup(vstr(k), e.V(kw[k])) for k in sorted(kw)])
    d = D(*[uf("documents_by_id_" + x, o, how, sort=s) for x, s in (("keys", SeqV), ("map", MapV), ("dom", DomV))])
    return e.new_dict(d)


def url_of(e, o, a, kw):
    """get_url of the output file, seen from the page of this context (another context is another url)"""
    c = (list(a) + [kw.get("context")])[0]
    b = e.box(c) if c is not None and is_val(c) else None
    if len(a) > 1 or kw.get("target") is not None or b is None or b.attrs is None or "document" not in b.attrs:
        return Val.str(uf("other_url", o, sort=Str))
    return Val.str(uf("url", o, sort=Str))


def page_file(e, o, a, kw):
    if e.branch(o == NONE):
        raise PyRaise("AttributeError")
    return target_filepath(e, o, a, kw)


def valid(e, o, a, kw):
    return uf("ctx_valid", e.V(a[0]), sort=Bool)


class RefContract(Contract):
    attrs = {"id": True, "doc_id": True}
    ext = {".is_valid": valid, ".get_label": get_label, "call": deref, ".documents_by_id": documents_by_id, ".target_filepath": page_file,
           ".get_url": url_of}
    trusted = ("label_manager.get_label (C06)", "documents_by_id, target_filepath of documents (C07)", "the context's validity check")

    def setup(self, e):
        for a in self.attrs:
            e.arr("a_" + a)
        ctx = e.new_obj("DocumentContext", {"document": PAGE}, d=D(CK, CM, CD))
        at = lambda k: z3.Select(CM, vstr(k))
        has = lambda k: z3.Select(CD, vstr(k))
        e.assume(And(isref(LMAN), isref(PAGE), Or(LABEL_ID == NONE, Val.is_str(LABEL_ID))))
        e.assume(Implies(has("label_manager"), at("label_manager") == LMAN))
        e.assume(Implies(uf("ctx_valid", vstr("label_manager"), sort=Bool), has("label_manager")))
        e.assume(Implies(has("doc_id"), Or(at("doc_id") == NONE, Val.is_str(at("doc_id")))))
        e.assume(Implies(has("root_document"), And(isref(at("root_document")), isa("ref", at("root_document")))))
        c = e.from_resolved(src.resolve("disseminate.tags.ref", "Ref"), "Ref")
        return {"self": e.new_obj(c, {"context": ctx, "label_id": LABEL_ID}), **self.more(e)}

    def more(self, e):
        return {}

    @staticmethod
    def isdoc(e, o, k, v):
        e.assume(Or(v == NONE, isref(v)))

    def cache(self, e):
        c = sym_dict(e, "cache")
        d = e.box(c).d
        v = z3.Select(d.map, vstr("label"))
        e.assume(Implies(z3.Select(d.dom, vstr("label")), Or(v == NONE, And(isref(v), Val.is_str(lab("id", v)), Or(lab("doc_id", v) == NONE, Val.is_str(lab("doc_id", v)))))))
        x = z3.Select(d.map, vstr("documents_by_id"))
        e.assume(Implies(z3.Select(d.dom, vstr("documents_by_id")), Or(x == NONE, And(Val.is_ref(x), Val.r(x) < 0, uf("refclass", x, sort=Int) == 2))))
        return c


class RefLabel(RefContract):
    """a reference's label is the label manager's label of its id; no id, no label"""
    target = "disseminate.tags.ref:Ref.label"

    def spec(self, e, self_):
        if not e.branch(uf("ctx_valid", vstr("label_manager"), sort=Bool)):
            raise PyRaise("AssertionError")
        if e.branch(LABEL_ID == NONE):
            return NONE
        return get_label(e, LMAN, [LABEL_ID], {})


def label_in(e, cache, own):
    """the label in the cache, where the reference's own is put when there is none"""
    d = e.dict_of(cache)
    if e.branch(z3.Select(d.dom, vstr("label"))):
        return z3.Select(d.map, vstr("label"))
    e.put_dict(cache, d.set(vstr("label"), own))
    return own


def the_document(e, label, cache):
    """the document of the project that the label is in"""
    if e.branch(label == NONE):
        raise PyRaise("AttributeError")
    mine, other = get(e, D(CK, CM, CD), "doc_id"), lab("doc_id", label)
    if e.branch(And(mine != NONE, mine == other)):
        return PAGE
    ready = get(e, e.dict_of(cache), "documents_by_id")
    if e.branch(ready != NONE):
        docs = e.hdict(ready)
        return z3.Select(docs.map, other) if e.branch(z3.Select(docs.dom, other)) else NONE
    if not e.branch(z3.Select(CD, vstr("root_document"))):
        raise PyRaise("TypeError")
    root = deref(e, z3.Select(CM, vstr("root_document")), [], {})
    if e.branch(root == NONE):
        raise PyRaise("TypeError")
    docs = e.dict_of(documents_by_id(e, root, [], {"recursive": True}))
    return z3.Select(docs.map, other) if e.branch(z3.Select(docs.dom, other)) else NONE


def isdoc(e, o, k, v):
    e.assume(Or(v == NONE, isref(v)))


class RefDocument(RefContract):
    """the document of a reference is the one its label is in: the page's own, else the project's document with that id,
    else none"""
    target = "disseminate.tags.ref:Ref.document"
    defaults = {"cache": None}

    def __init__(self):
        super().__init__()
        self.variants = [("with a cache", lambda e: {**self.setup(e), "cache": self.cache(e)}), ("without", lambda e: {**self.setup(e), "cache": NONE})]

    def spec(self, e, self_, cache):
        if not e.branch(uf("ctx_valid", vstr("root_document"), sort=Bool)):
            raise PyRaise("AssertionError")
        if e.V(cache).eq(NONE):
            cache = e.new_dict()
        return the_document(e, label_in(e, cache, RefLabel().spec(e, self_)), cache)


class RefUrl(RefContract):
    """the link of a reference: within a document only the anchor of the label's id; else the url of the output file, for
    the target, of the document the label is in, with the anchor unless it is not wanted; none when that document has no
    such target; a label or page without document is an error"""
    target = "disseminate.tags.ref:Ref.url"
    defaults = {"target": ".html", "include_anchor": True, "cache": None}

    def __init__(self):
        super().__init__()
        mk = lambda e, c: {**self.setup(e), "target": sym_str(e, "target"), "include_anchor": Val.bool(z3.Const("anchor", Bool)), "cache": c(e)}
        self.variants = [("with a cache", lambda e: mk(e, self.cache)), ("without", lambda e: mk(e, lambda e: NONE))]

    def spec(self, e, self_, target, include_anchor, cache):
        if e.V(cache).eq(NONE):
            cache = e.new_dict()
        if not e.branch(uf("ctx_valid", vstr("doc_id"), sort=Bool)):
            raise PyRaise("AssertionError")
        t = dotted(e, Val.s(target))
        label = label_in(e, cache, RefLabel().spec(e, self_))
        mine = get(e, D(CK, CM, CD), "doc_id")
        if e.branch(Or(mine == NONE, label == NONE, lab("doc_id", label) == NONE)):
            raise PyRaise("RefError")
        anchor = z3.Concat(S("#"), Val.s(lab("id", label)))
        wanted = e.truth(include_anchor)
        if e.branch(mine == lab("doc_id", label)):
            return Val.str(anchor) if e.branch(wanted) else vstr("")
        if not e.branch(uf("ctx_valid", vstr("root_document"), sort=Bool)):
            raise PyRaise("AssertionError")
        RefLabel().spec(e, self_)
        doc = the_document(e, label, cache)
        if e.branch(doc == NONE):
            raise PyRaise("AttributeError")
        if not e.branch(has_target(doc, Val.str(t))):
            return NONE
        link = uf("url", filepath_of(doc, Val.str(t)), sort=Str)
        return Val.str(z3.Concat(link, anchor)) if e.branch(wanted) else Val.str(link)


CONTRACTS = [Rename, FindFile, FindFiles, NewSourcePath, NewTargetPath] + path_methods() + [RelativeUrl, AbsoluteUrl, GetUrl, RefLabel, RefDocument, RefUrl]
