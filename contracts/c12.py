"""C12: writing LaTeX and HTML (formats/tex.py, formats/xhtml.py, attributes/attributes.py)."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.engine import Unsupported, Ext, STup, is_val, static_items
from pyvc.interp import StarSeq
import pyvc.source as src

TEX, HTML, ATT = "disseminate.formats.tex:", "disseminate.formats.xhtml:", "disseminate.attributes.attributes:"
A, NAME = z3.Const("attributes", Val), z3.Const("name", Str)


def isobject(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


def listed(t, k):
    """is the name in that table of the settings? whatever the table holds"""
    return uf("in_" + t, k, sort=Bool)


def entry(t, k):
    return uf("of_" + t, k)


def tables(*names):
    ext = {}
    for t in names:
        ext["settings." + t] = Ext("table_" + t)
        ext["in table_" + t] = lambda e, c, x, t=t: listed(t, e.V(x))

        def get(e, c, k, t=t):
            if not e.branch(listed(t, e.V(k))):
                raise PyRaise("KeyError")
            v = entry(t, e.V(k))
            e.assume(Val.is_tup(v))
            return v
        ext["[] table_" + t] = get
    return ext


def filtered(e, a, allowed, target, by):
    """the attributes allowed for the target, in the order of the list when asked (contract of C03: Filter); a new collection"""
    k = (a, e.deep(e.V(allowed)), e.V(target), e.V(by))
    d = D(uf("filtered_keys", *k, sort=SeqV), uf("filtered_map", *k, sort=MapV), uf("filtered_dom", *k, sort=DomV))
    return e.new_obj("Filtered", {"tex_arguments": Val.str(uf("arguments_of", *k, sort=Str)), "tex_optionals": Val.str(uf("optionals_of", *k, sort=Str))}, d=d)


def do_filter(e, o, args, kw):
    p = dict(zip(("attrs", "target", "sep", "sort_by_attrs"), args), **kw)
    if set(p) - {"attrs", "target", "sort_by_attrs"} or e.box(o) is not None:
        raise Unsupported("filter")
    t = p.get("target", NONE)
    if e.kind(e.V(t)) == "str" and e.const_str(e.V(t)) is not None:
        t = vstr(e.const_str(e.V(t)).lstrip("."))
    return filtered(e, e.V(o), p.get("attrs", NONE), t, p.get("sort_by_attrs", vbool(False)))


def parse(e, a, kw):
    """Attributes of a text: parsed; of nothing: empty"""
    if kw or len(a) > 1:
        raise Unsupported("Attributes")
    if not a:
        return e.new_dict(D(), "Attributes")
    if e.kind(e.V(a[0])) != "str":
        raise Unsupported("Attributes of " + e.kind(e.V(a[0])))
    return parsed(e, e.V(a[0]))


def parsed(e, t):
    v = uf("parsed_attributes", Val.s(t))
    e.assume(isobject(v))
    return v


def count(o, e):
    return z3.Length(e.box(o).d.keys)


def own(e, a):
    return parsed(e, a) if e.kind(a) == "str" else a


def indented(e, t, n):
    return uf("space_indent", t, e.V(n), sort=Str)


def indent(e, a, kw):
    p = dict(zip(("s", "number"), a), **kw)
    if e.kind(e.V(p["s"])) != "str":
        raise Unsupported("space_indent")
    return Val.str(indented(e, Val.s(e.V(p["s"])), p.get("number", vint(4))))


ATTRS = [("text", lambda e: sym_str(e, "attributes_text")), ("collection", lambda e: obj(e, A))]


def obj(e, v):
    e.assume(isobject(v))
    return v


class Tex(Contract):
    kind = ""
    trusted = ("the allow-lists of settings are arbitrary tables from names to tuples", "Attributes.filter as of its contract (C03)")

    def __init__(self):
        super().__init__()
        self.ext = tables("tex_%s_arguments" % self.kind, "tex_%s_optionals" % self.kind)
        self.ext.update({".filter": do_filter, "new Attributes": parse, "space_indent": indent})
        self.variants = [(n, lambda e, f=f: self.args(e, f(e))) for n, f in ATTRS]

    def parts(self, e, name, attributes):
        """refuses a name that is not allowed and missing required arguments; else (required arguments, optional ones) as written"""
        ar, op = "tex_%s_arguments" % self.kind, "tex_%s_optionals" % self.kind
        i, o = e.branch(listed(ar, name)), e.branch(listed(op, name))
        if not (i or o):
            raise PyRaise("TexFormatError")
        a = own(e, attributes)
        r = s = z3.StringVal("")
        if i:
            q = entry(ar, name)
            e.assume(Val.is_tup(q))
            f = filtered(e, a, q, vstr("tex"), vbool(True))
            if not e.branch(count(f, e) == z3.Length(Val.titems(q))):
                raise PyRaise("TexFormatError")
            r = Val.s(e.box(f).attrs["tex_arguments"])
        if o:
            q = entry(op, name)
            e.assume(Val.is_tup(q))
            s = Val.s(e.box(filtered(e, a, q, vstr("tex"), vbool(self.sorted_options))).attrs["tex_optionals"])
        return r, s


class Cmd(Tex):
    r"""only an allowed command is written, else an error: \cmd, its required arguments (all of them, in the prescribed order, else
    an error), its allowed options, then its content in braces, if it has any; the attributes are not changed"""
    target = TEX + "tex_cmd"
    kind = "cmd"
    sorted_options = False
    defaults = {"attributes": "", "formatted_content": None, "indent": None}

    def args(self, e, a):
        c, n = z3.Const("content", Val), z3.Const("indent", Val)
        e.assume(Or(Val.is_none(c), Val.is_str(c)))
        e.assume(Or(Val.is_none(n), Val.is_int(n)))
        return {"cmd": Val.str(NAME), "attributes": a, "formatted_content": c, "indent": n}

    def spec(self, e, cmd, attributes, formatted_content, indent):
        r, o = self.parts(e, cmd, attributes)
        c = z3.StringVal("")
        if e.branch(Val.is_str(formatted_content)):
            c = z3.Concat(z3.StringVal("{"), Val.s(formatted_content), z3.StringVal("}"))
        t = z3.Concat(z3.StringVal("\\"), NAME, r, o, c)
        return Val.str(t if e.branch(Val.is_none(indent)) else indented(e, t, indent))


class Env(Tex):
    r"""only an allowed environment is written, else an error: \begin{env} with its required arguments (all of them, in order, else
    an error) and its allowed options, the content between line breaks, \end{env}; the attributes are not changed"""
    target = TEX + "tex_env"
    kind = "env"
    sorted_options = True
    defaults = {"min_newlines": False, "indent": None}

    def args(self, e, a):
        n = z3.Const("indent", Val)
        e.assume(Or(Val.is_none(n), Val.is_int(n)))
        return {"env": Val.str(NAME), "attributes": a, "formatted_content": sym_str(e, "content"), "min_newlines": Val.bool(z3.Bool("min_newlines")),
                "indent": n}

    def spec(self, e, env, attributes, formatted_content, min_newlines, indent):
        r, o = self.parts(e, env, attributes)
        nl = z3.StringVal("\n")
        c = Val.s(formatted_content)
        if not e.branch(z3.PrefixOf(nl, c)):
            c = z3.Concat(nl, c)
        if not e.branch(z3.SuffixOf(nl, c)):
            c = z3.Concat(c, nl)
        few = e.branch(Val.b(min_newlines))
        t = z3.Concat(z3.StringVal("\\begin{"), NAME, z3.StringVal("}"), r, o, z3.StringVal(" %" if few else ""), c, z3.StringVal("\\end{"), NAME,
                      z3.StringVal("}"))
        if not e.branch(Val.is_none(indent)):
            t = indented(e, t, indent)
        return Val.str(t if few else z3.Concat(nl, t, nl))


class Verb(Contract):
    r"""the text is delimited by a character it does not contain"""
    target = TEX + "tex_verb"

    def setup(self, e):
        return {"formatted_content": sym_str(e, "content")}

    def spec(self, e, formatted_content):
        c = Val.s(formatted_content)
        for d in "|!^":
            if not e.branch(z3.Contains(c, z3.StringVal(d))):
                return Val.str(z3.Concat(z3.StringVal("\\verb" + d), c, z3.StringVal(d)))
        return formatted_content


# -- attributes in LaTeX ---------------------------------------------------------------
KEYS, MAP, DOM = z3.Const("keys", SeqV), z3.Const("map", MapV), z3.Const("dom", DomV)


def positional(v):
    return And(Val.is_cls(v), uf("subclass_PositionalValue", v, sort=Bool))


def text(v):
    return z3.If(Val.is_str(v), Val.s(v), uf("py_str", v, sort=Str))


def braced(h, s, p):
    v = ite(positional(p[0][h]), h, p[0][h])
    return [cat(s[0], unit(Val.str(z3.Concat(z3.StringVal("{"), text(v), z3.StringVal("}")))))]


def option(h, s, p):
    return [cat(s[0], unit(Val.str(z3.If(positional(p[0][h]), text(h), z3.Concat(text(h), z3.StringVal("="), text(p[0][h]))))))]


arguments = Fold("tex_argument_texts", ["seq"], braced, params=["map"], inv=lambda s, p, done: z3.Length(s[0]) == z3.Length(done))
options = Fold("tex_option_texts", ["seq"], option, params=["map"], inv=lambda s, p, done: z3.Length(s[0]) == z3.Length(done))


class TexArguments(Contract):
    """every attribute as an argument in braces, in order: its value, or for a positional attribute its name"""
    target = ATT + "Attributes.tex_arguments"
    loops = [LoopUse(arguments, params=lambda e: [MAP])]
    ext = {"ispositional": lambda e, a, kw: positional(e.V(a[0]))}

    def elem(self, e, h, s):
        e.assume(Or(Val.is_str(h), Val.is_cls(h)))
        e.assume(Not(Val.is_ref(MAP[h])))

    def setup(self, e):
        return {"self": e.new_dict(D(KEYS, MAP, DOM), "Attributes")}

    def entries(self, e, fold):
        return run_fold(e, fold, KEYS, [EMPTY], [MAP])[1][0]

    def join(self, s, sep):
        return uf("str_join", z3.StringVal(sep), s, sort=Str)

    def spec(self, e, self_):
        s = self.entries(e, arguments)
        return Val.str(self.join(s, "") if e.branch(z3.Length(s) > 0) else z3.StringVal(""))


class TexOptionals(TexArguments):
    """every attribute, in order, as name=value, a positional one by its name, in brackets with commas between; none: nothing"""
    target = ATT + "Attributes.tex_optionals"
    loops = [LoopUse(options, params=lambda e: [MAP])]

    def spec(self, e, self_):
        s = self.entries(e, options)
        return Val.str(z3.Concat(z3.StringVal("["), self.join(s, ", "), z3.StringVal("]")) if e.branch(z3.Length(s) > 0) else z3.StringVal(""))


# -- HTML -------------------------------------------------------------------------------
MARKUP = z3.Const("class_Markup", Val)


def markup(v):
    return And(isobject(v), uf("is_markup", v, sort=Bool))


def parsed_markup(v):
    return uf("parsed_markup", v)


def child(h):
    return ite(markup(h), parsed_markup(h), h)


def ischild(v):
    return Or(Val.is_none(v), Val.is_str(v), isobject(v))


children = Fold("element_children", ["seq"],
                lambda h, s, p: [ite(Or(Val.is_none(h), h == vstr("")), s[0], cat(s[0], unit(child(h))))])
set_all = Fold("element_attributes", ["seq"],
               lambda h, s, p: [ite(Or(Val.is_none(pair(h)[1]), positional(pair(h)[1])), s[0], cat(s[0], unit(tup(pair(h)[0], pair(h)[1]))))])


def pair(h):
    return Val.titems(h)[0], Val.titems(h)[1]


def items_of(d):
    return uf("dict_items", d.keys, d.map, sort=SeqV)


def items(e, o, args, kw):
    """dict.items(): the pairs of key and value, in order"""
    d = e.dict_of(o)
    ks = static_items(d.keys)
    return STup(tuple(STup((k, z3.simplify(d.map[k]))) for k in ks)) if ks is not None else e.new_list(items_of(d))


def make(e, maker, args, kw):
    """an element: its name, its children in order; attributes are set on it later"""
    if kw or not args:
        raise Unsupported("element with attributes")
    kids = cat(*[x.seq if isinstance(x, StarSeq) else unit(e.V(x)) for x in args[1:]]) if len(args) > 2 else \
        EMPTY if len(args) == 1 else args[1].seq if isinstance(args[1], StarSeq) else unit(e.V(args[1]))
    return e.new_obj("Element", {"$maker": maker, "$name": e.V(args[0]), "$children": Val.lst(kids), "$set": e.new_list()})


DEFAULT = z3.Const("default_maker", Val)


def maker_of(e, a, kw):
    if a or set(kw) != {"nsmap"}:
        raise Unsupported("ElementMaker")
    return uf("maker", e.V(kw["nsmap"]))


def set_attribute(e, o, args, kw):
    if len(args) != 2 or kw or e.box(o) is None:
        raise Unsupported("set")
    l = e.box(o).attrs["$set"]
    e.setbox(l, seq=cat(e.box(l).seq, unit(tup(e.V(args[0]), e.V(args[1])))))
    return NONE


def serialised(e, el, pretty, method):
    a = e.box(el).attrs
    return uf("serialised", a["$maker"], a["$name"], e.deep(a["$children"]), Val.lst(e.box(a["$set"]).seq), e.V(pretty), e.V(method))


def tostring(e, a, kw):
    if len(a) != 1 or set(kw) != {"pretty_print", "method"}:
        raise Unsupported("tostring")
    return serialised(e, a[0], kw["pretty_print"], kw["method"])


def decode(e, o, a, kw):
    if kw or [e.const_str(e.V(x)) for x in a] not in ([], ["utf-8"]):
        raise Unsupported("decode")
    return uf("decoded", e.V(o))


def do_call(e, fv, args, kw):
    if fv.eq(MARKUP) and len(args) == 1 and not kw:
        return uf("markup_of", e.V(args[0]))
    return make(e, fv, args, kw)


def is_instance(e, a, kw):
    return markup(e.V(a[0])) if is_val(a[1]) and a[1].eq(MARKUP) else e.bi_isinstance(*a)


ARG, OPT = "xhtml_tag_arguments", "xhtml_tag_optionals"


class Tag(Contract):
    """only an allowed element is written, any other as a span with its name as class unless a class was given; it has exactly
    the required attributes (all of them, else an error) and the allowed ones among those given, whose values are neither
    missing nor positional; its children are the contents, in order, without empty ones, markup as the elements it stands
    for; the attributes are not changed"""
    target = HTML + "xhtml_tag"
    loops = [LoopUse(children), LoopUse(set_all)]
    trusted = Tex.trusted + ("lxml: E(name, *children) is an element with these children, set() sets an attribute, tostring() writes (and escapes) it",
                             "a Markup is not empty")
    defaults = {"attributes": None, "formatted_content": None, "level": 1, "target": None, "method": "html", "nsmap": None}

    def __init__(self):
        super().__init__()
        self.ext = tables(ARG, OPT)
        self.ext.update({".filter": do_filter, "new Attributes": parse, "Markup": MARKUP, "call": do_call, "builtins.isinstance": is_instance, ".items": items,
                         "E": DEFAULT, "ElementMaker": maker_of, ".set": set_attribute, "lxml.etree.tostring": tostring, "lxml.etree.fromstring": self.fromstring,
                         ".decode": decode, "ispositional": lambda e, a, kw: positional(e.V(a[0]))})
        self.variants = [(n + ", " + k, lambda e, f=f, g=g: self.args(e, f(e), g(e))) for n, f in ATTRS + [("none", lambda e: NONE)]
                         for k, g in (("list", lambda e: e.new_list(z3.Const("contents", SeqV))), ("one", lambda e: z3.Const("content", Val)))]

    def fromstring(self, e, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported("fromstring")
        r = parsed_markup(e.V(a[0]))
        e.assume(isobject(r))
        return r

    def elem(self, e, h, s):
        if s.decl().name() == "dict_items":
            e.assume(And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2))
            e.assume(Val.is_str(pair(h)[0]))
            e.assume(Or(Val.is_str(pair(h)[1]), Val.is_none(pair(h)[1]), Val.is_cls(pair(h)[1])))
        else:
            e.assume(ischild(h))

    def args(self, e, a, c):
        e.assume(Not(listed(ARG, vstr("span"))))
        e.assume(ischild(z3.Const("content", Val)))
        t, n = z3.Const("target", Val), z3.Const("nsmap", Val)
        e.assume(Or(Val.is_none(t), Val.is_str(t)))
        e.assume(Or(Val.is_none(n), isobject(n)))
        self.ignore = ("state#%d" % e.box_id(c),) if e.box(c) is not None else ()
        e.assume(Not(Val.is_ref(MARKUP)))
        return {"name": Val.str(NAME), "attributes": a, "formatted_content": c, "level": Val.int(z3.Int("level")), "target": t,
                "method": sym_str(e, "method"), "nsmap": n, "pretty_print": Val.bool(z3.Bool("pretty"))}

    def spec(self, e, name, attributes, formatted_content, level, target, method, nsmap, pretty_print):
        if e.branch(Val.is_none(target)):
            target = method
        if e.branch(method == vstr("xhtml")):
            method = vstr("xml")
        i, o = e.branch(listed(ARG, name)), e.branch(listed(OPT, name))
        a = parsed(e, vstr("")) if attributes.eq(NONE) else own(e, attributes)
        span, cols = vstr("span"), []
        if i:
            q = entry(ARG, name)
            e.assume(Val.is_tup(q))
            r = filtered(e, a, q, target, vbool(True))
            if not e.branch(count(r, e) == z3.Length(Val.titems(q))):
                raise PyRaise("XHtmlFormatError")
            cols.append(r)
        known = i or o
        if o or not known and e.branch(listed(OPT, span)):
            q = entry(OPT, name if o else span)
            e.assume(Val.is_tup(q))
            cols.append(filtered(e, a, q, target, vbool(True)))
        xs = e.box(formatted_content).seq if e.box(formatted_content) is not None else unit(e.V(formatted_content))
        kids = run_fold(e, children, xs, [EMPTY])[1][0] if e.box(formatted_content) is not None else \
            children.step(e.V(formatted_content), [EMPTY], [])[0]
        sets = EMPTY
        for d in cols:
            sets = run_fold(e, set_all, items_of(e.box(d).d), [sets])[1][0]
        if not known and not (cols and e.branch(e.box(cols[0]).d.dom[vstr("class")])):
            sets = cat(sets, unit(tup(vstr("class"), name)))
        empty = e.branch(z3.Length(kids) == 0)
        m = DEFAULT if empty or e.branch(Val.is_none(nsmap)) else uf("maker", nsmap)
        el = e.new_obj("Element", {"$maker": m, "$name": name if known else span, "$children": Val.lst(EMPTY if empty else kids), "$set": e.new_list(sets)})
        if e.branch(Val.i(level) == 1):
            return uf("markup_of", uf("decoded", serialised(e, el, pretty_print, method)))
        return el


class Entity(Contract):
    """an entity is written under the name given, without surrounding blanks; anything but a text is an error"""
    target = HTML + "xhtml_entity"
    trusted = ("lxml: Entity(name) is that entity, tostring() writes it",)
    defaults = {"level": 1, "method": "html"}

    def __init__(self):
        super().__init__()
        self.ext = {"Markup": MARKUP, "call": do_call, "lxml.etree.Entity": self.entity, "lxml.etree.tostring": self.tostring, ".decode": decode}
        self.variants = [("text", lambda e: self.args(e, sym_str(e, "entity"))), ("other", lambda e: self.args(e, obj(e, A))),
                         ("none", lambda e: self.args(e, NONE))]

    def entity(self, e, a, kw):
        r = uf("entity", e.V(a[0]))
        e.assume(isobject(r))
        return r

    def tostring(self, e, a, kw):
        if len(a) != 1 or set(kw) != {"pretty_print", "method"}:
            raise Unsupported("tostring")
        return uf("entity_text", e.V(a[0]), e.V(kw["pretty_print"]), e.V(kw["method"]))

    def args(self, e, v):
        return {"entity": v, "level": Val.int(z3.Int("level")), "method": sym_str(e, "method"), "pretty_print": Val.bool(z3.Bool("pretty"))}

    def spec(self, e, entity, level, method, pretty_print):
        if e.branch(method == vstr("xhtml")):
            method = vstr("xml")
        if not e.kind(entity) == "str":
            raise PyRaise("XHtmlFormatError")
        r = self.entity(e, [Val.str(uf("str_strip", Val.s(entity), sort=Str))], {})
        return uf("markup_of", uf("decoded", uf("entity_text", r, pretty_print, method))) if e.branch(Val.i(level) == 1) else r


CONTRACTS = [Entity, Tag, TexArguments, TexOptionals, Cmd, Env, Verb]
