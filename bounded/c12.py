import copy, re
from html.parser import HTMLParser
from common import *
import project as P
from lxml import etree
from markupsafe import Markup
from disseminate import settings
from disseminate.attributes import Attributes
from disseminate.formats import tex_cmd, tex_env, xhtml_tag, xhtml_list
from disseminate.formats.tex import TexFormatError, tex_verb
from disseminate.formats.xhtml import XHtmlFormatError
from disseminate.utils.types import PositionalValue, StringPositionalValue, IntPositionalValue, FloatPositionalValue, ispositional

TARGETS = sorted({t.strip(".") for t in settings.tracked_deps})
POS = {"P": PositionalValue, "S": StringPositionalValue, "I": IntPositionalValue, "F": FloatPositionalValue}
CMDS = sorted(set(settings.tex_cmd_arguments) | set(settings.tex_cmd_optionals)) + ["write18", "input", "tex", ""]
ENVS = sorted(set(settings.tex_env_arguments) | set(settings.tex_env_optionals)) + ["document", "filecontents", ""]
VOID = ("br", "hr", "img", "link")


def base(k):
    for t in TARGETS:
        if k.endswith("." + t):
            return k[:-len(t) - 1], t
    return k, None


def attrs(r):
    out = {}
    for _ in range(r.randint(0, 5)):
        if r.random() < .5:
            k = r.choice(["width", "height", "label", "class", "id", "href", "src", "foo", "style", "alt", "rel"]) + r.choice(["", "", ".tex", ".html", ".xhtml"])
            out[k] = r.choice(["1", "a b", "x.tex", 'q"&<', ""])
        else:
            k, t = r.choice([("lll", "S"), ("h", "S"), ("3", "I"), ("12", "I"), ("1.5", "F"), ("section", "S"), ("class", "S"), ("red", "S")])
            out[k + r.choice(["", "", "", ".tex", ".html"])] = "+" + t
    return list(out.items())


def build(es):
    a = Attributes()
    for k, v in es:
        a[k] = POS[v[1]] if v[:1] == "+" else v
    return a


def pick(a, want, t):
    """the (name, value) a writer for target t has to use for the name or the positional type"""
    if isinstance(want, str):
        k = want + "." + t if want + "." + t in a else want
        return (want, a[k]) if k in a else None
    items = [k for k, v in a.items() if ispositional(v, want)]
    items = [k for k in items if base(k)[1] == t] or [k for k in items if base(k)[1] is None]
    return (base(items[0])[0], a[items[0]]) if items else None


def writers():
    r = rng("tex")
    for kind, names in (("cmd", CMDS), ("env", ENVS)):
        for n in names:
            for es in ([], [["lll", "+S"]], [["3", "+I"]], [["lll", "+S"], ["3", "+I"]], [["3", "+I"], ["lll", "+S"]], [["lll.html", "+S"], ["3.tex", "+I"]]):
                yield [kind, n, es, "x"]
    for _ in range(scale(4000)):
        kind = r.choice(["cmd", "env"])
        hot = ["setcounter", "includegraphics", "textcolor", "href", "pageref"] if kind == "cmd" else ["alignat", "alignat*", "enumerate", "figure", "panel", "tabular", "easylist"]
        n = r.choice(hot + [r.choice(CMDS if kind == "cmd" else ENVS)])
        yield [kind, n, attrs(r), r.choice(["", "x", "a\nb", "\nq\n", None] if kind == "cmd" else ["", "x", "a\nb", "\nq\n"])]


@check("latex", writers)
def latex(case):
    "a LaTeX command or environment is written iff it is allowed and all its required arguments are given, with these in the prescribed order, then the allowed options given and nothing else, then the content; otherwise a formatting error; the attributes are unchanged"
    kind, name, es, content = case
    a = build(es)
    before = list(a.items())
    args, opts = (settings.tex_cmd_arguments, settings.tex_cmd_optionals) if kind == "cmd" else (settings.tex_env_arguments, settings.tex_env_optionals)
    exp = None
    if name in args or name in opts:
        reqs = [pick(a, w, "tex") for w in args.get(name, ())]
        if None not in reqs and len(set(k for k, v in reqs)) == len(reqs):
            exp = "".join("{%s}" % (k if ispositional(v) else v) for k, v in reqs)
            o = []
            for w in opts.get(name, ()):
                p = pick(a, w, "tex")
                if p and p not in o:
                    o.append(p)
            o = [k if ispositional(v) else "%s=%s" % (k, v) for k, v in o]
    try:
        got = tex_cmd(name, a, content) if kind == "cmd" else tex_env(name, a, content)
    except TexFormatError as e:
        got = None
    if list(a.items()) != before:
        return "the attributes were changed to %r" % a
    if exp is None or got is None:
        return same(got, exp, "%s %r" % (kind, name))
    if kind == "cmd":
        head, tail = "\\" + name + exp, "" if content is None else "{%s}" % content
    else:
        c = content if content.startswith("\n") else "\n" + content
        c = c if c.endswith("\n") else c + "\n"
        head, tail = "\n\\begin{%s}%s" % (name, exp), c + "\\end{%s}\n" % name
    if not got.startswith(head) or not got.endswith(tail) or len(got) < len(head) + len(tail):
        return "%s %r written as %r, expected %r ... %r" % (kind, name, got, head, tail)
    mid = got[len(head):len(got) - len(tail)]
    if kind == "env":
        mid = mid.rstrip()
    if (mid == "") != (not o) or mid and (mid[0] + mid[-1] != "[]" or sorted(mid[1:-1].split(", ")) != sorted(o)):
        return "%s %r has options %r, expected %r" % (kind, name, mid, o)


def tables():
    r = rng("tables")
    w = ["width", "label", "h", "+S", "+I", "+F", "class"]
    for _ in range(scale(1500)):
        yield [r.choice(["cmd", "env"]), r.choice(["probe", "section", "figure"]), r.sample(w, r.randint(0, 4)), r.choice([None, r.sample(w, r.randint(0, 4))]), attrs(r), r.choice(["", "x"])]


@check("latex_tables", tables)
def _(case):
    "the same for any table of required arguments and options"
    kind, name, req, opt, es, content = case
    tabs = (settings.tex_cmd_arguments, settings.tex_cmd_optionals) if kind == "cmd" else (settings.tex_env_arguments, settings.tex_env_optionals)
    old = [dict(t) for t in tabs]
    try:
        for t, v in zip(tabs, (req, opt)):
            t.pop(name, None)
            if v is not None:
                t[name] = tuple(POS[x[1]] if x[0] == "+" else x for x in v)
        return latex([kind, name, es, content])
    finally:
        for t, o in zip(tabs, old):
            t.clear()
            t.update(o)


@check("latex_strings", lambda: ([c, s] for c in ("textbf", "setcounter", "includegraphics", "textcolor") for s in ("", "section 3", "section 3 foo=1", "3 section", "width=2", "width=2 foo", "a.b", "x.html 4 y", "x.tex 4.tex z")))
def _(case):
    "attributes given as text are decoded like any others"
    c, s = case
    try:
        x = tex_cmd(c, s, "y")
    except TexFormatError:
        x = None
    try:
        y = tex_cmd(c, Attributes(s), "y")
    except TexFormatError:
        y = None
    return same(x, y, "command")


@check("verb", lambda: ([s] for s in strings("a|!^", 4)))
def _(case):
    "verbatim text is delimited by a character that is not in it"
    s = case[0]
    got = tex_verb(s)
    d = next((x for x in "|!^" if x not in s), None)
    return same(got, "\\verb" + d + s + d if d else s, "verb")


def content(r, d):
    out = []
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < .5 or d == 0:
            out.append(r.choice(["a", "b & c", "<i>", "x'\"y", " ", "é", "", "1"]))
        else:
            out.append([r.choice(["span", "i", "strong", "p", "script", "zz", "style", "div"]), content(r, d - 1), r.random() < .3])
    return out


def tags():
    r = rng("html")
    names = sorted(set(settings.xhtml_tag_arguments) | set(settings.xhtml_tag_optionals)) + ["script", "iframe", "object", "style", "marginnote", "body", "B"]
    for n in names:
        for es in ([], [["href", "u"], ["src", "s"], ["rel", "r"]], [["class", "c"], ["id", "i"], ["onclick", "x()"], ["style", "s"]], [["href.tex", "u"], ["src.html", "s"], ["class.html", "q"], ["id.tex", "j"]]):
            for m in ("html", "xhtml"):
                yield [n, es, ["a", "b"], m, None]
    for _ in range(scale(2500)):
        yield [r.choice(names + ["a", "img", "span", "zz"]), attrs(r), content(r, 2), r.choice(["html", "xhtml", "xml"]), r.choice([None, None, ".html", "tex", "html"])]


def allowed(name):
    return name in settings.xhtml_tag_arguments or name in settings.xhtml_tag_optionals


def names_of(name):
    return settings.xhtml_tag_arguments.get(name, ()) + settings.xhtml_tag_optionals.get(name, ())


def model(name, es, cs, t):
    """(element, attributes, children)"""
    a = build(es)
    n = name if allowed(name) else "span"
    at = {}
    for w in names_of(n):
        p = pick(a, w, t)
        if p is not None and not ispositional(p[1]):
            at[w] = p[1]
        elif p is None and w in settings.xhtml_tag_arguments.get(n, ()):
            return None
    if not allowed(name) and pick(a, "class", t) is None:
        at["class"] = name
    ch = []
    for c in cs:
        if isinstance(c, str):
            if ch and isinstance(ch[-1], str):
                ch[-1] += c
            elif c:
                ch.append(c)
        else:
            ch.append(model(c[0], [], c[1], t))
    return (n, at, ch)


def real(cs, m):
    return [c if isinstance(c, str) else xhtml_tag(c[0], formatted_content=real(c[1], m), level=1 if c[2] and m != "html" else 2, method=m, pretty_print=False) for c in cs]


def tree(e):
    ch = [e.text] if e.text else []
    for c in e:
        ch.append(tree(c))
        if c.tail:
            ch.append(c.tail)
    return (e.tag, dict(e.attrib), ch)


@check("html", tags)
def _(case):
    "an HTML element is written iff it is allowed (others become a span with their name as class), with exactly the allowed attributes given for the target, and with the texts, escaped, and elements of its content in order; otherwise a formatting error; the attributes are unchanged"
    name, es, cs, m, t = case
    a = build(es)
    before = list(a.items())
    exp = model(name, es, cs, (t or m).strip("."))
    kw = {"target": t} if t else {}
    try:
        e = xhtml_tag(name, a, real(cs, m), level=2, method=m, pretty_print=False, **kw)
    except XHtmlFormatError:
        e = None
    if list(a.items()) != before:
        return "the attributes were changed to %r" % a
    if e is None or exp is None:
        return same(e, exp, "element %r" % name)
    r = same(tree(e), exp, "element %r" % name)
    if r:
        return r
    s = xhtml_tag(name, a, real(cs, m), level=1, method=m, pretty_print=False, **kw)
    if not isinstance(s, Markup):
        return "written text is not marked as markup"
    if m != "html" or exp[0] in VOID:
        if m != "html":
            return same(tree(etree.fromstring(s)), exp, "written text")
        return
    got = []

    class Parser(HTMLParser):
        def handle_starttag(self, tag, attrs):
            got.append(["<", tag, dict(attrs)])

        def handle_data(self, d):
            if got and isinstance(got[-1], str):
                got[-1] += d
            else:
                got.append(d)
    p = Parser()
    p.feed(s.encode().decode())
    p.close()
    want = []

    def flat(x):
        at = {k: v.replace(" ", "%20").replace('"', "%22").replace("<", "%3C") if k in ("href", "src") else v for k, v in x[1].items()}
        want.append(["<", x[0], at])
        for c in x[2]:
            if not isinstance(c, str):
                flat(c)
            elif want and isinstance(want[-1], str):
                want[-1] += c
            else:
                want.append(c)
    flat(exp)
    return same(got, want, "written text %r" % s)


BODY = ["@b{T}", "@i{T}", "@section{T}", "@chapter[id=ID]{T}", "@section[nolabel]{T}", "@sup{T}", "@sub{T}", "@eqz{T}", "@zz[class=q onclick=x]{T}", "@script{T}",
        "@verb{T @b{x}}", "@marginfig{@caption{T}}", "@p{T}", "@list{\n- T\n- T\n}", "@symbol{alpha}", "@supsub{T && T}",
        "T -- T", "T", "\n\n", "\n", "@sidenote{T}", "@examplebox{T}", "@b{T @i{T} T}", "@i[class.html=r class.tex=s]{T @zz{T}}", "@panel[width=50%]{T}", "@table{@csv{T,T\nT,T}}",
        "@strong{T @script[src=u]{T}}", "@fig[class=mine]{T}", "@python{T}", "@outline{\n* T\n  * T\n}", "@h3{T}", "@para{T}", "& < T"]


def bodies():
    r = rng("body")
    for b in BODY:
        yield [[b]]
    for _ in range(scale(60)):
        yield [[r.choice(BODY) for _ in range(r.randint(1, 8))]]


TEXOK = {"begin", "end", "verb", "alpha", "setcounter", "maketitle", "\\"} | {c.rstrip("*") for c in CMDS[:-4]} | {"ListProperties", "textwidth", "&", "PY", "ensuremath"}


@check("documents", bodies, limit=60)
def _(case):
    "a rendered document contains only allowed HTML elements and attributes and only allowed LaTeX commands and environments, every text of the source once and in order, and rendering it again gives the same"
    n = [0]

    def word(m):
        n[0] += 1
        return "w%dw" % n[0]
    src = "\n".join(re.sub(r"\bT\b", word, b.replace("ID", "id%d" % i)) for i, b in enumerate(case[0]))
    env, doc = P.project({"test.dm": "---\ntargets: html, xhtml, tex\n---\n" + src})
    try:
        body = doc.context["body"]
        words = ["w%dw" % (i + 1) for i in range(n[0])]
        outs = {f: str(getattr(body, f)) for f in ("html", "xhtml", "tex")}
        for f, s in outs.items():
            got = re.findall(r"\bw\d+w\b", re.sub(r"<[^>]*>", " ", s) if f != "tex" else re.sub(r"\\label\{[^}]*\}", "", s))
            if got != words:
                return "%s of %r has the texts %r, expected %d in order:\n%s" % (f, src, got, len(words), s)
            if str(getattr(body, f)) != s:
                return "rendering %s again gives something else" % f
            if f == "tex":
                for c in re.findall(r"\\([A-Za-z]+\*?|.)", re.sub(r"\\verb(.).*?\1", "", s)):
                    if c.rstrip("*") not in TEXOK:
                        return "tex of %r contains the command %r" % (src, c)
                for e in re.findall(r"\\begin\{([^}]*)\}", s):
                    if e not in ENVS[:-3]:
                        return "tex contains the environment %r" % e
                if s.count("\\begin{") != s.count("\\end{"):
                    return "unbalanced environments in %r" % s
            else:
                for m in re.finditer(r"<([A-Za-z][\w-]*)([^>]*)>", s):
                    if not allowed(m.group(1)):
                        return "%s of %r contains the element %r" % (f, src, m.group(1))
                    for k in re.findall(r'([\w:]+)="', m.group(2)):
                        if k not in names_of(m.group(1)) and not k.startswith("xmlns") and k != "epub:type":
                            return "%s of %r contains the attribute %r of %r" % (f, src, k, m.group(1))
    finally:
        env.decider._db and env.decider.db.close()
        P.drop(env.scratch)
