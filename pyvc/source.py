"""Mechanical extraction: parses the current source under /repo on every run and
resolves names.  What the extraction drops: docstrings, comments, decorators
(other than property/classmethod/staticmethod) and type annotations."""
import ast, os

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
_mods = {}


class SourceError(Exception):
    pass


class Module:
    def __init__(self, name):
        self.name = name
        base = os.path.join(SRC, *name.split("."))
        if os.path.isfile(base + ".py"):
            self.path, self.is_pkg = base + ".py", False
        elif os.path.isfile(os.path.join(base, "__init__.py")):
            self.path, self.is_pkg = os.path.join(base, "__init__.py"), True
        else:
            raise SourceError("no module " + name)
        self.text = open(self.path, encoding="utf-8").read()
        self.tree = ast.parse(self.text)
        self.names = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[(a.asname or a.name).split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ("from", self._abs(n.module, n.level), a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("assign", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If):
                self._scan(n.body)

    def _abs(self, mod, level):
        if level == 0:
            return mod
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([mod] if mod else []))


def module(name):
    if name not in _mods:
        _mods[name] = Module(name)
    return _mods[name]


def is_repo(name):
    return name is not None and (name == "disseminate" or name.startswith("disseminate."))


def resolve(modname, name, depth=0):
    """-> ('func', modname, node) | ('class', modname, node) | ('assign', modname, expr)
        | ('module', dotted) | ('ext', dotted) | None"""
    if depth > 12:
        return None
    m = module(modname)
    if name not in m.names:
        # submodule?
        try:
            module(modname + "." + name)
            return ("module", modname + "." + name)
        except SourceError:
            return None
    e = m.names[name]
    if isinstance(e, ast.FunctionDef):
        return ("func", modname, e)
    if isinstance(e, ast.ClassDef):
        return ("class", modname, e)
    if e[0] == "assign":
        return ("assign", modname, e[1])
    if e[0] == "module":
        return ("module", e[1]) if is_repo(e[1]) else ("ext", e[1])
    if e[0] == "from":
        _, src, nm = e
        if not is_repo(src):
            return ("ext", (src + "." + nm) if src else nm)
        try:
            r = resolve(src, nm, depth + 1)
        except SourceError:
            r = None
        return r
    return None


class ClassInfo:
    """A class of /repo, with attribute lookup along its bases."""
    _cache = {}

    def __init__(self, modname, node):
        self.modname, self.node, self.name = modname, node, node.name
        self.members = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind = "method"
                setter = False
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod"):
                        kind = d.id
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        setter = True
                if setter:
                    self.members[n.name + "!set"] = ("setter", n)
                else:
                    self.members[n.name] = (kind, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = ("assign", n.value)
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = resolve(modname, b.id)
                if r and r[0] == "class":
                    self.bases.append(classinfo(r[1], r[2]))
                else:
                    self.bases.append(b.id if not r else (r[1] if r[0] == "ext" else b.id))
            else:
                self.bases.append(ast.unparse(b))

    def mro(self):
        out, seen = [], set()

        def go(c):
            if isinstance(c, ClassInfo):
                if id(c) in seen:
                    return
                seen.add(id(c))
                out.append(c)
                for b in c.bases:
                    go(b)
            else:
                if c not in out:
                    out.append(c)
        go(self)
        return out

    def lookup(self, attr, after=None):
        skipping = after is not None
        for c in self.mro():
            if skipping:
                if isinstance(c, ClassInfo) and c is after:
                    skipping = False
                continue
            if isinstance(c, ClassInfo) and attr in c.members:
                return (c,) + c.members[attr]
        return None

    def base_names(self):
        return {c.name if isinstance(c, ClassInfo) else c for c in self.mro()}


def classinfo(modname, node):
    k = (modname, node.name)
    if k not in ClassInfo._cache:
        ClassInfo._cache[k] = ClassInfo(modname, node)
    return ClassInfo._cache[k]


def find_function(target):
    """'pkg.mod:func' or 'pkg.mod:Class.method' -> (modname, node, ClassInfo|None, kind)"""
    modname, q = target.split(":")
    parts = q.split(".")
    r = resolve(modname, parts[0])
    if r is None:
        raise SourceError("cannot find " + target)
    if r[0] == "func" and len(parts) == 1:
        return r[1], r[2], None, "function"
    if r[0] == "func" and len(parts) == 2:   # nested function
        for n in ast.walk(r[2]):
            if isinstance(n, ast.FunctionDef) and n.name == parts[1]:
                return r[1], n, None, "nested"
    if r[0] == "class" and len(parts) == 2:
        ci = classinfo(r[1], r[2])
        m = ci.lookup(parts[1])
        if m and isinstance(m[2], ast.FunctionDef):
            return m[0].modname, m[2], m[0], m[1]
    if r[0] == "class" and len(parts) == 3:   # function nested in a method
        ci = classinfo(r[1], r[2])
        m = ci.lookup(parts[1])
        if m and isinstance(m[2], ast.FunctionDef):
            for n in ast.walk(m[2]):
                if isinstance(n, ast.FunctionDef) and n is not m[2] and n.name == parts[2]:
                    return m[0].modname, n, m[0], "nested"
    raise SourceError("cannot find " + target)
