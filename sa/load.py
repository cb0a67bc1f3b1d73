"""Source loading: every module of zigpy_cc, plus literal facts about the libraries it imports."""
import ast
import glob
import hashlib
import os

from .norm import normalise
from .terms import const, mk

REPO = os.environ.get("SA_REPO", "/repo")
SITE = "/opt/venv/lib/pypy3.9/site-packages"


class AnalysisError(Exception):
    """the analysis cannot say anything (a vanished anchor, an unsupported construct)"""


class FuncInfo:
    def __init__(self, module, qual, node, cls=None, kind="plain"):
        self.module = module
        self.qual = qual
        self.node = node
        self.cls = cls
        self.kind = kind
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self._locals = None
        self._gen = None

    def __repr__(self):
        return "<func %s>" % self.qual

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def scope(self):
        """(locals, globals, nonlocals)"""
        if self._locals is None:
            self._locals = scan_scope(self.node)
        return self._locals

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node)
            )
        return self._gen


class ClassInfo:
    def __init__(self, module, name, qual, node):
        self.module = module
        self.name = name
        self.qual = qual
        self.node = node
        self.bases = []
        self.attrs = {}
        self.members = {}  # enum members
        self.ann = {}
        self.is_enum = False
        self.is_dataclass = False
        self.is_tuple = False
        self.frame = None

    def __repr__(self):
        return "<class %s>" % self.qual

    def fields(self):
        """the fields of a dataclass or named tuple, in order"""
        names = []
        for k in reversed(self.mro()):
            for n, a in k.ann.items():
                if n not in names and not (a is not None and "ClassVar" in ast.unparse(a)):
                    names.append(n)
        return names

    def mro(self):
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            for b in c.bases:
                if b.op == "class":
                    go(b.args[0])

        go(self)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if b.op == "ext":
                    out.append(b.args[0])
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def annotation(self, name):
        for c in self.mro():
            if name in c.ann:
                return c, c.ann[name]
        return None, None


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.frame = None
        self.state = 0
        self.qual = name


def walk_own(node):
    """nodes of a function body, not descending into nested functions"""
    work = list(node.body) if isinstance(node.body, list) else [node.body]
    while work:
        n = work.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        work.extend(ast.iter_child_nodes(n))


def scan_scope(node):
    loc, glob_, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def targets(n):
        for m in ast.walk(n):
            if isinstance(m, ast.Name):
                loc.add(m.id)

    work = list(node.body) if isinstance(node.body, list) else [node.body]
    while work:
        n = work.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets escape
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    targets(m.target)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glob_.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        work.extend(ast.iter_child_nodes(n))
    return loc - glob_ - nonl, glob_, nonl


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        pkg = os.path.join(self.root, "zigpy_cc")
        paths = sorted(glob.glob(os.path.join(pkg, "**", "*.py"), recursive=True))
        if not paths:
            raise AnalysisError("no source under %s" % pkg)
        for p in paths:
            rel = os.path.relpath(p, self.root)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            src = open(p, "rb").read()
            self.digest.update(rel.encode() + b"\0" + src)
            self.modules[name] = Module(name, rel, normalise(ast.parse(src, rel)))
        self.nfuncs = sum(
            isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
            for m in self.modules.values()
            for n in ast.walk(m.tree)
        )
        self.ext = ExtFacts()


# ---------------------------------------------------------- external literals
class ExtFacts:
    """Literal constants and enum members of installed libraries, read from their source."""

    PKGS = ("zigpy", "serial", "serial_asyncio")

    def __init__(self):
        self.cache = {}
        self.trees = {}

    def module_file(self, dotted):
        p = os.path.join(SITE, *dotted.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def tree(self, dotted):
        if dotted not in self.trees:
            f = self.module_file(dotted)
            self.trees[dotted] = ast.parse(open(f, "rb").read()) if f else None
        return self.trees[dotted]

    def lookup(self, qual):
        """('const', v) | ('enum', cls, member, v) | None"""
        if qual in self.cache:
            return self.cache[qual]
        self.cache[qual] = None
        r = None
        if qual.split(".")[0] in self.PKGS:
            try:
                r = self._lookup(qual, 0)
            except (OSError, SyntaxError, ValueError):
                r = None
        self.cache[qual] = r
        return r

    def _lookup(self, qual, depth):
        if depth > 8:
            return None
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if self.module_file(mod):
                return self._in_module(mod, parts[i:], depth)
        return None

    def _in_module(self, mod, rest, depth):
        t = self.tree(mod)
        ispkg = self.module_file(mod).endswith("__init__.py")
        stars = []
        for n in t.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(tg, ast.Name) and tg.id == rest[0] and len(rest) == 1:
                    return self._lit(n.value)
                if isinstance(tg, ast.Tuple) and len(rest) == 1 and isinstance(n.value, ast.Tuple):
                    for a, b in zip(tg.elts, n.value.elts):
                        if isinstance(a, ast.Name) and a.id == rest[0]:
                            return self._lit(b)
            elif isinstance(n, ast.ClassDef) and n.name == rest[0] and len(rest) == 2:
                return self._in_class(mod, n, rest[1])
            elif isinstance(n, ast.ImportFrom):
                base = mod if ispkg else mod.rpartition(".")[0]
                lv = n.level
                if lv:
                    for _ in range(lv - 1):
                        base = base.rpartition(".")[0]
                    src = base + ("." + n.module if n.module else "")
                else:
                    src = n.module
                for al in n.names:
                    if al.name == "*":
                        stars.append(src)
                    elif (al.asname or al.name) == rest[0]:
                        return self._lookup(".".join([src, al.name] + rest[1:]), depth + 1)
        for s in stars:
            if self.module_file(s):
                r = self._in_module(s, rest, depth + 1)
                if r is not None:
                    return r
        return None

    def _lit(self, e):
        try:
            v = ast.literal_eval(e)
        except (ValueError, TypeError):
            return None
        if isinstance(v, (int, str, bytes, float)) or v is None:
            return ("const", v)
        return None

    def _in_class(self, mod, n, name):
        bases = " ".join(ast.unparse(b) for b in n.bases)
        isenum = "enum" in bases.lower() or "bitmap" in bases.lower() or "Enum" in bases
        for s in n.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                r = self._lit(s.value)
                if r is None:
                    return None
                if isenum:
                    return ("enum", mod + "." + n.name, name, r[1])
                return r
        return None

    def enum_members(self, qual):
        """{name: value} of an external enum class, following re-exports"""
        parts = qual.split(".")
        return self._members(parts, 0)

    def _members(self, parts, depth):
        if depth > 6:
            return None
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if not self.module_file(mod):
                continue
            t = self.tree(mod)
            ispkg = self.module_file(mod).endswith("__init__.py")
            cands = []
            for n in t.body:
                if isinstance(n, ast.ClassDef) and n.name == parts[i]:
                    out = {}
                    for s in n.body:
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                            r = self._lit(s.value)
                            if r is not None:
                                out[s.targets[0].id] = r[1]
                    return out
                if isinstance(n, ast.ImportFrom):
                    base = mod if ispkg else mod.rpartition(".")[0]
                    if n.level:
                        for _ in range(n.level - 1):
                            base = base.rpartition(".")[0]
                        src = base + ("." + n.module if n.module else "")
                    else:
                        src = n.module
                    for al in n.names:
                        if al.name == "*" or (al.asname or al.name) == parts[i]:
                            cands.append((src + "." + (parts[i] if al.name == "*" else al.name)).split("."))
            for c in cands:
                r = self._members(c, depth + 1)
                if r is not None:
                    return r
            return None
        return None

    def term(self, qual):
        r = self.lookup(qual)
        if r is None:
            return None
        if r[0] == "const":
            return const(r[1])
        return mk("enum", r[1], r[2], r[3])
