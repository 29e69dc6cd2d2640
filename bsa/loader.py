"""Parse the non-test sources of backy and resolve modules, classes, functions
and annotations.  Purely syntactic: nothing of the repository is imported."""
import ast
import hashlib
import os

from .normal import Loops

REPO = os.environ.get("BACKY_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable file).

    Leads to an error exit of the check, never to a silent pass."""


class Func:
    __slots__ = (
        "node", "module", "cls", "name", "qual", "is_async", "is_gen",
        "parent", "captures", "uid", "decos", "is_lambda", "assigned",
        "globals_", "nonlocals",
    )

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            r.append(a.vararg.arg)
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r


class Class:
    __slots__ = ("node", "module", "name", "qual", "methods", "attrs", "ann",
                 "bases", "is_dataclass", "is_enum", "fields", "members")

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    __slots__ = ("name", "rel", "path", "tree", "names", "src", "is_pkg")

    def __repr__(self):
        return f"<Module {self.name}>"


def _is_test(rel):
    parts = rel.split("/")
    base = parts[-1]
    return ("tests" in parts or base == "conftest.py"
            or base.startswith("test_"))


class OwnNodes(ast.NodeVisitor):
    """Visit the nodes of one function body, not those of nested functions."""

    def __init__(self):
        self.yields = False
        self.nested = False
        self.assigned = set()
        self.globals_ = set()
        self.nonlocals = set()

    def visit_FunctionDef(self, n):
        self.nested = True
        self.assigned.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.nested = True
        self.assigned.add(n.name)

    def visit_Lambda(self, n):
        self.nested = True

    def visit_Yield(self, n):
        self.yields = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_GeneratorExp(self, n):
        self.nested = True
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals_.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.assigned.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.assigned.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.assigned.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.assigned.add(n.name)
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.assigned.add(n.id)


class Stacks(ast.NodeTransformer):
    """with ExitStack() as s: ... x = s.enter_context(E); rest   ->   with E as x: with ExitStack() as s: rest
    (what follows on the same level; callbacks are left to the interpreter)"""

    @staticmethod
    def entered(node, names):
        """(target, expression, async?) of an enter_context statement"""
        v = node.value if isinstance(node, (ast.Assign, ast.Expr, ast.AnnAssign)) else None
        t = None
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            t = node.targets[0]
        elif isinstance(node, ast.AnnAssign):
            t = node.target
        elif not isinstance(node, ast.Expr):
            return None
        if isinstance(v, ast.Await):
            v = v.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                and v.func.value.id in names and len(v.args) == 1 and not v.keywords \
                and v.func.attr in ("enter_context", "enter_async_context"):
            return t, v.args[0], v.func.attr == "enter_async_context"
        return None

    def visit_With(self, node):
        self.generic_visit(node)
        it = node.items[-1]
        c = it.context_expr
        if not (isinstance(c, ast.Call) and isinstance(it.optional_vars, ast.Name) and not c.args):
            return node
        n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if n not in ("ExitStack", "AsyncExitStack") or any(
                isinstance(x, ast.Attribute) and x.attr == "pop_all" for x in ast.walk(node)):
            return node
        node.body = self.body(node.body, it, type(node))
        return node

    visit_AsyncWith = visit_With

    def body(self, stmts, item, kind):
        for i, s in enumerate(stmts):
            e = self.entered(s, {item.optional_vars.id})
            if e is None:
                continue
            t, expr, is_async = e
            rest = self.body(stmts[i + 1:], item, kind)
            if not rest:
                rest = [ast.copy_location(ast.Pass(), s)]
            inner = ast.copy_location(kind(items=[item], body=rest), s)
            outer = ast.copy_location((ast.AsyncWith if is_async else ast.With)(
                items=[ast.withitem(context_expr=expr, optional_vars=t)], body=[inner]), s)
            return stmts[:i] + [outer]
        return stmts


class Program:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        self.funcs = []
        self.func_by_node = {}
        self.class_by_name = {}
        self.class_by_qual = {}
        self.digest = hashlib.sha256()
        root = os.path.join(self.src, "backy")
        if not os.path.isdir(root):
            raise AnalysisError(f"no package at {root}")
        files = []
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        for path in files:
            rel = os.path.relpath(path, self.src)
            if _is_test(rel):
                continue
            self._load(path, rel)
        self.rels = {m.rel: m for m in self.modules.values()}
        for m in self.modules.values():
            self._index_module(m)
        self.subclasses = {}
        for c in self.class_by_qual.values():
            for b in self.mro(c)[1:]:
                self.subclasses.setdefault(b.qual, set()).add(c.qual)

    def _load(self, path, rel):
        with open(path, "rb") as f:
            data = f.read()
        self.digest.update(rel.encode() + b"\0" + data)
        m = Module()
        m.path, m.rel = path, rel
        m.is_pkg = rel.endswith("__init__.py")
        name = rel[:-3].replace("/", ".")
        if m.is_pkg:
            name = name[: -len(".__init__")]
        m.name = name
        try:
            m.tree = Loops().visit(Stacks().visit(ast.parse(data, filename=rel)))
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {rel}: {e}")
        m.src = data.decode("utf-8", "replace").splitlines()
        m.names = {}
        self.modules[name] = m

    # ---------------------------------------------------------- indexing
    def _resolve_from(self, m, node):
        if node.level == 0:
            return node.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        if node.module:
            parts.append(node.module)
        return ".".join(parts)

    def import_bindings(self, m, node):
        out = {}
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    out[a.asname] = ("import", a.name)
                else:
                    out[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            base = self._resolve_from(m, node)
            for a in node.names:
                out[a.asname or a.name] = ("from", base, a.name)
        return out

    def _index_module(self, m):
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for k, v in self.import_bindings(m, s).items():
                        m.names.setdefault(k, v)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self.make_func(s, m, None, None)
                    m.names[s.name] = ("func", f)
                elif isinstance(s, ast.ClassDef):
                    c = self._make_class(s, m, None)
                    m.names[s.name] = ("class", c)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            nt = self._namedtuple(s.value, t.id, m)
                            if nt is not None:
                                m.names[t.id] = ("class", nt)
                                continue
                            if m.names.get(t.id, ("",))[0] == "expr":
                                m.names[t.id] = ("ann", None)       # one of several values
                            m.names.setdefault(t.id, ("expr", s.value))
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name) and m.names.get(s.target.id, ("",))[0] == "expr":
                        m.names[s.target.id] = ("ann", None)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name):
                        if s.value is not None:
                            m.names.setdefault(s.target.id, ("expr", s.value))
                        else:
                            m.names.setdefault(s.target.id, ("ann", s.annotation))
                elif isinstance(s, ast.If):
                    body(s.body)
                    body(s.orelse)
                elif isinstance(s, ast.Try):
                    body(s.body)
                    for h in s.handlers:
                        body(h.body)
                    body(s.orelse)
                    body(s.finalbody)

        body(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    if m.names.get(x, ("",))[0] == "expr":
                        m.names[x] = ("ann", None)

    def make_func(self, node, module, cls, parent):
        if id(node) in self.func_by_node:
            return self.func_by_node[id(node)]
        f = Func()
        f.node, f.module, f.cls, f.parent = node, module, cls, parent
        f.is_lambda = isinstance(node, ast.Lambda)
        f.name = "<lambda>" if f.is_lambda else node.name
        prefix = (parent.qual + "." if parent
                  else cls.qual + "." if cls else module.name + ".")
        f.qual = prefix + f.name
        f.is_async = isinstance(node, ast.AsyncFunctionDef)
        own = OwnNodes()
        if f.is_lambda:
            own.visit(node.body)
            f.decos = []
        else:
            for s in node.body:
                own.visit(s)
            f.decos = node.decorator_list
        f.is_gen = own.yields
        f.captures = own.nested
        f.globals_ = own.globals_
        f.nonlocals = own.nonlocals
        a = node.args
        f.assigned = ((own.assigned | {x.arg for x in
                      a.posonlyargs + a.args + a.kwonlyargs}
                      | ({a.vararg.arg} if a.vararg else set())
                      | ({a.kwarg.arg} if a.kwarg else set()))
                      - own.globals_ - own.nonlocals)
        f.uid = len(self.funcs)
        self.funcs.append(f)
        self.func_by_node[id(node)] = f
        return f

    def _namedtuple(self, v, name, m):
        """X = namedtuple("X", fields): a class with just these fields"""
        if not isinstance(v, ast.Call) or len(v.args) < 2 or \
                (dotted(v.func) or "").split(".")[-1] not in ("namedtuple", "NamedTuple"):
            return None
        a = v.args[1]
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            fields = a.value.replace(",", " ").split()
        elif isinstance(a, (ast.List, ast.Tuple)):
            es = [e.elts[0] if isinstance(e, (ast.Tuple, ast.List)) and e.elts else e
                  for e in a.elts]
            if not all(isinstance(e, ast.Constant) for e in es):
                return None
            fields = [e.value for e in es]
        else:
            return None
        src = "class %s(NamedTuple):\n" % name + "".join(f"    {f}: object\n" for f in fields)
        node = ast.parse(src + "    pass\n").body[0]
        for n in ast.walk(node):
            if hasattr(n, "lineno"):
                n.lineno = n.end_lineno = v.lineno
        c = self._make_class(node, m, None)
        c.ann = {}
        return c

    def _make_class(self, node, m, parent):
        c = Class()
        c.node, c.module, c.name = node, m, node.name
        c.qual = (parent.qual + "." if parent else m.name + ".") + node.name
        c.methods, c.attrs, c.ann, c.fields = {}, {}, {}, []
        c.members = []
        c.bases = node.bases
        c.is_dataclass = any(
            (isinstance(d, ast.Name) and d.id == "dataclass")
            or (isinstance(d, ast.Call) and isinstance(d.func, ast.Name)
                and d.func.id == "dataclass")
            or (isinstance(d, ast.Attribute) and d.attr == "dataclass")
            for d in node.decorator_list
        )
        base_names = {b.id if isinstance(b, ast.Name)
                      else b.attr if isinstance(b, ast.Attribute) else ""
                      for b in node.bases}
        if "NamedTuple" in base_names:
            c.is_dataclass = True
        c.is_enum = bool(base_names & {"Enum", "IntEnum", "StrEnum", "Flag"})
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[s.name] = self.make_func(s, m, c, None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.ann[s.target.id] = s.annotation
                c.fields.append((s.target.id, s.value))
                if s.value is not None:
                    c.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        if isinstance(s.value, ast.Name) and s.value.id in c.methods:
                            c.methods[t.id] = c.methods[s.value.id]
        # attribute annotations inside methods (self.x: T = ...)
        for f in list(c.methods.values()):
            for n in ast.walk(f.node):
                if (isinstance(n, ast.AnnAssign)
                        and isinstance(n.target, ast.Attribute)
                        and isinstance(n.target.value, ast.Name)
                        and n.target.value.id == "self"):
                    c.ann.setdefault(n.target.attr, n.annotation)
        self.class_by_qual[c.qual] = c
        self.class_by_name.setdefault(c.name, c)
        return c

    # ------------------------------------------------------------ lookup
    def lookup_global(self, m, name, depth=0):
        """Resolve a global name to ('func',F) ('class',C) ('mod',name)
        ('ext', dotted) ('expr', module, node) or None."""
        if depth > 8:
            return None
        e = m.names.get(name)
        if e is None:
            return None
        if e[0] in ("func", "class"):
            return e
        if e[0] == "expr":
            return ("expr", m, e[1])
        if e[0] == "ann":
            return ("ann", m, e[1])
        if e[0] == "import":
            if e[1] in self.modules:
                return ("mod", e[1])
            return ("ext", e[1])
        base, attr = e[1], e[2]
        if base + "." + attr in self.modules:
            bm = self.modules.get(base)
            if bm is None or attr not in bm.names:
                return ("mod", base + "." + attr)
        if base in self.modules:
            r = self.lookup_global(self.modules[base], attr, depth + 1)
            if r is not None:
                return r
            if base + "." + attr in self.modules:
                return ("mod", base + "." + attr)
        return ("ext", base + "." + attr)

    def resolve_class_expr(self, m, node):
        """Class named by an expression in module m (for bases/annotations)."""
        if isinstance(node, ast.Subscript):
            node = node.value
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, ast.Name):
            r = self.lookup_global(m, node.id)
            if r and r[0] == "class":
                return r[1]
            return None
        if isinstance(node, ast.Attribute):
            d = dotted(node)
            if d:
                for i in range(d.count("."), 0, -1):
                    parts = d.split(".")
                    modn, rest = ".".join(parts[:i]), parts[i:]
                    if modn in self.modules and len(rest) == 1:
                        r = self.lookup_global(self.modules[modn], rest[0])
                        if r and r[0] == "class":
                            return r[1]
        return None

    def mro(self, c):
        out, seen = [], set()

        def rec(k):
            if k.qual in seen:
                return
            seen.add(k.qual)
            out.append(k)
            for b in k.bases:
                bc = self.resolve_class_expr(k.module, b)
                if bc:
                    rec(bc)

        rec(c)
        return out

    def ext_bases(self, c):
        """Dotted names of the non-repository bases in the MRO."""
        out = []
        for k in self.mro(c):
            for b in k.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                if self.resolve_class_expr(k.module, b) is None:
                    d = dotted(b)
                    if d:
                        r = self.lookup_global(k.module, d.split(".")[0])
                        if r and r[0] == "ext":
                            d = ".".join([r[1]] + d.split(".")[1:])
                        out.append(d)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def attr_type(self, c, name):
        for k in self.mro(c):
            if name in k.ann:
                return self.parse_type(k.module, k.ann[name], k)
        return None

    def cls(self, name):
        """Anchor lookup by class name (dotted suffix of the qualname)."""
        hits = [c for q, c in self.class_by_qual.items()
                if q == name or q.endswith("." + name)]
        if len(hits) != 1:
            raise AnalysisError(f"anchor class {name}: {len(hits)} matches")
        return hits[0]

    def method(self, cname, mname):
        f = self.find_method(self.cls(cname), mname)
        if f is None:
            raise AnalysisError(f"anchor method {cname}.{mname} not found")
        return f

    def try_method(self, cname, mname):
        try:
            return self.method(cname, mname)
        except AnalysisError:
            return None

    def func(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            raise AnalysisError(f"anchor module {mod} not found")
        r = self.lookup_global(m, name)
        if not r or r[0] != "func":
            raise AnalysisError(f"anchor function {qual} not found")
        return r[1]

    # ------------------------------------------------------- annotations
    def parse_type(self, m, node, cls=None):
        """-> type descriptor: ('cls', qual) ('list', T) ('dict', K, V)
        ('tuple', T...) ('ext', name) or None (unknown)."""
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.parse_type(
                        m, ast.parse(node.value, mode="eval").body, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a = self.parse_type(m, node.left, cls)
            b = self.parse_type(m, node.right, cls)
            if a is None or b is None:
                # Optional[...] in new style
                lit_none = (isinstance(node.right, ast.Constant)
                            and node.right.value is None)
                rit_none = (isinstance(node.left, ast.Constant)
                            and node.left.value is None)
                return a if lit_none else b if rit_none else None
            return a if a == b else None
        if isinstance(node, ast.Subscript):
            d = dotted(node.value) or ""
            base = d.split(".")[-1]
            sl = node.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if base == "Optional":
                return self.parse_type(m, args[0], cls)
            if base in ("List", "list", "Set", "set", "Iterable", "Iterator",
                        "Sequence", "frozenset", "Generator", "AsyncIterator",
                        "Collection"):
                return ("list", self.parse_type(m, args[0], cls))
            if base in ("Dict", "dict", "Mapping", "defaultdict"):
                if len(args) == 2:
                    return ("dict", self.parse_type(m, args[0], cls),
                            self.parse_type(m, args[1], cls))
            if base in ("Tuple", "tuple"):
                return ("tuple",) + tuple(
                    self.parse_type(m, a, cls) for a in args)
            if base in ("type", "Type"):
                return ("type", self.parse_type(m, args[0], cls))
            c = self.resolve_class_expr(m, node.value)
            if c:
                return ("cls", c.qual)
            return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            c = self.resolve_class_expr(m, node)
            if c:
                return ("cls", c.qual)
            d = dotted(node)
            if not d:
                return None
            r = self.lookup_global(m, d.split(".")[0])
            if r and r[0] == "ext":
                d = ".".join([r[1]] + d.split(".")[1:])
            elif r and r[0] == "expr":
                return self.parse_type(r[1], r[2], cls)
            if d in ("Any", "typing.Any", "None", "object"):
                return None
            return ("ext", d)
        return None

    def ret_type(self, f):
        if f.is_lambda or f.node.returns is None:
            return None
        return self.parse_type(f.module, f.node.returns, f.cls)

    def param_type(self, f, name):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                if x.annotation is not None:
                    return self.parse_type(f.module, x.annotation, f.cls)
                if f.cls and name == "self":
                    return ("cls", f.cls.qual)
        return None

    def stats(self):
        return {
            "modules": len(self.modules),
            "functions": len(self.funcs),
            "classes": len(self.class_by_qual),
        }


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None
