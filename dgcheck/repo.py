"""Parse the repository and index its modules, classes and functions."""
import ast
import hashlib
import os

ROOT = os.environ.get("DGCHECK_REPO", "/repo")
PKG = "dustgoggles"


class AnalysisBroken(Exception):
    """an anchor vanished or the source cannot be analysed: error exit"""


class Func:
    def __init__(self, node, mod, cls, qual, parent):
        self.node, self.mod, self.cls, self.qual, self.parent = node, mod, cls, qual, parent
        self.name = getattr(node, "name", "<lambda>")
        self.args = node.args
        self.body = node.body if not isinstance(node, ast.Lambda) else None
        self.decorators = getattr(node, "decorator_list", [])
        self.globals_, self.nonlocals = set(), set()
        self.locals_ = set()
        self.is_gen = False
        self._scan()

    def params(self):
        a = self.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.args.kwonlyargs]

    def all_params(self):
        out = self.params() + self.kwonly()
        if self.args.vararg:
            out.append(self.args.vararg.arg)
        if self.args.kwarg:
            out.append(self.args.kwarg.arg)
        return out

    def _scan(self):
        names = set(self.all_params())
        body = self.body if self.body is not None else [self.node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets are their own scope; walrus leaks
                for sub in ast.walk(n):
                    if isinstance(sub, ast.NamedExpr):
                        names.add(sub.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.Global):
                self.globals_.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.MatchAs) and n.name:
                names.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
        self.locals_ = names - self.globals_ - self.nonlocals


class Class:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.methods = {}


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.imports = {}     # local name -> dotted
        self.bindings = {}    # module-level name -> [(kind, node or dotted name)] in order
        self._bind(tree.body)

    def _bind(self, body):
        def put(name, *b):
            self.bindings.setdefault(name, []).append(b)
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                put(n.name, "def", n)
            elif isinstance(n, ast.ClassDef):
                put(n.name, "class", n)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    put(al.asname or al.name.split(".")[0], "imp", al.name if al.asname else al.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        pk = pk[:-1]
                    pk = pk[: len(pk) - n.level + 1]
                    base = ".".join(pk + ([base] if base else []))
                for al in n.names:
                    put(al.asname or al.name, "imp", f"{base}.{al.name}")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        put(t.id, "expr", n.value)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value:
                    put(n.target.id, "expr", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._bind(n.body)
                self._bind(n.orelse)


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.digest = hashlib.sha256()
        self.by_node = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d not in ("__pycache__", "tests"))
            for fn in sorted(fns):
                if fn.endswith(".py"):
                    self._load(os.path.join(dp, fn))
        if len(self.modules) < 10:
            raise AnalysisBroken(f"only {len(self.modules)} modules parsed")

    def _load(self, path):
        rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[: -len(".__init__")]
        with open(path, "rb") as f:
            src = f.read()
        self.digest.update(rel.encode() + src)
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{path}: {e}")
        m = Module(rel, path, tree, src.decode())
        self.modules[rel] = m
        self._index(tree.body, m, None, rel, None)

    def _index(self, body, m, cls, prefix, parent):
        for n in body:
            self._index_node(n, m, cls, prefix, parent)

    def _index_node(self, n, m, cls, prefix, parent):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = f"{prefix}.{n.name}"
            if q in self.funcs:          # redefinition / property setter
                q = f"{q}@{n.lineno}"
            f = Func(n, m, cls, q, parent)
            self.funcs[q] = f
            self.by_node[n] = f
            if cls is not None and parent is None:
                cls.methods[n.name] = q
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self._index_node(d, m, cls, prefix, parent)
            for c in n.body:
                self._index_node(c, m, cls, q + ".<locals>", f)
        elif isinstance(n, ast.Lambda):
            q = f"{prefix}.<lambda>@{n.lineno}:{n.col_offset}"
            f = Func(n, m, cls, q, parent)
            self.funcs[q] = f
            self.by_node[n] = f
            self._index_node(n.body, m, cls, q + ".<locals>", f)
            for d in n.args.defaults:
                self._index_node(d, m, cls, prefix, parent)
        elif isinstance(n, ast.ClassDef):
            q = f"{prefix}.{n.name}"
            c = Class(n, m, q)
            self.classes[q] = c
            self.by_node[n] = c
            for b in n.body:
                self._index_node(b, m, c, q, None if parent is None else parent)
            if parent is not None:
                for b in n.body:
                    if isinstance(b, ast.FunctionDef):
                        c.methods[b.name] = f"{q}.{b.name}"
        else:
            for c in ast.iter_child_nodes(n):
                self._index_node(c, m, cls, prefix, parent)

    # ------------------------------------------------------------ lookup
    def func(self, qual):
        q = qual if qual.startswith(PKG) else f"{PKG}.{qual}"
        if q not in self.funcs:
            raise AnalysisBroken(f"anchor function {q} not found")
        return self.funcs[q]

    def cls(self, qual):
        q = qual if qual.startswith(PKG) else f"{PKG}.{qual}"
        if q not in self.classes:
            raise AnalysisBroken(f"anchor class {q} not found")
        return self.classes[q]
