"""Single-site edits of a function's syntax tree (used to measure how sensitive a rule is)."""
import ast
import copy

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
        ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr,
         ast.Div: ast.Mult}


def quiet(node):
    """is this statement only about logging, printing, warning or documentation?"""
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return True
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and any(
        w in ast.unparse(node.value.func) for w in ("print", "warn", "log", "debug"))


def edits(fn):
    """(description, line, apply) for each edit; apply(copy of fn, index path) changes the copy in place.

    Nodes are identified by their position in ast.walk order, which a deep copy preserves."""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.stmt) and quiet(n):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + [a.annotation for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs
                                         if a.annotation] + ([n.returns] if n.returns else []):
                skip.update(id(x) for x in ast.walk(d))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in n.values if isinstance(x, ast.Constant))
    out = []

    def add(i, what, f):
        out.append((what, getattr(nodes[i], "lineno", fn.lineno), i, f))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant)):
            add(i, f"negate {ast.unparse(n.test)[:50]}", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
            if isinstance(n, ast.If):
                add(i, f"always {ast.unparse(n.test)[:50]}", lambda m: setattr(m, "test", ast.Constant(True)))
                add(i, f"never {ast.unparse(n.test)[:50]}", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.comprehension):
            for j, t in enumerate(n.ifs):
                add(i, f"drop filter {ast.unparse(t)[:50]}", lambda m, j=j: m.ifs.pop(j))
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                if type(o) in SWAP:
                    add(i, f"{type(o).__name__} -> {SWAP[type(o)].__name__} in {ast.unparse(n)[:50]}",
                        lambda m, j=j: m.ops.__setitem__(j, SWAP[type(m.ops[j])]()))
        if isinstance(n, ast.BoolOp):
            add(i, f"and/or in {ast.unparse(n)[:50]}",
                lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in ARITH:
            add(i, f"{type(n.op).__name__} changed in {ast.unparse(n)[:50]}",
                lambda m: setattr(m, "op", ARITH[type(m.op)]()))
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(i, f"{n.value} -> {not n.value}", lambda m: setattr(m, "value", not m.value))
            elif n.value is None:
                add(i, "None -> False", lambda m: setattr(m, "value", False))
            elif isinstance(n.value, int):
                add(i, f"{n.value} -> {n.value + 1}", lambda m: setattr(m, "value", m.value + 1))
            elif isinstance(n.value, str) and n.value:
                add(i, f"{n.value[:20]!r} changed", lambda m: setattr(m, "value", m.value + "x"))
        if isinstance(n, ast.Call):
            if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                def sw(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                add(i, f"swap arguments of {ast.unparse(n)[:50]}", sw)
            for j, k in enumerate(n.keywords):
                add(i, f"drop {k.arg or '**'} of {ast.unparse(n)[:50]}", lambda m, j=j: m.keywords.pop(j))
            if n.args:
                def rep(m):
                    a = m.args[0]
                    m.func, m.args, m.keywords = ast.Lambda(ast.arguments([], [ast.arg("x_")], None, [], [], None, []),
                                                            ast.Name("x_", ast.Load())), [a], []
                if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred) \
                        and isinstance(n.func, ast.Name):
                    add(i, f"{ast.unparse(n)[:50]} -> its argument", rep)
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for j, s in enumerate(b):
                if not isinstance(s, ast.stmt) or quiet(s) or id(s) in skip:
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break,
                                  ast.Return)) and not (isinstance(s, ast.Return) and s.value is None and j == len(b) - 1
                                                        and isinstance(n, ast.FunctionDef)):
                    add(i, f"delete {ast.unparse(s)[:50]}", lambda m, f=field, j=j: getattr(m, f).__setitem__(j, ast.Pass()))
                if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and \
                        isinstance(b[j + 1], (ast.Expr, ast.Assign, ast.AugAssign)) and not quiet(b[j + 1]):
                    def swp(m, f=field, j=j):
                        x = getattr(m, f)
                        x[j], x[j + 1] = x[j + 1], x[j]
                    add(i, f"swap with next: {ast.unparse(s)[:40]}", swp)
        if isinstance(n, ast.Try):
            if n.finalbody:
                def nofin(m):
                    if not m.handlers:
                        m.handlers = [ast.ExceptHandler(ast.Name("ZeroDivisionError", ast.Load()), None, [ast.Raise()])]
                    m.finalbody = []
                add(i, "drop finally", nofin)
            for j, h in enumerate(n.handlers):
                if len(n.handlers) > 1 or n.finalbody:
                    add(i, f"drop handler {ast.unparse(h.type) if h.type else ''}", lambda m, j=j: m.handlers.pop(j))
                else:
                    add(i, f"handler {ast.unparse(h.type) if h.type else ''} catches nothing",
                        lambda m, j=j: setattr(m.handlers[j], "type", ast.Name("ZeroDivisionError", ast.Load())))
                if h.type is not None:
                    add(i, f"handler {ast.unparse(h.type)[:30]} catches all",
                        lambda m, j=j: setattr(m.handlers[j], "type", ast.Name("BaseException", ast.Load())))
    return out


def mutate(tree, pos, edit):
    """a copy of a module's tree with one edit in the function at position pos of its walk"""
    t = copy.deepcopy(tree)
    fn = list(ast.walk(t))[pos]
    what, line, i, f = edit
    f(list(ast.walk(fn))[i])
    return ast.fix_missing_locations(t)
