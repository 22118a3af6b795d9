"""Which try statements, context managers and finally blocks can discard a
KeyboardInterrupt or SystemExit: control-flow analysis of handler bodies over the
syntax tree, path-sensitive in tests of the caught exception's type."""
import ast

INTERRUPTS = ("KeyboardInterrupt", "SystemExit")
BASES = {"KeyboardInterrupt": ("KeyboardInterrupt", "BaseException", "object"),
         "SystemExit": ("SystemExit", "BaseException", "object")}
ENDERS = {"sys.exit", "os._exit", "exit", "quit", "os.abort"}
import builtins
EXCS = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
        and issubclass(getattr(builtins, n), BaseException)}


class Ctx:
    def __init__(self, repo, mod, func):
        self.repo, self.mod, self.func = repo, mod, func
        self.imports = module_imports(mod)
        self.consts = {}
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
        self.scopes = []
        self.uses = []          # (node, name) of interrupts stored for later


def module_imports(mod):
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(cx, e):
    if isinstance(e, ast.Name):
        return cx.imports.get(e.id, e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(cx, e.value)
        return f"{b}.{e.attr}" if b else None
    return None


def covers(cx, t, exc, depth=0):
    """does the except-clause expression t catch exc: True / False / None unknown"""
    if t is None:
        return True
    if depth > 6:
        return None
    if isinstance(t, (ast.Tuple, ast.List)):
        r = [covers(cx, x, exc, depth + 1) for x in t.elts]
        return True if True in r else None if None in r else False
    if isinstance(t, ast.BinOp) and isinstance(t.op, ast.Add):
        r = [covers(cx, x, exc, depth + 1) for x in (t.left, t.right)]
        return True if True in r else None if None in r else False
    if isinstance(t, ast.IfExp):
        r = {covers(cx, t.body, exc, depth + 1), covers(cx, t.orelse, exc, depth + 1)}
        return r.pop() if len(r) == 1 else None
    if isinstance(t, ast.Starred):
        return covers(cx, t.value, exc, depth + 1)
    d = dotted(cx, t)
    if d is None:
        return None
    name = d.rsplit(".", 1)[-1] if d.startswith("builtins.") else d
    if name in BASES[exc]:
        return True
    if name in EXCS:
        return False
    if name in cx.consts and isinstance(t, ast.Name):
        return covers(cx, cx.consts[name], exc, depth + 1)
    # a class of the repository
    r = class_covers(cx, name, exc, depth)
    if r is not None:
        return r
    if "." in d and d.split(".")[0] in ("binascii", "struct", "json", "pickle", "zlib", "re", "queue",
                                        "shutil", "socket", "subprocess", "multiprocessing",
                                        "concurrent", "pyarrow", "pandas", "numpy"):
        return False
    return None


def class_covers(cx, name, exc, depth):
    last = name.rsplit(".", 1)[-1]
    for q, c in cx.repo.classes.items():
        if c.name == last and (q == name or c.mod is cx.mod):
            return False
    return None


# ---------------------------------------------------------------- handler bodies
RERAISE, CONVERT, END, FALL, LEAVE = "reraise", "convert", "end", "fall", "leave"


def block(cx, stmts, exc, var, seen=()):
    """how executing stmts can end while handling exc: [(outcome, node)]"""
    out = []
    for s in stmts:
        r = stmt(cx, s, exc, var, seen)
        out += [x for x in r if x[0] != FALL]
        if not any(x[0] == FALL for x in r):
            return out
    return out + [(FALL, stmts[-1] if stmts else None)]


def cond(cx, e, exc, var):
    """truth of a test about the caught exception, None if unknown"""
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = cond(cx, e.operand, exc, var)
        return None if r is None else not r
    if isinstance(e, ast.BoolOp):
        rs = [cond(cx, x, exc, var) for x in e.values]
        if isinstance(e.op, ast.And):
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) == 2:
        a, b = e.args
        if isinstance(a, ast.Name) and a.id == var and e.func.id == "isinstance":
            return covers(cx, b, exc)
        if e.func.id == "issubclass" and is_type_of(a, var):
            return covers(cx, b, exc)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = e.left, e.comparators[0]
        op = e.ops[0]
        if is_type_of(a, var):
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                d = dotted(cx, b)
                r = None if d is None else d.rsplit(".", 1)[-1] == exc
            elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
                ds = [dotted(cx, x) for x in b.elts]
                r = True if exc in ds else None if None in ds else False
            else:
                return None
            return r if r is None or isinstance(op, (ast.Is, ast.Eq, ast.In)) else not r
    return None


def is_type_of(a, var):
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "type" and \
            len(a.args) == 1 and isinstance(a.args[0], ast.Name) and a.args[0].id == var:
        return True
    return isinstance(a, ast.Attribute) and a.attr == "__class__" and \
        isinstance(a.value, ast.Name) and a.value.id == var


def stmt(cx, s, exc, var, seen):
    if isinstance(s, ast.Raise):
        if s.exc is None:
            return [(RERAISE, s)]
        e = s.exc
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == "with_traceback":
            e = e.func.value
        if isinstance(e, ast.Name) and e.id == var:
            return [(RERAISE, s)]
        t = e.func if isinstance(e, ast.Call) else e
        d = dotted(cx, t)
        if d in INTERRUPTS or d == "BaseException":
            return [(RERAISE, s)]
        known = d in EXCS or class_covers(cx, d, exc, 0) is not None if d else False
        return [(CONVERT if known else END, s)]
    if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
        if isinstance(s, ast.Return) and s.value is not None and ends(cx, s.value, seen):
            return [(END, s)]
        if isinstance(s, ast.Return) and s.value is not None and var and any(
                isinstance(x, ast.Name) and x.id == var for x in ast.walk(s.value)) and not \
                isinstance(s.value, ast.Constant):
            if isinstance(s.value, ast.Call):
                return [(END, s)] if ends(cx, s.value, seen) is None else [(LEAVE, s)]
        return [(LEAVE, s)]
    if isinstance(s, ast.Expr):
        if ends(cx, s.value, seen):
            return [(END, s)]
        return [(FALL, s)]
    if isinstance(s, ast.If):
        r = cond(cx, s.test, exc, var)
        out = []
        if r is not False:
            out += block(cx, s.body, exc, var, seen)
        if r is not True:
            out += block(cx, s.orelse, exc, var, seen) if s.orelse else [(FALL, s)]
        return out
    if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
        inner = block(cx, s.body, exc, var, seen)
        out = [x for x in inner if x[0] in (RERAISE, CONVERT, END) or
               x[0] == LEAVE and isinstance(x[1], ast.Return)]
        forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        if forever and not any(isinstance(x[1], ast.Break) for x in inner):
            return out or [(END, s)]
        tail = block(cx, s.orelse, exc, var, seen) if s.orelse else [(FALL, s)]
        return out + tail
    if isinstance(s, (ast.With, ast.AsyncWith)):
        sup = any(suppresses(cx, i.context_expr, exc) is not False for i in s.items
                  if suppresses(cx, i.context_expr, exc) is not None or False)
        r = block(cx, s.body, exc, var, seen)
        if sup and any(x[0] in (RERAISE,) for x in r):
            r = [x for x in r if x[0] != RERAISE] + [(FALL, s)]
        return r
    if isinstance(s, ast.Try):
        r = block(cx, s.body, exc, var, seen)
        out = []
        for o, n in r:
            if o == RERAISE:
                h = [h for h in s.handlers if covers(cx, h.type, exc) is True]
                if h:
                    out += block(cx, h[0].body, exc, h[0].name, seen)
                    continue
            if o == FALL and s.orelse:
                out += block(cx, s.orelse, exc, var, seen)
                continue
            out.append((o, n))
        if s.finalbody:
            f = block(cx, s.finalbody, exc, var, seen)
            over = [x for x in f if x[0] != FALL]
            if not any(x[0] == FALL for x in f):
                return over
            return out + over
        # a handler for ordinary errors inside: its body may complete
        for h in s.handlers:
            if any(x[0] in (END, CONVERT) for x in out):
                pass
        return out
    if isinstance(s, ast.Match):
        out = []
        for k in s.cases:
            out += block(cx, k.body, exc, var, seen)
        return out + [(FALL, s)]
    return [(FALL, s)]


def suppresses(cx, e, exc):
    """contextlib.suppress(...) of this exception: True / False, None if not a suppress"""
    if isinstance(e, ast.Call):
        d = dotted(cx, e.func)
        if d in ("contextlib.suppress", "suppress"):
            r = [covers(cx, a, exc) for a in e.args]
            return True if True in r else None if None in r else False
    return None


def ends(cx, e, seen):
    """does evaluating this call never return: True / False / None unknown callee"""
    if isinstance(e, ast.Await):
        e = e.value
    if not isinstance(e, ast.Call):
        return False
    d = dotted(cx, e.func)
    if d in ENDERS:
        return True
    for f in callees(cx, e, d):
        if f.qual in seen or f.body is None:
            continue
        sub = Ctx(cx.repo, f.mod, f)
        r = block(sub, f.body, "KeyboardInterrupt", None, seen + (f.qual,))
        if not any(x[0] in (FALL, LEAVE) for x in r):
            return True
        return False
    return None


def callees(cx, e, d):
    out = []
    if d and d in cx.repo.funcs:
        out.append(cx.repo.funcs[d])
    elif isinstance(e.func, ast.Name):
        for q in (f"{cx.mod.name}.{e.func.id}",
                  f"{cx.func.qual}.<locals>.{e.func.id}" if cx.func else ""):
            if q in cx.repo.funcs:
                out.append(cx.repo.funcs[q])
    elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
            e.func.value.id in ("self", "cls") and cx.func is not None and cx.func.cls is not None:
        q = cx.func.cls.methods.get(e.func.attr)
        if q in cx.repo.funcs:
            out.append(cx.repo.funcs[q])
    return out


# ------------------------------------------------------------------- reporting
def stored(h):
    """names / attributes the handler keeps the exception under"""
    out = set()
    for s in h.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and h.name and any(
                    isinstance(x, ast.Name) and x.id == h.name for x in ast.walk(n.value)):
                for t in n.targets:
                    out.add(ast.dump(t).replace("Store()", "Load()"))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and h.name and \
                    n.func.attr in ("append", "put", "add") and any(
                        isinstance(x, ast.Name) and x.id == h.name for a in n.args for x in ast.walk(a)):
                out.add(ast.dump(n.func.value))
    return out


def raised_later(scope, names, after):
    for n in ast.walk(scope):
        if isinstance(n, ast.Raise) and n.exc is not None and n.lineno > after:
            for x in ast.walk(n.exc):
                if ast.dump(x) in names:
                    return True
    return False


def own(scope):
    """nodes of a scope without those of nested functions"""
    body = scope.body if isinstance(scope.body, list) else [scope.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def inspect(repo):
    """[(status, what, mod, func, node, exc, text)] status: held, bad, und"""
    for m in repo.modules.values():
        scopes = [(None, m.tree)] + [(f, f.node) for f in repo.funcs.values() if f.mod is m]
        for f, scope in scopes:
            cx = Ctx(repo, m, f)
            for n in own(scope):
                if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
                    yield from try_statement(cx, m, f, scope, n)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        for exc in INTERRUPTS:
                            r = suppresses(cx, i.context_expr, exc)
                            if r is True:
                                yield ("bad", "suppress", m, f, n, exc,
                                       f"{exc} is suppressed by a context manager")
                            elif r is False:
                                yield ("held", "suppress", m, f, n, exc, "")
            if f is not None and f.cls is not None and f.name == "__exit__":
                yield from exit_method(cx, m, f)


def exit_method(cx, m, f):
    rets = [n for n in own(f.node) if isinstance(n, ast.Return) and n.value is not None]
    vals = [n for n in rets if not (isinstance(n.value, ast.Constant) and not n.value.value)]
    sure = [n for n in vals if isinstance(n.value, ast.Constant)]
    if sure:
        guarded = [n for n in ast.walk(f.node) if isinstance(n, ast.If)
                   and any(x is r for r in sure for x in ast.walk(n))]
        if guarded:
            yield ("und", "__exit__", m, f, sure[0], "KeyboardInterrupt", "conditional truthy return")
        else:
            yield ("bad", "__exit__", m, f, sure[0], "KeyboardInterrupt",
                   f"{f.qual} returns {ast.unparse(sure[0].value)}, which discards any interrupt "
                   "raised in the with block")
    elif vals:
        yield ("und", "__exit__", m, f, vals[0], "KeyboardInterrupt", "returns a computed value")
    else:
        yield ("held", "__exit__", m, f, f.node, "KeyboardInterrupt", "")


def try_statement(cx, m, f, scope, n):
    for exc in INTERRUPTS:
        for h in n.handlers:
            r = covers(cx, h.type, exc)
            if r is False:
                continue
            if r is None:
                yield ("und", "handler", m, f, h, exc, f"catches {ast.unparse(h.type)}")
                continue
            outs = block(cx, h.body, exc, h.name)
            lost = [(o, x) for o, x in outs if o in (FALL, LEAVE, CONVERT)]
            if not lost:
                yield ("held", "handler", m, f, h, exc, "")
            elif stored(h) and raised_later(scope, stored(h), h.lineno):
                yield ("und", "handler", m, f, h, exc, "kept and raised later")
            else:
                o, x = lost[0]
                how = {FALL: "the handler completes", LEAVE: "the handler leaves",
                       CONVERT: "it is replaced by another exception"}[o]
                yield ("bad", "handler", m, f, x or h, exc,
                       f"a caught {exc} does not reach the caller: {how} "
                       f"(except {ast.unparse(h.type) if h.type else ''})".replace(" )", ")"))
            break
        else:
            yield ("held", "no handler", m, f, n, exc, "")
    if n.finalbody:
        outs = block(cx, n.finalbody, "KeyboardInterrupt", None)
        left = [x for o, x in outs if o == LEAVE]
        if left:
            yield ("bad", "finally", m, f, left[0], "KeyboardInterrupt",
                   "a finally block leaves by return, break or continue, which discards an interrupt")
        else:
            yield ("held", "finally", m, f, n, "KeyboardInterrupt", "")
