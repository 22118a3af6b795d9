"""R01 files closed, R02 bounded reads, R03 no execution of data, R04 scraping."""
import ast
import re
from . import prop
from .lib import *

OPENERS = {"open", "fdopen", "ParquetFile", "ParquetWriter", "ZipFile", "TarFile", "NamedTemporaryFile",
           "TemporaryFile", "GzipFile", "BZ2File", "LZMAFile", "mmap", "memory_map", "OSFile", "open_file",
           "SpooledTemporaryFile"}
ANCHORS = ("scrape.get_label_text", "scrape.head_file", "scrape.trim_label", "mosaic.sort_chunked",
           "tracker.Tracker.dump", "codex.implements.Notepad.dump", "codex.implements.log")
FAULTS = ("OSError", "RuntimeError")
HANDOVER = {"enter_context", "push", "callback", "finalize", "closing", "register", "append"}


def called(node):
    """last names of everything called (or passed on by name) in a function's own body"""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add(x.id)
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            out.add(x.attr)
    return out


def leaks(I, events, kind, v, s):
    """[(file, open event)] not closed by the end of the events; None entries are undecided"""
    opened = {}
    handed = set()
    out = []

    def walk(evs, opened, body):
        for e in evs:
            if e[0] == "loop":
                for k, conds, ev, up, val in e[3]:
                    inner = {}
                    walk(ev, inner, True)
                    if k not in ("raise",):
                        for f, o in inner.items():
                            out.append((f, o))
                    for x in flat(list(ev)):
                        if x[0] == "file" and x[1] == "close":
                            opened.pop(x[2], None)
            elif e[0] == "file" and e[1] == "open":
                opened[e[2]] = e
            elif e[0] == "file" and e[1] == "close":
                opened.pop(e[2], None)
            elif e[0] in ("setattr", "hset", "setglobal", "mut"):
                for x in e[1:]:
                    if isinstance(x, tuple):
                        handed.update(y for y in subterms(x) if isinstance(y, tuple) and y and y[0] == "o")
            elif e[0] == "call":
                f = e[1]
                nm = f[3] if is_app(f, "attr") else f[1].split(".")[-1] if f[0] == "x" else ""
                if nm in HANDOVER:
                    for x in e[2:]:
                        if isinstance(x, tuple):
                            handed.update(y for y in subterms(x) if isinstance(y, tuple) and y and y[0] == "o")
    walk(events, opened, False)
    if kind == "return":
        handed.update(y for y in subterms(I.freeze(v, s)) if isinstance(y, tuple) and y and y[0] == "o")
        if isinstance(v, tuple):
            handed.update(y for y in subterms(v) if isinstance(y, tuple) and y and y[0] == "o")
    return [(f, o) for f, o in list(opened.items()) + out if f not in handed], handed & set(opened)


@prop("R01", "Typestate of every file, reader and writer the package opens, over all paths of every function that "
      "opens one (found by name resolution), with a failure injected at every input/output operation and every "
      "call of unknown code: on each path, returning or raising, an opened file that is not handed to the caller "
      "must have been closed.")
def r01(c):
    c.rule("closed", "on every path, an opened file that is not handed to the caller is closed")
    for a in ANCHORS:
        c.repo.func(a)
    todo, seen, openers = list(ANCHORS), set(), set(OPENERS)
    funcs = {q: f for q, f in c.repo.funcs.items() if "test_utils" not in q and "<lambda>" not in q}
    while True:
        for q, f in funcs.items():
            if q.split(".", 1)[-1] not in todo and called(f.node) & openers and f.parent is None:
                todo.append(q.split(".", 1)[-1])
        new = [q for q in todo if q not in seen]
        if not new:
            break
        for q in new:
            seen.add(q)
            with c.group(q):
                f = c.repo.func(q)
                if r01_one(c, f, q):
                    openers.add(f.qual.split(".")[-1])


def r01_one(c, f, q):
    """analyse one function; True when it hands an open file to its caller"""
    hands = False
    hooks = {}
    for nm in ("mosaic.parquet_metadata_records", "mosaic.read_between"):
        fn = c.repo.funcs.get("dustgoggles." + nm)
        if fn is not None and fn.qual != f.qual and not called(fn.node) & OPENERS:
            hooks[fn.qual] = opaque("dustgoggles." + nm)
    I = c.interp(hooks=hooks, raises=lambda kind, fv: FAULTS, budget=3000000)
    loc = fn_loc(c.repo, q)
    pos = [S(p) for p in f.params()]
    kws = [(p, S(p)) for p in f.kwonly()]
    # options that only pass through stay at their defaults
    nd = len(f.node.args.defaults)
    if nd and q == "mosaic.sort_chunked":
        pos = pos[:len(pos) - nd]
    if f.cls:
        kinds = {}
    n = 0
    for k, v, s in c.run(I, q, pos, kws):
        lost, handed = leaks(I, s.events(), k, v, s)
        hands = hands or bool(handed) and k == "return"
        opened = [e for e in flat(s.events()) if e[0] == "file" and e[1] == "open"]
        n += len(opened)
        if lost:
            o = lost[0][1]
            how = "when the operation returns" if k == "return" else f"when {exc_text(v)}"
            c.bad("closed", "closed", loc_of(o), f"{file_text(o)} stays open {how}", s.events())
        elif opened:
            c.ok("closed")
    return hands


def exc_text(v):
    if is_app(v, "uexc"):
        t = v[4]
        return f"{show(t)[:60]} fails"
    return f"{exc_kind(v)} is raised"


def file_text(e):
    if isinstance(e[3], tuple) and e[3] and e[3][0][0] == "x":
        return f"the {e[3][0][1].split('.')[-1]}"
    return "the file " + show(e[3][0])[:40] if e[3] else "a file"


def opaque(name, fail=True):
    def h(I, fv, args, kws, st, n, fid):
        if fail:
            I.maybe_raise(st, "call", X(name), I.loc(n, fid))
        t = A("call", X(name), tuple(I.freeze(a, st) for a in args),
              tuple((k, I.freeze(v, st)) for k, v in kws), I.new())
        st.ev("call", X(name), t[3], t[4], t, I.loc(n, fid))
        return [(t, st)]
    return h


# ------------------------------------------------------------------ R02
WHOLE = {"read_bytes", "read_text", "readall", "readlines", "getvalue"}


@prop("R02", "Effect analysis of the label readers: every operation on the opened file (or the caller's reader) on "
      "every path is collected; there must be exactly one read, its size must be the limit the caller gave, the "
      "file must have been opened in binary mode, and nothing may iterate over it or read it in another way.")
def r02(c):
    c.rule("bounded", "each path reads a source once, by the caller's limit, in binary mode")
    c.rule("position", "the source is not repositioned before it is read")
    c.rule("content", "what was read is what is returned")
    n, src = S("limit"), S("source")
    for q, names in (("scrape.get_label_text", ("label", "byte_size")), ("scrape.head_file", ("fn_or_reader", "nbytes")),
                     ("scrape.trim_label", ("fn", "max_size"))):
        f = c.repo.func(q)
        loc = fn_loc(c.repo, q)
        ps = f.params()
        for given in (True, False):
            if not given and len(f.node.args.defaults) == 0:
                continue
            with c.group(f"{q}{'' if given else ' with its default limit'}"):
                I = c.interp()
                outs = c.run(I, q, [src] + ([n] if given else []))
                for k, v, s in outs:
                    if k == "return":
                        reads(c, I, q, I.freeze(v, s), v, s, src, n if given else None, loc)
    for q in ("scrape.scrape_from_file", "scrape.scrape_patterns"):
        c.repo.func(q)
    with c.group("the loaders of the scraping functions"):
        for q, args in (("scrape.scrape_from_file", [src, S("pattern")]),
                        ("scrape.scrape_patterns", [src, S("fields")])):
            I = c.interp(ext={"re.search": lambda I, a, kw, st, nn, fid: [
                (A("call", X("re.search"), tuple(a), (), I.new()), st)]})
            loc = fn_loc(c.repo, q)
            for k, v, s in c.run(I, q, args):
                ops = file_ops(s, src)
                if k != "return":
                    continue
                for e, name, size in ops:
                    c.must(name != "whole", "limit", "bounded", loc_of(e), f"{q} reads the file without a limit",
                           s.events())
                    if name == "read":
                        c.must(size is not None and is_c(size) and isinstance(cval(size), int) and cval(size) >= 0,
                               "limit", "bounded", loc_of(e), f"{q} reads the file without a limit", s.events())


def file_ops(s, src):
    """[(event, 'read'|'whole'|other, size)] on the source or files opened from it"""
    out, mem = [], set()
    for e in flat(s.events()):
        if e[0] == "file" and e[1] not in ("open", "close", "write", "enter", "exit"):
            o = s.heap.get(e[2][1]) if e[2][0] == "o" else None
            if o is not None and o.x and o.x[0] == "mem":
                continue
            out.append(op(e, e[1], e[3], dict(e[6]) if len(e) > 6 else {}))
        elif e[0] == "call" and is_app(e[1], "attr"):
            name, recv = e[1][3], e[1][2]
            if recv == src or is_app(recv, "call") and recv[2] == X("pathlib.Path") and src in recv[3]:
                if name in ("close", "exists", "is_file", "stat", "seekable", "readable", "as_posix", "absolute",
                            "resolve", "expanduser", "name"):
                    continue
                out.append(op(e, name, e[2], dict(e[3]) if isinstance(e[3], tuple) and all(
                    isinstance(x, tuple) and len(x) == 2 for x in e[3]) else {}))
        elif e[0] == "iter" and isinstance(e[1], tuple) and (e[1] == src or e[1][0] == "o" and s.heap.get(
                e[1][1]) is not None and s.heap[e[1][1]].kind == "file" and s.heap[e[1][1]].x[0] != "mem"):
            out.append((e, "iter", None))
    return out


def op(e, name, args, kws):
    if name == "read":
        size = args[0] if args else kws.get("size", kws.get("n"))
        if size is None or size in (NONE, C(-1)):
            return e, "whole", None
        return e, "read", size
    if name in WHOLE:
        return e, "whole", None
    return e, name, args[0] if args else None


def reads(c, I, q, v, raw, s, src, limit, loc):
    ops = file_ops(s, src)
    for e in flat(s.events()):
        if e[0] == "file" and e[1] == "open":
            if e[3] and e[3][0][0] == "x":
                raise Undecided("open", show(e[3][0]))
            if len(e[3]) > 1 and is_c(e[3][1]):
                m = cval(e[3][1])
                c.must("b" in m, "mode", "bounded", loc_of(e),
                       "the file is read as text, whose limit counts characters, not bytes", s.events())
    in_loop = [e for l in s.events() if l[0] == "loop" for e in flat([l])]
    n = 0
    for e, name, size in ops:
        if name == "whole":
            c.bad("limit", "bounded", loc_of(e), "the file is read without a limit", s.events())
            return
        if name == "iter" or name in ("readline", "readlines", "__iter__", "__next__"):
            c.bad("limit", "bounded", loc_of(e), "the file is read line by line, whatever the limit", s.events())
            return
        if name == "read":
            n += 1
            if any(e is x for x in in_loop):
                raise Undecided("limit", "read in a loop")
            if limit is None:
                c.must(is_c(size) and isinstance(cval(size), int) and cval(size) >= 0 if is_c(size) else None,
                       "limit", "bounded", loc_of(e), f"the file is read by {show(size)}", s.events())
            elif size == limit:
                c.ok("limit")
            elif is_c(size) or mentions(size, limit) and bigger(size, limit) or is_app(size, "lin"):
                c.bad("limit", "bounded", loc_of(e), f"{show(size)[:60]} bytes are read instead of the limit", s.events())
                return
            else:
                raise Undecided("limit", show(size)[:60])
        elif name in ("seek",):
            if n == 0:
                c.must(size == C(0) and e[0] == "file", "position", "position", loc_of(e),
                       "the source is repositioned before it is read", s.events())
        elif name in ("readinto", "peek", "read1", "readinto1", "detach"):
            raise Undecided("limit", name)
    if n == 0:
        if opaque_parts(v) or any(is_app(x, "call") for x in subterms(v)):
            raise Undecided("limit", "no read recognised")
        c.bad("limit", "bounded", loc, "nothing is read", s.events())
        return
    c.must(n == 1, "one pass", "bounded", loc, "the source is read more than once", s.events())
    data = [e[5] if e[0] == "file" else next((x for x in e if isinstance(x, tuple) and x and is_app(x, "call") and x[2] == e[1]), None)
            for e, name, size in ops if name == "read"]
    if q.endswith("get_label_text"):
        if v == A("dec", data[0]) or is_app(v, "dec") and v[2] == data[0]:
            c.ok("content")
        elif is_app(v, "item") or is_app(v, "call") and is_app(v[2], "attr") and v[2][3] in ("strip", "lstrip", "rstrip") \
                and mentions(v, data[0]) or is_c(v):
            c.bad("content", "content", loc, f"only part of what was read is returned", s.events())
        else:
            raise Undecided("content", show(v)[:80])
    if q.endswith("head_file") and raw[0] == "o":
        o = s.obj(raw)
        if o is not None and o.x and o.x[0] == "mem":
            seq = [e for e in flat(s.events()) if e[0] == "file" and e[2] == raw]
            writes = [e for e in seq if e[1] == "write"]
            if writes:
                c.must(seq[-1][1] == "seek" and seq[-1][3] == (C(0),), "buffer", "content", loc,
                       "the buffer is returned at its end", s.events())


def bigger(t, limit):
    """is this certainly more than the limit for some limit?"""
    return is_app(t, "mul") or is_app(t, "add") or is_app(t, "lin") or is_app(t, "max")


# ------------------------------------------------------------------ R03
EXEC = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "code.InteractiveInterpreter",
        "code.interact", "runpy.run_path", "runpy.run_module", "codeop.compile_command", "timeit.timeit",
        "os.system", "os.popen", "pandas.eval", "importlib.import_module", "types.FunctionType", "types.CodeType",
        "importlib.util.spec_from_file_location", "importlib.util.module_from_spec", "sympy.sympify", "numexpr.evaluate",
        "ctypes.CDLL", "ast.parse"}
EXEC_OK_CONST = {"importlib.import_module", "builtins.__import__", "ast.parse"}
EXEC_NEEDS_DATA = {"ast.parse", "types.FunctionType", "types.CodeType"}
UNPICKLE = {f"{m}.{n}" for m in ("pickle", "cPickle", "_pickle", "dill", "cloudpickle", "joblib", "marshal", "shelve")
            for n in ("load", "loads", "Unpickler", "open")} | {
    "pandas.read_pickle", "yaml.load", "yaml.unsafe_load", "yaml.full_load", "torch.load",
    "multiprocessing.reduction.ForkingPickler", "multiprocessing.reduction.ForkingPickler.loads",
    "jsonpickle.decode"}
NPLOAD = {"numpy.load", "numpy.lib.format.read_array", "numpy.memmap"}
SHELL = {"subprocess." + x for x in ("run", "call", "check_call", "check_output", "Popen", "getoutput", "getstatusoutput")}
BUILTIN_NAMES = {x.split(".")[1] for x in EXEC if x.startswith("builtins.")}


class Names(ast.NodeVisitor):
    """(dotted name, node, enclosing function) of every external name a module mentions"""

    def __init__(self, mod):
        self.mod, self.out = mod, []
        self.alias = {}
        self.scopes, self.fns = [], []
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.alias[a.asname or a.name] = f"{n.module}.{a.name}"
        top = set()
        for n in mod.tree.body:
            top |= bound_by(n)
        self.scopes.append(top)
        # plain re-namings of imported things: f = pickle.loads
        self.visit(mod.tree)

    def local(self, name):
        return any(name in s for s in self.scopes)

    def dotted(self, n):
        if isinstance(n, ast.Name):
            if n.id in self.alias and not any(n.id in s for s in self.scopes[1:]):
                return self.alias[n.id]
            if n.id in BUILTIN_NAMES and not self.local(n.id):
                return f"builtins.{n.id}"
            if n.id == "__builtins__":
                return "builtins"
            return None
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return f"{b}.{n.attr}" if b else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 \
                and isinstance(n.args[1], ast.Constant):
            b = self.dotted(n.args[0])
            return f"{b}.{n.args[1].value}" if b else None
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
            b = self.dotted(n.value)
            if b is None and isinstance(n.value, ast.Call):
                return None
            return f"{b}.{n.slice.value}" if b == "builtins" else None
        if isinstance(n, ast.Call) and self.dotted(n.func) in ("builtins.__import__", "importlib.import_module") \
                and n.args and isinstance(n.args[0], ast.Constant):
            return str(n.args[0].value)
        return None

    def fn(self, n, name):
        self.fns.append(name)
        self.scopes.append(params_of(n) | {x for b in ([n.body] if isinstance(n, ast.Lambda) else n.body)
                                           for x in bound_by(b)})
        self.generic_visit(n)
        self.scopes.pop()
        self.fns.pop()

    def visit_FunctionDef(self, n):
        self.fn(n, n.name)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.fn(n, "<lambda>")

    def visit_ClassDef(self, n):
        self.fns.append(n.name)
        self.generic_visit(n)
        self.fns.pop()

    def visit_Call(self, n):
        self.seen(n)
        self.seen(n.func, n)
        for x in list(n.args) + [k.value for k in n.keywords]:
            self.visit(x)
        if isinstance(n.func, (ast.Attribute, ast.Call, ast.Subscript)) and self.dotted(n.func) is None:
            self.visit(n.func)

    def seen(self, n, call=None):
        d = self.dotted(n)
        if d:
            self.out.append((d, n, call, tuple(self.fns)))
        return d

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.seen(n)

    def visit_Attribute(self, n):
        if not self.seen(n):
            self.generic_visit(n)

    def visit_Subscript(self, n):
        if not self.seen(n):
            self.generic_visit(n)


def params_of(n):
    a = n.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def bound_by(n):
    """names a statement binds in its own scope (imports excluded)"""
    out = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        stack.extend(ast.iter_child_nodes(x))
    return out


@prop("R03", "Name resolution over every module: each mention of a name (through imports, aliases, attributes, getattr "
      "and subscripts of builtins) that evaluates code, unpickles or runs commands is listed; only the dynamic "
      "function module may compile, only the pickle codec may unpickle, and no other codec may refer to that codec.")
def r03(c):
    c.rule("evaluate", "nothing outside the dynamic function module evaluates or compiles source")
    c.rule("unpickle", "nothing but the pickle codec unpickles")
    c.rule("commands", "no data reach a command interpreter")
    for a in ("scrape.make_scraper", "codex.codecs.ast_codec_factory", "codex.codecs.json_codec_factory",
              "codex.codecs.pickle_codec_factory"):
        c.repo.func(a)
    for name, m in sorted(c.repo.modules.items()):
        if "test_utils" in name:
            continue
        with c.group(name):
            N = Names(m)
            file = m.name.replace(".", "/") + ".py"
            dyn = name.endswith(".dynamic")
            cod = name.endswith("codex.codecs")
            c.functions.add(name)
            bad = 0
            for d, node, call, fns in N.out:
                at = (file, node.lineno, ".".join((m.name,) + fns))
                const = call is not None and call.args and all(isinstance(a, ast.Constant) for a in call.args)
                if d in EXEC and not dyn:
                    if d in EXEC_OK_CONST and const:
                        continue
                    if d in EXEC_NEEDS_DATA and (call is None or const):
                        continue
                    if d in EXEC_NEEDS_DATA:
                        c.und(d, f"{d} outside the dynamic function module")
                        continue
                    if const and d == "builtins.compile":
                        continue
                    bad += 1
                    c.bad(d, "evaluate", at, f"{d} is used outside the dynamic function module")
                elif d in UNPICKLE:
                    if cod and fns and fns[0] == "pickle_codec_factory":
                        c.ok("the pickle codec")
                        continue
                    bad += 1
                    c.bad(d, "unpickle", at, f"{d} is used outside the pickle codec")
                elif d in NPLOAD and call is not None:
                    kw = {k.arg: k.value for k in call.keywords}
                    ap = kw.get("allow_pickle")
                    if ap is None or isinstance(ap, ast.Constant) and not ap.value or d == "numpy.memmap":
                        continue
                    bad += 1
                    c.bad(d, "unpickle", at, f"{d} may unpickle")
                elif d in SHELL:
                    kw = {k.arg: k.value for k in call.keywords} if call is not None else {}
                    sh = kw.get("shell")
                    if call is not None and const:
                        continue
                    if sh is not None and not (isinstance(sh, ast.Constant) and not sh.value) or d.endswith("output") \
                            and d != "subprocess.check_output":
                        bad += 1
                        c.bad(d, "commands", at, f"{d} hands data to a shell")
                    else:
                        c.und(d, "a command is run")
                elif d.endswith("pickle_codec_factory") and cod and fns and fns[0] != "pickle_codec_factory":
                    bad += 1
                    c.bad(d, "unpickle", at, "another codec falls back on the pickle codec")
            if cod:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.FunctionDef) and n.name != "pickle_codec_factory" and n in m.tree.body:
                        for x in ast.walk(n):
                            if isinstance(x, ast.Name) and x.id == "pickle_codec_factory":
                                bad += 1
                                c.bad("fallback", "unpickle", (file, x.lineno, f"{m.name}.{n.name}"),
                                      "another codec falls back on the pickle codec")
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("eval", "query") \
                        and N.dotted(n.func) is None and n.args and not isinstance(n.args[0], ast.Constant):
                    c.und(n.func.attr, f"{file}:{n.lineno} evaluates an expression")
            if not bad:
                c.ok(f"{len(N.out)} external names")


# ------------------------------------------------------------------ R04
LITERAL = ("ValueError", "SyntaxError", "TypeError", "MemoryError", "RecursionError")
LIT = X("ast.literal_eval")


STRS = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "replace", "encode", "split", "casefold",
        "capitalize", "splitlines", "swapcase"}


def parsing_fault(e):
    """an injected failure of literal parsing"""
    return is_app(e, "exc") and e[2] in LITERAL or is_app(e, "uexc")


def parsed(t):
    """what a literal was parsed from"""
    if is_app(t, "loads") and t[2] == "literal":
        return t[3]
    if is_app(t, "call") and t[2] == LIT and len(t[3]) == 1:
        return t[3][0]
    return None


@prop("R04", "Path-sensitive interpretation of make_scraper's function with every failure of literal parsing injected "
      "at the parsing call: the outcomes must be None without a match, the parsed group, or the group's text after "
      "a failed parse; scrape_patterns' result is compared part by part with one entry per requested field "
      "followed by the supplementary results.")
def r04(c):
    c.rule("absent", "a pattern that is not found gives None")
    c.rule("group", "a found pattern gives its group as a literal, or as text if it is none")
    c.rule("fields", "one entry per requested field, in order, supplementary results last")
    c.rule("subframe", "the numbers of the first subframe block, in order, however they are padded")
    q = "scrape.make_scraper"
    loc = fn_loc(c.repo, q)
    text, pat = S("text"), S("pattern")
    with c.group("make_scraper"):
        scraper(c, q, loc, text, pat)
    with c.group("scrape_from_file"):
        from_file(c)
    for sup in (False, True):
        with c.group(f"scrape_patterns {'with' if sup else 'without'} supplementary search"):
            patterns(c, sup)
    with c.group("bulk_scrape_metadata"):
        bulk(c)
    with c.group("scrape_subframe"):
        subframe(c)


LABEL = "LINES = 12\nSUBFRAME = X\n  ROW = 0001\n  COL = 20\nEND_GROUP\nOTHER = 7\nEND\n"


def flags_of(ts):
    """the re flags a list of terms denotes, or None"""
    out = 0
    for t in ts:
        if is_c(t) and isinstance(t[2], int):
            out |= t[2]
        elif t[0] == "x" and t[1].startswith("re.") and isinstance(getattr(re, t[1][3:], None), re.RegexFlag):
            out |= getattr(re, t[1][3:])
        elif is_app(t, "|") or is_app(t, "binop") and t[2] == "|":
            f = flags_of(t[-2:])
            if f is None:
                return None
            out |= f
        else:
            return None
    return out


def regex(t, name):
    """(compiled constant pattern, text) of a re.<name> call in either form, or None"""
    if not is_app(t, "call"):
        return None
    f, kw = t[2], dict(t[4])
    if f == X("re." + name):
        a = list(t[3])
        p = a.pop(0) if a else kw.get("pattern")
        x = a.pop(0) if a else kw.get("string")
        fl = a or [v for k, v in t[4] if k == "flags"]
    elif is_app(f, "attr") and f[3] == name:
        p, x, fl = f[2], (t[3] + (kw.get("string"),))[0], []
        if len(t[3]) > 1:
            return None
    else:
        return None
    if p is not None and is_app(p, "call") and p[2] == X("re.compile"):
        fl = list(fl) + list(p[3][1:]) + [v for _, v in p[4]]
        p = p[3][0] if p[3] else None
    if p is None or x is None or not is_c(p) or not isinstance(p[2], str):
        return None
    fl = flags_of(fl)
    try:
        return None if fl is None else (re.compile(p[2], fl), x)
    except re.error:
        return None


def subframe(c):
    q = "scrape.scrape_subframe"
    loc = fn_loc(c.repo, q)
    text = S("text")
    I = c.interp(raises=lambda kind, fv: LITERAL if kind == "literal" else ())
    for k, v, s in c.run(I, q, [text]):
        if k != "return":
            if exc_kind(v) in LITERAL and any(e[0] == "raise" and parsing_fault(e[1]) for e in flat(s.events())):
                c.bad("subframe", "subframe", loc, f"a {exc_kind(v)} of literal parsing escapes: a zero-padded number is "
                      "no literal", s.events())
                continue
            if exc_kind(v) in ("AttributeError", "ValueError", "IndexError", "KeyError", "TypeError") and s.facts:
                continue  # no such block
            raise Undecided("subframe", exc_kind(v))
        v = I.freeze(v, s)
        if is_c(v) and not any(NONE in a[2:] or is_app(a, "truthy") for a in s.facts):
            c.bad("subframe", "subframe", loc, "no numbers are returned", s.events())
            continue
        if any(t and is_app(a, "is") and NONE in a[2:] or not t and is_app(a, "truthy") for a, t in s.facts.items()) \
                and not any(is_app(x, "elem") for x in subterms(v)):
            continue  # no such block
        if any(parsed(x) is not None for x in subterms(v)):
            c.bad("subframe", "subframe", loc, "the numbers are parsed as literals, which a zero-padded one is not",
                  s.events())
            continue
        ps = parts(v)
        if is_app(v, "sorted") or is_app(v, "set") or is_app(v, "reversed"):
            c.bad("subframe", "subframe", loc, "the numbers are not kept in order", s.events())
            continue
        if ps is None or len(ps) != 1 or ps[0][0] not in ("many", "*"):
            raise Undecided("subframe", show(v)[:80])
        src = ps[0][1]
        if ps[0][0] == "*":
            if regex(src, "findall") is not None:
                c.bad("subframe", "subframe", loc, "the numbers are left as text", s.events())
                continue
            raise Undecided("subframe", show(v)[:80])
        found = regex(src, "findall") or regex(src, "finditer")
        if found is None:
            raise Undecided("subframe", show(src)[:80])
        pat, block = found
        m = None
        if is_app(block, "call") and is_app(block[2], "attr") and block[2][3] == "group" and block[3] in ((), (C(0),)):
            m = block[2][2]
        elif is_app(block, "item") and block[3] == C(0):
            m = block[2]
        where = regex(m, "search") if m is not None else None
        if where is None:
            if block == text:
                c.bad("subframe", "subframe", loc, "numbers outside the block are taken too", s.events())
                continue
            raise Undecided("subframe", show(block)[:80])
        if where[1] != text:
            raise Undecided("subframe", show(where[1])[:60])
        hit = where[0].search(LABEL)
        got = pat.findall(hit.group()) if hit else None
        if not c.must(got == ["0001", "20"], "subframe", "subframe", loc,
                      f"the numbers of a block with 0001 and 20 are {got}", s.events()):
            continue
        num = A("elem", src)
        if regex(src, "finditer") is not None:
            num = A("call", A("attr", num, "group"), (), ())
        for fs, items in variants(ps[0]):
            if len(items) != 1 or items[0][0] != "1":
                c.bad("subframe", "subframe", loc, "a number of the block is left out", s.events())
                continue
            x = items[0][1]
            if is_app(x, "call") and x[2] == X("builtins.int") and x[3][:1] == (num,) and \
                    x[3][1:] in ((), (C(10),)) and all(t == C(10) for _, t in x[4]):
                c.ok("subframe")
            elif x == num or is_app(x, "call") and x[2] in (X("builtins.float"), X("builtins.str")):
                c.bad("subframe", "subframe", loc, "the numbers are not integers", s.events())
            elif is_app(x, "call") and x[2] == X("builtins.int") and x[3][:1] == (num,) and x[3][1:]:
                c.bad("subframe", "subframe", loc, "the numbers are read in another base", s.events())
            else:
                raise Undecided("subframe", show(x)[:80])


def is_group(t, m):
    """first group of match m"""
    if is_app(t, "call") and is_app(t[2], "attr") and t[2][2] == m:
        if t[2][3] == "group":
            return t[3] == (C(1),)
    if is_app(t, "item") and t[2] == m:
        return t[3] == C(1)
    if is_app(t, "item") and t[3] == C(0) and is_app(t[2], "call") and is_app(t[2][2], "attr") and \
            t[2][2][3] == "groups" and t[2][2][2] == m:
        return True
    return False


def whole_match(t, m):
    """the text of the whole match m, which may be empty"""
    if is_app(t, "call") and is_app(t[2], "attr") and t[2][2] == m and t[2][3] == "group":
        return t[3] in ((), (C(0),))
    return is_app(t, "item") and t[2] == m and t[3] == C(0)


def search_of(t, pat, text):
    """True: re.search(pattern, text); a string: what is wrong; None: not a match"""
    if not is_app(t, "call"):
        return None
    f = t[2]
    if f[0] == "x" and f[1].startswith("re."):
        name, args, recv = f[1][3:], t[3], None
        kw = dict(t[4])
        args = args + tuple(kw[k] for k in ("pattern", "string") if k in kw)
        extra = args[2:] or [v for k, v in t[4] if k == "flags"]
        p, x = (args + (NONE, NONE))[:2]
    elif is_app(f, "attr") and f[3] in ("search", "match", "fullmatch"):
        name = f[3]
        p, x, extra = f[2], (t[3] + (NONE,))[0], t[3][1:]
        if is_app(p, "call") and p[2] == X("re.compile"):
            extra = tuple(extra) + tuple(p[3][1:]) + tuple(v for _, v in p[4])
            p = p[3][0] if p[3] else p
        elif p != pat:
            return None
    else:
        return None
    if name in ("match", "fullmatch"):
        return f"the pattern is only looked for {'at the start of' if name == 'match' else 'as the whole of'} the text"
    if name != "search":
        return None
    if p != pat or x != text:
        if mentions(p, pat) or mentions(x, text):
            return None if p == pat and not is_app(x, "item") else \
                "only part of the text is searched" if p == pat else None
        return "something else is searched"
    if extra and extra[0] not in (C(0), NONE):
        return "the pattern is searched with other flags"
    return True


def scrape_outcomes(c, I, outs, loc, pat, text, tag):
    c.must(any(k == "return" for k, v, s in outs), tag, "group", loc, "scraping never returns")
    for k, v, s in outs:
        if k == "raise":
            if exc_kind(v) in LITERAL and any(e[0] == "call" and e[1] == LIT for e in flat(s.events())):
                c.bad(tag, "group", loc, f"a {exc_kind(v)} of literal parsing escapes", s.events())
            elif exc_kind(v) in LITERAL + ("AttributeError",):
                c.bad(tag, "group", loc, f"scraping raises {exc_kind(v)}", s.events())
            else:
                raise Undecided(tag, exc_kind(v))
            continue
        v = I.freeze(v, s)
        found, m = None, None
        for a, t in s.facts.items():
            x = None
            if is_app(a, "is") and NONE in a[2:]:
                x = a[3] if a[2] == NONE else a[2]
                val = not t
            elif is_app(a, "truthy"):
                x, val = a[2], t
            if x is not None and is_app(x, "call"):
                r = search_of(x, pat, text)
                if r is True:
                    found, m = val, x
                elif isinstance(r, str):
                    c.bad(tag, "group", loc, r, s.events())
                    return
        failed = any(e[0] == "raise" and parsing_fault(e[1]) for e in flat(s.events()))
        if found is False:
            c.must(v == NONE, tag, "absent", loc, f"a pattern that is not found gives {show(v)[:60]}", s.events()) \
                if v == NONE or is_c(v) or mentions(v, text) or v[0] == "t" or is_app(v, "list") or is_app(v, "dict") \
                else c.und(tag, show(v)[:60])
            continue
        if found is None:
            ms = [x for x in subterms(v) if search_of(x, pat, text) is True]
            if ms and not any(mentions(a, ms[0]) for a in s.facts):
                c.bad(tag, "absent", loc, "a pattern that is not found is not told from one that is", s.events())
                continue
            raise Undecided(tag, "no test for a match")
        if failed:
            if is_group(v, m):
                c.ok("text")
            elif v == NONE or is_c(v) or is_app(v, "call") and is_app(v[2], "attr") and (
                    v[2][2] == m or is_group(v[2][2], m) and v[2][3] in STRS):
                c.bad(tag, "group", loc, f"a group that is no literal gives {show(v)[:60]}, not its text", s.events())
            else:
                raise Undecided(tag, show(v)[:60])
            continue
        if parsed(v) is not None:
            x = parsed(v)
            if is_group(x, m):
                c.ok("literal")
            elif is_app(x, "call") and is_app(x[2], "attr") and x[2][2] == m or is_app(x, "item") and \
                    is_app(x[2], "call") and x[2][2] == A("attr", m, "groups") and is_c(x[3]):
                c.bad(tag, "group", loc, f"another part of the match is parsed", s.events())
            else:
                raise Undecided(tag, show(v)[:80])
        elif is_group(v, m) or v == NONE or is_c(v):
            tests = [a for a in s.facts if mentions(a, m) and not (is_app(a, "is") and NONE in a[2:])
                     and not (is_app(a, "truthy") and a[2] == m)]
            if v == NONE and any(is_app(a, "is") and NONE in a[2:] and t and any(is_group(x, m) for x in a[2:])
                                 for a, t in s.facts.items()):
                c.ok("a group that took no part in the match")
                continue
            if any(not (is_app(a, "truthy") and (is_group(a[2], m) or whole_match(a[2], m) or parsed(a[2]) is not None and
                                                 is_group(parsed(a[2]), m))) for a in tests) or tests and not is_c(v):
                raise Undecided(tag, show(tests[0])[:60])
            c.bad(tag, "group", loc, f"a found group gives {show(v)[:40]} without being parsed", s.events())
        else:
            raise Undecided(tag, show(v)[:80])


def scraper(c, q, loc, text, pat):
    I = c.interp(raises=lambda kind, fv: LITERAL if kind == "literal" else ())
    made = [o for o in c.run(I, q, [text])]
    for k, v, s in made:
        if k != "return":
            c.bad("make_scraper", "group", loc, "making a scraper raises", s.events())
            continue
        outs = c.runv(I, v, [pat], [], s)
        scrape_outcomes(c, I, outs, loc, pat, text, "scraping")


def from_file(c):
    q = "scrape.scrape_from_file"
    loc = fn_loc(c.repo, q)
    load = c.repo.func("scrape.get_label_text")
    text = A("call", X("dustgoggles.scrape.get_label_text"), (S("label"),), ())
    bad = []

    def h(I, fv, args, kws, st, n, fid):
        if [I.freeze(a, st) for a in args] != [S("label")] or kws:
            bad.append(args)
        return [(text, st)]
    I = c.interp(raises=lambda kind, fv: LITERAL if kind == "literal" else (), hooks={load.qual: h})
    outs = c.run(I, q, [S("label"), S("pattern")])
    if bad:
        raise Undecided("loader", "arguments")
    scrape_outcomes(c, I, outs, loc, S("pattern"), text, "scraping from a file")


def patterns(c, sup):
    q = "scrape.scrape_patterns"
    loc = fn_loc(c.repo, q)
    label, fields, fn, load = S("label"), S("fields"), S("supplement"), S("loader")
    mk = c.repo.func("scrape.make_scraper")
    made = []

    def maker(I, fv, args, kws, st, n, fid):
        b = [(x, s) for x, s in I.bind(mk, fv, args, kws, st, n, fid)]
        t = A("scraper", I.freeze(list(b[0][0].values())[0], st))
        made.append(t)
        return [(t, st)]
    I = c.interp(hooks={mk.qual: maker}, kinds={fn: "FunctionType", load: "FunctionType", fields: "dict"})
    f = c.repo.func(q)
    kws = [("label_loader", load)] + ([("supplemental_search_function", fn)] if sup else [])
    for k, v, s in c.run(I, q, [label, fields], kws):
        if k != "return":
            c.bad("fields", "fields", loc, f"scraping patterns raises {exc_kind(v)}", s.events())
            continue
        v = I.freeze(v, s)
        loads = [e for e in flat(s.events()) if e[0] == "call" and e[1] == load]
        if not loads:
            raise Undecided("loader", "never called")
        c.must(len(loads) == 1, "loader", "fields", loc, "the label is loaded more than once", s.events())
        c.must(loads[0][2] == (label,), "loader", "fields", loc, "another label is loaded", s.events())
        text = loads[0][4] if is_app(loads[0][4], "call") else A("call", load, (label,), ())
        ps = parts(v)
        if is_c(v):
            c.bad("fields", "fields", loc, "no fields are returned", s.events())
            continue
        if ps is None:
            if is_app(v, "call") and v[2] == fn:
                c.bad("fields", "fields", loc, "supplementary results replace the scraped fields", s.events())
                continue
            raise Undecided("fields", show(v)[:80])
        ps = list(ps)
        if sup:
            calls = [e for e in flat(s.events()) if e[0] == "call" and e[1] == fn]
            if not c.must(len(calls) == 1, "supplement", "fields", loc,
                          f"the supplementary search runs {len(calls)} times", s.events()):
                continue
            args = [strip_ids(a) for a in calls[0][2]]
            if args[:1] != [label] or len(args) != 2 or args[1] != strip_ids(text):
                if len(args) == 2 and args[1] == label:
                    c.bad("supplement", "fields", loc, "the supplementary search gets other arguments", s.events())
                    continue
                raise Undecided("supplement", "arguments")
            mine = [i for i, p in enumerate(ps) if any(is_app(x, "call") and x[2] == fn for x in subterms(p))]
            if not mine:
                if v[1] == "dict":
                    c.bad("supplement", "fields", loc, "the supplementary results are lost", s.events())
                    continue
                raise Undecided("supplement", show(v)[:80])
            if not c.must(mine == [len(ps) - 1], "supplement", "fields", loc,
                          "scraped fields take precedence over supplementary results", s.events()):
                continue
            p = ps.pop()
            if p[0] == "many" and any(not items and any(
                    is_app(a, "in") and t and mentions(a[3], fields) for a, t in fs.items()) for fs, items in variants(p)):
                c.bad("supplement", "fields", loc, "scraped fields take precedence over supplementary results",
                      s.events())
                continue
            if p[0] != "*" and not (p[0] == "many" and whole(p)):
                raise Undecided("supplement", str(p)[:80])
        if len(ps) != 1 or ps[0][0] != "many":
            if not ps:
                c.bad("fields", "fields", loc, "no field is scraped", s.events())
                continue
            raise Undecided("fields", show(v)[:80])
        src = M.norm_src(ps[0][1])
        if src not in (fields, A("items", fields), A("keys", fields)):
            raise Undecided("fields", show(src)[:80])
        for fs, items in variants(ps[0]):
            if len(items) != 1 or items[0][0] != "kv":
                c.bad("fields", "fields", loc, "a requested field has no entry on some path", s.events())
                continue
            kk, vv = items[0][1], items[0][2]
            key = {A("item", A("elem", x), C(0)) for x in (fields, A("items", fields))} | {
                A("elem", fields), A("elem", A("keys", fields))}
            val = {A("item", A("elem", x), C(1)) for x in (fields, A("items", fields))} | {
                A("item", fields, A("elem", fields)), A("item", fields, A("elem", A("keys", fields)))}
            if kk not in key:
                if kk in val:
                    c.bad("fields", "fields", loc, "entries are keyed by their patterns", s.events())
                    continue
                raise Undecided("fields", show(kk)[:80])
            if is_app(vv, "call") and is_app(vv[2], "scraper") and len(vv[3]) == 1:
                if strip_ids(vv[2][2]) != strip_ids(text):
                    raise Undecided("text", show(vv[2][2])[:60])
                if vv[3][0] in val:
                    c.ok("fields")
                elif vv[3][0] in key:
                    c.bad("fields", "fields", loc, "the field name is searched instead of its pattern", s.events())
                else:
                    raise Undecided("fields", show(vv)[:80])
            elif is_c(vv):
                c.bad("fields", "fields", loc, f"a field's entry is {show(vv)}", s.events())
            else:
                raise Undecided("fields", show(vv)[:80])


def whole(p):
    return all(len(items) == 1 for _, items in variants(p))


def bulk(c):
    q = "scrape.bulk_scrape_metadata"
    loc = fn_loc(c.repo, q)
    files, fn = S("files"), S("scraper")
    I = c.interp(kinds={fn: "FunctionType"})
    for k, v, s in c.run(I, q, [files, fn]):
        if k != "return":
            raise Undecided("bulk", exc_kind(v))
        ps = parts(I.freeze(v, s))
        if is_c(v) or ps == () or ps == []:
            c.bad("bulk", "fields", loc, "no metadata are returned", s.events())
            continue
        if ps is None or len(ps) != 1 or ps[0][0] != "many" or ps[0][1] != files:
            raise Undecided("bulk", show(I.freeze(v, s))[:80])
        for fs, items in variants(ps[0]):
            good = len(items) == 1 and is_app(items[0][1], "call") and items[0][1][2] == fn and \
                items[0][1][3] == (A("elem", files),)
            if not good and len(items) == 1 and opaque_parts(items[0][1]) and items[0][1] != A("elem", files):
                raise Undecided("bulk", show(items[0][1])[:60])
            c.must(good, "bulk", "fields", loc, "a file's metadata are missing or another's", s.events())


# ------------------------------------------------------------------ R05
def found(a, v):
    """(match, was it found) a fact decides, or None"""
    if is_app(a, "truthy") and is_app(a[2], "call"):
        return a[2], v
    if (is_app(a, "is") or is_app(a, "eq")) and NONE in a[2:4]:
        m = a[2] if a[3] == NONE else a[3]
        return (m, not v) if is_app(m, "call") else None
    return None


def bytes_search(m):
    """(compiled bytes pattern, searched term) of a search for a constant pattern"""
    if not is_app(m, "call"):
        return None
    f, args, kw, fl = m[2], list(m[3]), dict(m[4]), []
    if f == X("re.search"):
        pat = args.pop(0) if args else kw.get("pattern")
    elif is_app(f, "attr") and f[3] == "search":
        pat = f[2]
    else:
        return None
    text = args.pop(0) if args else kw.get("string")
    fl = args + [v for k, v in m[4] if k == "flags"]
    if pat is not None and is_app(pat, "call") and pat[2] == X("re.compile"):
        fl += list(pat[3][1:]) + [v for _, v in pat[4]]
        pat = pat[3][0] if pat[3] else None
    if text is None or pat is None or not is_c(pat) or not isinstance(pat[2], bytes):
        return None
    fl = flags_of(fl)
    try:
        return None if fl is None else (re.compile(pat[2], fl), text)
    except re.error:
        return None


def edge(t, m):
    """'end' or 'start' of a match, a wrong offset of one ('off'), or None"""
    m = strip_ids(m)
    t = strip_ids(t)
    if is_app(t, "item") and t[3] in (C(0), C(1), C(-1)) and is_app(t[2], "call") and is_app(t[2][2], "attr") \
            and t[2][2][2] == m and t[2][2][3] == "span" and t[2][3] in ((), (C(0),)):
        return "start" if t[3] == C(0) else "end"
    if is_app(t, "call") and is_app(t[2], "attr") and t[2][2] == m and t[2][3] in ("end", "start") \
            and t[3] in ((), (C(0),)):
        return t[2][3]
    if is_app(t, "item") and t[3] in (C(0), C(1)) and is_app(t[2], "attr") and t[2][2] == m and t[2][3] == "regs":
        return None
    if is_app(t, "lin") and len(t[3]) == 1 and t[3][0][1] == 1 and edge(t[3][0][0], m) and t[2] != 0:
        return "off"
    return None


@prop("R05", "Path-sensitive interpretation of trim_label, with the known endings unrolled from the module's own constant: "
      "on each path the searches' outcomes are facts, and the result must be the decoded head cut at the end of the "
      "first ending found, the whole decoded head when none is, or ValueError exactly where the caller asked for it. "
      "The endings' patterns are constants and are checked to recognise the documented ones.")
def r05(c):
    c.rule("trimmed", "the text returned ends with the first known ending that occurs in the head")
    c.rule("untrimmed", "the whole head without any ending, or ValueError when asked for")
    c.rule("endings", "END with a line break and runs of null bytes are known endings, in that order")
    q = "scrape.trim_label"
    loc = fn_loc(c.repo, q)
    src, n = S("fn"), S("limit")
    f = c.repo.func(q)
    flag = f.params()[2].name if len(f.params()) > 2 and hasattr(f.params()[2], "name") else "raise_for_failure"
    for fail in (None, FALSE, TRUE):
        with c.group(f"trim_label raise_for_failure={'left out' if fail is None else show(fail)}"):
            I = c.interp()
            seen = 0
            for k, v, s in c.run(I, q, [src, n], [] if fail is None else [(flag, fail)]):
                ms = []
                for a, t in s.facts.items():
                    r = found(a, t)
                    if r is None:
                        continue
                    b = bytes_search(r[0])
                    if b is None and is_app(r[0], "call") and r[0][2] in (X("re.match"), X("re.fullmatch")):
                        c.bad("ending", "trimmed", loc, "an ending is looked for only at the start of the head",
                              s.events())
                        return
                    if b is None:
                        raise Undecided("ending", show(r[0])[:60])
                    ms.append((b, r[1], r[0]))
                if not ms:
                    continue
                seen += 1
                trimmed(c, I, k, v, s, ms, fail == TRUE, loc)
            if not seen:
                raise Undecided("endings", "no search for a known ending recognised")


def trimmed(c, I, k, v, s, ms, fail, loc):
    evs = s.events()
    hits = [(b, m) for b, t, m in ms if t]
    if not hits:
        pats = [b[0] for b, _, _ in ms]
        order = [next((i for i, p in enumerate(pats) if p.search(x)), None) for x in (b"A = 1\r\nEND\r\nB", b"A\0\0\0\0B")]
        c.must(None not in order, "endings known", "endings", loc, "a label ending in END or in null bytes is not trimmed", evs)
        c.must(None in order or order[0] < order[1], "endings' order", "endings", loc,
               "a label is trimmed at null bytes although it has an END", evs)
        c.must(not any(p.search(x) for p in pats for x in (b"", b"A = 1", b"APPEND = 1\r\n", b"A\0B")), "only endings",
               "endings", loc, "a label is trimmed where it does not end", evs)
        if fail:
            c.must(k == "raise" and exc_kind(v) == "ValueError", "no ending", "untrimmed", loc,
                   "no ValueError is raised for a label without an ending", evs)
            return
        if not c.must(k == "return", "no ending", "untrimmed", loc,
                      f"a label without an ending raises {exc_kind(v) if k != 'return' else ''} unasked", evs):
            return
        v = strip_ids(I.freeze(v, s))
        head = strip_ids(ms[0][0][1])
        whole_head = (head, A("item", head, A("slice", NONE, NONE, NONE)))
        if is_app(v, "dec") and v[2] in whole_head:
            c.ok("no ending")
        elif is_c(v) or v == head or is_app(v, "dec") and is_app(v[2], "item") and v[2][2] == head:
            c.bad("no ending", "untrimmed", loc, "the text of a label without an ending is not the whole head", evs)
        else:
            raise Undecided("no ending", show(v)[:80])
        return
    if not c.must(k == "return", "ending", "trimmed", loc,
                  f"{exc_kind(v) if k != 'return' else ''} is raised although an ending was found", evs):
        return
    b, m = hits[0]
    head = strip_ids(b[1])
    v = strip_ids(I.freeze(v, s))
    t = v[2] if is_app(v, "dec") else v
    if is_app(t, "item") and is_app(t[3], "slice") and (t[2] == head or is_app(t[2], "dec") and t[2][2] == head):
        lo, hi, step = t[3][2:5]
        if is_app(t[2], "dec"):
            c.bad("ending", "trimmed", loc, "the decoded text is cut at an offset in bytes", evs)
        e = edge(hi, m)
        if e is None and any(edge(hi, m2) for _, m2 in hits[1:]):
            c.bad("ending", "trimmed", loc, "the label is cut at a later known ending than the first", evs)
            return
        if lo in (NONE, C(0)) and step in (NONE, C(1)) and e == "end":
            c.must(is_app(v, "dec"), "ending", "trimmed", loc, "the label is not decoded", evs)
        elif e in ("start", "off") or edge(lo, m) or is_c(hi):
            c.bad("ending", "trimmed", loc, "the label is cut elsewhere than at the end of its ending", evs)
        else:
            raise Undecided("ending", show(t[3])[:80])
    elif t == head or is_c(v):
        c.bad("ending", "trimmed", loc, "the label is not trimmed although an ending was found", evs)
    else:
        raise Undecided("ending", show(v)[:80])
