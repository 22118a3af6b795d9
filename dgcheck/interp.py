"""Abstract interpreter over the repository's syntax trees.

Path-sensitive (disjunctive) value-flow analysis: values are provenance terms,
mutable objects live in an abstract heap, loops over sources of unknown length
are summarised by one generic iteration from a widened loop head, repository
calls are analysed context-sensitively, everything else is opaque and recorded
as an event of the path.  Nothing is executed and no path is solved: a branch
on an undecided atom is simply taken both ways.
"""
import ast
import copy
import builtins
import sys

from .terms import *
from .state import *
from .repo import AnalysisBroken, Func, PKG

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """construct outside the analysed language: the rule is undecided"""


class Blowup(Unsupported):
    pass


MAXDEPTH = 45


PLAIN = {"dict": dict, "list": list, "set": set}


class Interp:
    def __init__(self, repo, hooks=None, ext=None, raises=None, types=None,
                 shm_init=None, volatile=None, budget=400000, kinds=None):
        from . import models
        self.repo = repo
        self.hooks = dict(hooks or {})
        self.ext = dict(models.EXT)
        self.ext.update(ext or {})
        self.M = models
        self.raises = raises or (lambda kind, fv: ())
        self.rank = None                 # term -> number, for terms whose order is known
        self.methods = {}                # method name -> model of calls on unknown objects
        self.watch_iter = False          # note which list objects are iterated
        self.types = dict(types or {})
        self.kinds = dict(kinds or {})   # term -> name of its Python type
        self.shm_init = shm_init
        self.volatile = volatile or (lambda addr: False)
        self.finfo = {}
        self.nid = 0
        self.sink = []
        self.loops = {}
        self.stack = []          # quals being analysed
        self.active_src = []
        self.yield_hooks = []
        self.budget, self.maxdepth, self.maxnodes = budget, MAXDEPTH, 10 ** 8
        self.inlined = set()
        self.visited = set()      # nodes evaluated (coverage)
        self.gmemo = {}
        self.gbusy = {}
        self.rec_opaque = True
        self.loop_depth = 0
        self.node = None

    # ------------------------------------------------------------ utils
    def new(self):
        self.nid += 1
        return self.nid

    def loc(self, node, fid=None):
        f = None
        while fid is not None and fid in self.finfo:
            f = self.finfo[fid][0]
            if f is not None:
                break
            fid = self.finfo[fid][1]
        path = f.mod.name.replace(".", "/") + ".py" if f else "?"
        return (path, getattr(node, "lineno", 0), f.qual if f else "?")

    def alloc(self, st, obj):
        i = self.new()
        st.heap[i] = obj
        return ("o", i)

    def mklist(self, st, parts=()):
        return self.alloc(st, Obj("list", parts=tuple(parts)))

    def mkdict(self, st, parts=()):
        return self.alloc(st, Obj("dict", parts=tuple(parts)))

    def newframe(self, st, func, parent, vars_, cls=None, mod=None):
        fid = self.new()
        self.finfo[fid] = (func, parent, cls, mod)
        st.frames[fid] = vars_
        return fid

    def throw(self, st, name, *args, node=None, fid=None):
        exc = A("exc", name, tuple(args), self.new())
        st.ev("raise", exc, self.loc(node, fid))
        self.sink.append((exc, st))

    def maybe_raise(self, st, kind, fv, loc):
        for k in self.raises(kind, fv):
            s = st.fork()
            exc = A("uexc", k, self.new(), fv)
            s.ev("raise", exc, loc)
            self.sink.append((exc, s))

    def tick(self, node):
        self.budget -= 1
        if self.budget < 0:
            raise Blowup("analysis budget exhausted")
        self.node = node

    # --------------------------------------------------------- branching
    def branch(self, atom, st):
        """[(bool, state)] for a boolean term"""
        flip = False
        while is_app(atom, "not"):
            atom, flip = atom[2], not flip
        r = decide(atom, st.facts)
        if r is None and self.kinds and is_app(atom, "is") and NONE in atom[2:] and (
                self.kinds.get(atom[3] if atom[2] == NONE else atom[2])):
            r = False
        if r is not None:
            return [(r != flip, st)]
        s2 = st.fork()
        out = []
        if self.assume(atom, True, st):
            out.append((not flip, st))
        if self.assume(atom, False, s2):
            out.append((flip, s2))
        return out

    def assume(self, atom, val, st):
        while is_app(atom, "not"):
            atom, val = atom[2], not val
        if is_c(atom):
            return bool(cval(atom)) == val
        r = decide(atom, st.facts)
        if r is not None:
            return r == val
        st.facts[atom] = val
        return True

    def truth(self, t, st):
        if is_c(t):
            return [(bool(cval(t)) if t[1] != "ellipsis" else True, st)]
        if is_bool_atom(t):
            if t[1] in ("all", "any") and False:
                pass
            return self.branch(t, st)
        k = t[0]
        if k in ("fn", "bm", "cls", "part", "x"):
            return [(True, st)]
        if k == "t":
            return [(len(t[1]) > 0, st)]
        if k == "o":
            o = st.heap[t[1]]
            if o.kind in ("list", "dict", "set"):
                if not o.parts:
                    return [(False, st)]
                if any(p[0] in ("1", "kv") for p in o.parts) and not any(
                        p[0] == "del" for p in o.parts):
                    return [(True, st)]
                return self.branch(A("truthy", self.freeze(t, st)), st)
            if o.kind == "inst" and o.cls:
                m = self.find_method(o.cls, "__bool__") or self.find_method(o.cls, "__len__")
                if m:
                    out = []
                    for v, s in self.call(("bm", self.fnterm(m), t), [], [], st, self.node, None):
                        out += self.truth(v, s)
                    return out
            return [(True, st)]
        if is_app(t) and t[1] in ("exc", "uexc", "enter"):
            return [(True, st)]
        if is_app(t, "cat") and any(is_c(p) for p in t[2]):
            return [(True, st)]
        if is_app(t, "list") or is_app(t, "dict"):
            if not t[2]:
                return [(False, st)]
            if any(p[0] in ("1", "kv") for p in t[2]) and not any(p[0] == "del" for p in t[2]):
                return [(True, st)]
        if is_app(t, "len"):
            if is_app(t[2], "list") or is_app(t[2], "dict"):
                return self.truth(t[2], st)
            return self.branch(A("truthy", t[2]), st)
        if self.kinds.get(t) in ("FunctionType", "MethodType", "partial", "object"):
            return [(True, st)]
        if is_app(t, "lin"):
            return [(not b, s) for b, s in self.branch(A("eq0", t), st)]
        return self.branch(A("truthy", t), st)

    def cond(self, node, st, fid):
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            res, cur = [], [st]
            for v in node.values:
                nxt = []
                for s in cur:
                    for b, s2 in self.cond(v, s, fid):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            res.append((b, s2))
                cur = nxt
            return res + [(isand, s) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(not b, s) for b, s in self.cond(node.operand, st, fid)]
        out = []
        for v, s in self.ev(node, st, fid):
            out += self.truth(v, s)
        return out

    # --------------------------------------------------------- freezing
    def freeze(self, t, st, depth=0):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k in ("c", "s", "x", "fn", "cls"):
            return t
        self.maxnodes -= 1
        if self.maxnodes < 0:
            raise Blowup("terms too large")
        if k == "o":
            o = st.heap.get(t[1])
            if o is None or depth > 6:
                return t
            d = depth + 1
            if o.kind in ("list", "dict", "set"):
                return A(o.kind, self.freeze_parts(o.parts, st, d))
            if o.kind == "stream":
                if o.x[0] == "count" and o.attrs.get("pos") not in (None, C(0)):
                    a, b = (self.freeze(x, st, d) for x in o.x[1:])
                    return A("count", add(a, mul(b, o.attrs["pos"])), b)
                return A(o.x[0], *[self.freeze(x, st, d) for x in o.x[1:]])
            if o.kind == "iter":
                return A("iter", self.freeze(o.attrs["src"], st, d), o.attrs["pos"])
            if o.kind == "gen":
                return A("gen", o.x[0], tuple(
                    (n, self.freeze(v, st, d)) for n, v in o.x[1]))
            return t
        return tuple(self.freeze(x, st, depth) if isinstance(x, tuple) else x for x in t)

    def freeze_parts(self, parts, st, d):
        return tuple(self.freeze_part(p, st, d) for p in parts)

    def freeze_part(self, p, st, d):
        if p[0] == "many":
            return ("many", self.freeze(p[1], st, d), tuple(
                (c, self.freeze_parts(ps, st, d)) for c, ps in p[2]))
        return (p[0],) + tuple(self.freeze(x, st, d) if isinstance(x, tuple) else x
                               for x in p[1:])

    # ---------------------------------------------------------- modules
    def modmember(self, dotted):
        """term for a dotted name"""
        r = self.repo
        if dotted in r.modules:
            return X(dotted)
        if "." in dotted and dotted.rsplit(".", 1)[0] in r.modules:
            m, n = dotted.rsplit(".", 1)
            return self.modglobal(r.modules[m], n)
        if dotted in r.funcs:
            return self.fnterm(dotted)
        if dotted in r.classes:
            return ("cls", dotted)
        return X(self.M.ALIASES.get(dotted, dotted))

    def fnterm(self, qual):
        return ("fn", qual, None, ())

    def modglobal(self, mod, name):
        key = (mod.name, name)
        if key in self.gbusy:
            # the name's own definition mentions it: its previous binding, if any
            i = self.gbusy[key] - 1
            return self.binding_value(mod, name, i) if i >= 0 else X(f"{mod.name}.{name}")
        if key in self.gmemo:
            return self.gmemo[key]
        i = len(mod.bindings.get(name, ())) - 1
        if i < 0:
            return X(f"builtins.{name}") if hasattr(builtins, name) else None
        v = self.binding_value(mod, name, i)
        self.gmemo[key] = v
        return v

    def decorated_global(self, f):
        t = self.fnterm(f.qual)
        if not f.decorators:
            return t
        st = St()
        fid = self.modframe(f.mod, st)
        return self.decorate(t, f, st, fid)[0][0]

    def modframe(self, mod, st):
        fid = self.new()
        self.finfo[fid] = (None, None, None, mod)
        st.frames[fid] = {}
        return fid

    def binding_value(self, mod, name, i):
        """value of the i-th of the module's bindings of a name"""
        kind, what = mod.bindings[name][i]
        if kind == "def":
            f = self.repo.by_node[what]
            if not f.decorators:
                return self.fnterm(f.qual)
        elif kind == "class":
            return ("cls", self.repo.by_node[what].qual)
        key = (mod.name, name)
        prev = self.gbusy.get(key)
        self.gbusy[key] = i
        try:
            if kind == "def":
                return self.decorated_global(f)
            if kind == "imp":
                return self.modmember(what)
            st = St()
            fid = self.modframe(mod, st)
            sv, self.sink = self.sink, []
            try:
                outs = self.ev(what, st, fid)
            finally:
                self.sink = sv
            if len(outs) == 1:
                return self.freeze(outs[0][0], outs[0][1])
            return X(f"{mod.name}.{name}")
        finally:
            if prev is None:
                del self.gbusy[key]
            else:
                self.gbusy[key] = prev

    def modof(self, fid):
        while fid is not None:
            f, parent, _, mod = self.finfo[fid]
            if mod is not None:
                return mod
            if f is not None:
                return f.mod
            fid = parent
        return None

    def lookup(self, name, st, fid, node=None):
        """value of a name, or None after raising"""
        f0 = fid
        cur = fid
        while cur is not None:
            func, parent, _, _ = self.finfo[cur]
            v = st.frames.get(cur, {}).get(name)
            if v is not None:
                return v
            if func is not None and name in func.locals_ and func.body is not None:
                if self.loop_depth > 0:
                    return A("unbound", name)
                self.throw(st, "UnboundLocalError", C(name), node=node, fid=f0)
                return None
            cur = parent
        mod = self.modof(f0)
        if mod is not None:
            v = self.modglobal(mod, name)
            if v is not None:
                return v
        if hasattr(builtins, name):
            return X(f"builtins.{name}")
        if name in ("__file__", "__name__"):
            return S(name)
        self.throw(st, "NameError", C(name), node=node, fid=f0)
        return None

    # ---------------------------------------------------------- classes
    def mro(self, qual):
        out = []
        cur = qual
        while cur and cur not in out:
            out.append(cur)
            c = self.repo.classes.get(cur)
            if c is None:
                break
            nxt = None
            for b in c.node.bases:
                t = self.static_name(b, c.mod)
                if t and t[0] == "cls":
                    nxt = t[1]
                elif t and t[0] == "x":
                    nxt = nxt or t[1]
            cur = nxt
        return out

    def static_name(self, node, mod):
        if isinstance(node, ast.Name):
            return self.modglobal(mod, node.id)
        if isinstance(node, ast.Attribute):
            b = self.static_name(node.value, mod)
            if b and b[0] == "x":
                return self.modmember(f"{b[1]}.{node.attr}")
        return None

    def find_method(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            c = self.repo.classes.get(q)
            if c is not None and name in c.methods:
                return c.methods[name]
        return None

    def ext_base(self, cls):
        for q in self.mro(cls):
            if q not in self.repo.classes and q not in ("abc.ABC", "builtins.object"):
                return q
        return None

    def class_attr(self, cls, name, st, after=None):
        """[(value, state)] of a non-method class attribute, or None"""
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            c = self.repo.classes.get(q)
            if c is None:
                continue
            for n in reversed(c.node.body):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            return self.class_expr(n.value, c, st)
                        if isinstance(t, (ast.Tuple, ast.List)):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name) and e.id == name:
                                    r = self.class_expr(n.value, c, st)
                                    return [(self.item_of(v, C(i), s), s) for v, s in r]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    if isinstance(n.target, ast.Name) and n.target.id == name:
                        return self.class_expr(n.value, c, st)
        return None

    def class_expr(self, node, c, st):
        # class scope: names resolve to the class's own members first
        fid = self.new()
        self.finfo[fid] = (None, None, c, c.mod)
        vars_ = {m: self.fnterm(q) for m, q in c.methods.items()}
        st.frames[fid] = vars_
        return self.ev(node, st, fid)

    def exc_class(self, exc):
        """python class of an exception term: name, or None if unknown"""
        if is_app(exc, "exc"):
            return exc[2]
        if is_app(exc, "uexc"):
            return None if exc[2] == "E" else exc[2]
        return None

    def pyexc(self, name):
        c = getattr(builtins, name.split(".")[-1], None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return c
        q = name if name in self.repo.classes else None
        if q:
            for b in self.mro(q)[1:]:
                p = self.pyexc(b)
                if p:
                    return p
        return None

    def exc_matches(self, exc, hname, st):
        """[(bool, st)]: does exc match handler class named hname"""
        h = self.pyexc(hname)
        hn = hname.split(".")[-1]
        if is_app(exc, "esc"):
            return [(False, st)]
        cn = self.exc_class(exc)
        if cn is not None:
            if cn == hname or cn.split(".")[-1] == hn:
                return [(True, st)]
            if cn in self.repo.classes and hname in self.repo.classes:
                return [(hname in self.mro(cn), st)]
            c = self.pyexc(cn)
            if c is not None and h is not None and hname not in self.repo.classes:
                return [(issubclass(c, h), st)]
            if c is not None and hname in self.repo.classes:
                return [(False, st)]
            return self.branch(A("isinst", exc, C(hn)), st)
        if is_app(exc, "uexc"):
            if h is BaseException or h is Exception:
                return [(True, st)]
            if h is not None and not issubclass(h, Exception):
                return [(False, st)]
        elif h is BaseException:
            return [(True, st)]
        return self.branch(A("isinst", exc, C(hn)), st)

    # ------------------------------------------------------- statements
    def block(self, stmts, st, fid):
        outs, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c, fid):
                    if o[0] == "next":
                        nxt.append(o[2])
                    else:
                        outs.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
            if len(cur) > 3000:
                raise Blowup("too many paths")
        return outs + [("next", None, c) for c in cur]

    def merge(self, states):
        """drop duplicate states (same everything)"""
        if len(states) < 2:
            return states
        seen, out = {}, []
        for s in states:
            k = (s.trace and id(s.trace), tuple(sorted(s.facts.items(), key=repr))
                 if len(states) < 40 else id(s), )
            k = (id(s.trace) if s.trace else 0, frozenset(s.facts.items()),
                 frozenset(s.over.items()), tuple(sorted(s.heap)),
                 tuple(sorted(s.frames)))
            for o in seen.get(k, ()):
                if all(o.frames[i] == s.frames[i] for i in o.frames) and \
                        o.heap == s.heap and o.shm == s.shm and o.flags == s.flags:
                    break
            else:
                seen.setdefault(k, []).append(s)
                out.append(s)
        return out

    def stmt(self, n, st, fid):
        self.tick(n)
        self.visited.add(n)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} line {n.lineno}")
        saved, self.sink = self.sink, []
        try:
            outs = m(n, st, fid)
            outs = outs + [("raise", e, s) for e, s in self.sink]
        finally:
            self.sink = saved
        return outs

    def nexts(self, pairs):
        return [("next", None, s) for _, s in pairs]

    def s_Expr(self, n, st, fid):
        return self.nexts(self.ev(n.value, st, fid))

    def s_Pass(self, n, st, fid):
        return [("next", None, st)]

    def s_Break(self, n, st, fid):
        return [("break", None, st)]

    def s_Continue(self, n, st, fid):
        return [("continue", None, st)]

    def s_Global(self, n, st, fid):
        return [("next", None, st)]

    s_Nonlocal = s_Global

    def s_Return(self, n, st, fid):
        if n.value is None:
            return [("return", NONE, st)]
        return [("return", v, s) for v, s in self.ev(n.value, st, fid)]

    def s_Assert(self, n, st, fid):
        out = []
        for b, s in self.cond(n.test, st, fid):
            if b:
                out.append(("next", None, s))
            else:
                self.throw(s, "AssertionError", node=n, fid=fid)
        return out

    def s_If(self, n, st, fid):
        out = []
        for b, s in self.cond(n.test, st, fid):
            out += self.block(n.body if b else n.orelse, s, fid)
        return out

    def s_Assign(self, n, st, fid):
        out = []
        for v, s in self.ev(n.value, st, fid):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.store(t, v, s2, fid)]
            out += cur
        return [("next", None, s) for s in out]

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [("next", None, st)]
        out = []
        for v, s in self.ev(n.value, st, fid):
            out += self.store(n.target, v, s, fid)
        return [("next", None, s) for s in out]

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(_as_load(n.target), n.target)
        outs = []
        # evaluate container once
        for old, s in self.ev(load, st, fid):
            for v, s2 in self.ev(n.value, s, fid):
                for r, s3 in self.augop(n.op, old, v, s2, n, fid):
                    outs += self.store(n.target, r, s3, fid, aug=True)
        return [("next", None, s) for s in outs]

    def augop(self, op, old, v, st, n, fid):
        if old[0] == "o":
            o = st.heap[old[1]]
            if o.kind == "list" and isinstance(op, ast.Add):
                return [(old, s) for s in self.M.list_extend(self, old, v, st, n, fid)]
            if o.kind == "dict" and isinstance(op, ast.BitOr):
                if is_c(v):
                    self.throw(st, "TypeError", C("not a mapping"), node=n, fid=fid)
                    return []
                return [(old, s) for s in self.M.dict_update(self, old, v, st, n, fid)]
            if o.kind == "set":
                res = []
                for r, s in self.binop(op, old, v, st, n, fid):
                    ro = s.obj(r)
                    parts = ro.parts if ro is not None and ro.parts is not None \
                        else (("*", self.freeze(r, s)),)
                    s.heap[old[1]] = s.heap[old[1]].but(parts=parts)
                    res.append((old, s))
                return res
        elif old[0] in ("s", "a") and not is_num(old) and not is_str(old) and not is_c(v) \
                and not is_num(v) and not is_str(v):
            st.ev("mut", self.freeze(old, st), "aug", type(op).__name__,
                  self.freeze(v, st), self.loc(n, fid))
        elif is_app(old, "call"):
            st.ev("augc", self.freeze(old, st), type(op).__name__, v, self.loc(n, fid))
        return self.binop(op, old, v, st, n, fid)

    def s_Delete(self, n, st, fid):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    if t.id not in s.frames[fid]:
                        if self.lookup(t.id, s, fid, n) is None:
                            continue
                    s.delvar(fid, t.id)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for ob, s2 in self.ev(t.value, s, fid):
                        for k, s3 in self.ev_slice(t.slice, s2, fid):
                            nxt += self.M.delitem(self, ob, k, s3, n, fid)
                elif isinstance(t, ast.Attribute):
                    for ob, s2 in self.ev(t.value, s, fid):
                        if ob[0] == "o" and t.attr in s2.heap[ob[1]].attrs:
                            o = s2.heap[ob[1]]
                            a = dict(o.attrs)
                            a.pop(t.attr)
                            s2.heap[ob[1]] = o.but(attrs=a)
                            nxt.append(s2)
                        elif ob[0] == "o" and s2.heap[ob[1]].kind == "inst":
                            self.throw(s2, "AttributeError", C(t.attr), node=n, fid=fid)
                        else:
                            s2.ev("mut", self.freeze(ob, s2), "delattr", t.attr, None,
                                  self.loc(n, fid))
                            nxt.append(s2)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    raise Unsupported("del tuple")
            cur = nxt
        return [("next", None, s) for s in cur]

    def s_FunctionDef(self, n, st, fid):
        out = []
        for t, s in self.mkclosure(n, st, fid):
            f = self.repo.by_node[n]
            for v, s2 in self.decorate(t, f, s, fid):
                s2.setvar(fid, n.name, v)
                out.append(("next", None, s2))
        return out

    def mkclosure(self, n, st, fid):
        f = self.repo.by_node.get(n)
        if f is None:
            raise Unsupported("unindexed function")
        a = f.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos[len(pos) - len(a.defaults):]]
        exprs = list(zip(names, a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        cur = [((), st)]
        for nm, d in exprs:
            cur = [(defs + ((nm, v),), s2) for defs, s in cur for v, s2 in self.ev(d, s, fid)]
        return [(("fn", f.qual, fid, defs), s) for defs, s in cur]

    def decorate(self, t, f, st, fid):
        cur = [(t, st)]
        for d in reversed(f.decorators):
            nxt = []
            for v, s in cur:
                for dv, s2 in self.ev(d, s, fid):
                    nm = dv[1] if dv[0] == "x" else None
                    if nm in ("builtins.staticmethod", "builtins.classmethod",
                              "builtins.property", "abc.abstractmethod"):
                        nxt.append((v, s2))
                    elif nm in ("functools.cache", "functools.lru_cache"):
                        nxt.append((A("cached", v), s2))
                    elif dv[0] == "a" and dv[1] == "wrapsdeco":
                        s2.over[("attr", v, "__wrapped__")] = dv[2]
                        nxt.append((v, s2))
                    elif nm == "contextlib.contextmanager":
                        nxt.append((A("cmfactory", v), s2))
                    else:
                        nxt += self.call(dv, [v], [], s2, d, fid)
            cur = nxt
        return cur

    def s_ClassDef(self, n, st, fid):
        c = self.repo.by_node.get(n)
        if c is None:
            raise Unsupported("class")
        st.setvar(fid, n.name, ("cls", c.qual))
        return [("next", None, st)]

    def s_Import(self, n, st, fid):
        for al in n.names:
            if al.asname:
                st.setvar(fid, al.asname, self.modmember(al.name))
            else:
                st.setvar(fid, al.name.split(".")[0], X(al.name.split(".")[0]))
        return [("next", None, st)]

    def s_ImportFrom(self, n, st, fid):
        base = n.module or ""
        if n.level:
            mod = self.modof(fid)
            pk = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[: len(pk) - n.level + 1]
            base = ".".join(pk + ([base] if base else []))
        for al in n.names:
            st.setvar(fid, al.asname or al.name, self.modmember(f"{base}.{al.name}"))
        return [("next", None, st)]

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            cur = fid
            exc = None
            while cur is not None and exc is None:
                exc = st.frames.get(cur, {}).get("$exc")
                cur = self.finfo[cur][1]
            if exc is None:
                exc = st.flags.get("$exc")
            if exc is None:
                exc = A("exc", "RuntimeError", (C("no active exception"),), self.new())
            st.ev("reraise", exc, self.loc(n, fid))
            return [("raise", exc, st)]
        out = []
        for v, s in self.ev(n.exc, st, fid):
            if n.cause is not None:
                r = self.ev(n.cause, s, fid)
                if not r:
                    continue
                s = r[0][1]
            for e, s2 in self.as_exc(v, s, n, fid):
                if is_app(e, "uexc") or e == s2.frames[fid].get("$exc"):
                    s2.ev("reraise", e, self.loc(n, fid))
                else:
                    s2.ev("raise", e, self.loc(n, fid))
                out.append(("raise", e, s2))
        return out

    def as_exc(self, v, st, n, fid):
        if is_app(v, "exc") or is_app(v, "uexc"):
            return [(v, st)]
        if v[0] == "x" and self.pyexc(v[1]):
            return [(A("exc", v[1].split(".")[-1], (), self.new()), st)]
        if v[0] == "cls":
            return [(A("exc", v[1], (), self.new()), st)]
        if v[0] == "o" and st.heap[v[1]].kind == "inst":
            return [(A("exc", st.heap[v[1]].cls, (v,), self.new()), st)]
        # unknown value raised: some exception
        return [(A("uexc", "E", ("val", self.freeze(v, st)), v), st)]

    def s_Try(self, n, st, fid):
        outs = self.block(n.body, st, fid)
        res = []
        for o in outs:
            if o[0] == "next":
                res += self.block(n.orelse, o[2], fid)
            elif o[0] == "raise":
                res += self.handle(n, o[1], o[2], fid)
            else:
                res.append(o)
        if not n.finalbody:
            return res
        final = []
        for o in res:
            for f in self.block(n.finalbody, o[2], fid):
                if f[0] == "next":
                    final.append((o[0], o[1], f[2]))
                else:
                    final.append(f)
        return final

    s_TryStar = None

    def handle(self, n, exc, st, fid):
        res, cur = [], [st]
        if is_app(exc, "esc"):
            # generator being closed by its consumer: only finally clauses run
            return [("raise", exc, st)]
        for h in n.handlers:
            nxt = []
            for s in cur:
                for b, s2 in self.match_handler(h, exc, s, fid):
                    if not b:
                        nxt.append(s2)
                        continue
                    prev = s2.frames[fid].get("$exc")
                    pflag = s2.flags.get("$exc")
                    s2.setvar(fid, "$exc", exc)
                    s2.flags["$exc"] = exc
                    if h.name:
                        s2.setvar(fid, h.name, exc)
                    s2.ev("caught", exc, self.loc(h, fid))
                    for o in self.block(h.body, s2, fid):
                        s3 = o[2]
                        f = dict(s3.frames[fid])
                        f.pop("$exc", None)
                        if prev is not None:
                            f["$exc"] = prev
                        if h.name:
                            f.pop(h.name, None)
                        s3.frames[fid] = f
                        if pflag is None:
                            s3.flags.pop("$exc", None)
                        else:
                            s3.flags["$exc"] = pflag
                        res.append(o)
            cur = nxt
        return res + [("raise", exc, s) for s in cur]

    def match_handler(self, h, exc, st, fid):
        if h.type is None:
            return [(True, st)]
        out = []
        for t, s in self.ev(h.type, st, fid):
            out += self.match_types(t, exc, s)
        return out

    def match_types(self, t, exc, st):
        types = list(t[1]) if t[0] == "t" else [t]
        cur, out = [st], []
        for ty in types:
            nxt = []
            for s in cur:
                if ty[0] == "t":
                    for b, s2 in self.match_types(ty, exc, s):
                        (out if b else nxt).append((True, s2) if b else s2)
                    continue
                nm = ty[1] if ty[0] in ("x", "cls") else None
                if nm is None:
                    for b, s2 in self.branch(A("isinst", exc, ty), s):
                        (out if b else nxt).append((True, s2) if b else s2)
                    continue
                for b, s2 in self.exc_matches(exc, nm, s):
                    (out if b else nxt).append((True, s2) if b else s2)
            cur = nxt
        return out + [(False, s) for s in cur]

    def s_With(self, n, st, fid):
        return self.with_items(n, list(n.items), st, fid)

    def with_items(self, n, items, st, fid):
        if not items:
            return self.block(n.body, st, fid)
        it, rest = items[0], items[1:]
        out = []
        for cm, s in self.ev(it.context_expr, st, fid):
            out += self.with_cm(cm, it.optional_vars, s, fid, n,
                                lambda s2: self.with_items(n, rest, s2, fid))
        return out

    def with_cm(self, cm, var, st, fid, n, body):
        """run body inside context manager cm"""
        loc = self.loc(n, fid)

        def bind(v, s):
            if var is None:
                return [s]
            return self.store(var, v, s, fid)

        o = st.obj(cm)
        if o is not None and o.kind == "cmgen":
            # @contextmanager generator: body runs at the yield
            res = []

            def hook(v, s, _node):
                outs = []
                for s2 in bind(v, s):
                    outs += body(s2)
                return outs
            return self.run_cmgen(o.x, st, hook, n, fid)
        if o is not None and o.kind == "inst" and o.cls and self.find_method(o.cls, "__enter__"):
            res = []
            saved, self.sink = self.sink, []
            ent = self.call_method(cm, "__enter__", [], [], st, n, fid)
            for v, s in ent:
                for s2 in bind(v, s):
                    for k, val, s3 in body(s2):
                        if k == "raise" and not is_app(val, "esc"):
                            args = [A("type", val), val, A("tb", val)]
                        else:
                            args = [NONE, NONE, NONE]
                        for r, s4 in self.call_method(cm, "__exit__", args, [], s3, n, fid):
                            if k == "raise" and not is_app(val, "esc"):
                                for b, s5 in self.truth(r, s4):
                                    res.append(("next", None, s5) if b else (k, val, s5))
                            else:
                                res.append((k, val, s4))
            res += [("raise", e, s) for e, s in self.sink]
            self.sink = saved
            return res
        if o is not None and o.kind == "suppress":
            res = []
            for k, val, s in body(st):
                if k == "raise":
                    for b, s2 in self.match_types(("t", o.x), val, s):
                        res.append(("next", None, s2) if b else (k, val, s2))
                else:
                    res.append((k, val, s))
            return res
        if o is not None and o.kind == "closing":
            res = []
            saved, self.sink = self.sink, []
            for s2 in bind(o.x, st):
                for k, val, s in body(s2):
                    for _, s3 in self.call_method(o.x, "close", [], [], s, n, fid):
                        res.append((k, val, s3))
            res += [("raise", e, s) for e, s in self.sink]
            self.sink = saved
            return res
        if o is not None and o.kind == "exitstack":
            res = []
            saved, self.sink = self.sink, []
            for s2 in bind(cm, st):
                for k, val, s in body(s2):
                    res += self.unwind_stack(cm, k, val, s, n, fid)
            res += [("raise", e, s) for e, s in self.sink]
            self.sink = saved
            return res
        # file-like or opaque context manager
        res = []
        st.ev("enter", self.freeze(cm, st), loc)
        v = cm if (o is not None or self.M.enters_self(cm)) else A("enter", cm)
        for s2 in bind(v, st):
            for k, val, s in body(s2):
                s.ev("exit", self.freeze(cm, s), k, loc)
                self.M.close_obj(self, cm, s)
                res.append((k, val, s))
        return res

    def unwind_stack(self, cm, k, val, s, n, fid):
        cbs = s.heap[cm[1]].parts
        s.heap[cm[1]] = s.heap[cm[1]].but(parts=())
        cur = [(k, val, s)]
        for cb in reversed(cbs):
            nxt = []
            for k1, v1, s1 in cur:
                if cb[0] == "cb":
                    for _, s2 in self.call(cb[1], list(cb[2]), list(cb[3]), s1, n, fid):
                        nxt.append((k1, v1, s2))
                else:
                    s1.ev("exit", self.freeze(cb[1], s1), k1, self.loc(n, fid))
                    o = s1.obj(cb[1])
                    if o is not None and o.kind == "inst":
                        for _, s2 in self.call_method(cb[1], "__exit__", [NONE] * 3, [], s1, n, fid):
                            nxt.append((k1, v1, s2))
                    else:
                        self.M.close_obj(self, cb[1], s1)
                        nxt.append((k1, v1, s1))
            cur = nxt
        return cur

    def run_cmgen(self, gen, st, hook, n, fid):
        """run a contextmanager generator with `hook` as the with-body"""
        qual, bound, parent = gen
        done = []

        def yhook(v, s, node):
            outs = []
            for k, val, s2 in hook(v, s, node):
                if k in ("next", "continue") and k == "next":
                    outs.append(("next", None, s2))
                elif k == "raise":
                    outs.append(("raise", val, s2))      # thrown in at the yield
                else:
                    outs.append(("esc", (k, val), s2))
            return outs
        res = []
        for k, val, s in self.run_gen_body(qual, bound, parent, st, yhook, n):
            if k == "return" or k == "next":
                res.append(("next", None, s))
            elif k == "raise" and is_app(val, "esc"):
                kk, vv = self.escs[val[2]]
                res.append((kk, vv, s))
            else:
                res.append((k, val, s))
        return res

    def s_For(self, n, st, fid):
        res = []
        for src, s in self.ev(n.iter, st, fid):
            def body(elem, s2):
                outs = []
                for s3 in self.store(n.target, elem, s2, fid):
                    outs += self.block(n.body, s3, fid)
                return outs
            for k, v, s2 in self.iterate(src, s, body, n, fid):
                if k == "next":
                    res += self.block(n.orelse, s2, fid) if n.orelse else [("next", None, s2)]
                elif k == "break":
                    res.append(("next", None, s2))
                else:
                    res.append((k, v, s2))
        return res

    def s_While(self, n, st, fid):
        def run_iter(s):
            outs = []
            for b, s2 in self.cond(n.test, s, fid):
                if b:
                    outs += self.block(n.body, s2, fid)
                else:
                    outs.append(("exit", None, s2))
            return outs
        # a loop every turn of which goes exactly one way, and that soon ends
        cur, saved, self.sink = st.fork(), self.sink, []
        one = None
        try:
            for _ in range(16):
                outs = run_iter(cur)
                if len(outs) != 1 or self.sink:
                    break
                k, v, cur = outs[0]
                if k not in ("next", "continue"):
                    one = outs[0]
                    break
        except Unsupported:
            pass
        finally:
            self.sink = saved
        res = []
        if one is None:
            counted = self.as_for(n, st, fid)
            if counted is not None:
                return counted
        for k, v, s in [one] if one else self.loop(A("while", (self.loc(n, fid)[2], n.lineno)), st, run_iter,
                                 False, n, fid):
            if k == "exit":
                res += self.block(n.orelse, s, fid) if n.orelse else [("next", None, s)]
            elif k == "break":
                res.append(("next", None, s))
            else:
                res.append((k, v, s))
        return res

    def as_for(self, n, st, fid):
        """outcomes of a while loop that goes through a sequence fixed before it
        starts, as a for loop over that sequence; None when it is not one"""
        p = counting(n) or draining(n)
        if p is None:
            return None
        nid, saved, self.sink = self.nid, self.sink, []
        try:
            return (self.count_for if p[0] == "count" else self.drain_for)(n, p, st.fork(), fid, saved)
        except (NotFor, Unsupported):
            return None
        finally:
            self.sink = saved

    def after_for(self, n, outs, end, fid):
        res = []
        for k, v, s in outs:
            if k == "next":
                for s2 in end(s):
                    res += self.block(n.orelse, s2, fid) if n.orelse else [("next", None, s2)]
            elif k == "break":
                res.append(("next", None, s))
            else:
                res.append((k, v, s))
        return res

    def pure_value(self, node, st, fid):
        outs = self.ev(node, st.fork(), fid)
        if len(outs) != 1 or self.sink or outs[0][1].trace is not st.trace:
            raise NotFor
        return outs[0][0]

    def count_for(self, n, p, st, fid, saved):
        _, name, op, bound, step = p
        i0 = self.pure_value(ast.Name(name, ast.Load()), st, fid)
        b = self.pure_value(bound, st, fid)
        if not ((is_c(i0) and i0[1] == "int") or self.kinds.get(i0) == "int"
                or any(is_app(i0, h) for h in ("frombytes", "len", "lin", "phi"))):
            raise NotFor
        end = b if op in ("Lt", "Gt") else add(b, C(1 if step > 0 else -1))
        src = A("range", i0, end, C(step))
        if step == -1:
            src = A("reversed", A("range", add(end, C(1)), add(i0, C(1)), C(1)))
        var = n.body[-1].target if isinstance(n.body[-1], ast.AugAssign) else n.body[-1].targets[0]

        def body(elem, s):
            outs = []
            for s2 in self.store(var, elem, s, fid):
                for k, v, s3 in self.block(n.body, s2, fid):
                    if k in ("next", "continue") and self.pure_value(bound, s3, fid) != b:
                        raise NotFor
                    outs.append((k, v, s3))
            return outs
        outs = self.iterate(src, st, body, n, fid)
        extra, self.sink = self.sink, saved

        def finish(s):
            d = add(end, i0, -1)
            if step in (1, -1) and is_c(d) and cval(d) * step >= 0:
                return self.store(var, end, s, fid)
            return self.store(var, A("counted", src), s, fid)
        res = self.after_for(n, outs, finish, fid)
        self.sink += extra
        return res

    def drain_for(self, n, p, st, fid, saved):
        _, name, front, stmts = p
        ref = self.pure_value(ast.Name(name, ast.Load()), st, fid)
        o = st.obj(ref)
        if o is None or o.kind != "list":
            raise NotFor
        held = [v for fr in st.frames.values() for v in fr.values() if v == ref]
        if len(held) != 1 or any(v == ref for x in st.heap.values() for v in x.attrs.values()):
            raise NotFor
        parts = o.parts
        whole = self.mklist(st, parts)
        src = whole if front else A("reversed", self.freeze(whole, st))

        def body(elem, s):
            outs = []
            for s2 in self.store(ast.Name(DRAWN, ast.Store()), elem, s, fid):
                for k, v, s3 in self.block(stmts, s2, fid):
                    if s3.obj(ref) is None or s3.obj(ref).parts != parts:
                        raise NotFor
                    if k not in ("next", "continue"):
                        raise NotFor
                    outs.append((k, v, s3))
            return outs
        outs = self.iterate(src, st, body, n, fid)
        extra, self.sink = self.sink, saved

        def finish(s):
            s.heap[ref[1]] = s.heap[ref[1]].but(parts=())
            return [s]
        res = self.after_for(n, outs, finish, fid)
        self.sink += extra
        return res

    def s_Match(self, n, st, fid):
        res = []
        for subj, s in self.ev(n.subject, st, fid):
            cur = [s]
            for case in n.cases:
                nxt = []
                for s1 in cur:
                    for b, s2 in self.match_pat(case.pattern, subj, s1, fid):
                        if not b:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for g, s3 in self.cond(case.guard, s2, fid):
                                if g:
                                    res += self.block(case.body, s3, fid)
                                else:
                                    nxt.append(s3)
                        else:
                            res += self.block(case.body, s2, fid)
                cur = nxt
            res += [("next", None, s1) for s1 in cur]
        return res

    def match_pat(self, p, subj, st, fid):
        if isinstance(p, ast.MatchValue):
            out = []
            for v, s in self.ev(p.value, st, fid):
                out += self.truth(compare("==", subj, v), s)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.truth(compare("is", subj, C(p.value)), st)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.setvar(fid, p.name, subj)
                return [(True, st)]
            out = []
            for b, s in self.match_pat(p.pattern, subj, st, fid):
                if b and p.name:
                    s.setvar(fid, p.name, subj)
                out.append((b, s))
            return out
        if isinstance(p, ast.MatchOr):
            res, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for b, s2 in self.match_pat(q, subj, s, fid):
                        if b:
                            res.append((True, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(False, s) for s in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            out = []
            for t, s in self.ev(p.cls, st, fid):
                for v, s2 in self.M.isinstance_(self, [subj, t], [], s, p, fid):
                    out += self.truth(v, s2)
            return out
        if isinstance(p, ast.MatchSequence) and subj[0] == "t" and \
                not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if len(subj[1]) != len(p.patterns):
                return [(False, st)]
            res, cur = [], [st]
            for q, v in zip(p.patterns, subj[1]):
                nxt = []
                for s in cur:
                    for b, s2 in self.match_pat(q, v, s, fid):
                        if b:
                            nxt.append(s2)
                        else:
                            res.append((False, s2))
                cur = nxt
            return res + [(True, s) for s in cur]
        raise Unsupported("match pattern")

    # ----------------------------------------------------------- stores
    def store(self, t, v, st, fid, aug=False):
        """list of states after assigning v to target t"""
        if isinstance(t, ast.Name):
            func = self.finfo[fid][0]
            tgt = fid
            if func is not None and t.id in func.nonlocals:
                cur = self.finfo[fid][1]
                while cur is not None:
                    f2 = self.finfo[cur][0]
                    if f2 is not None and t.id in f2.locals_:
                        tgt = cur
                        break
                    cur = self.finfo[cur][1]
            elif func is not None and t.id in func.globals_:
                st.ev("setglobal", t.id, self.freeze(v, st), self.loc(t, fid))
                st.over[("glob", func.mod.name, t.id)] = v
                return [st]
            elif func is None and self.finfo[fid][1] is not None and \
                    getattr(t, "_walrus", False):
                cur = fid
                while cur is not None and self.finfo[cur][0] is None:
                    cur = self.finfo[cur][1]
                tgt = cur if cur is not None else fid
            st.setvar(tgt, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for vals, s in self.unpack(v, t.elts, st, t, fid):
                cur = [s]
                for e, x in zip(t.elts, vals):
                    e2 = e.value if isinstance(e, ast.Starred) else e
                    cur = [s3 for s2 in cur for s3 in self.store(e2, x, s2, fid)]
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for ob, s in self.ev(t.value, st, fid):
                out += self.set_attr(ob, t.attr, v, s, t, fid)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for ob, s in self.ev(t.value, st, fid):
                for k, s2 in self.ev_slice(t.slice, s, fid):
                    if aug and self.freeze(v, s2) == self.freeze(ob, s2):
                        pass
                    out += self.M.setitem(self, ob, k, v, s2, t, fid, aug)
            return out
        if isinstance(t, ast.Starred):
            return self.store(t.value, v, st, fid)
        raise Unsupported("assignment target")

    def unpack(self, v, elts, st, node, fid):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.known_items(v, st)
        if items is not None:
            if star:
                i = star[0]
                if len(items) < n - 1:
                    self.throw(st, "ValueError", C("unpack"), node=node, fid=fid)
                    return []
                tail = n - i - 1
                mid = items[i:len(items) - tail]
                lst = self.mklist(st, [("1", x) for x in mid])
                return [(list(items[:i]) + [lst] + list(items[len(items) - tail:] if tail else []), st)]
            if len(items) != n:
                self.throw(st, "ValueError", C("unpack"), node=node, fid=fid)
                return []
            return [(list(items), st)]
        if v[0] == "o" and st.heap[v[1]].kind == "shm" or v[0] == "fn" or \
                v[0] == "c" and v[1] in ("NoneType", "int", "float", "bool"):
            self.throw(st, "TypeError", C("not iterable"), node=node, fid=fid)
            return []
        if star:
            raise Unsupported("starred unpack of unknown sequence")
        if v[0] == "o" and st.heap[v[1]].kind in ("gen", "stream", "iter", "list"):
            # materialise and hope for known items
            outs = []
            for lst, s in self.M.to_list(self, v, st, node, fid):
                it = self.known_items(lst, s)
                if it is not None and len(it) == n:
                    outs.append((list(it), s))
                elif it is not None:
                    self.throw(s, "ValueError", C("unpack"), node=node, fid=fid)
                else:
                    fr = self.freeze(lst, s)
                    outs.append(([self.item_of(fr, C(i), s) for i in range(n)], s))
            return outs
        return [([self.item_of(v, C(i), st) for i in range(n)], st)]

    def known_items(self, v, st):
        if v[0] == "t":
            return v[1]
        if v[0] == "o":
            o = st.heap[v[1]]
            if o.kind == "list" and all(p[0] == "1" for p in o.parts):
                return tuple(p[1] for p in o.parts)
        if is_app(v, "list") and all(p[0] == "1" for p in v[2]):
            return tuple(p[1] for p in v[2])
        return None

    def set_attr(self, ob, name, v, st, node, fid):
        if ob[0] == "o":
            o = st.heap[ob[1]]
            if o.cls:
                q = self.find_method(o.cls, name)
                if q is not None:
                    setter = self.find_setter(o.cls, name)
                    if setter:
                        return [s for _, s in self.call(("bm", self.fnterm(setter), ob), [v], [],
                                                        st, node, fid)]
                r = self.prop_of(o.cls, name, st)
                if r is not None and r[1] is not None:
                    return [s for _, s in self.call(r[1], [ob, v], [], st, node, fid)]
            st.setattr_(ob, name, v)
            st.ev("setattr", ob, name, self.freeze(v, st), self.loc(node, fid))
            return [st]
        cls = self.types.get(ob)
        if cls:
            setter = self.find_setter(cls, name)
            if setter:
                return [s for _, s in self.call(("bm", self.fnterm(setter), ob), [v], [], st,
                                                node, fid)]
            r = self.prop_of(cls, name, st)
            if r is not None and r[1] is not None:
                return [s for _, s in self.call(r[1], [ob, v], [], st, node, fid)]
        st.over[("attr", ob, name)] = v
        if ob[0] == "x":
            st.ev("setattr", ob, name, self.freeze(v, st), self.loc(node, fid))
        else:
            st.ev("setattr", self.freeze(ob, st), name, self.freeze(v, st), self.loc(node, fid))
        return [st]

    def find_setter(self, cls, name):
        for q in self.mro(cls):
            c = self.repo.classes.get(q)
            if c is None:
                continue
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    for d in n.decorator_list:
                        if isinstance(d, ast.Attribute) and d.attr == "setter":
                            return self.repo.by_node[n].qual
        return None

    def prop_of(self, cls, name, st):
        """(getter, setter) terms if class attribute `name` is property(...)"""
        for q in self.mro(cls):
            c = self.repo.classes.get(q)
            if c is None:
                continue
            for n in c.node.body:
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                            and n.value.func.id == "property":
                        args = list(n.value.args)
                        kw = {k.arg: k.value for k in n.value.keywords}
                        gs = [args[0] if args else kw.get("fget"),
                              args[1] if len(args) > 1 else kw.get("fset")]
                        out = []
                        for g in gs:
                            if g is None:
                                out.append(None)
                            else:
                                s = st.fork()
                                out.append(self.class_expr(g, c, s)[0][0])
                        return out
        return None

    # ------------------------------------------------------ expressions
    def ev(self, n, st, fid):
        self.tick(n)
        self.visited.add(n)
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, st, fid)

    def evs(self, nodes, st, fid):
        cur = [((), st)]
        for n in nodes:
            cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in self.ev(n, s, fid)]
        return cur

    def e_Constant(self, n, st, fid):
        if n.value is Ellipsis:
            return [(ELL, st)]
        return [(C(n.value), st)]

    def e_Name(self, n, st, fid):
        v = self.lookup(n.id, st, fid, n)
        return [] if v is None else [(v, st)]

    def e_NamedExpr(self, n, st, fid):
        out = []
        n.target._walrus = True
        for v, s in self.ev(n.value, st, fid):
            out += [(v, s2) for s2 in self.store(n.target, v, s, fid)]
        return out

    def e_Tuple(self, n, st, fid):
        return self.seq_display(n.elts, st, fid, lambda parts, s: self.mktuple(parts, s))

    def mktuple(self, parts, st):
        if all(p[0] == "1" for p in parts):
            return T(*[p[1] for p in parts])
        if len(parts) == 1:
            return parts[0][1]
        return A("tcat", tuple(parts))

    def e_List(self, n, st, fid):
        return self.seq_display(n.elts, st, fid, lambda parts, s: self.mklist(s, parts))

    def e_Set(self, n, st, fid):
        return self.seq_display(
            n.elts, st, fid, lambda parts, s: self.alloc(s, Obj("set", parts=tuple(parts))))

    def seq_display(self, elts, st, fid, make):
        cur = [((), st)]
        for e in elts:
            nxt = []
            for parts, s in cur:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s, fid):
                        nxt += [(parts + tuple(ps), s3)
                                for ps, s3 in self.M.parts_of(self, v, s2, e, fid)]
                else:
                    nxt += [(parts + (("1", v),), s2) for v, s2 in self.ev(e, s, fid)]
            cur = nxt
        return [(make(parts, s), s) for parts, s in cur]

    def e_Dict(self, n, st, fid):
        cur = [((), st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for parts, s in cur:
                if k is None:
                    for m, s2 in self.ev(v, s, fid):
                        nxt.append((parts + self.M.map_parts(self, m, s2), s2))
                else:
                    for kk, s2 in self.ev(k, s, fid):
                        for vv, s3 in self.ev(v, s2, fid):
                            nxt.append((parts + (("kv", kk, vv),), s3))
            cur = nxt
        return [(self.mkdict(s, parts), s) for parts, s in cur]

    def e_JoinedStr(self, n, st, fid):
        cur = [((), st)]
        for p in n.values:
            nxt = []
            for parts, s in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((parts + (C(p.value),), s))
                else:
                    for v, s2 in self.ev(p.value, s, fid):
                        fv = self.freeze(v, s2)
                        if p.format_spec is not None or p.conversion not in (-1, 115):
                            spec = ast.unparse(p.format_spec) if p.format_spec else ""
                            fv = A("format", fv, C(spec), C(p.conversion))
                        nxt.append((parts + (fv,), s2))
            cur = nxt
        return [(cat(parts), s) for parts, s in cur]

    def e_FormattedValue(self, n, st, fid):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st, fid)

    def e_Lambda(self, n, st, fid):
        return self.mkclosure(n, st, fid)

    def e_IfExp(self, n, st, fid):
        out = []
        for b, s in self.cond(n.test, st, fid):
            out += self.ev(n.body if b else n.orelse, s, fid)
        return out

    def e_BoolOp(self, n, st, fid):
        isand = isinstance(n.op, ast.And)
        out, cur = [], [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for x, s2 in self.ev(v, s, fid):
                    if last:
                        out.append((x, s2))
                        continue
                    for b, s3 in self.truth(x, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((x if not is_bool_atom(x) else C(b), s3))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, fid):
        if isinstance(n.op, ast.Not):
            out = []
            for v, s in self.ev(n.operand, st, fid):
                if is_bool_atom(v):
                    out.append((neg(v), s))
                else:
                    out += [(C(not b), s2) for b, s2 in self.truth(v, s)]
            return out
        out = []
        for v, s in self.ev(n.operand, st, fid):
            if is_c(v) and v[1] in ("int", "float", "bool"):
                x = cval(v)
                r = C(-x) if isinstance(n.op, ast.USub) else (
                    C(+x) if isinstance(n.op, ast.UAdd) else C(~x))
            elif isinstance(n.op, ast.USub):
                r = mul(C(-1), v) if is_num(v) else A("neg", v)
            elif isinstance(n.op, ast.Invert):
                r = v[2] if is_app(v, "inv") else A("inv", self.freeze(v, s))
            else:
                r = v
            out.append((r, s))
        return out

    def e_Compare(self, n, st, fid):
        if len(n.ops) == 1:
            out = []
            for (a, b), s in self.evs([n.left, n.comparators[0]], st, fid):
                out += self.compare1(n.ops[0], a, b, s, n, fid)
            return out
        cur = [(None, s, v) for v, s in self.ev(n.left, st, fid)]
        out = []
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for _, s, left in cur:
                for r, s2 in self.ev(c, s, fid):
                    for v, s3 in self.compare1(op, left, r, s2, n, fid):
                        if i == len(n.ops) - 1:
                            out.append((v, s3))
                        else:
                            for b, s4 in self.truth(v, s3):
                                if b:
                                    nxt.append((None, s4, r))
                                else:
                                    out.append((FALSE, s4))
            cur = nxt
        return out

    OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
           ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def compare1(self, op, a, b, st, n, fid):
        o = self.OPS[type(op)]
        if o in ("in", "not in"):
            res = self.M.contains(self, a, b, st, n, fid)
            if o == "not in":
                res = [(neg(v), s) for v, s in res]
            return res
        if o in ("==", "!=") and (a[0] == "o" or b[0] == "o"):
            fa, fb = self.freeze(a, st), self.freeze(b, st)
            for x, y in ((fa, fb), (fb, fa)):
                if is_app(x) and x[1] in ("list", "dict") and not x[2] and is_app(y) \
                        and y[1] == x[1]:
                    r = neg(A("truthy", y)) if y[2] else TRUE
                    return [(r if o == "==" else neg(r), st)]
            return [(compare(o, fa, fb), st)]
        if o in ("is", "is not"):
            # identity of heap objects: keep ids
            return [(compare(o, a, b), st)]
        return [(compare(o, self.freeze(a, st), self.freeze(b, st)), st)]

    BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "fdiv",
           ast.Mod: "mod", ast.Pow: "pow", ast.BitOr: "bitor", ast.BitAnd: "bitand",
           ast.BitXor: "bitxor", ast.LShift: "shl", ast.RShift: "shr", ast.MatMult: "matmul"}

    def e_BinOp(self, n, st, fid):
        out = []
        for (a, b), s in self.evs([n.left, n.right], st, fid):
            out += self.binop(n.op, a, b, s, n, fid)
        return out

    def binop(self, op, a, b, st, n, fid):
        k = self.BIN[type(op)]
        ao = st.obj(a)
        bo = st.obj(b)
        if k == "add":
            if a[0] == "t" and b[0] == "t":
                return [(("t", a[1] + b[1]), st)]
            if (ao is not None and ao.kind == "list") or (bo is not None and bo.kind == "list") \
                    or is_app(a, "list") or is_app(b, "list"):
                return [(self.mklist(s2, p1 + p2), s2)
                        for p1, s in self.M.parts_of(self, a, st, n, fid)
                        for p2, s2 in self.M.parts_of(self, b, s, n, fid)]
            if a[0] == "t" or b[0] == "t" or is_app(a, "tcat") or is_app(b, "tcat"):
                parts = []
                for x in (a, b):
                    if x[0] == "t":
                        parts += [("1", y) for y in x[1]]
                    elif is_app(x, "tcat"):
                        parts += list(x[2])
                    else:
                        parts.append(("*", x))
                return [(self.mktuple(tuple(parts), st), st)]
        if k == "bitor" and (ao is not None and ao.kind == "dict" and is_c(b)
                             or bo is not None and bo.kind == "dict" and is_c(a)):
            self.throw(st, "TypeError", C("unsupported operands for |"), node=n, fid=fid)
            return []
        if k == "bitor" and ((ao is not None and ao.kind == "dict")
                             or (bo is not None and bo.kind == "dict")
                             or self.M.is_maplike(self, a, st) or self.M.is_maplike(self, b, st)):
            return [(self.mkdict(st, self.M.map_parts(self, a, st) + self.M.map_parts(self, b, st)), st)]
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if k == "add":
            return [(add(fa, fb), st)]
        if k in ("sub", "bitand", "bitor", "bitxor"):
            sa, sb = const_set(fa), const_set(fb)
            if sa is not None and sb is not None:
                r = [x for x in sa if (x in sb) == (k == "bitand")] if k != "bitor" else list(sa)
                if k in ("bitor", "bitxor"):
                    r += [x for x in sb if x not in sa]
                return [(A("set", tuple(("1", x) for x in r)), st)]
        if k == "sub":
            return [(add(fa, fb, -1), st)]
        if k == "mul":
            if is_c(fa) and fa[1] == "str" or is_c(fb) and fb[1] == "str":
                pass
            return [(mul(fa, fb), st)]
        if is_c(fa) and is_c(fb):
            import operator
            fn = {"div": operator.truediv, "fdiv": operator.floordiv, "mod": operator.mod,
                  "pow": operator.pow, "bitor": operator.or_, "bitand": operator.and_,
                  "bitxor": operator.xor}.get(k)
            try:
                if fn:
                    return [(C(fn(cval(fa), cval(fb))), st)]
            except Exception:
                pass
        if k == "mod" and is_c(fa) and fa[1] == "str":
            r = self.M.percent_format(cval(fa), fb)
            if r is not None:
                return [(r, st)]
        if k in ("bitor", "bitand", "bitxor") and k != "bitor" or k == "matmul":
            pass
        return [(A(k, fa, fb), st)]

    # --------------------------------------------- attributes, subscripts
    def e_Attribute(self, n, st, fid):
        out = []
        for ob, s in self.ev(n.value, st, fid):
            out += self.get_attr(ob, n.attr, s, n, fid)
        return out

    def method_value(self, ob, cls, name, st, n, fid, after=None):
        """value of attribute found as a method/property on repo class, or None"""
        q = self.find_method(cls, name, after)
        if q is None:
            return None
        f = self.repo.funcs[q]
        kinds = set()
        for d in f.decorators:
            if isinstance(d, ast.Name):
                kinds.add(d.id)
            elif isinstance(d, ast.Attribute):
                kinds.add(d.attr)
        if "property" in kinds or "cached_property" in kinds or "setter" in kinds:
            if "setter" in kinds:
                for m in self.repo.funcs.values():
                    if m.cls is f.cls and m.name == name and any(
                            isinstance(d, ast.Name) and d.id == "property" for d in m.decorators):
                        q = m.qual
            return self.call(("bm", self.fnterm(q), ob), [], [], st, n, fid)
        if "staticmethod" in kinds:
            return [(self.fnterm(q), st)]
        if "classmethod" in kinds:
            c = ob if ob[0] == "cls" else ("cls", cls)
            return [(("bm", self.fnterm(q), c), st)]
        rest = [d for d in f.decorators if not (
            isinstance(d, ast.Name) and d.id in ("abstractmethod",)
            or isinstance(d, ast.Attribute) and d.attr in ("abstractmethod",))]
        fn = self.fnterm(q)
        if rest:
            s = st
            mf = self.modframe(f.mod, s)
            fn = self.decorate(fn, f, s, mf)[0][0]
        if ob[0] == "cls":
            return [(fn, st)]
        return [(("bm", fn, ob), st)]

    def get_attr(self, ob, name, st, n, fid):
        k = ob[0]
        if k == "o":
            o = st.heap.get(ob[1])
            if o is None:
                raise Unsupported("object created in a summarised loop")
            if name in o.attrs and o.kind in ("inst", "shm", "file", "nd", "gen"):
                return [(o.attrs[name], st)]
            if o.kind == "super":
                r = self.method_value(o.attrs["obj"], o.attrs["of"][1], name, st, n, fid,
                                      after=o.attrs["after"][1])
                if r is not None:
                    return r
                if name in ("__new__", "__init__", "__setattr__", "__getattribute__"):
                    return [(A("attr", ob, name), st)]
                return [(A("attr", ob, name), st)]
            if o.cls:
                r = self.method_value(ob, o.cls, name, st, n, fid)
                if r is not None:
                    return r
                p = self.prop_of(o.cls, name, st)
                if p is not None and p[0] is not None:
                    return self.call(p[0], [ob], [], st, n, fid)
                r = self.class_attr(o.cls, name, st)
                if r is not None:
                    return [(("bm", v, ob) if v[0] == "fn" else v, s) for v, s in r]
                if name == "__class__":
                    return [(("cls", o.cls), st)]
                if name == "__dict__":
                    return [(self.mkdict(st, [("kv", C(a), v) for a, v in o.attrs.items()]), st)]
                ga = self.find_method(o.cls, "__getattr__")
                if ga:
                    return self.call(("bm", self.fnterm(ga), ob), [C(name)], [], st, n, fid)
                if o.kind == "inst" and not self.ext_base(o.cls):
                    if name.startswith("__"):
                        return [(A("attr", ob, name), st)]
                    self.throw(st, "AttributeError", C(name), node=n, fid=fid)
                    return []
            r = self.M.obj_attr(self, ob, o, name, st, n, fid)
            if r is not None:
                return r
            if o.kind in PLAIN and not o.cls and not o.attrs and not hasattr(PLAIN[o.kind], name) \
                    and not name.startswith("__") and name != "default_factory" \
                    and name not in self.methods:
                self.throw(st, "AttributeError", C(name), node=n, fid=fid)
                return []
            return [(A("attr", ob, name), st)]
        if ("attr", ob, name) in st.over:
            return [(st.over[("attr", ob, name)], st)]
        if k in ("t", "c") and not name.startswith("__"):
            ty = tuple if k == "t" else type(cval(ob))
            if ty is bool and name in ("all", "any", "item", "copy"):
                return [(("bm", X("numpy.bool_"), ob), st)]      # x == x of array-likes
            if ty in (tuple, str, int, float, bytes, bool, type(None)) and not hasattr(ty, name):
                self.throw(st, "AttributeError", C(name), node=n, fid=fid)
                return []
        if k == "cls":
            if name == "__name__":
                return [(C(ob[1].split(".")[-1]), st)]
            r = self.method_value(ob, ob[1], name, st, n, fid)
            if r is not None:
                return r
            r = self.class_attr(ob[1], name, st)
            if r is not None:
                return r
            return [(A("attr", ob, name), st)]
        if k == "x":
            return [(self.modmember(f"{ob[1]}.{name}"), st)]
        if k in ("fn", "bm"):
            if name == "__name__":
                w = st.over.get(("attr", ob, "__wrapped__"))
                if w is not None:
                    return self.get_attr(w, name, st, n, fid)
                f = ob if k == "fn" else ob[1]
                if f[0] == "fn":
                    return [(C(self.repo.funcs[f[1]].name), st)]
            if k == "bm" and name == "__self__":
                return [(ob[2], st)]
            if k == "bm" and name == "__func__":
                return [(ob[1], st)]
            return [(A("attr", ob, name), st)]
        if k == "part":
            if name == "func":
                return [(ob[1], st)]
            if name == "args":
                return [(self.mktuple(tuple(("*", a[1]) if a[0] == "*" else ("1", a)
                                            for a in ob[2]), st), st)]
            if name == "keywords":
                return [(self.mkdict(st, [("*", v) if kk == "**" else ("kv", C(kk), v)
                                          for kk, v in ob[3]]), st)]
        cls = self.types.get(ob)
        if cls:
            r = self.method_value(ob, cls, name, st, n, fid)
            if r is not None:
                return r
            p = self.prop_of(cls, name, st)
            if p is not None and p[0] is not None:
                return self.call(p[0], [ob], [], st, n, fid)
            if name == "__class__":
                return [(("cls", cls), st)]
        r = self.M.opaque_attr(self, ob, name, st, n, fid)
        if r is not None:
            return r
        known = st.facts.get(A("hasattr", self.freeze(ob, st), C(name)))
        for kk in () if known else self.raises("attr", A("attr", ob, name)):
            s = st.fork()
            self.throw(s, kk, C(name), node=n, fid=fid)
        return [(A("attr", self.freeze(ob, st), name), st)]

    def ev_slice(self, n, st, fid):
        if isinstance(n, ast.Slice):
            out = []
            parts = [p if p is not None else ast.Constant(None) for p in (n.lower, n.upper, n.step)]
            for p in parts:
                ast.copy_location(p, n) if not hasattr(p, "lineno") else None
            for vs, s in self.evs(parts, st, fid):
                out.append((A("slice", *vs), s))
            return out
        if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
            cur = [((), st)]
            for e in n.elts:
                cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in self.ev_slice(e, s, fid)]
            return [(("t", vs), s) for vs, s in cur]
        return self.ev(n, st, fid)

    def e_Subscript(self, n, st, fid):
        out = []
        for ob, s in self.ev(n.value, st, fid):
            for k, s2 in self.ev_slice(n.slice, s, fid):
                out += self.M.getitem(self, ob, k, s2, n, fid)
        return out

    def item_of(self, v, k, st):
        """non-forking subscript of an immutable/opaque value"""
        if v[0] == "t" and is_c(k) and k[1] == "int":
            i = cval(k)
            if -len(v[1]) <= i < len(v[1]):
                return v[1][i]
        if ("item", v, k) in st.over:
            return st.over[("item", v, k)]
        return A("item", v, k)

    # --------------------------------------------------- comprehensions
    def e_ListComp(self, n, st, fid):
        return self.comp(n, st, fid, "list")

    def e_SetComp(self, n, st, fid):
        return self.comp(n, st, fid, "set")

    def e_DictComp(self, n, st, fid):
        return self.comp(n, st, fid, "dict")

    def e_GeneratorExp(self, n, st, fid):
        # lazily: a generator object over the comprehension; the first source
        # is evaluated now
        out = []
        for src, s in self.ev(n.generators[0].iter, st, fid):
            out.append((self.alloc(s, Obj("genexp", x=(n, fid), attrs={"src": src})), s))
        return out

    def comp(self, n, st, fid, kind):
        out = []
        for src, s in self.ev(n.generators[0].iter, st, fid):
            acc = self.alloc(s, Obj(kind))

            def leaf(s2, cfid):
                res = []
                if kind == "dict":
                    for (k, v), s3 in self.evs([n.key, n.value], s2, cfid):
                        o = s3.heap[acc[1]]
                        s3.heap[acc[1]] = o.but(parts=o.parts + (("kv", k, v),))
                        res.append(("next", None, s3))
                else:
                    for v, s3 in self.ev(n.elt, s2, cfid):
                        o = s3.heap[acc[1]]
                        s3.heap[acc[1]] = o.but(parts=o.parts + (("1", v),))
                        res.append(("next", None, s3))
                return res
            for k, v, s2 in self.run_comp(n, src, s, fid, leaf):
                if k == "next":
                    out.append((acc, s2))
                elif k == "raise":
                    self.sink.append((v, s2))
        return out

    def run_comp(self, n, src, st, fid, leaf):
        cfid = self.newframe(st, None, fid, {})

        def level(i, src, s):
            g = n.generators[i]

            def body(elem, s2):
                outs = []
                saved, self.sink = self.sink, []
                for s3 in self.store(g.target, elem, s2, cfid):
                    cur = [s3]
                    for c in g.ifs:
                        nxt = []
                        for s4 in cur:
                            for b, s5 in self.cond(c, s4, cfid):
                                if b:
                                    nxt.append(s5)
                                else:
                                    outs.append(("next", None, s5))
                        cur = nxt
                    for s4 in cur:
                        if i + 1 < len(n.generators):
                            for src2, s5 in self.ev(n.generators[i + 1].iter, s4, cfid):
                                outs += level(i + 1, src2, s5)
                        else:
                            outs += leaf(s4, cfid)
                outs += [("raise", e, s) for e, s in self.sink]
                self.sink = saved
                return outs
            return self.iterate(src, s, body, n, fid)
        return level(0, src, st)

    # ----------------------------------------------------------- yields
    def e_Yield(self, n, st, fid):
        out = []
        if n.value is None:
            vals = [(NONE, st)]
        else:
            vals = self.ev(n.value, st, fid)
        for v, s in vals:
            out += self.do_yield(v, s, n)
        return out

    escs = {}

    def do_yield(self, v, st, n):
        if not self.yield_hooks:
            raise Unsupported("yield outside iteration")
        hook = self.yield_hooks.pop()
        out = []
        try:
            outs = hook(v, st, n)
        finally:
            self.yield_hooks.append(hook)
        for k, val, s in outs:
            if k in ("next", "continue"):
                out.append((NONE, s))
            elif k == "raise":
                self.sink.append((val, s))
            else:
                if k == "esc":
                    k, val = val
                i = self.new()
                self.escs[i] = (k, val)
                self.sink.append((A("esc", i), s))
        return out

    def e_YieldFrom(self, n, st, fid):
        out = []
        for src, s in self.ev(n.value, st, fid):
            def body(elem, s2):
                saved, self.sink = self.sink, []
                r = [("next", None, s3) for _, s3 in self.do_yield(elem, s2, n)]
                r += [("raise", e, s3) for e, s3 in self.sink]
                self.sink = saved
                return r
            for k, v, s2 in self.iterate(src, s, body, n, fid):
                if k == "next":
                    out.append((NONE, s2))
                elif k == "raise":
                    self.sink.append((v, s2))
        return out

    def run_gen_body(self, qual, bound, parent, st, hook, node):
        """outcomes of a generator function's body, `hook` running at yields"""
        f = self.repo.funcs[qual]
        fid = self.newframe(st, f, parent, dict(bound))
        self.inlined.add(qual)
        if len(self.stack) > self.maxdepth:
            raise Unsupported("depth")
        self.stack.append(qual)
        self.yield_hooks.append(hook)
        saved, self.sink = self.sink, []
        try:
            outs = self.block(f.body, st, fid)
        finally:
            self.stack.pop()
            self.yield_hooks.pop()
            extra, self.sink = self.sink, saved
        return outs + [("raise", e, s) for e, s in extra]

    def iter_gen(self, qual, bound, parent, st, body, node):
        def hook(v, s, n):
            saved, self.sink = self.sink, []
            outs = body(v, s)
            outs = outs + [("raise", e, s2) for e, s2 in self.sink]
            self.sink = saved
            return [("esc", ("raise", val), s2) if k == "raise" and not is_app(val, "esc")
                    else (k, val, s2) for k, val, s2 in outs]
        res = []
        for k, val, s in self.run_gen_body(qual, bound, parent, st, hook, node):
            if k in ("next", "return"):
                res.append(("next", None, s))
            elif k == "raise" and is_app(val, "esc"):
                kk, vv = self.escs[val[2]]
                res.append((kk, vv, s))
            else:
                res.append((k, val, s))
        return res

    # -------------------------------------------------------- iteration
    def iterate(self, src, st, body, n, fid):
        """outcomes of running body(elem, state) over every element of src;
        'next' = exhausted"""
        return self.M.iterate(self, src, st, body, n, fid)

    def seq_iter(self, elems, st, body):
        """run body over a known list of elements in order"""
        outs, cur = [], [st]
        for e in elems:
            nxt = []
            for s in cur:
                for k, v, s2 in body(e, s):
                    if k in ("next", "continue"):
                        nxt.append(s2)
                    else:
                        outs.append((k, v, s2))
            cur = self.merge(nxt)
            if len(cur) > 400:
                raise Blowup("too many paths in an unrolled loop")
        return outs + [("next", None, s) for s in cur]

    def opaque_iter(self, src, elem, st, body, n, fid, elems=None):
        """summarised loop over a source of unknown length; `elems` gives the
        possible elements when they are known but too many to unroll"""
        fsrc = self.freeze(src, st)
        if fsrc in self.active_src:
            d = self.active_src.count(fsrc)
            elem = replace(elem, {A("elem", fsrc): A("elem", A("again", fsrc, C(d)))})
        self.active_src.append(fsrc)

        def run_iter(s):
            if elems is None:
                return body(elem, s)
            outs = []
            for i, e in enumerate(elems):
                outs += body(e, s.fork())
            return outs
        try:
            return self.loop(fsrc, st, run_iter, True, n, fid, elem=A("elem", fsrc))
        finally:
            self.active_src.pop()

    FINITE = ("NoneType", "bool", "str")

    def locs(self, s):
        return s.frames, s.heap, s.over, s.shm

    def changed(self, entry, h, s):
        """locations existing in `entry` whose value in s differs from h"""
        ch = {}
        for fid, vars_ in entry.frames.items():
            a, b = h.frames[fid], s.frames[fid]
            if a is b:
                continue
            for nm in set(a) | set(b):
                if a.get(nm) != b.get(nm) and nm != "$exc":
                    ch[("f", fid, nm)] = b.get(nm)
        for oid in entry.heap:
            a, b = h.heap[oid], s.heap[oid]
            if a is b or a == b:
                continue
            if a.parts != b.parts or a.x != b.x:
                ch[("h", oid)] = b
            for nm in set(a.attrs) | set(b.attrs):
                if a.attrs.get(nm) != b.attrs.get(nm):
                    ch[("ha", oid, nm)] = b.attrs.get(nm)
        for k in set(h.over) | set(s.over):
            if h.over.get(k) != s.over.get(k):
                ch[("ov", k)] = s.over.get(k)
        for k in set(h.shm) | set(s.shm):
            if h.shm.get(k) != s.shm.get(k):
                ch[("shm", k)] = s.shm.get(k)
        for k in set(h.flags) | set(s.flags):
            if h.flags.get(k) != s.flags.get(k):
                ch[("fl", k)] = s.flags.get(k)
        return ch

    def getloc(self, s, loc):
        k = loc[0]
        if k == "f":
            return s.frames.get(loc[1], {}).get(loc[2])
        if k == "h":
            return s.heap[loc[1]]
        if k == "ha":
            return s.heap[loc[1]].attrs.get(loc[2])
        if k == "ov":
            return s.over.get(loc[1])
        if k == "shm":
            return s.shm.get(loc[1])
        return s.flags.get(loc[1])

    def setloc(self, s, loc, v):
        k = loc[0]
        if k == "f":
            if v is None:
                s.delvar(loc[1], loc[2])
            else:
                s.setvar(loc[1], loc[2], v)
        elif k == "h":
            o = s.heap[loc[1]]
            s.heap[loc[1]] = o.but(parts=v.parts, x=v.x)
        elif k == "ha":
            o = s.heap[loc[1]]
            a = dict(o.attrs)
            if v is None:
                a.pop(loc[2], None)
            else:
                a[loc[2]] = v
            s.heap[loc[1]] = o.but(attrs=a)
        elif k == "ov":
            if v is None:
                s.over.pop(loc[1], None)
            else:
                s.over[loc[1]] = v
        elif k == "shm":
            if v is None:
                s.shm.pop(loc[1], None)
            else:
                s.shm[loc[1]] = v
        else:
            if v is None:
                s.flags.pop(loc[1], None)
            else:
                s.flags[loc[1]] = v

    def locname(self, loc, lid):
        """name of a location changed by a loop, unique within that loop"""
        if loc[0] in ("f", "ha"):
            nm = loc[2] if loc[0] == "f" else f"obj.{loc[2]}"
            names = self.loops[lid].setdefault("names", {})
            i = 0
            while True:
                cand = nm if not i else f"{nm}#{i}"
                if names.setdefault(cand, loc) == loc:
                    return cand
                i += 1
        if loc[0] == "ov":
            return ("ov", loc[1])
        if loc[0] == "shm":
            return ("shm", loc[1])
        return str(loc[0])

    def loop(self, src, st, run_iter, is_for, n, fid, elem=None):
        lid = self.new()
        info = self.loops[lid] = {"src": src, "phi": {}, "bodies": (), "loc": self.loc(n, fid),
                                  "for": is_for}
        entry = st
        base = st.trace
        wid = {}
        self.loop_depth += 1
        try:
            for _round in range(14):
                r = self.loop_round(lid, src, entry, wid, run_iter, is_for, elem, info)
                if r is not None:
                    break
            else:
                raise Unsupported("loop fixpoint")
        finally:
            self.loop_depth -= 1
        heads, bodies, exits = r
        info["bodies"] = bodies
        event = ("loop", lid, src, bodies, self.loc(n, fid))
        res = []
        # phi update table
        ended_by_exhaustion = is_for
        if ended_by_exhaustion:
            full = not any(k in ("break", "zw", "tw") for k, *_ in bodies)
            for h, segs in heads:
                s = h.fork()
                s.trace = (base, event)
                self.close_acc(s, lid, src, info)
                for loc, upd in info["newvars"].items():
                    if loc[0] == "f" and loc[1] in s.frames and loc[2] not in s.frames[loc[1]]:
                        t = A("phi", lid, self.locname(loc, lid))
                        info["phi"].setdefault(t, {"init": None, "upd": upd, "loc": loc})
                        s.setvar(loc[1], loc[2], t)
                if full:
                    # per-element overrides established by every iteration
                    for k, v in info["elemov"].items():
                        if len(v) == 1:
                            s.over[k] = next(iter(v))
                res.append(("next", None, s))
        for k, v, s, hsegs, first in exits:
            seg = s.events()
            tr = (base, event)
            if not is_for:
                # what may have been the turn before, and whether this may be the first
                tr = (tr, ("last", lid, tuple(hsegs), first, k))
            for e in seg:
                tr = (tr, e)
            s.trace = tr
            self.close_acc(s, lid, src, info)
            res.append((k, v, s))
        return res

    def finite(self, v):
        if v is None:
            return False
        if isinstance(v, tuple) and v and v[0] == "c":
            return v[1] in self.FINITE
        if isinstance(v, tuple) and v and v[0] in ("fn", "cls", "x"):
            return True
        return False

    def loop_round(self, lid, src, entry, wid, run_iter, is_for, elem, info):
        h0 = entry.fork()
        info["variants"] = {}
        info["newvars"] = {}
        info["elemov"] = {}
        for loc, how in wid.items():
            self.widen(h0, loc, how, lid, info, entry)
        if elem is not None:
            for a in [a for a in h0.facts if mentions(a, elem)]:
                del h0.facts[a]
            for k in [k for k in h0.over if k[0] == "item" or k[0] == "attr"]:
                if mentions(k[1], elem) and ("ov", k) not in wid and False:
                    del h0.over[k]
        for p in info["phi"].values():
            p["upd"] = []
        h0.trace = None
        heads = {(): (h0, [])}
        work = [()]
        bodies, exits, finlocs = [], [], []
        while work:
            hk = work.pop(0)
            h, hsegs = heads[hk]
            hs = h.fork()
            hs.trace = None
            saved, self.sink = self.sink, []
            try:
                outs = run_iter(hs)
                outs = outs + [("raise", e, s) for e, s in self.sink]
            finally:
                self.sink = saved
            if len(outs) > 3000:
                raise Blowup("loop body paths")
            grew = False
            for k, v, s in outs:
                seg = tuple(s.events())
                conds = tuple((a, b) for a, b in s.facts.items() if h.facts.get(a) != b)
                ch = self.changed(entry, h, s)
                ups = tuple((self.locname(l, lid), nv if isinstance(nv, tuple) else None)
                            for l, nv in ch.items() if l[0] in ("f", "ha", "ov"))
                bodies.append((k, conds, seg, ups, v if k in ("return", "raise") else None))
                if k not in ("next", "continue"):
                    exits.append((k, v, s, hsegs, hk == ()))
                    continue
                fin = {}
                for loc, nv in ch.items():
                    if loc[0] == "f" and entry.frames[loc[1]].get(loc[2]) is None \
                            and loc not in wid:
                        info["newvars"].setdefault(loc, []).append((conds, nv))
                        continue
                    if loc[0] == "ov" and elem is not None and mentions(loc[1], elem):
                        if loc not in wid and entry.over.get(loc[1]) is None:
                            info["elemov"].setdefault(loc[1], set()).add(nv)
                            continue
                    if loc[0] == "shm" and (
                            (elem is not None and mentions(loc[1], elem))
                            or contains(loc[1], lambda t: is_app(t, "phi") and t[2] == lid)):
                        continue
                    if loc in wid:
                        self.note_update(lid, loc, nv, conds, info, wid[loc], h)
                        continue
                    if self.finite(nv) or (nv is None and loc[0] == "fl"):
                        fin[loc] = nv
                        continue
                    if loc[0] == "shm" and nv is not None and nv.exists in (True, False) and (
                            h.shm.get(loc[1]) is None or True) and \
                            self.volatile_or_flag(nv):
                        fin[loc] = nv
                        continue
                    wid[loc] = self.widening(entry, loc, nv, h)
                    grew = True
                if grew:
                    continue
                full = dict(hk)
                full.update(fin)
                # values equal to the entry's are not changes
                full = {l: v2 for l, v2 in full.items() if self.getloc(h0, l) != v2}
                key = tuple(sorted(full.items(), key=repr))
                self.note_variants(lid, s, conds, info, wid, entry, src)
                if key not in heads:
                    if len(heads) > 24:
                        # too many combinations: widen one of them
                        wid[next(iter(full))] = ("phi",)
                        grew = True
                        continue
                    h2 = h0.fork()
                    for l, v2 in full.items():
                        self.setloc(h2, l, v2)
                    heads[key] = (h2, [seg])
                    work.append(key)
                else:
                    if key != () or True:
                        heads[key][1].append(seg)
            if grew:
                return None
        return list(heads.values()), tuple(bodies), exits

    def volatile_or_flag(self, seg):
        return True

    def widening(self, entry, loc, nv, h):
        """how to widen a changed location"""
        old = self.getloc(entry, loc)
        if loc[0] == "h":
            ob = old
            if ob.kind in ("list", "dict", "set") and nv.parts[:len(ob.parts)] == ob.parts:
                return ("acc",)
            return ("opaque",)
        if loc[0] in ("f", "ha") and isinstance(old, tuple) and old and old[0] == "o" \
                and isinstance(nv, tuple) and nv and nv[0] == "o" and nv != old:
            return ("accvar",)
        return ("phi",)

    def widen(self, s, loc, how, lid, info, entry):
        if how[0] == "acc":
            o = s.heap[loc[1]]
            s.heap[loc[1]] = o.but(parts=o.parts + (("acc", lid, loc[1]),))
            return
        if how[0] == "accvar":
            old = self.getloc(entry, loc)
            o = entry.heap[old[1]]
            if o.kind in ("list", "dict", "set"):
                nid = ("o", -lid * 100000 - old[1])
                s.heap[nid[1]] = o.but(parts=o.parts + (("acc", lid, ("var",) + loc),))
                self.setloc(s, loc, nid)
                return
            how = ("phi",)
        if how[0] == "opaque":
            o = s.heap[loc[1]]
            t = A("phi", lid, ("obj", loc[1]))
            info["phi"].setdefault(t, {"init": None, "upd": [], "loc": loc})
            s.heap[loc[1]] = o.but(parts=(("*", t),)) if o.kind in ("list", "dict", "set") \
                else o.but(x=t)
            return
        if loc[0] == "shm":
            seg = self.getloc(s, loc)
            t = A("phi", lid, self.locname(loc, lid))
            s.shm[loc[1]] = Seg(None, A("size", t), t, self.new())
            return
        if loc[0] == "fl":
            s.flags.pop(loc[1], None)
            return
        t = A("phi", lid, self.locname(loc, lid))
        init = self.getloc(entry, loc)
        info["phi"].setdefault(t, {"init": self.freeze(init, entry) if init else None,
                                   "upd": [], "loc": loc})
        self.setloc(s, loc, t)

    def note_update(self, lid, loc, nv, conds, info, how, h):
        if how[0] == "phi" and loc[0] in ("f", "ha", "ov"):
            t = A("phi", lid, self.locname(loc, lid))
            if t in info["phi"]:
                info["phi"][t]["upd"].append((conds, nv))

    def note_variants(self, lid, s, conds, info, wid, entry, src):
        for loc, how in wid.items():
            if how[0] == "acc":
                o = s.heap[loc[1]]
                key = ("acc", lid, loc[1])
            elif how[0] == "accvar":
                v = self.getloc(s, loc)
                if not (isinstance(v, tuple) and v and v[0] == "o"):
                    info["variants"].setdefault(("acc", lid, ("var",) + loc), []).append(
                        (conds, (("*", v),)))
                    continue
                o = s.heap[v[1]]
                key = ("acc", lid, ("var",) + loc)
            else:
                continue
            if key in o.parts:
                i = o.parts.index(key)
                if i == 0 or o.parts[:i] == self.getparts(entry, loc):
                    new = o.parts[i + 1:]
                    pre = ()
                else:
                    new = o.parts[i + 1:]
                    pre = o.parts[:i]
                fz = self.freeze_parts(new, s, 0)
                vs = info["variants"].setdefault(key, [])
                if (conds, fz) not in vs:
                    vs.append((conds, fz))
                base = self.getparts(entry, loc)
                if pre and pre[:len(pre) - len(base)] and pre != base:
                    info["variants"].setdefault(("pre",) + key, []).append((conds, pre))
            else:
                info["variants"].setdefault(key, []).append(
                    (conds, (("reset", self.freeze_parts(o.parts, s, 0)),)))

    def getparts(self, entry, loc):
        if loc[0] == "h":
            return entry.heap[loc[1]].parts
        v = self.getloc(entry, loc)
        return entry.heap[v[1]].parts if v and v[0] == "o" else ()

    def close_acc(self, s, lid, src, info):
        """replace accumulation markers of a finished loop by summaries"""
        for oid, o in list(s.heap.items()):
            if any(p[0] == "acc" and p[1] == lid for p in o.parts):
                parts = []
                for p in o.parts:
                    if p[0] == "acc" and p[1] == lid:
                        vs = info["variants"].get(p, [])
                        if len(vs) == 1 and not vs[0][0] and \
                                vs[0][1] == (("1", self.M.elem_of(src)),):
                            parts.append(("*", src))
                        elif any(ps for _, ps in vs):
                            parts.append(("many", src, tuple(vs)))
                        if ("pre",) + p in info["variants"]:
                            parts.insert(0, ("many", A("reversed", src), tuple(
                                info["variants"][("pre",) + p])))
                    else:
                        parts.append(p)
                s.heap[oid] = o.but(parts=tuple(parts))

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fid):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.do_super(st, fid)
        out = []
        for fv, s in self.ev(n.func, st, fid):
            for args, kws, s2 in self.ev_args(n, s, fid):
                out += self.call(fv, args, kws, s2, n, fid)
        return out

    def do_super(self, st, fid):
        cur = fid
        while cur is not None:
            f = self.finfo[cur][0]
            if f is not None and f.cls is not None and f.parent is None:
                ps = f.params()
                me = st.frames[cur].get(ps[0]) if ps else None
                if me is None:
                    raise Unsupported("super without self")
                o = st.obj(me)
                of = o.cls if o is not None else (me[1] if me[0] == "cls" else self.types.get(me))
                if of is None:
                    of = f.cls.qual
                return [(self.alloc(st, Obj("super", attrs={
                    "obj": me, "of": ("cls", of), "after": ("cls", f.cls.qual)})), st)]
            cur = self.finfo[cur][1]
        raise Unsupported("super outside method")

    def ev_args(self, n, st, fid):
        cur = [([], st)]
        for a in n.args:
            nxt = []
            for vs, s in cur:
                if isinstance(a, ast.Starred):
                    for v, s2 in self.ev(a.value, s, fid):
                        for ps, s3 in self.M.parts_of(self, v, s2, a, fid):
                            add_ = []
                            for p in ps:
                                if p[0] == "1":
                                    add_.append(p[1])
                                elif p[0] == "*":
                                    add_.append(("*", p[1]))
                                else:
                                    add_.append(("*", A("list", (self.freeze_part(p, s3, 0),))))
                            nxt.append((vs + add_, s3))
                else:
                    nxt += [(vs + [v], s2) for v, s2 in self.ev(a, s, fid)]
            cur = nxt
        out = [(vs, [], s) for vs, s in cur]
        for k in n.keywords:
            nxt = []
            for vs, ks, s in out:
                for v, s2 in self.ev(k.value, s, fid):
                    if k.arg is None and v[0] == "c":
                        self.throw(s2, "TypeError", C("argument after ** must be a mapping"), node=n, fid=fid)
                    elif k.arg is None:
                        add_ = []
                        for p in self.M.map_parts(self, v, s2):
                            if p[0] == "kv" and is_c(p[1]) and p[1][1] == "str":
                                add_ = [x for x in add_ if x[0] != cval(p[1])]
                                add_.append((cval(p[1]), p[2]))
                            elif p[0] == "*":
                                add_.append(("**", p[1]))
                            else:
                                add_.append(("**", A("dict", (self.freeze_part(p, s2, 0),))))
                        nxt.append((vs, ks + add_, s2))
                    else:
                        nxt.append((vs, ks + [(k.arg, v)], s2))
            out = nxt
        return out

    def call_method(self, ob, name, args, kws, st, n, fid):
        out = []
        for m, s in self.get_attr(ob, name, st, n, fid):
            out += self.call(m, args, kws, s, n, fid)
        return out

    def call(self, fv, args, kws, st, n, fid):
        """[(result, state)]; exceptions go to the sink"""
        self.tick(n)
        k = fv[0]
        args, kws = list(args), list(kws)
        if k == "bm":
            if fv[1] == X("numpy.bool_"):
                return [(fv[2], st)]
            return self.call(fv[1], [fv[2]] + args, kws, st, n, fid)
        if k == "part":
            merged = [x for x in fv[3] if x[0] == "**" or x[0] not in [q[0] for q in kws]] + kws
            return self.call(fv[1], list(fv[2]) + args, merged, st, n, fid)
        if k == "fn":
            return self.call_fn(fv, args, kws, st, n, fid)
        if k in ("c", "t"):
            self.throw(st, "TypeError", C("not callable"), node=n, fid=fid)
            return []
        if k == "cls":
            return self.instantiate(fv[1], args, kws, st, n, fid)
        if is_app(fv, "cached"):
            st.ev("cachecall", fv[2], self.loc(n, fid))
            return self.call(fv[2], args, kws, st, n, fid)
        if is_app(fv, "cmfactory"):
            f = fv[2]
            func = self.repo.funcs[f[1]]
            out = []
            for bound, s in self.bind(func, f, args, kws, st, n, fid):
                out.append((self.alloc(s, Obj("cmgen", x=(f[1], tuple(bound.items()), f[2]))), s))
            return out
        if k == "x":
            h = self.ext.get(fv[1])
            if h is not None:
                r = h(self, args, kws, st, n, fid)
                if r is not NotImplemented:
                    return r
            c = self.pyexc(fv[1])
            if c is not None:
                return [(A("exc", fv[1].split(".")[-1], tuple(self.freeze(a, st) for a in args),
                           self.new()), st)]
            return self.opaque_call(fv, args, kws, st, n, fid)
        if k == "o":
            o = st.heap[fv[1]]
            if o.kind == "juxt":
                out = [((), st)]
                for f in o.x:
                    out = [(vs + (v,), s2) for vs, s in out
                           for v, s2 in self.call(f, args, kws, s, n, fid)]
                return [(("t", vs), s) for vs, s in out]
            if o.cls:
                q = self.find_method(o.cls, "__call__")
                if q:
                    return self.call(("bm", self.fnterm(q), fv), args, kws, st, n, fid)
        if is_app(fv, "attr"):
            r = self.M.method(self, fv[2], fv[3], args, kws, st, n, fid)
            if r is not NotImplemented:
                return r
        if is_app(fv, "wrapsdeco") or is_app(fv, "wrapper"):
            f = args[0]
            st.over[("attr", f, "__wrapped__")] = fv[2]
            return [(f, st)]
        if is_app(fv, "methodcaller"):
            return self.call_method(args[0], fv[2], list(fv[3]), list(fv[4]), st, n, fid)
        if is_app(fv, "attrgetter"):
            cur = [(args[0], st)]
            for part in fv[2].split("."):
                cur = [r for v, s in cur for r in self.get_attr(v, part, s, n, fid)]
            return cur
        if is_app(fv, "itemgetter"):
            return self.M.getitem(self, args[0], fv[2], st, n, fid)
        cls = self.types.get(fv)
        if cls:
            q = self.find_method(cls, "__call__")
            if q:
                return self.call(("bm", self.fnterm(q), fv), args, kws, st, n, fid)
        return self.opaque_call(fv, args, kws, st, n, fid)

    def opaque_call(self, fv, args, kws, st, n, fid, kind=None):
        loc = self.loc(n, fid)
        fa = tuple(("*", self.freeze(a[1], st)) if a[0] == "*" else self.freeze(a, st)
                   for a in args)
        fk = tuple((nm, self.freeze(v, st)) for nm, v in kws)
        ff = self.freeze(fv, st)
        kind = kind or ("ext" if self.root_x(fv) else "user")
        fn = ff
        if kind == "user" and not is_app(fv, "attr"):
            r = A("call", ff, fa, fk, self.new())
        elif is_app(fv, "attr") and fv[3] in self.M.IMPURE or (
                fv[0] == "x" and fv[1] in self.M.IMPURE_X):
            r = A("call", ff, fa, fk, self.new())
        else:
            r = A("call", ff, fa, fk)
        st.ev("call", ff, fa, fk, r, loc, tuple(args))
        self.maybe_raise(st, kind, ff, loc)
        return [(r, st)]

    def root_x(self, t):
        while True:
            if t[0] == "x":
                return True
            if t[0] == "a" and t[1] in ("attr", "item", "elem"):
                t = t[2]
            elif t[0] == "a" and t[1] == "call":
                t = t[2]
            else:
                return False

    # -------------------------------------------------------- binding
    def bind(self, func, fv, args, kws, st, n, fid):
        """[(dict of bound parameters, state)] or TypeError in the sink"""
        a = func.args
        pos = func.params()
        posonly = {x.arg for x in a.posonlyargs}
        defs = dict(fv[3]) if fv[0] == "fn" else {}
        bound = {}
        rest = []
        i = 0
        fuzzy = False
        for v in args:
            if v[0] == "*":
                if i < len(pos):
                    fuzzy = True
                    j = 0
                    # unknown number of positionals: they fill what they can
                    while i < len(pos) and not any(k == pos[i] for k, _ in kws):
                        bound[pos[i]] = A("item", v[1], C(j))
                        i += 1
                        j += 1
                    if a.vararg:
                        rest.append(("*", A("rest", v[1], C(j))) if j else v)
                    continue
                rest.append(v)
            elif i < len(pos) and not fuzzy:
                bound[pos[i]] = v
                i += 1
            else:
                rest.append(v)
        if rest and not a.vararg and not fuzzy:
            if all(x[0] == "*" for x in rest):
                rest = []
            else:
                self.throw(st, "TypeError", C(f"{func.name}() takes {len(pos)} positional "
                                              f"arguments but more were given"), node=n, fid=fid)
                st.flags["arity"] = (func.qual, self.loc(n, fid))
                return []
        extra = []
        allowed = set(pos) - posonly | set(func.kwonly())
        unknown_kw = []
        for nm, v in kws:
            if nm == "**":
                unknown_kw.append(v)
                continue
            if nm in allowed:
                if nm in bound and not fuzzy:
                    self.throw(st, "TypeError", C(f"{func.name}() got multiple values for {nm}"),
                               node=n, fid=fid)
                    return []
                bound[nm] = v
            elif a.kwarg:
                extra.append(("kv", C(nm), v))
            else:
                self.throw(st, "TypeError", C(f"{func.name}() got an unexpected keyword "
                                              f"argument {nm!r}"), node=n, fid=fid)
                return []
        if a.vararg:
            bound[a.vararg.arg] = self.mktuple(
                tuple(("*", x[1]) if x[0] == "*" else ("1", x) for x in rest), st)
        if a.kwarg:
            bound[a.kwarg.arg] = self.mkdict(st, extra + [("*", v) for v in unknown_kw])
        # defaults
        npos = len(pos)
        dnames = pos[npos - len(a.defaults):]
        dmap = dict(zip(dnames, a.defaults))
        dmap.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        cur = [(bound, st)]
        for p in pos + func.kwonly():
            nxt = []
            for b, s in cur:
                if p in b:
                    nxt.append((b, s))
                elif unknown_kw and not a.kwarg:
                    d = dict(b)
                    dflt = defs.get(p)
                    d[p] = A("kwor", unknown_kw[0], C(p), dflt) if dflt is not None \
                        else A("item", unknown_kw[0], C(p))
                    nxt.append((d, s))
                elif p in defs:
                    d = dict(b)
                    d[p] = defs[p]
                    nxt.append((d, s))
                elif p in dmap:
                    mf = self.new()
                    self.finfo[mf] = (None, None, func.cls, func.mod)
                    s.frames[mf] = {}
                    if func.cls is not None:
                        s.frames[mf] = {m: self.fnterm(q) for m, q in func.cls.methods.items()}
                    for v, s2 in self.ev(dmap[p], s, mf):
                        d = dict(b)
                        d[p] = v
                        nxt.append((d, s2))
                elif any(v[0] == "*" for v in args) or unknown_kw:
                    d = dict(b)
                    d[p] = A("item", unknown_kw[0], C(p)) if unknown_kw else A("unbound", p)
                    nxt.append((d, s))
                else:
                    self.throw(s, "TypeError", C(f"{func.name}() missing argument {p!r}"),
                               node=n, fid=fid)
            cur = nxt
        return cur

    def call_fn(self, fv, args, kws, st, n, fid):
        qual = fv[1]
        func = self.repo.funcs[qual]
        h = self.hooks.get(qual)
        if h is not None:
            r = h(self, fv, args, kws, st, n, fid)
            if r is not NotImplemented:
                return r
        if self.stack.count(qual) >= 1 and self.rec_opaque and func.body is not None \
                and ".<locals>." not in qual:
            return self.rec_call(fv, func, args, kws, st, n, fid)
        if len(self.stack) > self.maxdepth:
            raise Unsupported("call depth")
        out = []
        for bound, s in self.bind(func, fv, args, kws, st, n, fid):
            if func.is_gen:
                out.append((self.alloc(s, Obj("gen", x=(qual, tuple(bound.items()), fv[2]))), s))
                continue
            out += self.run_fn(func, fv, bound, s, n)
        return out

    def rec_call(self, fv, func, args, kws, st, n, fid):
        out = []
        for bound, s in self.bind(func, fv, args, kws, st, n, fid):
            fb = tuple((k, self.freeze(v, s)) for k, v in sorted(bound.items()))
            r = A("rec", func.qual, fb)
            s.ev("call", ("fn", func.qual, None, ()), tuple(v for _, v in fb), (), r,
                 self.loc(n, fid), tuple(bound.items()))
            self.maybe_raise(s, "rec", fv, self.loc(n, fid))
            out.append((r, s))
        return out

    def run_fn(self, func, fv, bound, st, n):
        fid = self.newframe(st, func, fv[2], bound)
        self.inlined.add(func.qual)
        self.stack.append(func.qual)
        hooks, self.yield_hooks = self.yield_hooks, []
        depth, self.loop_depth = self.loop_depth, 0
        try:
            if func.body is None:      # lambda
                return self.ev(func.node.body, st, fid)
            out = []
            for k, v, s in self.block(func.body, st, fid):
                if k == "return":
                    out.append((v, s))
                elif k == "next":
                    out.append((NONE, s))
                elif k == "raise":
                    self.sink.append((v, s))
                else:
                    raise Unsupported("stray break")
            return out
        finally:
            self.stack.pop()
            self.yield_hooks = hooks
            self.loop_depth = depth

    def instantiate(self, cls, args, kws, st, n, fid):
        h = self.hooks.get(cls)
        if h is not None:
            r = h(self, ("cls", cls), args, kws, st, n, fid)
            if r is not NotImplemented:
                return r
        c = self.pyexc(cls)
        if c is not None:
            return [(A("exc", cls, tuple(self.freeze(a, st) for a in args), self.new()), st)]
        ob = self.alloc(st, Obj("inst", cls=cls))
        q = self.find_method(cls, "__init__")
        if q is None:
            eb = self.ext_base(cls)
            return [(ob, st)]
        out = []
        for _, s in self.call(("bm", self.fnterm(q), ob), args, kws, st, n, fid):
            out.append((ob, s))
        return out

    # ------------------------------------------------------ entry point
    def run(self, fv, args, kws=(), st=None):
        """all outcomes of calling fv: [('return', v, st) | ('raise', e, st)]"""
        st = st or St()
        saved, self.sink = self.sink, []
        node = ast.Constant(None, lineno=0, col_offset=0)
        try:
            outs = [("return", v, s) for v, s in self.call(fv, list(args), list(kws), st, node, None)]
            outs += [("raise", e, s) for e, s in self.sink]
        finally:
            self.sink = saved
        return outs

    def run_consume(self, fv, args, kws=(), st=None):
        """like run, but exhausts a returned generator into a list"""
        res = []
        for k, v, s in self.run(fv, args, kws, st):
            o = s.obj(v) if k == "return" else None
            if o is not None and o.kind in ("gen", "genexp", "stream"):
                saved, self.sink = self.sink, []
                node = ast.Constant(None, lineno=0, col_offset=0)
                for lst, s2 in self.M.to_list(self, v, s, node, None):
                    res.append(("return", lst, s2))
                res += [("raise", e, s2) for e, s2 in self.sink]
                self.sink = saved
            else:
                res.append((k, v, s))
        return res


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


# ------------------------------------------------------------- trace tools
class NotFor(Exception):
    """a while loop that turned out not to walk a fixed sequence"""


def own_continues(body):
    """(continue statement, the statement before it) of one loop's own body"""
    for i, x in enumerate(body):
        if isinstance(x, ast.Continue):
            yield x, body[i - 1] if i else None
        elif not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                yield from own_continues(getattr(x, f, None) or [])
            for h in getattr(x, "handlers", None) or []:
                yield from own_continues(h.body)
            for h in getattr(x, "cases", None) or []:
                yield from own_continues(h.body)


def is_step(x, name):
    """the constant a statement adds to a name, or None"""
    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
        op, v = x.op, x.value
    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
            and x.targets[0].id == name and isinstance(x.value, ast.BinOp) \
            and isinstance(x.value.left, ast.Name) and x.value.left.id == name:
        op, v = x.value.op, x.value.right
    else:
        return None
    if not isinstance(v, ast.Constant) or type(v.value) is not int:
        return None
    return v.value if isinstance(op, ast.Add) else -v.value if isinstance(op, ast.Sub) else None


def counting(n):
    """('count', name, comparison, bound, step) of a loop that counts"""
    t = n.test
    if not isinstance(t, ast.Compare) or len(t.ops) != 1 or not n.body:
        return None
    left, op, right = t.left, type(t.ops[0]).__name__, t.comparators[0]
    flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
    if op not in flip:
        return None
    for a, o, b in ((left, op, right), (right, flip[op], left)):
        if not isinstance(a, ast.Name):
            continue
        c = is_step(n.body[-1], a.id)
        if not c or (c > 0) != (o in ("Lt", "LtE")):
            continue
        sets = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name)
                and x.id == a.id and isinstance(x.ctx, (ast.Store, ast.Del))]
        before = [b2 for _, b2 in own_continues(n.body)]
        if any(b2 is None or is_step(b2, a.id) != c for b2 in before):
            continue
        if len(sets) != 1 + len(before):
            continue
        return "count", a.id, o, b, c
    return None


def draining(n):
    """('drain', name, from the front, target) of a loop that empties a list"""
    t = n.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) \
            and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
        t = t.left
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" \
            and len(t.args) == 1:
        t = t.args[0]
    if not isinstance(t, ast.Name) or not n.body:
        return None
    if getattr(n, "drained", None) is None:
        uses = [y for s in n.body for y in ast.walk(s) if isinstance(y, ast.Name) and y.id == t.id]
        calls = [y for y in ast.walk(n.body[0]) if isinstance(y, ast.Call) and is_pop(y, t.id)]
        maybe = (ast.BoolOp, ast.IfExp, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                 ast.GeneratorExp)
        if len(uses) != 1 or len(calls) != 1 or not isinstance(
                n.body[0], (ast.Assign, ast.Expr, ast.Delete, ast.AugAssign, ast.AnnAssign)) or any(
                isinstance(y, maybe) for y in ast.walk(n.body[0])):
            return None
        n.drained = [copy.deepcopy(s) for s in n.body]
        new = ast.copy_location(ast.Name(DRAWN, ast.Load()), calls[0])

        class Put(ast.NodeTransformer):
            def visit_Call(self, y):
                return new if is_pop(y, t.id) else self.generic_visit(y)
        n.drained[0] = Put().visit(n.drained[0])
        n.front = bool(calls[0].args)
    return "drain", t.id, n.front, n.drained


DRAWN = "$drawn"


def is_pop(y, name):
    f, a = y.func, y.args
    return isinstance(f, ast.Attribute) and f.attr == "pop" and isinstance(f.value, ast.Name) \
        and f.value.id == name and not y.keywords and len(a) <= 1 and (
            not a or isinstance(a[0], ast.Constant) and a[0].value == 0)


def flat(events, loops=True, last=False):
    """all events, those in loop bodies included (tagged by nesting)"""
    for e in events:
        if e[0] == "loop":
            yield e
            if loops:
                for b in e[3]:
                    yield from flat(b[2], loops, last)
        elif e[0] == "last":
            if last:
                for seg in e[2]:
                    yield from flat(seg, loops, last)
        else:
            yield e


def calls(events, loops=True):
    return [e for e in flat(events, loops) if e[0] == "call"]
