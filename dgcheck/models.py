"""Models of builtins, the standard library and the third-party functions the
repository uses.  A function without a model is opaque: its call is an event
and its result a term."""
import ast
import functools
import re
import types as _types

from .terms import *
from .state import *

ALIASES = {
    "typing.Mapping": "collections.abc.Mapping",
    "typing.MutableMapping": "collections.abc.MutableMapping",
    "typing.Sequence": "collections.abc.Sequence",
    "typing.Collection": "collections.abc.Collection",
    "typing.Iterable": "collections.abc.Iterable",
    "typing.Callable": "collections.abc.Callable",
    "typing.Hashable": "collections.abc.Hashable",
    "typing.MutableSequence": "collections.abc.MutableSequence",
    "toolz.identity": "cytoolz.identity",
    "pyarrow.parquet.ParquetFile": "pyarrow.parquet.ParquetFile",
    "io.open": "builtins.open",
}
IMPURE = {"read", "readline", "recv", "pop", "popitem", "isoformat", "now", "apply_async",
          "apply", "map_async", "submit", "exists", "is_file", "is_dir", "stat", "read_bytes",
          "read_text"}
IMPURE_X = {"random.randint", "os.getpid", "time.time", "multiprocessing.Pool",
            "datetime.datetime.now", "multiprocessing.Process", "os.path.exists", "os.path.isfile",
            "os.path.isdir", "os.path.getsize", "os.stat"}
MUTATORS = {"append", "extend", "insert", "update", "pop", "popitem", "clear", "remove",
            "sort", "reverse", "setdefault", "add", "discard", "fill", "itemset", "put",
            "resize", "partition", "byteswap_", "appendleft", "popleft",
            "difference_update", "intersection_update", "symmetric_difference_update",
            "__setitem__", "__delitem__"}
INFINITE = ("count", "repeat")


# ------------------------------------------------------------------ sources
def norm_src(t):
    """the sequence actually iterated"""
    while is_app(t) and t[1] in ("keys", "seqof"):
        t = t[2]
    return t


def elem_of(src):
    src = norm_src(src)
    if is_app(src, "items"):
        m = src[2]
        return T(A("elem", m), A("item", m, A("elem", m)))
    if is_app(src, "values"):
        return A("item", src[2], A("elem", src[2]))
    if is_app(src) and src[1] in ("reversed", "sorted", "setof", "copyof"):
        return elem_of(src[2])
    if is_app(src, "zip"):
        return T(*[lock_elem(x, src) for x in src[2]])
    if is_app(src, "again"):
        return A("elem", src)
    return A("elem", src)


def lock_elem(x, driver):
    if is_app(x, "count"):
        return add(x[2], mul(x[3], A("idx", driver)))
    if is_app(x, "range") and x[2] == C(0) and x[4] == C(1):
        return A("idx", driver)
    return elem_of(x)


def iterate(I, src, st, body, n, fid):
    k = src[0]
    if k == "t":
        return known_iter(I, src[1], st, body, n, fid)
    if k == "o":
        o = st.heap[src[1]]
        if o.kind in ("list", "set"):
            if I.watch_iter:
                st.ev("over", src, any(src in o2.attrs.values() for o2 in st.heap.values()
                                       if isinstance(o2.attrs, dict)), I.loc(n, fid))
            if o.kind == "set" and (len(o.parts) > 1 or any(p[0] != "1" for p in o.parts)):
                st.ev("unordered", I.loc(n, fid))
            return iter_parts(I, o.parts, st, body, n, fid)
        if o.kind == "dict":
            return iter_dict(I, o.parts, st, body, n, fid, "keys")
        if o.kind == "gen":
            if o.attrs.get("done"):
                st.ev("exhausted", o.x[0], I.loc(n, fid))
                return [("next", None, st)]
            st.heap[src[1]] = o.but(attrs={"done": TRUE})
            return I.iter_gen(o.x[0], dict(o.x[1]), o.x[2], st, body, n)
        if o.kind == "genexp":
            if o.attrs.get("done"):
                st.ev("exhausted", "generator expression", I.loc(n, fid))
                return [("next", None, st)]
            st.heap[src[1]] = o.but(attrs=dict(o.attrs, done=TRUE))
            node, gf = o.x

            def leaf(s, cfid):
                outs = []
                saved, I.sink = I.sink, []
                for v, s2 in I.ev(node.elt, s, cfid):
                    outs += body(v, s2)
                outs += [("raise", e, s2) for e, s2 in I.sink]
                I.sink = saved
                return outs
            return I.run_comp(node, o.attrs["src"], st, gf, leaf)
        if o.kind == "stream":
            if o.attrs.get("done") and o.x[0] not in ("dkeys", "dvals", "ditems", "count", "repeat"):
                st.ev("exhausted", o.x[0], I.loc(n, fid))
                return [("next", None, st)]
            if o.x[0] not in ("dkeys", "dvals", "ditems"):
                st.heap[src[1]] = o.but(attrs=dict(o.attrs, done=TRUE))
            return iter_stream(I, src, o, st, body, n, fid)
        if o.kind == "iter":
            pos = o.attrs["pos"]
            base = o.attrs["src"]
            items = I.known_items(base, st)
            if items is not None and is_c(pos) and len(items) <= 16:
                return iter_stepwise(I, src, items, st, body)
            st.heap[src[1]] = o.but(attrs=dict(o.attrs, pos=A("end")))
            if pos == C(0):
                outs = iterate(I, base, st, body, n, fid)
                for kk, _, s2 in outs:
                    if kk not in ("next", "raise") and src[1] in s2.heap:
                        s2.heap[src[1]] = s2.heap[src[1]].but(
                            attrs=dict(o.attrs, pos=A("after", C(I.new()))))
                return outs
            if is_app(pos, "end"):
                st.ev("exhausted", "iterator", I.loc(n, fid))
                return [("next", None, st)]
            items = I.known_items(base, st)
            if items is not None and is_c(pos):
                return known_iter(I, items[cval(pos):], st, body, n, fid)
            if is_app(pos, "phi") and "oneshot" in o.attrs:
                st.ev("reuse", pos, I.loc(n, fid))
            fb = A("rest", I.freeze(base, st), pos)
            return I.opaque_iter(fb, A("elem", fb), st, body, n, fid)
        if o.cls:
            q = I.find_method(o.cls, "__iter__")
            if q:
                res = []
                for v, s in I.call(("bm", I.fnterm(q), src), [], [], st, n, fid):
                    res += iterate(I, v, s, body, n, fid)
                return res
        f = I.freeze(src, st)
        st.ev("iter", f, I.loc(n, fid))
        return I.opaque_iter(f, A("elem", f), st, body, n, fid)
    src = norm_src(src)
    if is_app(src, "list") or is_app(src, "set") or is_app(src, "tcat"):
        return iter_parts(I, src[2], st, body, n, fid)
    if is_app(src, "dict"):
        return iter_dict(I, src[2], st, body, n, fid, "keys")
    if is_app(src) and src[1] in ("items", "values") and is_app(src[2], "dict"):
        return iter_dict(I, src[2][2], st, body, n, fid, src[1])
    if is_app(src, "range"):
        a, b, c = src[2:]
        if is_c(a) and is_c(b) and is_c(c):
            vals = list(range(cval(a), cval(b), cval(c)))
            if len(vals) <= 12:
                return known_iter(I, [C(v) for v in vals], st, body, n, fid)
    if is_app(src) and src[1] in ("reversed", "sorted", "setof") and is_app(src[2], "list") \
            and src[1] == "reversed":
        items = I.known_items(src[2], st)
        if items is not None:
            return known_iter(I, items[::-1], st, body, n, fid)
        back = reversed_parts(src[2][2])
        if back is not None:
            return iter_parts(I, back, st, body, n, fid)
    if is_c(src) and src[1] == "str":
        return known_iter(I, [C(x) for x in cval(src)], st, body, n, fid)
    if is_c(src) and src[1] in ("NoneType", "int", "float", "bool") or \
            src[0] == "o" and st.heap[src[1]].kind == "shm":
        I.throw(st, "TypeError", C("not iterable"), node=n, fid=fid)
        return []
    f = I.freeze(src, st)
    if is_app(f, "count") and is_c(f[2]) and is_c(f[3]):
        outs = count_unrolled(I, f, st, body)
        if outs is not None:
            return outs
    st.ev("iter", f, I.loc(n, fid))
    outs = I.opaque_iter(f, elem_of(f), st, body, n, fid)
    if is_app(f) and f[1] in INFINITE:
        outs = [o for o in outs if o[0] != "next"]
    return outs


def count_unrolled(I, f, st, body, limit=16):
    """an endless counting loop in which every step goes exactly one way and that ends soon"""
    cur = st.fork()
    saved, I.sink = I.sink, []
    try:
        for i in range(limit):
            outs = body(C(cval(f[2]) + i * cval(f[3])), cur)
            if len(outs) != 1 or I.sink:
                return None
            k, v, s = outs[0]
            if k not in ("next", "continue"):
                return [outs[0]]
            cur = s
        return None
    finally:
        I.sink = saved


def iter_stepwise(I, it, items, st, body):
    """a loop over an iterator whose remaining items are known; the body may take
    items from it too, and leaving early leaves the rest"""
    outs, cur = [], [st]
    for _ in range(len(items) + 1):
        nxt = []
        for s in cur:
            o = s.heap[it[1]]
            pos = o.attrs["pos"]
            if not is_c(pos) and not is_app(pos, "end"):
                raise Unsup("position of an iterator")
            if not is_c(pos) or cval(pos) >= len(items):
                s.heap[it[1]] = o.but(attrs=dict(o.attrs, pos=A("end")))
                outs.append(("next", None, s))
                continue
            s.heap[it[1]] = o.but(attrs=dict(o.attrs, pos=C(cval(pos) + 1)))
            for k, v, s2 in body(items[cval(pos)], s):
                (nxt.append(s2) if k in ("next", "continue") else outs.append((k, v, s2)))
        cur = I.merge(nxt)
        if not cur:
            break
    return outs


def known_iter(I, items, st, body, n, fid):
    from .interp import Blowup
    if len(items) <= 4:
        return I.seq_iter(items, st, body)
    keep = st.fork()
    b0 = I.budget
    try:
        outs, cur = [], [st]
        for e in items:
            nxt = []
            for s in cur:
                for k, v, s2 in body(e, s):
                    if k in ("next", "continue"):
                        nxt.append(s2)
                    else:
                        outs.append((k, v, s2))
            cur = I.merge(nxt)
            if len(cur) > 40:
                raise Blowup("unroll")
        return outs + [("next", None, s) for s in cur]
    except Blowup as ex:
        if str(ex) != "unroll":
            raise
        I.budget = b0
        src = A("oneof", tuple(I.freeze(i, keep) for i in items))
        return I.opaque_iter(src, A("elem", src), keep, body, n, fid, elems=list(items))


def iter_parts(I, parts, st, body, n, fid):
    if all(p[0] == "1" for p in parts):
        return known_iter(I, [p[1] for p in parts], st, body, n, fid)
    outs, cur = [], [st]
    for p in parts:
        nxt = []
        for s in cur:
            for k, v, s2 in iter_part(I, p, s, body, n, fid):
                if k in ("next", "continue"):
                    nxt.append(s2)
                else:
                    outs.append((k, v, s2))
        cur = I.merge(nxt)
    return outs + [("next", None, s) for s in cur]


def reversed_parts(parts):
    """the parts of a list read from its end, or None where the order is not that simple"""
    out = []
    for p in parts[::-1]:
        if p[0] == "1":
            out.append(p)
        elif p[0] == "*":
            src = norm_src(p[1])
            out.append(("*", src[2] if is_app(src, "reversed") else A("reversed", src)))
        elif p[0] == "many":
            vs = tuple((c, reversed_parts(ps)) for c, ps in p[2])
            if any(ps is None for _, ps in vs):
                return None
            out.append(("many", A("reversed", p[1]), vs))
        else:
            return None
    return tuple(out)


def iter_part(I, p, st, body, n, fid):
    if p[0] == "1":
        return body(p[1], st)
    if p[0] == "*":
        return iterate(I, p[1], st, body, n, fid)
    if p[0] == "many":
        src, variants = p[1], p[2]

        def vbody(_e, s):
            outs = []
            for conds, ps in variants:
                s2 = s.fork()
                if all(I.assume(a, b, s2) for a, b in conds):
                    outs += iter_parts(I, ps, s2, body, n, fid)
            return outs
        return I.opaque_iter(src, elem_of(src), st, vbody, n, fid)
    f = A("partial", p)
    return I.opaque_iter(f, A("elem", f), st, body, n, fid)


def iter_dict(I, parts, st, body, n, fid, what):
    parts = dedupe_keys(parts)

    def wrap(k, v):
        return k if what == "keys" else (v if what == "values" else T(k, v))
    if all(p[0] == "kv" for p in parts):
        return known_iter(I, [wrap(p[1], p[2]) for p in parts], st, body, n, fid)
    outs, cur = [], [st]
    for p in parts:
        nxt = []
        for s in cur:
            if p[0] == "kv":
                r = body(wrap(p[1], p[2]), s)
            elif p[0] == "*":
                m = p[1]
                src = m if what == "keys" else A(what, m)
                r = iterate(I, src, s, body, n, fid)
            elif p[0] == "many":
                def vbody(_e, s1, p=p):
                    o = []
                    for conds, ps in p[2]:
                        s2 = s1.fork()
                        if all(I.assume(a, b, s2) for a, b in conds):
                            o += iter_dict(I, ps, s2, body, n, fid, what)
                    return o
                r = I.opaque_iter(p[1], elem_of(p[1]), s, vbody, n, fid)
            elif p[0] == "del":
                r = [("next", None, s)]
            else:
                f = A("partial", p)
                e = A("elem", f)
                r = I.opaque_iter(f, wrap(e, A("item", f, e)), s, body, n, fid)
            for k, v, s2 in r:
                if k in ("next", "continue"):
                    nxt.append(s2)
                else:
                    outs.append((k, v, s2))
        cur = I.merge(nxt)
    return outs + [("next", None, s) for s in cur]


def dedupe_keys(parts):
    """later entries of an equal key win, at the first one's position"""
    if not all(p[0] == "kv" for p in parts):
        if not any(p[0] == "del" for p in parts):
            return parts
        out = []
        for p in parts:
            if p[0] == "del":
                out = [q for q in out if not (q[0] == "kv" and q[1] == p[1])]
            else:
                out.append(p)
        return tuple(out)
    d = {}
    for p in parts:
        d[p[1]] = p
    return tuple(d.values())


def iter_stream(I, src, o, st, body, n, fid):
    op, args = o.x[0], o.x[1:]

    def guarded(fn):
        def inner(e, s):
            saved, I.sink = I.sink, []
            outs = fn(e, s)
            outs = outs + [("raise", x, s2) for x, s2 in I.sink]
            I.sink = saved
            return outs
        return inner
    if op == "map":
        f, its = args[0], args[1:]
        if len(its) == 1:
            def b(e, s):
                outs = []
                for v, s2 in I.call(f, [e], [], s, n, fid):
                    outs += body(v, s2)
                return outs
            return iterate(I, its[0], st, guarded(b), n, fid)

        def b2(e, s):
            outs = []
            for v, s2 in I.call(f, list(e[1]) if e[0] == "t" else [("*", e)], [], s, n, fid):
                outs += body(v, s2)
            return outs
        return iter_zip(I, its, st, guarded(b2), n, fid)
    if op == "starmap":
        def b(e, s):
            outs = []
            for ps, s1 in parts_of(I, e, s, n, fid):
                a = [p[1] if p[0] == "1" else ("*", p[1]) for p in ps]
                for v, s2 in I.call(args[0], a, [], s1, n, fid):
                    outs += body(v, s2)
            return outs
        return iterate(I, args[1], st, guarded(b), n, fid)
    if op in ("filter", "filterfalse"):
        f = args[0]
        want = op == "filter"

        def b(e, s):
            outs = []
            vals = [(e, s)] if f == NONE else I.call(f, [e], [], s, n, fid)
            for v, s2 in vals:
                for t, s3 in I.truth(v, s2):
                    outs += body(e, s3) if t == want else [("next", None, s3)]
            return outs
        return iterate(I, args[1], st, guarded(b), n, fid)
    if op == "takewhile":
        def b(e, s):
            outs = []
            for v, s2 in I.call(args[0], [e], [], s, n, fid):
                for t, s3 in I.truth(v, s2):
                    outs += body(e, s3) if t else [("tw", None, s3)]
            return outs
        r = iterate(I, args[1], st, guarded(b), n, fid)
        return [("next" if k == "tw" else k, v, s) for k, v, s in r]
    if op == "zip":
        return iter_zip(I, args, st, body, n, fid)
    if op == "enumerate":
        return iter_zip(I, (A("count", args[1], C(1)), args[0]), st, body, n, fid)
    if op == "chain":
        outs, cur = [], [st]
        for a in args:
            nxt = []
            for s in cur:
                for k, v, s2 in iterate(I, a, s, body, n, fid):
                    (nxt.append(s2) if k in ("next", "continue") else outs.append((k, v, s2)))
            cur = nxt
        return outs + [("next", None, s) for s in cur]
    if op == "product":
        pools = [I.known_items(a, st) for a in args]
        if all(p is not None for p in pools):
            import itertools
            return known_iter(I, [T(*c) for c in itertools.product(*pools)], st, body, n, fid)

        def level(i, acc, s):
            if i == len(args):
                return body(T(*acc), s)
            return iterate(I, args[i], s, lambda e, s2: level(i + 1, acc + (e,), s2), n, fid)
        return level(0, (), st)
    if op == "dkeys":
        return iter_dict(I, st.heap[args[0][1]].parts, st, body, n, fid, "keys")
    if op == "dvals":
        return iter_dict(I, st.heap[args[0][1]].parts, st, body, n, fid, "values")
    if op == "ditems":
        return iter_dict(I, st.heap[args[0][1]].parts, st, body, n, fid, "items")
    f = I.freeze(src, st)
    st.ev("iter", f, I.loc(n, fid))
    if op == "count" and o.attrs.get("pos") not in (None, C(0)):
        f = A("count", add(f[2], mul(f[3], o.attrs["pos"])), f[3])
    if is_app(f, "count") and is_c(f[2]) and is_c(f[3]):
        outs = count_unrolled(I, f, st, body)
        if outs is not None:
            return outs
    outs = I.opaque_iter(f, elem_of(f), st, body, n, fid)
    if op in INFINITE:
        outs = [x for x in outs if x[0] != "next"]
    return outs


def counter_like(t, st):
    o = st.obj(t)
    if o is not None and o.kind == "stream" and o.x[0] in ("count", "repeat"):
        return True
    return is_app(t) and t[1] in ("count", "range", "repeat")


def inline_src(t, st):
    o = st.obj(t)
    return o is not None and (o.kind in ("gen", "genexp") or (
        o.kind == "stream" and o.x[0] in ("map", "filter", "zip", "enumerate", "chain", "product",
                                          "starmap", "dkeys", "dvals", "ditems"))
        or (o.kind in ("list", "dict") and not all(p[0] == "1" for p in o.parts)))


def Unsup(msg):
    from .interp import Unsupported
    return Unsupported(msg)


def lockstep(I, x, st):
    """(base source, [(conditions, element)]) of an iterable with exactly one element per
    element of its base source"""
    o = st.obj(x)
    if o is not None and o.kind == "iter":
        return None
    f = norm_src(I.freeze(x, st))
    if f[0] == "a" and f[1] in ("list", "tuple") and len(f[2]) == 1:
        p = f[2][0]
        if p[0] == "*":
            return p[1], [((), elem_of(p[1]))]
        if p[0] == "many" and all(len(ps) == 1 and ps[0][0] == "1" for _, ps in p[2]):
            return norm_src(p[1]), [(c, ps[0][1]) for c, ps in p[2]]
        return None
    if is_app(f) and f[1] in ("list", "tuple", "dict", "set", "zip", "map", "filter", "chain"):
        return None
    return f, [((), elem_of(f))]


def exact_items(I, x, st):
    """the items of an iterable whose length and elements are known (nothing is consumed)"""
    r = I.known_items(x, st)
    if r is not None:
        return r
    o = st.obj(x)
    view = "dkeys"
    if o is not None and o.kind == "stream" and o.x[0] in ("dkeys", "dvals", "ditems"):
        view, o = o.x[0], st.obj(o.x[1])
    if o is not None and o.kind == "set" and all(p[0] == "1" for p in o.parts) and len(o.parts) < 2:
        return tuple(p[1] for p in o.parts)
    if o is not None and o.kind == "dict" and all(p[0] == "kv" and is_c(p[1]) for p in o.parts):
        last = {}
        for p in o.parts:
            last[p[1]] = p[2]
        return tuple({"dkeys": k, "dvals": v, "ditems": T(k, v)}[view] for k, v in last.items())
    if is_app(x, "range") and all(is_c(y) for y in x[2:]):
        r = range(*[cval(y) for y in x[2:]])
        if len(r) <= 16:
            return tuple(C(i) for i in r)
    return None


def iter_zip(I, its, st, body, n, fid):
    if any(is_c(i) and i[1] in ("NoneType", "int", "float", "bool") for i in its):
        I.throw(st, "TypeError", C("not iterable"), node=n, fid=fid)
        return []
    known = [exact_items(I, i, st) for i in its]
    if all(k is not None for k in known):
        return known_iter(I, [T(*x) for x in zip(*known)], st, body, n, fid)
    if any(k is not None for k in known):
        m = min(len(k) for k in known if k is not None)
        if all(k is not None or counter_like(i, st) for k, i in zip(known, its)):
            rows = []
            for j in range(m):
                row = []
                for k, i in zip(known, its):
                    if k is not None:
                        row.append(k[j])
                    else:
                        f = I.freeze(i, st)
                        if f[1] == "repeat":
                            row.append(f[2])
                        else:
                            step = f[3] if f[1] == "count" else f[4]
                            row.append(add(f[2], mul(step, C(j))))
                rows.append(T(*row))
            return known_iter(I, rows, st, body, n, fid)
    drivers = [i for i, x in enumerate(its) if not counter_like(x, st)]
    if len(drivers) > 1:
        lock = [lockstep(I, its[i], st) for i in drivers]
        bases = {x[0] for x in lock if x is not None}
        if None not in lock and len(bases) == 1 and len(drivers) == len(its):
            src = bases.pop()

            def lb(e, s):
                rows = [((), {})]
                out = []
                for _, vs in lock:
                    rows = [(r + (v,), {**f, **dict(c)}) for r, f in rows for c, v in vs]
                for r, f in rows:
                    s2 = s.fork()
                    if all(I.assume(a, b, s2) for a, b in f.items()):
                        out += body(T(*r), s2)
                return out
            return I.opaque_iter(src, elem_of(src), st, lb, n, fid)
    if not drivers:
        d = 0
    else:
        inl = [i for i in drivers if inline_src(its[i], st)]
        d = inl[0] if inl else drivers[0]
    others = [x for i, x in enumerate(its) if i != d]
    drv = its[d]
    if inline_src(drv, st) or (st.obj(drv) is not None and st.obj(drv).kind == "iter"):
        need = [x for x in others]
        cf = I.newframe(st, None, None, {"$ctr": C(0)})

        bounds = []
        for i, x in enumerate(its):
            f = I.freeze(x, st)
            if i != d and is_app(f, "range"):
                if all(is_c(y) for y in f[2:]):
                    bounds.append((len(range(*[cval(y) for y in f[2:]])), i < d))
                elif not mentions(f, norm_src(I.freeze(drv, st))):
                    raise Unsup("zip of a generator with a range of unknown length")
        if (0, True) in bounds:
            return [("next", None, st)]

        def b(e, s):
            c = s.var(cf, "$ctr")
            if bounds and not is_c(c):
                raise Unsup("zip with a range in a summarised loop")
            if any(not before and cval(c) >= ln for ln, before in bounds):
                return [("zw", None, s)]
            outs = b_(e, s)
            if any(before and cval(c) + 1 >= ln for ln, before in bounds):
                outs = [("zw" if k in ("next", "continue") else k, v, x) for k, v, x in outs]
            return outs

        def b_(e, s):
            c = s.var(cf, "$ctr")
            s.setvar(cf, "$ctr", add(c, C(1)) if is_c(c) else lin(1, {c: 1}))
            row = []
            for i, x in enumerate(its):
                if i == d:
                    row.append(e)
                    continue
                f = I.freeze(x, s)
                if is_app(f, "count"):
                    row.append(add(f[2], mul(f[3], c) if is_c(c) else lin(0, {c: cval(f[3])})
                               if is_c(f[3]) else A("mul", f[3], c)))
                elif is_app(f, "range"):
                    row.append(add(f[2], mul(f[4], c) if is_c(c) else c))
                elif is_app(f, "repeat"):
                    row.append(f[2])
                else:
                    row.append(A("at", f, c))
            return body(T(*row), s)
        r = iterate(I, drv, st, b, n, fid)
        return [("next" if k == "zw" else k, v, s) for k, v, s in r]
    fs = tuple(norm_src(I.freeze(x, st)) for x in its)
    for x, f in zip(its, fs):
        if not (is_app(f) and f[1] in ("count", "range", "repeat")):
            st.ev("iter", f, I.loc(n, fid))
    if len(its) == 2 and drivers == [1] and counter_like(its[0], st):
        src = fs[1]
        row = T(lock_elem(fs[0], src) if not is_app(fs[0], "repeat") else fs[0][2], elem_of(src))
        return I.opaque_iter(src, row, st, body, n, fid)
    src = A("zip", fs)
    return I.opaque_iter(src, elem_of(src), st, body, n, fid)


def members(I, v, st):
    """the distinct members of an iterable of constants, in order, or None"""
    items = exact_items(I, v, st)
    if items is None:
        items = const_set(I.freeze(v, st))
    if items is None or not all(is_c(x) for x in items):
        return None
    out = []
    for x in items:
        if not any(cval(x) == cval(y) for y in out):
            out.append(x)
    return out


def dedupe(ps):
    """parts of a set: an item that certainly equals an earlier one is dropped"""
    out = []
    for p in ps:
        if p in out and p[0] == "1":
            continue
        if p[0] == "1" and is_c(p[1]) and any(q[0] == "1" and is_c(q[1]) and cval(p[1]) == cval(q[1]) for q in out):
            continue
        out.append(p)
    return tuple(out)


SETOPS = {
    "union": lambda a, b: a + [x for x in b if x not in a],
    "intersection": lambda a, b: [x for x in a if x in b],
    "difference": lambda a, b: [x for x in a if x not in b],
    "symmetric_difference": lambda a, b: [x for x in a if x not in b] + [x for x in b if x not in a],
}
SETASKS = {
    "issubset": lambda a, b: all(x in b for x in a), "issuperset": lambda a, b: all(x in a for x in b),
    "isdisjoint": lambda a, b: not any(x in b for x in a),
}


def setop(name):
    """a set method on members that are all known constants; anything else stays opaque"""
    def h(I, r, o, args, kws, st, n, fid):
        ms = [members(I, x, st) for x in (r, *args)]
        if kws or any(m is None for m in ms) or name in SETASKS and len(ms) != 2:
            return NotImplemented
        py = [[cval(x) for x in m] for m in ms]
        if name in SETASKS:
            return [(C(SETASKS[name](*py)), st)]
        acc = py[0]
        for m in py[1:]:
            acc = SETOPS[name.replace("_update", "")](acc, m)
        new = tuple(("1", C(x)) for x in acc)
        if name.endswith("_update"):
            st.heap[r[1]] = o.but(parts=new)
            return [(NONE, st)]
        return [(I.alloc(st, Obj("set", parts=new)), st)]
    return h


def set_drop(name):
    def h(I, r, o, args, kws, st, n, fid):
        ms = members(I, r, st)
        if ms is None or not (len(args) == 1 and is_c(args[0])):
            return NotImplemented
        new = tuple(("1", x) for x in ms if cval(x) != cval(args[0]))
        if len(new) == len(ms) and name == "remove":
            I.throw(st, "KeyError", args[0], node=n, fid=fid)
            return []
        st.heap[r[1]] = o.but(parts=new)
        return [(NONE, st)]
    return h


def to_list(I, v, st, n, fid, kind="list"):
    if kind != "set":
        return to_list_(I, v, st, n, fid, kind)
    out = to_list_(I, v, st, n, fid, kind)
    for r, s in out:
        o = s.obj(r)
        if o is not None and o.kind == "set":
            s.heap[r[1]] = o.but(parts=dedupe(o.parts))
    return out


def to_list_(I, v, st, n, fid, kind="list"):
    """[(new list object, state)] holding v's elements"""
    o = st.obj(v)
    if v[0] == "t":
        return [(I.alloc(st, Obj(kind, parts=tuple(("1", x) for x in v[1]))), st)]
    if o is not None and o.kind in ("list", "set"):
        return [(I.alloc(st, Obj(kind, parts=o.parts)), st)]
    if o is not None:
        acc = I.alloc(st, Obj(kind))

        def body(e, s):
            a = s.heap[acc[1]]
            s.heap[acc[1]] = a.but(parts=a.parts + (("1", e),))
            return [("next", None, s)]
        out = []
        for k, val, s in iterate(I, v, st, body, n, fid):
            if k == "next":
                out.append((acc, s))
            elif k == "raise":
                I.sink.append((val, s))
        return out
    if is_app(v, "list") or is_app(v, "set"):
        return [(I.alloc(st, Obj(kind, parts=v[2])), st)]
    if is_app(v, "range") or is_app(v, "dict") or (is_app(v) and v[1] in ("items", "values")
                                                     and is_app(v[2], "dict")) or is_c(v):
        acc = I.alloc(st, Obj(kind))

        def body2(e, s):
            a = s.heap[acc[1]]
            s.heap[acc[1]] = a.but(parts=a.parts + (("1", e),))
            return [("next", None, s)]
        return [(acc, s) for k, _, s in iterate(I, v, st, body2, n, fid) if k == "next"]
    f = norm_src(I.freeze(v, st))
    st.ev("iter", f, I.loc(n, fid))
    return [(I.alloc(st, Obj(kind, parts=(("*", f),))), st)]


def parts_of(I, v, st, n, fid):
    """[(list parts, state)] of an iterable"""
    if v[0] == "t":
        return [(tuple(("1", x) for x in v[1]), st)]
    if is_app(v, "tcat") or is_app(v, "list"):
        return [(v[2], st)]
    o = st.obj(v)
    if o is not None and o.kind in ("list",):
        return [(o.parts, st)]
    if v[0] == "s" and v in getattr(I, "vararg_syms", ()):
        return [((("*", v),), st)]
    return [(s.heap[l[1]].parts, s) for l, s in to_list(I, v, st, n, fid)]


def map_parts(I, m, st):
    o = st.obj(m)
    if o is not None and o.kind == "dict":
        return o.parts
    if is_app(m, "dict"):
        return m[2]
    if m == NONE:
        return ()
    return (("*", I.freeze(m, st)),)


MAPNAMES = ("dict", "Mapping", "MutableMapping", "OrderedDict")


def is_maplike(I, t, st):
    if is_app(t, "dict"):
        return True
    if t in getattr(I, "maps", ()) or I.kinds.get(t) == "dict":
        return True
    if is_app(t, "keyfilter"):
        return True
    for a, v in st.facts.items():
        if v and is_app(a, "isinst") and a[2] == t and is_c(a[3]) and cval(a[3]) in MAPNAMES:
            return True
    return False


# ------------------------------------------------------------ dict lookup
def dict_lookup(I, parts, k, st):
    """[(value or None if absent, state)]"""
    cur, out = [st], []
    for p in reversed(parts):
        nxt = []
        for s in cur:
            if p[0] in ("kv", "del"):
                for b, s2 in I.branch(cmp_eq(k, p[1]), s):
                    if b:
                        out.append((p[2] if p[0] == "kv" else None, s2))
                    else:
                        nxt.append(s2)
            elif p[0] == "*":
                m = p[1]
                if is_app(m, "dict"):
                    for v, s2 in dict_lookup(I, m[2], k, s):
                        if v is None:
                            nxt.append(s2)
                        else:
                            out.append((v, s2))
                    continue
                for b, s2 in I.branch(A("in", k, m), s):
                    if b:
                        out.append((item_term(I, m, k, s2), s2))
                    else:
                        nxt.append(s2)
            elif p[0] == "many":
                m = A("dict", (I.freeze_part(p, s, 0),))
                e = A("elem", norm_src(p[1]))
                val = None
                if len(p[2]) == 1 and not p[2][0][0] and len(p[2][0][1]) == 1 \
                        and p[2][0][1][0][0] == "kv" and p[2][0][1][0][1] == e:
                    val = replace(p[2][0][1][0][2], {e: k})
                    m = norm_src(p[1])
                    while is_app(m) and m[1] in ("items", "values"):
                        m = m[2]
                for b, s2 in I.branch(A("in", k, m), s):
                    if b:
                        out.append((val if val is not None else A("item", m, k), s2))
                    else:
                        nxt.append(s2)
            else:
                m = A("partial", p)
                for b, s2 in I.branch(A("in", k, m), s):
                    if b:
                        out.append((A("item", m, k), s2))
                    else:
                        nxt.append(s2)
        cur = nxt
    return out + [(None, s) for s in cur]


def item_term(I, m, k, st):
    if ("item", m, k) in st.over:
        return st.over[("item", m, k)]
    return I.item_of(m, k, st)


def contains(I, k, c, st, n, fid):
    o = st.obj(c)
    fk = I.freeze(k, st)
    if o is not None and o.kind == "dict":
        return [(C(v is not None), s) for v, s in dict_lookup(I, o.parts, fk, st)]
    if o is not None and o.kind == "stream" and o.x[0] == "dkeys":
        return contains(I, k, o.x[1], st, n, fid)
    if is_app(c, "keys"):
        c = c[2]
    if is_app(c, "dict"):
        return [(C(v is not None), s) for v, s in dict_lookup(I, c[2], fk, st)]
    items = I.known_items(c, st)
    if items is None and o is not None and o.kind == "set" and all(p[0] == "1" for p in o.parts):
        items = tuple(p[1] for p in o.parts)
    if items is not None:
        cur, out = [st], []
        for x in items:
            nxt = []
            for s in cur:
                for b, s2 in I.branch(cmp_eq(fk, I.freeze(x, s)), s):
                    if b:
                        out.append((TRUE, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(FALSE, s) for s in cur]
    if is_app(c, "dir") and is_c(k):
        return hasattr_(I, [c[2], k], [], st, n, fid)
    if is_c(c) and is_c(k) and c[1] == "str" and k[1] == "str":
        return [(C(cval(k) in cval(c)), st)]
    if o is not None and o.cls:
        q = I.find_method(o.cls, "__contains__")
        if q:
            return I.call(("bm", I.fnterm(q), c), [k], [], st, n, fid)
    if o is not None and o.kind == "iter":
        # a search uses the iterator up to the item it finds
        pos = o.attrs["pos"]
        if is_app(pos, "end"):
            if "oneshot" in o.attrs:
                st.ev("exhausted", "iterator", I.loc(n, fid))
            return [(FALSE, st)]
        base = o.attrs["src"] if pos == C(0) else A("rest", I.freeze(o.attrs["src"], st), pos)
        if is_app(pos, "phi") and "oneshot" in o.attrs:
            st.ev("reuse", pos, I.loc(n, fid))
        out = []
        for b, s in contains(I, k, base, st, n, fid):
            for b2, s2 in ([(bool(cval(b)), s)] if is_c(b) else I.branch(b, s)):
                s2.heap[c[1]] = s2.heap[c[1]].but(attrs=dict(
                    o.attrs, pos=A("after", C(I.new())) if b2 else A("end")))
                out.append((C(b2), s2))
        return out
    fc = norm_src(I.freeze(c, st))
    if is_app(fc, "setof"):
        fc = fc[2]
    return [(A("in", fk, fc), st)]


# --------------------------------------------------------------- subscripts
def slice_parts(k):
    lo, hi, step = k[2:]
    return lo, hi, step


def is_full_slice(k):
    return is_app(k, "slice") and k[2] in (NONE, C(0)) and k[3] == NONE and k[4] in (NONE, C(1)) \
        or k == ELL


def getitem(I, ob, k, st, n, fid):
    kd = ob[0]
    if is_app(k) and is_bool_atom(k) and (kd in ("t", "o") or is_app(ob) and ob[1] in (
            "dict", "list")):
        out = []
        for b, s in I.branch(k, st):
            out += getitem(I, ob, C(b), s, n, fid)
        return out
    if kd == "t":
        if is_c(k) and k[1] in ("int", "bool"):
            i = int(cval(k))
            if -len(ob[1]) <= i < len(ob[1]):
                return [(ob[1][i], st)]
            I.throw(st, "IndexError", node=n, fid=fid)
            return []
        if is_app(k, "slice") and all(is_c(x) for x in k[2:]):
            return [(("t", ob[1][slice(*[cval(x) for x in k[2:]])]), st)]
    if is_c(ob) and ob[1] in ("str", "bytes") and is_app(k, "slice") and \
            all(is_c(x) for x in k[2:]):
        return [(C(cval(ob)[slice(*[cval(x) for x in k[2:]])]), st)]
    if kd == "o":
        o = st.heap[ob[1]]
        if o.kind == "list":
            r = list_item(I, o.parts, k, st)
            if r is not None:
                return r
            if is_full_slice(k):
                return [(I.mklist(st, o.parts), st)]
            if is_c(k) and not o.parts:
                I.throw(st, "IndexError", node=n, fid=fid)
                return []
            return [(A("item", I.freeze(ob, st), k), st)]
        if o.kind == "dict":
            out = []
            for v, s in dict_lookup(I, o.parts, I.freeze(k, st), st):
                if v is None:
                    if o.x is not None:
                        for d, s2 in I.call(o.x, [], [], s, n, fid):
                            o2 = s2.heap[ob[1]]
                            s2.heap[ob[1]] = o2.but(parts=o2.parts + (("kv", k, d),))
                            out.append((d, s2))
                    else:
                        I.throw(s, "KeyError", I.freeze(k, s), node=n, fid=fid)
                else:
                    out.append((v, s))
            return out
        if o.kind == "buf":
            return [(I.alloc(st, Obj("buf", x=o.x[:2] + (k if not is_full_slice(k) else None,))), st)]
        if o.kind == "nd":
            return [(A("item", nd_value(I, ob, o, st, n, fid), k), st)] if not is_full_slice(k) \
                else [(ob, st)]
        if o.cls:
            q = I.find_method(o.cls, "__getitem__")
            if q:
                return I.call(("bm", I.fnterm(q), ob), [k], [], st, n, fid)
        return [(A("item", I.freeze(ob, st), I.freeze(k, st)), st)]
    cls = I.types.get(ob)
    if cls:
        q = I.find_method(cls, "__getitem__")
        if q:
            return I.call(("bm", I.fnterm(q), ob), [k], [], st, n, fid)
    if is_app(ob, "list"):
        r = list_item(I, ob[2], k, st)
        if r is not None:
            return r
    if is_app(ob, "dict"):
        out = []
        for v, s in dict_lookup(I, ob[2], I.freeze(k, st), st):
            if v is None:
                I.throw(s, "KeyError", I.freeze(k, s), node=n, fid=fid)
            else:
                out.append((v, s))
        return out
    if is_c(ob) and is_c(k) and ob[1] in ("str", "bytes"):
        try:
            return [(C(cval(ob)[cval(k)]), st)]
        except Exception:
            I.throw(st, "IndexError", node=n, fid=fid)
            return []
    if is_c(ob) and ob[1] in ("NoneType", "int", "bool", "float"):
        I.throw(st, "TypeError", C("not subscriptable"), node=n, fid=fid)
        return []
    if is_app(ob, "tcat"):
        r = list_item(I, ob[2], k, st)
        if r is not None:
            return r
    fk = I.freeze(k, st)
    for kk in I.raises("item", A("item", ob, fk)):
        s = st.fork()
        I.throw(s, kk, fk, node=n, fid=fid)
    if is_app(ob, "values") or is_app(ob, "items"):
        pass
    return [(item_term(I, ob, fk, st), st)]


def list_item(I, parts, k, st):
    if is_c(k) and k[1] == "int":
        i = cval(k)
        if i >= 0 and len(parts) > i and all(p[0] == "1" for p in parts[:i + 1]):
            return [(parts[i][1], st)]
        if i < 0 and len(parts) >= -i and all(p[0] == "1" for p in parts[i:]):
            return [(parts[i][1], st)]
    if is_app(k, "slice") and all(is_c(x) for x in k[2:]) and all(p[0] == "1" for p in parts):
        return [(I.mklist(st, parts[slice(*[cval(x) for x in k[2:]])]), st)]
    return None


def setitem(I, ob, k, v, st, n, fid, aug=False):
    loc = I.loc(n, fid)
    if ob[0] == "o":
        o = st.heap[ob[1]]
        if o.kind == "dict":
            fk = I.freeze(k, st)
            st.heap[ob[1]] = o.but(parts=o.parts + (("kv", fk, v),))
            st.ev("hset", ob, fk, I.freeze(v, st), loc)
            return [st]
        if o.kind == "list":
            if is_full_slice(k):
                return [(lambda ps, s: (s.heap.__setitem__(ob[1], s.heap[ob[1]].but(parts=ps)), s)[1])(ps, s)
                        for ps, s in parts_of(I, v, st, n, fid)]
            if is_app(k, "slice") and all(is_c(x) for x in k[2:]) and all(
                    p[0] == "1" for p in o.parts):
                items = I.known_items(v, st)
                if items is not None and k[4] in (NONE, C(1)):
                    ps = list(o.parts)
                    ps[slice(*[cval(x) for x in k[2:]])] = [("1", x) for x in items]
                    st.heap[ob[1]] = o.but(parts=tuple(ps))
                    return [st]
            if is_c(k) and k[1] == "int" and all(p[0] == "1" for p in o.parts) and \
                    -len(o.parts) <= cval(k) < len(o.parts):
                ps = list(o.parts)
                ps[cval(k)] = ("1", v)
                st.heap[ob[1]] = o.but(parts=tuple(ps))
                return [st]
            st.heap[ob[1]] = o.but(parts=o.parts + (("set", k, v),))
            return [st]
        if o.kind == "buf":
            return buf_write(I, o, k, v, st, n, fid)
        if o.kind == "nd":
            return nd_write(I, o, k, v, st, n, fid)
        if o.cls:
            q = I.find_method(o.cls, "__setitem__")
            if q:
                return [s for _, s in I.call(("bm", I.fnterm(q), ob), [k, v], [], st, n, fid)]
        st.ev("mut", I.freeze(ob, st), "setitem", I.freeze(k, st), I.freeze(v, st), loc)
        return [st]
    cls = I.types.get(ob)
    if cls:
        q = I.find_method(cls, "__setitem__")
        if q:
            return [s for _, s in I.call(("bm", I.fnterm(q), ob), [k, v], [], st, n, fid)]
    fk = I.freeze(k, st)
    st.ev("mut", ob, "setitem", fk, I.freeze(v, st), loc)
    st.over[("item", ob, fk)] = v
    for a in [a for a in st.facts if is_app(a, "in") and a[3] == ob and a[2] == fk]:
        del st.facts[a]
    st.facts[A("in", fk, ob)] = True
    return [st]


def delitem(I, ob, k, st, n, fid):
    loc = I.loc(n, fid)
    fk = I.freeze(k, st)
    if ob[0] == "o":
        o = st.heap[ob[1]]
        if o.kind == "dict":
            out = []
            for v, s in dict_lookup(I, o.parts, fk, st):
                if v is None:
                    I.throw(s, "KeyError", fk, node=n, fid=fid)
                else:
                    o2 = s.heap[ob[1]]
                    if any(p[0] == "kv" and p[1] == fk for p in o2.parts) and \
                            all(p[0] == "kv" for p in o2.parts):
                        s.heap[ob[1]] = o2.but(parts=tuple(
                            p for p in o2.parts if p[1] != fk))
                    else:
                        s.heap[ob[1]] = o2.but(parts=o2.parts + (("del", fk),))
                    out.append(s)
            return out
        if o.kind == "list":
            if is_full_slice(k):
                st.heap[ob[1]] = o.but(parts=())
                return [st]
            if is_app(k, "slice") and all(is_c(x) for x in k[2:]) and all(
                    p[0] == "1" for p in o.parts):
                ps = list(o.parts)
                del ps[slice(*[cval(x) for x in k[2:]])]
                st.heap[ob[1]] = o.but(parts=tuple(ps))
                return [st]
            if is_c(k) and k[1] == "int" and all(p[0] == "1" for p in o.parts):
                ps = list(o.parts)
                try:
                    del ps[cval(k)]
                except IndexError:
                    I.throw(st, "IndexError", node=n, fid=fid)
                    return []
                st.heap[ob[1]] = o.but(parts=tuple(ps))
                return [st]
            st.heap[ob[1]] = o.but(parts=(("*", A("delitem", I.freeze(ob, st), fk)),))
            return [st]
        if o.cls:
            q = I.find_method(o.cls, "__delitem__")
            if q:
                return [s for _, s in I.call(("bm", I.fnterm(q), ob), [k], [], st, n, fid)]
    cls = I.types.get(ob)
    if cls:
        q = I.find_method(cls, "__delitem__")
        if q:
            return [s for _, s in I.call(("bm", I.fnterm(q), ob), [k], [], st, n, fid)]
    st.ev("mut", I.freeze(ob, st), "delitem", fk, None, loc)
    st.over.pop(("item", ob, fk), None)
    st.facts[A("in", fk, ob)] = False
    return [st]


def list_extend(I, ob, v, st, n, fid):
    out = []
    for ps, s in parts_of(I, v, st, n, fid):
        o = s.heap[ob[1]]
        s.heap[ob[1]] = o.but(parts=o.parts + tuple(flatten_concat(ps)))
        out.append(s)
    return out


def flatten_concat(parts):
    for p in parts:
        if p[0] == "*" and (is_app(p[1], "list") or is_app(p[1], "tcat")):
            yield from flatten_concat(p[1][2])
        else:
            yield p


def concat_parts(I, parts, st):
    """parts of the concatenation of a list of lists given by `parts`; None if
    an element is not a list"""
    out = []
    for p in parts:
        if p[0] == "1":
            x = I.freeze(p[1], st)
            if is_app(x, "list") or is_app(x, "tcat"):
                out += list(x[2])
            elif x[0] == "t":
                out += [("1", y) for y in x[1]]
            else:
                out.append(("*", x))
        elif p[0] == "*":
            e = elem_of(p[1])
            out.append(("many", p[1], (((), (("*", e),)),)))
        elif p[0] == "many":
            out.append(("many", p[1], tuple(
                (c, tuple(concat_parts(I, ps, st))) for c, ps in p[2])))
        else:
            out.append(("*", A("partial", p)))
    return tuple(out)


def dict_update(I, ob, v, st, n, fid):
    o = st.obj(v)
    if o is not None and o.kind in ("list", "stream", "gen", "genexp") or v[0] == "t":
        out = []
        for ps, s in parts_of(I, v, st, n, fid):
            add_ = pairs_to_kv(I, ps, s)
            d = s.heap[ob[1]]
            s.heap[ob[1]] = d.but(parts=d.parts + add_)
            out.append(s)
        return out
    d = st.heap[ob[1]]
    ps = map_parts(I, v, st)
    st.heap[ob[1]] = d.but(parts=d.parts + ps)
    for p in ps:
        if p[0] == "kv":
            st.ev("hset", ob, p[1], I.freeze(p[2], st), I.loc(n, fid))
    return [st]


def pairs_to_kv(I, parts, st):
    out = []
    for p in parts:
        if p[0] == "1":
            it = I.known_items(p[1], st)
            if it is not None and len(it) == 2:
                out.append(("kv", it[0], it[1]))
            else:
                f = I.freeze(p[1], st)
                out.append(("kv", A("item", f, C(0)), A("item", f, C(1))))
        elif p[0] == "many":
            out.append(("many", p[1], tuple((c, pairs_to_kv(I, ps, st)) for c, ps in p[2])))
        elif p[0] == "*" and is_app(p[1], "items"):
            out.append(("*", p[1][2]))
        else:
            out.append(("*", A("dictof", p[1] if p[0] == "*" else A("partial", p))))
    return tuple(out)


# ---------------------------------------------------------- shared memory
def addr_parts(a):
    return a[2] if is_app(a, "cat") else (a,)


def addr_rel(I, a, b, st):
    """[(same?, state)]: can addresses a and b be equal"""
    if a == b:
        return [(True, st)]
    pa, pb = addr_parts(a), addr_parts(b)
    if len(pa) != len(pb):
        return [(False, st)]
    holes = []
    for x, y in zip(pa, pb):
        if is_c(x) or is_c(y):
            if is_c(x) and is_c(y):
                if x != y:
                    if _intlike(x) and _intlike(y):
                        return [(False, st)]
                    return [(False, st)]
            else:
                # a literal against a hole: equal only if the hole formats to it
                c, h = (x, y) if is_c(x) else (y, x)
                return _hole_const(I, pa, pb, st)
            continue
        if x != y:
            holes.append((unstr(x), unstr(y)))
    if not holes:
        return [(True, st)]
    cur, out = [st], []
    for x, y in holes:
        nxt = []
        for s in cur:
            for b_, s2 in I.branch(hole_eq(x, y), s):
                if b_:
                    nxt.append(s2)
                else:
                    out.append((False, s2))
        cur = nxt
    return out + [(True, s) for s in cur]


def _intlike(c):
    return True


def _hole_const(I, pa, pb, st):
    """templates where a constant segment faces a hole: compare by trailing
    numbers of the constants"""
    cur = [st]
    out = []
    for x, y in zip(pa, pb):
        if x == y:
            continue
        if is_c(x) and is_c(y):
            return [(False, st)]
        c, h = (x, y) if is_c(x) else (y, x)
        if is_c(h):
            return [(False, st)]
        h = unstr(h)
        m = re.search(r"(-?\d+)$", cval(c)) if c[1] == "str" else None
        return [(False, st)]
    return [(True, s) for s in cur]


def unstr(t):
    return t[2] if is_app(t, "str") else t


def hole_eq(x, y):
    # digests of the same hash are equal iff the hashed values are
    hx, hy = _hashed(x), _hashed(y)
    if hx is not None and hy is not None:
        return hole_eq(hx, hy)
    if is_app(x, "enc") and is_app(y, "enc"):
        return hole_eq(unstr(x[2]), unstr(y[2]))
    if is_app(x, "str") and is_app(y, "str"):
        return hole_eq(x[2], y[2])
    num = lambda t: is_num(t) or is_app(t, "elem") and is_app(t[2], "range")
    if num(x) or num(y):
        pa, pb = lin_parts(x), lin_parts(y)
        if pa is not None and pb is not None:
            co = dict(pa[1])
            for k, v in pb[1].items():
                co[k] = co.get(k, 0) - v
            co = {k: v for k, v in co.items() if v}
            c = pa[0] - pb[0]
            if not co:
                return C(c == 0)
            items = sorted(co.items(), key=repr)
            if items[0][1] < 0:
                c, co = -c, {k: -v for k, v in co.items()}
            return A("eq0", A("lin", c, tuple(sorted(co.items(), key=repr))))
    return cmp_eq(x, y)


def _hashed(t):
    if is_app(t, "call") and is_app(t[2], "attr") and t[2][3] in ("hexdigest", "digest"):
        c = t[2][2]
        if is_app(c, "call") and c[2][0] == "x" and c[2][1].startswith("hashlib") and c[3]:
            return c[3][0]
    return None


def cell(I, addr, st):
    """[(address key, Seg, state)]"""
    cur, out = [st], []
    known = list(st.shm)
    if addr in st.shm:
        return [(addr, st.shm[addr], st)]
    for c in known:
        nxt = []
        for s in cur:
            for same, s2 in addr_rel(I, addr, c, s):
                if same:
                    out.append((c, s2.shm[c], s2))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        if I.volatile(addr):
            s2 = s.fork()
            i = I.new()
            out.append((addr, Seg(True, A("vsize", addr, i), A("vread", addr, i), -1), s))
            out.append((addr, Seg(False), s2))
            continue
        if I.shm_init is not None:
            r = I.shm_init(I, addr, s)
            if r is not None:
                for seg, s2 in r:
                    if addr not in s2.shm:
                        s2.shm[addr] = seg
                    out.append((addr, s2.shm[addr], s2))
                continue
        s2 = s.fork()
        seg = Seg(True, A("size0", addr), A("mem0", addr), 0)
        s.shm[addr] = seg
        out.append((addr, seg, s))
        seg2 = Seg(False)
        s2.shm[addr] = seg2
        out.append((addr, seg2, s2))
    res = []
    for a, seg, s in out:
        if seg.exists is None:
            s2 = s.fork()
            y, nn = seg.but(exists=True), seg.but(exists=False)
            s.shm[a], s2.shm[a] = y, nn
            res += [(a, y, s), (a, nn, s2)]
        else:
            res.append((a, seg, s))
    return res


def x_sharedmemory(I, args, kws, st, n, fid):
    kw = dict(kws)
    names = ("name", "create", "size")
    for nm, a in zip(names, args):
        kw[nm] = a
    addr = kw.get("name", NONE)
    loc = I.loc(n, fid)
    create = kw.get("create", FALSE)
    size = kw.get("size", C(0))
    out = []
    for mk, s in I.truth(create, st):
        if addr == NONE:
            a = A("anon", I.new())
        else:
            a = addr
        for key, seg, s2 in cell(I, a, s):
            if mk:
                if seg.exists:
                    s2.ev("shm", "exists", key, None, loc)
                    I.throw(s2, "FileExistsError", key, node=n, fid=fid)
                    continue
                # a hook may refuse creation
                for k in I.raises("shmcreate", key):
                    s3 = s2.fork()
                    exc = A("uexc", k, I.new(), key)
                    s3.ev("raise", exc, loc)
                    I.sink.append((exc, s3))
                g = I.new()
                seg = Seg(True, size, A("zeros", size), g, True)
                s2.shm[key] = seg
            else:
                if not seg.exists:
                    s2.ev("shm", "absent", key, None, loc)
                    I.throw(s2, "FileNotFoundError", key, node=n, fid=fid)
                    continue
                interrupted(I, key, s2, loc)
                g = seg.gen
            h = I.alloc(s2, Obj("shm", attrs={"name": key}, x=(key, g)))
            s2.ev("shm", "create" if mk else "attach", key, size if mk else seg.size, loc, h)
            out.append((h, s2))
    return out


def interrupted(I, key, st, loc):
    """a hook may interrupt a look at shared memory (one interruption per path)"""
    ks = I.raises("shmprobe", key)
    if not ks or any(e[0] == "raise" and is_app(e[1], "uexc") for e in st.events()):
        return
    for k in ks:
        s3 = st.fork()
        exc = A("uexc", k, I.new(), key)
        s3.ev("raise", exc, loc)
        I.sink.append((exc, s3))


def cell_of(I, x, st):
    """current Seg a handle (addr, gen) refers to, or None if detached"""
    seg = st.shm.get(x[0])
    if seg is not None and seg.gen == x[1]:
        return seg
    return None


def blen(t):
    if is_c(t) and t[1] in ("bytes", "str"):
        return C(len(cval(t)))
    if is_app(t, "tobytes"):
        return t[3]
    if is_app(t, "zeros"):
        return t[2]
    if is_app(t, "arrbytes"):
        return A("attr", t[2], "nbytes")
    if is_app(t, "mem0"):
        return A("size0", t[2])
    if is_app(t, "vread"):
        return A("vsize", *t[2:])
    return A("len", t)


def buf_content(I, o, st, n, fid):
    addr, gen, sl = (o.x + (None,))[:3]
    seg = cell_of(I, o.x, st)
    loc = I.loc(n, fid)
    interrupted(I, addr, st, loc)
    if seg is not None:
        t = seg.content
        st.ev("shm", "read", addr, t, loc)
        if gen != -1 and I.volatile(addr) and not seg.mine:
            t = A("vread", addr, I.new())
    elif gen == -1 or I.volatile(addr):
        t = A("vread", addr, I.new())
        st.ev("shm", "read", addr, t, loc)
    else:
        t = A("stale", addr, C(gen))
        st.ev("shm", "read", addr, t, loc)
    if sl is not None:
        lo, hi, stp = sl[2:] if is_app(sl, "slice") else (None, None, None)
        if is_app(sl, "slice") and lo in (NONE, C(0)) and stp == NONE and hi == blen(t):
            return t
        t = A("item", t, sl)
    return t


def buf_write(I, o, k, v, st, n, fid):
    addr, gen = o.x[:2]
    loc = I.loc(n, fid)
    seg = cell_of(I, o.x, st)
    fv = I.freeze(v, st)
    if o.kind == "buf" and st.obj(v) is not None and st.obj(v).kind == "buf":
        fv = buf_content(I, st.obj(v), st, n, fid)
    if seg is None:
        st.ev("shm", "write", addr, fv, loc)
        if gen != -1 and not I.volatile(addr):
            st.ev("shm", "stalewrite", addr, fv, loc)
        return [st]
    L = blen(fv)
    full = is_full_slice(k)
    if not full and is_app(k, "slice") and k[2] in (NONE, C(0)) and k[4] == NONE:
        # [:len(data)] of a block of exactly that size is the whole block
        if k[3] == L:
            if seg.size == L:
                full = True
            else:
                st.ev("shm", "write", addr, fv, loc)
                outs = []
                for b, s in I.branch(cmp_eq(seg.size, L), st):
                    if b:
                        s.shm[addr] = seg.but(content=fv)
                        outs.append(s)
                    else:
                        for lt, s2 in I.branch(cmp_lt(seg.size, L), s):
                            if lt:
                                s2.ev("shm", "clash", addr, (seg.size, fv), loc)
                                I.throw(s2, "ValueError", C("size mismatch"), node=n, fid=fid)
                            else:
                                s2.ev("shm", "partial", addr, (seg.size, fv), loc)
                                s2.shm[addr] = seg.but(content=A("overlay", fv, seg.content))
                                outs.append(s2)
                return outs
    if not full:
        st.ev("shm", "write", addr, fv, loc)
        if not (is_app(k, "slice") and k[3] == seg.size):
            st.ev("shm", "partial", addr, (seg.size, fv), loc)
        st.shm[addr] = seg.but(content=A("overlay", fv, seg.content))
        return [st]
    st.ev("shm", "write", addr, fv, loc)
    outs = []
    for b, s in I.branch(cmp_eq(seg.size, L), st):
        if b:
            s.shm[addr] = seg.but(content=fv)
            outs.append(s)
        else:
            s.ev("shm", "clash", addr, (seg.size, fv), loc)
            I.throw(s, "ValueError", C("size mismatch"), node=n, fid=fid)
    return outs


def nd_write(I, o, k, v, st, n, fid):
    addr, gen, shape, dtype = o.x
    laid = ()
    if is_app(shape, "laid"):
        shape, laid = shape[2], (shape[3],)
    fv = I.freeze(v, st)
    loc = I.loc(n, fid)
    seg = cell_of(I, o.x, st)
    if st.obj(v) is not None and st.obj(v).kind == "nd":
        fv = nd_value(I, v, st.obj(v), st, n, fid)
    if shape == A("attr", fv, "shape") and dtype in (
            A("attr", fv, "dtype"), A("attr", A("attr", fv, "dtype"), "str")):
        content = A("arrbytes", fv, *laid)
    else:
        content = A("arrcast", fv, shape, dtype, *laid)
    st.ev("shm", "write", addr, content, loc)
    if k == ELL:
        pass
    elif is_full_slice(k):
        # [:] fails for 0-d arrays
        st.ev("nd0", addr, loc)
        outs = []
        for b, s in I.branch(A("eq", A("attr", fv, "ndim"), C(0)), st):
            if b:
                I.throw(s, "IndexError", C("0-d"), node=n, fid=fid)
            else:
                outs += _ndw(I, s, addr, seg, content, loc, n, fid)
        return outs
    else:
        content = A("overlay", content, seg.content if seg else A("stale"))
        st.ev("shm", "partial", addr, (None, content), loc)
        if seg is not None:
            st.shm[addr] = seg.but(content=content)
        return [st]
    return _ndw(I, st, addr, seg, content, loc, n, fid)


def _ndw(I, st, addr, seg, content, loc, n, fid):
    if seg is None:
        st.ev("shm", "stalewrite", addr, content, loc)
        return [st]
    if is_app(content, "arrbytes"):
        outs = []
        for b, s in I.branch(cmp_eq(seg.size, blen(content)), st):
            if b:
                s.shm[addr] = seg.but(content=content)
                outs.append(s)
            else:
                s.ev("shm", "clash", addr, (seg.size, content), loc)
                for big, s2 in I.branch(cmp_lt(blen(content), seg.size), s):
                    if big:
                        s2.shm[addr] = seg.but(content=A("overlay", content, seg.content))
                        outs.append(s2)
                    else:
                        I.throw(s2, "TypeError", C("buffer is too small"), node=n, fid=fid)
        return outs
    st.shm[addr] = seg.but(content=content)
    return [st]


def dtype_norm(t):
    if is_app(t, "attr") and t[3] in ("str", "descr"):
        return t[2]
    if is_app(t, "call") and t[2] == X("numpy.dtype") and t[3]:
        return dtype_norm(t[3][0])
    return t


def shape_norm(t):
    while is_app(t, "seqof") or is_app(t, "list") and len(t[2]) == 1 and t[2][0][0] == "*":
        t = t[2] if is_app(t, "seqof") else t[2][0][1]
    return t


def nd_value(I, ob, o, st, n, fid):
    addr, gen, shape, dtype = o.x
    c = buf_content(I, Obj("buf", x=(addr, gen)), st, n, fid)
    return nd_decode(c, shape, dtype)


def nd_decode(c, shape, dtype):
    laid = ()
    if is_app(shape, "laid"):
        shape, laid = shape[2], (shape[3],)
    if is_app(c, "arrbytes"):
        x = c[2]
        if c[3:] == laid and shape_norm(shape) == A("attr", x, "shape") and \
                dtype_norm(dtype) == A("attr", x, "dtype"):
            return x
    return A("ndfrom", c, shape, dtype, *laid)


def x_ndarray(I, args, kws, st, n, fid):
    kw = dict(kws)
    for nm, a in zip(("shape", "dtype", "buffer"), args):
        kw[nm] = a
    b = kw.get("buffer")
    o = st.obj(b) if b is not None else None
    if o is None or o.kind != "buf":
        return NotImplemented
    shape = I.freeze(kw.get("shape", NONE), st)
    dtype = I.freeze(kw.get("dtype", C("float64")), st)
    if set(kw) - {"shape", "dtype", "buffer", "order"}:
        return NotImplemented
    shape = shape_norm(shape)
    order = I.freeze(kw.get("order", NONE), st)
    if order not in (NONE, C("C")):
        # an order that depends on the array is resolved once, for the array it was asked of
        shape = A("laid", shape, order)
    return [(I.alloc(st, Obj("nd", x=(o.x[0], o.x[1], shape, dtype_norm(dtype)))), st)]


# ------------------------------------------------------ object attributes
def obj_attr(I, ob, o, name, st, n, fid):
    if o.kind == "shm":
        if name == "buf":
            return [(I.alloc(st, Obj("buf", x=o.x)), st)]
        if name == "size":
            seg = cell_of(I, o.x, st)
            return [(seg.size if seg is not None else A("size", o.x[0]), st)]
        if name == "_name":
            return [(o.x[0], st)]
    if o.kind == "buf" and name in ("nbytes",):
        seg = cell_of(I, o.x, st)
        return [(seg.size if seg is not None else A("size", o.x[0]), st)]
    if o.kind == "nd":
        if name == "shape":
            return [(o.x[2][2] if is_app(o.x[2], "laid") else o.x[2], st)]
        if name == "dtype":
            return [(o.x[3], st)]
        if name in ("size", "nbytes", "ndim", "T"):
            return [(A("attr", nd_value(I, ob, o, st, n, fid), name), st)]
    return None


def opaque_attr(I, ob, name, st, n, fid):
    if is_app(ob, "exc") and name == "args":
        return [(("t", ob[3]), st)]
    d = known_dtype(ob)
    if d is not None:
        if name == "kind":
            return [(C(d[0]), st)]
        if name == "itemsize":
            return [(C(d[1] // 8), st)]
        if name in ("name", "str") and name == "name":
            return [(C(DTNAMES[d[0]] + (str(d[1]) if d[0] != "b" else "")), st)]
    if is_app(ob, "call") and ob[2] == X("numpy.iinfo") and len(ob[3]) == 1:
        d = known_dtype(ob[3][0])
        if d is not None and d[0] in "ui":
            if name == "bits":
                return [(C(d[1]), st)]
            if name in ("min", "max"):
                lo, hi = (0, 2 ** d[1] - 1) if d[0] == "u" else (-2 ** (d[1] - 1), 2 ** (d[1] - 1) - 1)
                return [(C(lo if name == "min" else hi), st)]
    return None


DTNAMES = {"u": "uint", "i": "int", "f": "float", "c": "complex", "b": "bool"}
DTYPES = {f"{nm}{w}": (k, w) for k, nm, ws in (
    ("u", "uint", (8, 16, 32, 64)), ("i", "int", (8, 16, 32, 64)),
    ("f", "float", (16, 32, 64, 128)), ("c", "complex", (64, 128, 256))) for w in ws}
DTYPES.update({"bool": ("b", 8), "float": ("f", 64), "int": ("i", 64), "half": ("f", 16), "single": ("f", 32),
               "double": ("f", 64), "longdouble": ("f", 128), "ubyte": ("u", 8), "byte": ("i", 8)})
DTYPES.update({f"{k}{b}": (k, 8 * b) for k in "uif" for b in (1, 2, 4, 8) if (k, b) != ("f", 1)})


def known_dtype(t):
    """(kind, bits) of a constant numpy type, else None"""
    if is_app(t, "call") and t[2] == X("numpy.dtype") and len(t[3]) == 1 and not t[4]:
        return known_dtype(t[3][0])
    if t[0] == "x" and t[1].startswith("numpy."):
        return DTYPES.get(t[1][6:])
    if is_c(t) and isinstance(cval(t), str):
        return DTYPES.get(cval(t).lstrip("<=|"))
    return None


# -------------------------------------------------------------- methods
def method(I, recv, name, args, kws, st, n, fid):
    if recv[0] == "o":
        o = st.heap[recv[1]]
        f = OBJ_METHODS.get((o.kind, name))
        if f is not None:
            done = f(I, recv, o, args, kws, st, n, fid)
            if done is not NotImplemented or o.kind != "set":
                return done
        if o.kind == "inst":
            if name == "__init__":
                return [(NONE, st)]
            return NotImplemented
        if o.kind == "super":
            if name == "__new__":
                c = args[0] if args else o.attrs["obj"]
                if c[0] == "cls":
                    return [(I.alloc(st, Obj("inst", cls=c[1])), st)]
            if name == "__init__":
                st.ev("baseinit", o.attrs["obj"], tuple(I.freeze(a, st) for a in args),
                      tuple((a, I.freeze(b, st)) for a, b in kws), I.loc(n, fid))
            if name in ("__init__", "__setattr__", "__enter__", "__exit__"):
                return [(NONE, st)]
            return NotImplemented
        if o.kind in ("list", "dict", "set"):
            if name in MUTATORS:
                # unmodelled mutation: contents unknown afterwards
                t = A("mutated", I.freeze(recv, st), C(name), C(I.new()))
                st.heap[recv[1]] = o.but(parts=(("*", t),))
                return [(A("call", A("attr", t, name), tuple(I.freeze(a, st) for a in args), (), I.new()), st)]
            if name in I.methods:
                return I.methods[name](I, recv, name, args, kws, st, n, fid)
            fr = I.freeze(recv, st)
            return OPQ.get(name, _generic)(I, fr, name, args, kws, st, n, fid)
        if o.kind in ("file", "res"):
            return file_method(I, recv, o, name, args, kws, st, n, fid)
        if o.kind == "nd":
            v = nd_value(I, recv, o, st, n, fid)
            return I.opaque_call(A("attr", v, name), args, kws, st, n, fid)
        return NotImplemented
    for f in (I.methods.get(name), OPQ.get(name)):
        if f is None:
            continue
        r = f(I, recv, name, args, kws, st, n, fid)
        if r is not NotImplemented:
            return r
    return _generic(I, recv, name, args, kws, st, n, fid)


def _generic(I, recv, name, args, kws, st, n, fid):
    loc = I.loc(n, fid)
    if name in MUTATORS and not I.root_x(recv):
        st.ev("mut", recv, name, tuple(I.freeze(a, st) for a in args), None, loc)
    if any(k == "inplace" and v == TRUE for k, v in kws):
        st.ev("mut", recv, name + "(inplace)", (), None, loc)
    return I.opaque_call(A("attr", recv, name), args, kws, st, n, fid)


def m_keys(I, recv, name, args, kws, st, n, fid):
    return [(A("keys", recv), st)]


def m_values(I, recv, name, args, kws, st, n, fid):
    if is_app(recv, "dict"):
        return [(A("values", recv), st)]
    return [(A("values", recv), st)]


def m_items(I, recv, name, args, kws, st, n, fid):
    return [(A("items", recv), st)]


def m_get(I, recv, name, args, kws, st, n, fid):
    if not args or I.root_x(recv):
        return NotImplemented
    k = I.freeze(args[0], st)
    kw = dict(kws)
    d = args[1] if len(args) > 1 else kw.get("default", NONE)
    if is_app(recv, "dict"):
        return [(d if v is None else v, s) for v, s in dict_lookup(I, recv[2], k, st)]
    out = []
    for b, s in I.branch(A("in", k, recv), st):
        out.append((item_term(I, recv, k, s) if b else d, s))
    return out


def m_copy(I, recv, name, args, kws, st, n, fid):
    if I.root_x(recv) and not is_app(recv, "attr"):
        pass
    if is_maplike(I, recv, st):
        return [(I.mkdict(st, (("*", recv),)), st)]
    if is_app(recv, "list"):
        return [(I.mklist(st, recv[2]), st)]
    st.ev("copy", recv, I.loc(n, fid))
    return [(A("copyof", recv, I.new()), st)]


def m_encode(I, recv, name, args, kws, st, n, fid):
    if args and cval(args[0]) not in ("utf-8", "utf8", "UTF-8") if args and is_c(args[0]) else False:
        return [(A("enc", recv, args[0]), st)]
    if len(args) > 1 or any(k == "errors" for k, _ in kws):
        return [(A("enc", recv, C("lossy")), st)]
    if any(k == "encoding" and not (is_c(v) and cval(v) in ("utf-8", "utf8")) for k, v in kws):
        return [(A("enc", recv, C("other")), st)]
    return [(enc(recv), st)]


def m_decode(I, recv, name, args, kws, st, n, fid):
    if args and is_c(args[0]) and cval(args[0]) not in ("utf-8", "utf8", "UTF-8"):
        return [(A("dec", recv, args[0]), st)]
    if len(args) > 1 or any(k == "errors" for k, _ in kws):
        return [(A("dec", recv, C("lossy")), st)]
    if any(k == "encoding" and not (is_c(v) and cval(v) in ("utf-8", "utf8")) for k, v in kws):
        return [(A("dec", recv, C("other")), st)]
    for k in I.raises("decode", recv):
        s = st.fork()
        I.throw(s, k, node=n, fid=fid)
    return [(dec(recv), st)]


def m_startswith(I, recv, name, args, kws, st, n, fid):
    p = args[0]
    if p[0] == "t":
        cur, out = [st], []
        for q in p[1]:
            nxt = []
            for s in cur:
                for v, s2 in m_startswith(I, recv, name, [q], [], s, n, fid):
                    for b, s3 in I.truth(v, s2):
                        (out.append((TRUE, s3)) if b else nxt.append(s3))
            cur = nxt
        return out + [(FALSE, s) for s in cur]
    if is_c(recv) and is_c(p):
        return [(C(getattr(cval(recv), name)(cval(p))), st)]
    if name == "startswith" and is_app(recv, "cat") and is_c(recv[2][0]) and is_c(p) and \
            len(cval(recv[2][0])) >= len(cval(p)):
        return [(C(cval(recv[2][0]).startswith(cval(p))), st)]
    return [(A(name, recv, p), st)]


def m_tobytes(I, recv, name, args, kws, st, n, fid):
    order = I.freeze(args[0] if args else dict(kws).get("order", NONE), st)
    return [(A("arrbytes", recv, *(() if order in (NONE, C("C")) else (order,))), st)]


def m_to_bytes(I, recv, name, args, kws, st, n, fid):
    kw = dict(kws)
    ln = args[0] if args else kw.get("length", C(1))
    order = args[1] if len(args) > 1 else kw.get("byteorder", C("big"))
    signed = kw.get("signed", FALSE)
    return [(A("tobytes", recv, ln, order, signed), st)]


def frombytes(t, order, signed=FALSE):
    if is_app(t, "tobytes") and t[4] == order and t[5] == signed:
        return t[2]
    if is_app(t, "zeros"):
        return C(0)
    if is_c(t) and t[1] == "bytes" and is_c(order):
        return C(int.from_bytes(cval(t), cval(order)))
    if signed == FALSE and order == C("little"):
        return A("frombytes", t)
    return A("frombytes", t, order, signed)


def x_int_frombytes(I, args, kws, st, n, fid):
    kw = dict(kws)
    t = args[0] if args else kw.get("bytes")
    if st.obj(t) is not None and st.obj(t).kind == "buf":
        t = buf_content(I, st.obj(t), st, n, fid)
    order = args[1] if len(args) > 1 else kw.get("byteorder", C("big"))
    return [(frombytes(I.freeze(t, st), order, kw.get("signed", FALSE)), st)]


def m_join(I, recv, name, args, kws, st, n, fid):
    if not args:
        return NotImplemented
    if not is_c(recv) and not is_str(recv):
        return NotImplemented
    out = []
    for ps, s in parts_of(I, args[0], st, n, fid):
        if all(p[0] == "1" for p in ps) and (is_str(recv) or is_c(recv) and recv[1] == "str"):
            seq = []
            for i, p in enumerate(ps):
                if i:
                    seq.append(recv)
                seq.append(I.freeze(p[1], s))
            out.append((cat(seq), s))
        else:
            out.append((A("join", recv, A("list", I.freeze_parts(ps, s, 0))), s))
    return out


def m_format(I, recv, name, args, kws, st, n, fid):
    if not (is_c(recv) and recv[1] == "str"):
        return NotImplemented
    kw = dict(kws)
    parts, i = [], 0
    import string
    try:
        for lit, field, spec, conv in string.Formatter().parse(cval(recv)):
            parts.append(C(lit))
            if field is None:
                continue
            if spec or conv:
                return NotImplemented
            if field == "":
                v = args[i]
                i += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return NotImplemented
            parts.append(I.freeze(v, st))
    except (IndexError, ValueError):
        return NotImplemented
    return [(cat(parts), st)]


def percent_format(fmt, v):
    vals = list(v[1]) if v[0] == "t" else [v]
    bits = re.split(r"(%[sd%])", fmt)
    if re.search(r"%[^sd%]", fmt):
        return None
    parts = []
    for b in bits:
        if b == "%%":
            parts.append(C("%"))
        elif b in ("%s", "%d"):
            if not vals:
                return None
            parts.append(vals.pop(0))
        else:
            parts.append(C(b))
    return cat(parts)


def m_pureterm(I, recv, name, args, kws, st, n, fid):
    if is_c(recv) and recv[1] in ("str", "bytes") and all(is_c(a) for a in args) and not kws:
        try:
            r = getattr(cval(recv), name)(*[cval(a) for a in args])
            if isinstance(r, list):
                return [(I.mklist(st, [("1", C(x)) for x in r]), st)]
            return [(C(r), st)]
        except Exception:
            pass
    return [(A("call", A("attr", recv, name), tuple(I.freeze(a, st) for a in args),
               tuple((k, I.freeze(v, st)) for k, v in kws)), st)]


def m_open(I, recv, name, args, kws, st, n, fid):
    if recv[0] == "x":
        return NotImplemented
    return x_open(I, [recv] + args, kws, st, n, fid)


def m_close(I, recv, name, args, kws, st, n, fid):
    st.ev("close", recv, I.loc(n, fid))
    return NotImplemented


OPQ = {
    "keys": m_keys, "values": m_values, "items": m_items, "get": m_get, "copy": m_copy,
    "encode": m_encode, "decode": m_decode, "startswith": m_startswith,
    "endswith": m_startswith, "to_bytes": m_to_bytes, "join": m_join, "format": m_format,
    "open": m_open, "close": m_close, "tobytes": m_tobytes,
}
for _n in ("upper", "lower", "strip", "replace", "split", "capitalize", "title", "lstrip",
           "rstrip", "removeprefix", "removesuffix", "splitlines", "zfill"):
    OPQ[_n] = lambda I, recv, name, args, kws, st, n, fid: (
        m_pureterm(I, recv, name, args, kws, st, n, fid)
        if is_c(recv) or is_str(recv) else NotImplemented)


def _columnwise(f):
    """methods of a pandas string accessor work on every element: nothing is known about the whole"""
    def g(I, recv, name, args, kws, st, n, fid):
        if is_app(recv, "attr") and recv[3] == "str":
            return NotImplemented
        return f(I, recv, name, args, kws, st, n, fid)
    return g


for _n in ("get", "encode", "decode", "startswith", "endswith", "join", "format", "open", "close"):
    OPQ[_n] = _columnwise(OPQ[_n])


# list methods ---------------------------------------------------------
def l_append(I, r, o, args, kws, st, n, fid):
    if o.kind == "set":
        if dedupe(o.parts + (("1", args[0]),)) == o.parts:
            return [(NONE, st)]
    st.heap[r[1]] = o.but(parts=o.parts + (("1", args[0]),))
    return [(NONE, st)]


def l_extend(I, r, o, args, kws, st, n, fid):
    return [(NONE, s) for s in list_extend(I, r, args[0], st, n, fid)]


def l_insert(I, r, o, args, kws, st, n, fid):
    if args[0] == C(0):
        st.heap[r[1]] = o.but(parts=(("1", args[1]),) + o.parts)
        return [(NONE, st)]
    t = A("insert", I.freeze(r, st), I.freeze(args[0], st), I.freeze(args[1], st))
    st.heap[r[1]] = o.but(parts=(("*", t),))
    return [(NONE, st)]


def l_pop(I, r, o, args, kws, st, n, fid):
    if all(p[0] == "1" for p in o.parts) and (not args or is_c(args[0])):
        i = cval(args[0]) if args else -1
        ps = list(o.parts)
        try:
            v = ps.pop(i)
        except IndexError:
            I.throw(st, "IndexError", node=n, fid=fid)
            return []
        st.heap[r[1]] = o.but(parts=tuple(ps))
        return [(v[1], st)]
    if not args and o.parts and o.parts[-1][0] == "1":
        st.heap[r[1]] = o.but(parts=o.parts[:-1])
        return [(o.parts[-1][1], st)]
    f = I.freeze(r, st)
    k = I.freeze(args[0], st) if args else C(-1)
    out = []
    for b, s in I.branch(A("truthy", f), st):
        if b:
            s.heap[r[1]] = o.but(parts=(("*", A("popped", f, k)),))
            out.append((A("item", f, k), s))
        else:
            I.throw(s, "IndexError", node=n, fid=fid)
    return out


def l_clear(I, r, o, args, kws, st, n, fid):
    st.heap[r[1]] = o.but(parts=())
    return [(NONE, st)]


def l_copy(I, r, o, args, kws, st, n, fid):
    return [(I.alloc(st, Obj(o.kind, parts=o.parts)), st)]


def l_reverse(I, r, o, args, kws, st, n, fid):
    if all(p[0] == "1" for p in o.parts):
        st.heap[r[1]] = o.but(parts=o.parts[::-1])
    else:
        st.heap[r[1]] = o.but(parts=(("*", A("reversed", I.freeze(r, st))),))
    return [(NONE, st)]


def l_sort(I, r, o, args, kws, st, n, fid):
    kw = dict(kws)
    rev = kw.get("reverse", FALSE)
    if all(p[0] == "1" for p in o.parts) and is_c(rev):
        keyed, s = sort_keys(I, [p[1] for p in o.parts], kw.get("key", NONE), st, n, fid)
        if keyed is not None:
            try:
                vals = sorted(keyed, key=lambda kv: kv[0], reverse=bool(cval(rev)))
            except TypeError:
                I.throw(s, "TypeError", C("unorderable"), node=n, fid=fid)
                return []
            s.heap[r[1]] = s.heap[r[1]].but(parts=tuple(("1", v) for _, v in vals))
            return [(NONE, s)]
    t = A("sorted", I.freeze(r, st), I.freeze(kw.get("key", NONE), st), kw.get("reverse", FALSE))
    st.heap[r[1]] = o.but(parts=(("*", t),))
    return [(NONE, st)]


def d_keys(I, r, o, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("stream", x=("dkeys", r))), st)]


def d_values(I, r, o, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("stream", x=("dvals", r))), st)]


def d_items(I, r, o, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("stream", x=("ditems", r))), st)]


def d_get(I, r, o, args, kws, st, n, fid):
    kw = dict(kws)
    d = args[1] if len(args) > 1 else kw.get("default", NONE)
    return [(d if v is None else v, s)
            for v, s in dict_lookup(I, o.parts, I.freeze(args[0], st), st)]


def d_pop(I, r, o, args, kws, st, n, fid):
    out = []
    k = I.freeze(args[0], st)
    for v, s in dict_lookup(I, o.parts, k, st):
        o2 = s.heap[r[1]]
        if v is None:
            if len(args) > 1:
                out.append((args[1], s))
            else:
                I.throw(s, "KeyError", k, node=n, fid=fid)
            continue
        if all(p[0] == "kv" for p in o2.parts):
            s.heap[r[1]] = o2.but(parts=tuple(p for p in o2.parts if p[1] != k))
        else:
            s.heap[r[1]] = o2.but(parts=o2.parts + (("del", k),))
        out.append((v, s))
    return out


def d_update(I, r, o, args, kws, st, n, fid):
    cur = [st]
    for a in args:
        cur = [s2 for s in cur for s2 in dict_update(I, r, a, s, n, fid)]
    for s in cur:
        for k, v in kws:
            d = s.heap[r[1]]
            s.heap[r[1]] = d.but(parts=d.parts + ((("kv", C(k), v),) if k != "**" else (("*", v),)))
    return [(NONE, s) for s in cur]


def d_setdefault(I, r, o, args, kws, st, n, fid):
    out = []
    k = I.freeze(args[0], st)
    for v, s in dict_lookup(I, o.parts, k, st):
        if v is None:
            v = args[1] if len(args) > 1 else NONE
            d = s.heap[r[1]]
            s.heap[r[1]] = d.but(parts=d.parts + (("kv", k, v),))
        out.append((v, s))
    return out


def d_copy(I, r, o, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("dict", parts=o.parts, x=o.x)), st)]


def s_setop(I, r, o, args, kws, st, n, fid):
    return NotImplemented


def b_tobytes(I, r, o, args, kws, st, n, fid):
    return [(buf_content(I, o, st, n, fid), st)]


def h_close(I, r, o, args, kws, st, n, fid):
    st.ev("shm", "close", o.x[0], r, I.loc(n, fid))
    return [(NONE, st)]


def h_unlink(I, r, o, args, kws, st, n, fid):
    addr, gen = o.x
    loc = I.loc(n, fid)
    out = []
    if addr not in st.shm and I.volatile(addr):
        st.ev("shm", "unlink", addr, None, loc)
        return [(NONE, st)]
    for key, seg, s in cell(I, addr, st):
        if not seg.exists:
            s.ev("shm", "absent", key, None, loc)
            I.throw(s, "FileNotFoundError", key, node=n, fid=fid)
            continue
        s.ev("shm", "unlink", key, seg, loc)
        if I.volatile(key):
            s.shm.pop(key, None)
        else:
            s.shm[key] = Seg(False)
        out.append((NONE, s))
    return out


def nd_copy(I, r, o, args, kws, st, n, fid):
    return [(nd_value(I, r, o, st, n, fid), st)]


def nd_tobytes(I, r, o, args, kws, st, n, fid):
    return [(buf_content(I, Obj("buf", x=o.x[:2]), st, n, fid), st)]


def nd_fill(I, r, o, args, kws, st, n, fid):
    return [(NONE, s) for s in nd_write(I, o, ELL, args[0], st, n, fid)]


def it_next(I, r, o, args, kws, st, n, fid):
    return x_next(I, [r], [], st, n, fid)


OBJ_METHODS = {
    ("list", "append"): l_append, ("list", "extend"): l_extend, ("list", "insert"): l_insert,
    ("list", "pop"): l_pop, ("list", "clear"): l_clear, ("list", "copy"): l_copy,
    ("list", "reverse"): l_reverse, ("list", "sort"): l_sort,
    ("set", "add"): l_append, ("set", "copy"): l_copy, ("set", "clear"): l_clear,
    ("set", "update"): l_extend,
    ("dict", "keys"): d_keys, ("dict", "values"): d_values, ("dict", "items"): d_items,
    ("dict", "get"): d_get, ("dict", "pop"): d_pop, ("dict", "update"): d_update,
    ("dict", "setdefault"): d_setdefault, ("dict", "copy"): d_copy, ("dict", "clear"): l_clear,
    ("buf", "tobytes"): b_tobytes, ("buf", "__bytes__"): b_tobytes,
    ("shm", "close"): h_close, ("shm", "unlink"): h_unlink,
    ("nd", "copy"): nd_copy, ("nd", "tobytes"): nd_tobytes, ("nd", "fill"): nd_fill,
    ("iter", "__next__"): it_next, ("gen", "__next__"): it_next, ("stream", "__next__"): it_next,
    ("buf", "release"): lambda I, r, o, a, k, st, n, fid: [(NONE, st)],
}
for _p in ("list", "dict"):
    OBJ_METHODS[(_p, "__setitem__")] = lambda I, r, o, a, k, st, n, fid: [
        (NONE, s) for s in setitem(I, r, a[0], a[1], st, n, fid)]
    OBJ_METHODS[(_p, "__delitem__")] = lambda I, r, o, a, k, st, n, fid: [
        (NONE, s) for s in delitem(I, r, a[0], st, n, fid)]
    OBJ_METHODS[(_p, "__getitem__")] = lambda I, r, o, a, k, st, n, fid: getitem(I, r, a[0], st, n, fid)
    OBJ_METHODS[(_p, "__contains__")] = lambda I, r, o, a, k, st, n, fid: contains(
        I, a[0], r, st, n, fid)
for _p in (*SETOPS, *SETASKS, "intersection_update", "difference_update", "symmetric_difference_update"):
    OBJ_METHODS[("set", _p)] = setop(_p)
for _p in ("discard", "remove"):
    OBJ_METHODS[("set", _p)] = set_drop(_p)


def x_next(I, args, kws, st, n, fid):
    it = args[0]
    o = st.obj(it)
    dflt = args[1] if len(args) > 1 else None

    def stop(s):
        if dflt is not None:
            return [(dflt, s)]
        I.throw(s, "StopIteration", node=n, fid=fid)
        return []
    if o is not None and o.kind == "stream" and o.x[0] == "count":
        pos = o.attrs.get("pos", C(0))
        st.heap[it[1]] = o.but(attrs=dict(o.attrs, pos=add(pos, C(1)) if is_c(pos) else lin(
            *(_plus1(pos)))))
        return [(add(o.x[1], pos) if is_c(pos) else _addany(o.x[1], pos), st)]
    if o is not None and o.kind == "iter":
        src, pos = o.attrs["src"], o.attrs["pos"]
        if is_app(pos, "end"):
            return stop(st)
        items = I.known_items(src, st)
        if items is not None and is_c(pos):
            if cval(pos) >= len(items):
                return stop(st)
            st.heap[it[1]] = o.but(attrs=dict(o.attrs, pos=add(pos, C(1))))
            return [(items[cval(pos)], st)]
        f = norm_src(I.freeze(src, st))
        out = []
        for b, s in I.branch(A("hasnext", f, pos), st):
            if b:
                o2 = s.heap[it[1]]
                s.heap[it[1]] = o2.but(attrs=dict(
                    o2.attrs, pos=add(pos, C(1)) if is_c(pos) else lin(*_plus1(pos))))
                s.ev("next", f, pos, I.loc(n, fid))
                out.append((at_term(f, pos), s))
            else:
                out += stop(s)
        return out
    if o is not None and o.kind in ("gen", "genexp", "stream"):
        if o.attrs.get("started"):
            from .interp import Unsupported
            raise Unsupported("second next() on a generator")
        out = []
        for k, v, s in iterate(I, it, st, lambda e, s: [("got", e, s)], n, fid):
            if k == "got":
                o2 = s.heap[it[1]]
                s.heap[it[1]] = o2.but(attrs=dict(o2.attrs, started=TRUE))
                out.append((v, s))
            elif k == "next":
                out += stop(s)
            elif k == "raise":
                I.sink.append((v, s))
        return out
    f = I.freeze(it, st)
    out = []
    r = A("call", X("builtins.next"), (f,), (), I.new())
    s2 = st.fork()
    st.ev("next", f, C(0), I.loc(n, fid))
    out.append((r, st))
    if st.facts.get(A("endless", f)) is None:
        out += stop(s2)
    return out


def at_term(f, pos):
    if is_app(f, "count"):
        return _addany(f[2], pos)
    return A("at", f, pos)


def _plus1(t):
    p = lin_parts(t)
    return p[0] + 1, p[1]


def _addany(a, b):
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return A("add", a, b)
    co = dict(pa[1])
    for k, v in pb[1].items():
        co[k] = co.get(k, 0) + v
    return lin(pa[0] + pb[0], co)


# ----------------------------------------------------------------- files
def x_open(I, args, kws, st, n, fid):
    kw = dict(kws)
    path = I.freeze(args[0] if args else kw.get("file", NONE), st)
    mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
    loc = I.loc(n, fid)
    I.maybe_raise(st, "io", A("open", path), loc)
    f = I.alloc(st, Obj("file", attrs={"$mode": mode, "$path": path}, x=("file", path)))
    st.ev("file", "open", f, (path, I.freeze(mode, st)), loc)
    return [(f, st)]


def x_bytesio(I, args, kws, st, n, fid):
    f = I.alloc(st, Obj("file", attrs={}, x=("mem", None)))
    return [(f, st)]


def resource(name):
    def ctor(I, args, kws, st, n, fid):
        loc = I.loc(n, fid)
        fa = tuple(I.freeze(a, st) for a in args)
        fk = tuple((k, I.freeze(v, st)) for k, v in kws)
        I.maybe_raise(st, "io", A("open", X(name)), loc)
        r = I.alloc(st, Obj("res", attrs={}, x=(name, fa, fk)))
        st.ev("file", "open", r, (X(name), fa, fk), loc)
        return [(r, st)]
    return ctor


def file_method(I, r, o, name, args, kws, st, n, fid):
    loc = I.loc(n, fid)
    fa = tuple(I.freeze(a, st) for a in args)
    fk = tuple((k, I.freeze(v, st)) for k, v in kws)
    if name == "close":
        st.ev("file", "close", r, fa, loc)
        return [(NONE, st)]
    if o.x[0] != "mem" and name not in ("seek", "tell", "fileno"):
        I.maybe_raise(st, "io", A("attr", r, name), loc)
    res = A("fileop", name, r, fa, fk, I.new()) if o.kind == "file" or name.startswith("write") \
        else A("call", A("attr", r, name), fa, fk)
    st.ev("file", name, r, fa + tuple(v for _, v in fk), loc, res, fk)
    if o.x[0] == "mem" and name == "write":
        st.heap[r[1]] = o.but(parts=o.parts + (("1", args[0]),))
    if o.x[0] == "mem" and name in ("read", "getvalue") and o.parts:
        v = o.parts[0][1] if len(o.parts) == 1 else A("join", C(b""), A(
            "list", I.freeze_parts(o.parts, st, 0)))
        if fa and fa[0] not in (NONE, C(-1)):
            v = A("item", v, A("slice", NONE, fa[0], NONE))
        return [(v, st)]
    return [(res, st)]


def close_obj(I, cm, st):
    o = st.obj(cm)
    if o is not None and o.kind in ("file", "res"):
        st.ev("file", "close", cm, (), ("with", 0, "with"))


def enters_self(t):
    return t[0] == "o"


# -------------------------------------------------------------- builtins
EXT = {}


def ext(*names):
    def deco(f):
        for nm in names:
            EXT[nm] = f
        return f
    return deco


EXT["multiprocessing.shared_memory.SharedMemory"] = x_sharedmemory
EXT["numpy.ndarray"] = x_ndarray
EXT["builtins.int.from_bytes"] = x_int_frombytes
EXT["builtins.next"] = x_next
EXT["builtins.open"] = x_open
EXT["io.BytesIO"] = x_bytesio
for _r in ("pyarrow.parquet.ParquetFile", "pyarrow.parquet.ParquetWriter"):
    EXT[_r] = resource(_r)


@ext("builtins.len", "operator.length_hint")
def x_len(I, args, kws, st, n, fid):
    v = args[0]
    if v[0] == "t":
        return [(C(len(v[1])), st)]
    if is_c(v) and v[1] in ("str", "bytes"):
        return [(C(len(cval(v))), st)]
    o = st.obj(v)
    if o is not None:
        if o.kind in ("list",) and all(p[0] == "1" for p in o.parts):
            return [(C(len(o.parts)), st)]
        if o.kind == "dict" and all(p[0] == "kv" and is_c(p[1]) for p in o.parts):
            return [(C(len(dedupe_keys(o.parts))), st)]
        if o.kind == "buf":
            seg = cell_of(I, o.x, st)
            return [(seg.size if seg is not None else A("size", o.x[0]), st)]
        if o.kind == "inst" and o.cls:
            q = I.find_method(o.cls, "__len__")
            if q:
                return I.call(("bm", I.fnterm(q), v), [], [], st, n, fid)
        if o.kind in ("gen", "genexp", "stream", "iter") and not (
                o.kind == "stream" and o.x[0] in ("dkeys", "dvals", "ditems")):
            I.throw(st, "TypeError", C("no len()"), node=n, fid=fid)
            return []
        if o.kind == "stream":
            return x_len(I, [o.x[1]], [], st, n, fid)
    cls = I.types.get(v)
    if cls:
        q = I.find_method(cls, "__len__")
        if q:
            return I.call(("bm", I.fnterm(q), v), [], [], st, n, fid)
    f = norm_src(I.freeze(v, st))
    if is_app(f) and f[1] in ("items", "values"):
        f = f[2]
    if is_app(f, "list") and all(p[0] == "1" for p in f[2]):
        return [(C(len(f[2])), st)]
    if is_bytes(f):
        return [(blen(f), st)]
    if f[0] == "s" or (is_app(f) and f[1] in ("elem", "item", "attr")):
        st.ev("len", f, I.loc(n, fid))
    return [(A("len", f), st)]


@ext("builtins.str")
def x_str(I, args, kws, st, n, fid):
    if not args:
        return [(C(""), st)]
    v = args[0]
    if len(args) > 1 or kws:
        if len(args) > 1 and is_c(args[1]) and cval(args[1]) in ("utf-8", "utf8"):
            return [(dec(I.freeze(v, st)), st)]
        return [(A("str", I.freeze(v, st)), st)]
    o = st.obj(v)
    if o is not None and o.kind == "inst" and o.cls:
        q = I.find_method(o.cls, "__str__")
        if q:
            return I.call(("bm", I.fnterm(q), v), [], [], st, n, fid)
    return [(strof(I.freeze(v, st)), st)]


@ext("builtins.repr")
def x_repr(I, args, kws, st, n, fid):
    return [(A("repr", I.freeze(args[0], st)), st)]


@ext("builtins.int")
def x_int(I, args, kws, st, n, fid):
    v = args[0] if args else C(0)
    if is_c(v) and len(args) == 1:
        try:
            return [(C(int(cval(v))), st)]
        except Exception:
            I.throw(st, "ValueError", node=n, fid=fid)
            return []
    if is_num(v):
        return [(v, st)]
    return [(A("call", X("builtins.int"), tuple(I.freeze(a, st) for a in args), ()), st)]


@ext("builtins.bool")
def x_bool(I, args, kws, st, n, fid):
    if not args:
        return [(FALSE, st)]
    if is_bool_atom(args[0]):
        return [(args[0], st)]
    return [(C(b), s) for b, s in I.truth(args[0], st)]


@ext("builtins.bytes", "builtins.bytearray")
def x_bytes(I, args, kws, st, n, fid):
    if not args:
        return [(C(b""), st)]
    o = st.obj(args[0])
    if o is not None and o.kind == "buf":
        return [(buf_content(I, o, st, n, fid), st)]
    if len(args) > 1 or any(k == "encoding" for k, _ in kws):
        return [(enc(args[0]), st)]
    if is_bytes(args[0]) or is_app(args[0], "vread") or is_app(args[0], "mem0"):
        return [(args[0], st)]
    return [(A("call", X("builtins.bytes"), tuple(I.freeze(a, st) for a in args), ()), st)]


@ext("builtins.memoryview")
def x_memview(I, args, kws, st, n, fid):
    return [(args[0], st)]


@ext("builtins.list", "collections.deque")
def x_list(I, args, kws, st, n, fid):
    if not args:
        return [(I.mklist(st), st)]
    return to_list(I, args[0], st, n, fid)


@ext("builtins.tuple")
def x_tuple(I, args, kws, st, n, fid):
    if not args:
        return [(("t", ()), st)]
    if args[0][0] == "t":
        return [(args[0], st)]
    out = []
    for l, s in to_list(I, args[0], st, n, fid):
        parts = s.heap[l[1]].parts
        if all(p[0] == "1" for p in parts):
            out.append((T(*[p[1] for p in parts]), s))
        elif len(parts) == 1 and parts[0][0] == "*":
            out.append((A("seqof", parts[0][1]), s))
        else:
            out.append((A("list", I.freeze_parts(parts, s, 0)), s))
    return out


@ext("builtins.set", "builtins.frozenset")
def x_set(I, args, kws, st, n, fid):
    if not args:
        return [(I.alloc(st, Obj("set")), st)]
    return to_list(I, args[0], st, n, fid, "set")


@ext("builtins.dict", "collections.OrderedDict")
def x_dict(I, args, kws, st, n, fid):
    cur = [(I.mkdict(st), st)]
    if args:
        nxt = []
        for d, s in cur:
            o = s.obj(args[0])
            if o is not None and o.kind == "inst":
                s.heap[d[1]] = s.heap[d[1]].but(parts=(("*", args[0]),))
                nxt.append((d, s))
                continue
            for s2 in dict_update(I, d, args[0], s, n, fid):
                nxt.append((d, s2))
        cur = nxt
    for d, s in cur:
        for k, v in kws:
            o = s.heap[d[1]]
            s.heap[d[1]] = o.but(parts=o.parts + ((("kv", C(k), v),) if k != "**" else (("*", v),)))
    return cur


@ext("builtins.dict.fromkeys")
def x_fromkeys(I, args, kws, st, n, fid):
    v = args[1] if len(args) > 1 else NONE
    out = []
    for ps, s in parts_of(I, args[0], st, n, fid):
        parts = []
        for p in ps:
            if p[0] == "1":
                parts.append(("kv", p[1], v))
            elif p[0] == "*":
                parts.append(("many", p[1], (((), (("kv", elem_of(p[1]), v),)),)))
            else:
                parts.append(("*", A("fromkeys", A("list", (p,)), v)))
        out.append((I.mkdict(s, parts), s))
    return out


@ext("collections.defaultdict")
def x_defaultdict(I, args, kws, st, n, fid):
    d = I.mkdict(st)
    st.heap[d[1]] = st.heap[d[1]].but(x=args[0] if args and args[0] != NONE else None)
    if len(args) > 1:
        return [(d, s) for s in dict_update(I, d, args[1], st, n, fid)]
    return [(d, st)]


PYTYPES = {"FunctionType": _types.FunctionType, "MethodType": _types.MethodType, "list": list,
           "dict": dict, "str": str, "int": int, "float": float, "tuple": tuple, "set": set,
           "bytes": bytes, "partial": functools.partial}
FUNCTIONS = {"cytoolz.identity", "builtins.len", "builtins.print"}


def tname(t):
    if t[0] == "x":
        return t[1].split(".")[-1]
    if t[0] == "cls":
        return t[1].split(".")[-1]
    return None


@ext("builtins.isinstance")
def isinstance_(I, args, kws, st, n, fid):
    v, t = args
    items = I.known_items(t, st)
    if items is not None:
        if len(items) == 1:
            return isinstance_(I, [v, items[0]], kws, st, n, fid)
        cur, out = [st], []
        for x in items:
            nxt = []
            for s in cur:
                for r, s2 in isinstance_(I, [v, x], kws, s, n, fid):
                    for b, s3 in I.truth(r, s2):
                        (out.append((TRUE, s3)) if b else nxt.append(s3))
            cur = nxt
        return out + [(FALSE, s) for s in cur]
    if is_app(t, "bitor"):
        return isinstance_(I, [v, T(t[2], t[3])], kws, st, n, fid)
    nm = tname(t)
    if nm is None:
        return [(A("isinst", I.freeze(v, st), I.freeze(t, st)), st)]
    have = I.kinds.get(v)
    if have == "partial":
        return [(C(nm in ("partial", "Callable", "object", "Hashable")), st)]
    if have == "object":            # an instance of some unrelated class
        return [(C(nm == "object"), st)]
    if have is not None:
        pass
    elif is_c(v):
        have = v[1]
    elif v[0] == "t":
        have = "tuple"
    elif v[0] == "o":
        o = st.heap[v[1]]
        if o.kind in ("list", "dict", "set"):
            have = o.kind
        elif o.cls:
            if t[0] == "cls" or True:
                mro = I.mro(o.cls)
                if t[1] in mro or nm in [m.split(".")[-1] for m in mro]:
                    return [(TRUE, st)]
                if not I.ext_base(o.cls):
                    return [(C(nm == "object"), st)]
        elif o.kind == "nd":
            return [(C(nm == "ndarray"), st)]
        elif o.kind == "iter" and "oneshot" in o.attrs:
            if nm in ("Generator", "GeneratorType"):
                return [(A("isinst", I.freeze(v, st), I.freeze(t, st)), st)]
            return [(C(nm in ("Iterator", "Iterable", "object")), st)]
    elif v[0] == "fn":
        have = "FunctionType"
    elif v[0] == "bm":
        have = "MethodType"
    elif v[0] == "cls":
        have = "type"
    elif is_app(v, "exc") or is_app(v, "uexc"):
        tt = t[1]
        out = []
        if I.pyexc(tt) is None:
            if t[0] == "cls" or nm in ("str", "int", "dict", "list", "tuple", "Mapping"):
                return [(FALSE, st)]
        else:
            return [(C(b), s) for b, s in I.exc_matches(v, tt, st)]
    elif is_str(v):
        have = "str"
    elif is_bytes(v):
        have = "bytes"
    elif is_app(v) and v[1] in ("list", "dict", "set"):
        have = v[1]
    elif is_app(v) and v[1] in ("len", "lin", "frombytes", "idx"):
        have = "int"
    elif is_bool_atom(v):
        have = "bool"
    cls = I.types.get(v)
    if cls:
        mro = I.mro(cls)
        if t[1] in mro or nm in [m.split(".")[-1] for m in mro]:
            return [(TRUE, st)]
    if have is not None:
        r = type_rel(have, nm)
        if have == "bool" and nm == "int":
            r = "sub"
        if r == "sub":
            return [(TRUE, st)]
        if r == "dis" or have in TYPE_DISJOINT[0] and t[0] == "cls":
            return [(FALSE, st)]
    return [(A("isinst", I.freeze(v, st), C(nm)), st)]


@ext("builtins.issubclass")
def issubclass_(I, args, kws, st, n, fid):
    a, b = args
    if is_app(a, "type") and (is_app(a[2], "exc") or is_app(a[2], "uexc")):
        return isinstance_(I, [a[2], b], kws, st, n, fid)
    return [(A("issub", I.freeze(a, st), I.freeze(b, st)), st)]


@ext("builtins.hasattr")
def hasattr_(I, args, kws, st, n, fid):
    v, nm = args
    if is_c(nm):
        name = cval(nm)
        o = st.obj(v)
        if o is not None:
            if name in o.attrs:
                return [(TRUE, st)]
            if o.cls and (I.find_method(o.cls, name)
                          or I.class_attr(o.cls, name, st.fork()) is not None):
                return [(TRUE, st)]
            if o.cls and not I.ext_base(o.cls):
                return [(FALSE, st)]
            if o.kind in ("list", "dict"):
                return [(C(hasattr([] if o.kind == "list" else {}, name)), st)]
        if is_c(v):
            return [(C(hasattr(cval(v), name)), st)]
        if v[0] in ("fn", "bm"):
            return [(C(name in ("__name__", "__call__", "__code__", "__globals__", "__doc__",
                                "__module__", "__qualname__")
                       or (v[0] == "bm" and name in ("__self__", "__func__"))), st)]
        if v[0] == "part":
            return [(C(name in ("func", "args", "keywords", "__call__")), st)]
        if ("attr", v, name) in st.over:
            return [(TRUE, st)]
        kd = PYTYPES.get(I.kinds.get(v))
        if v[0] == "x" and v[1] in FUNCTIONS:
            kd = _types.FunctionType
        if kd is not None:
            return [(C(hasattr(kd, name)), st)]
    return [(A("hasattr", I.freeze(v, st), nm), st)]


@ext("builtins.getattr")
def getattr_(I, args, kws, st, n, fid):
    v, nm = args[:2]
    if not is_c(nm):
        return [(A("getattr", I.freeze(v, st), I.freeze(nm, st)), st)]
    if nm[1] != "str":
        I.throw(st, "TypeError", C("attribute name must be string"), node=n, fid=fid)
        return []
    if len(args) == 2:
        return I.get_attr(v, cval(nm), st, n, fid)
    out = []
    for r, s in hasattr_(I, [v, nm], [], st, n, fid):
        for b, s2 in I.truth(r, s):
            if b:
                keep, I.raises = I.raises, lambda kind, fv: ()
                try:
                    out += I.get_attr(v, cval(nm), s2, n, fid)
                finally:
                    I.raises = keep
            else:
                out.append((args[2], s2))
    return out


@ext("builtins.setattr")
def setattr_(I, args, kws, st, n, fid):
    if not is_c(args[1]):
        st.ev("mut", I.freeze(args[0], st), "setattr", I.freeze(args[1], st),
              I.freeze(args[2], st), I.loc(n, fid))
        return [(NONE, st)]
    return [(NONE, s) for s in I.set_attr(args[0], cval(args[1]), args[2], st, n, fid)]


@ext("builtins.delattr")
def delattr_(I, args, kws, st, n, fid):
    st.ev("mut", I.freeze(args[0], st), "delattr", I.freeze(args[1], st), None, I.loc(n, fid))
    return [(NONE, st)]


@ext("builtins.dir")
def x_dir(I, args, kws, st, n, fid):
    return [(A("dir", args[0]), st)]


@ext("builtins.callable")
def x_callable(I, args, kws, st, n, fid):
    v = args[0]
    if v[0] in ("fn", "bm", "cls", "part"):
        return [(TRUE, st)]
    if is_c(v) or v[0] == "t":
        return [(FALSE, st)]
    return [(A("isinst", I.freeze(v, st), C("Callable")), st)]


@ext("builtins.type")
def x_type(I, args, kws, st, n, fid):
    v = args[0]
    o = st.obj(v)
    if o is not None and o.cls:
        return [(("cls", o.cls), st)]
    if I.types.get(v):
        return [(("cls", I.types[v]), st)]
    if is_c(v):
        return [(X(f"builtins.{v[1]}"), st)]
    if o is not None and o.kind in ("list", "dict", "set"):
        return [(X(f"builtins.{o.kind}"), st)]
    return [(A("type", I.freeze(v, st)), st)]


@ext("builtins.iter")
def x_iter(I, args, kws, st, n, fid):
    v = args[0]
    o = st.obj(v)
    if o is not None and o.kind in ("gen", "genexp", "stream", "iter"):
        if not (o.kind == "stream" and o.x[0] in ("dkeys", "dvals", "ditems")):
            return [(v, st)]
    return [(I.alloc(st, Obj("iter", attrs={"src": v, "pos": C(0)})), st)]


@ext("copy.copy")
def x_copy(I, args, kws, st, n, fid):
    v = args[0]
    o = st.obj(v)
    if o is not None and o.kind == "iter" and "oneshot" in o.attrs:
        I.throw(st, "TypeError", C("cannot copy a generator"), node=n, fid=fid)
        return []
    if o is not None and o.kind in ("list", "dict", "set", "iter", "stream"):
        return [(I.alloc(st, o), st)]
    if o is not None and o.kind == "inst":
        return [(I.alloc(st, o), st)]
    if is_c(v) or v[0] == "t":
        return [(v, st)]
    return m_copy(I, v, "copy", [], [], st, n, fid)


EXT["copy.deepcopy"] = x_copy


def stream(op, arity=None):
    def f(I, args, kws, st, n, fid):
        return [(I.alloc(st, Obj("stream", x=(op,) + tuple(
            a if a[0] != "*" else a for a in args))), st)]
    return f


for _op in ("zip", "map", "filter"):
    EXT[f"builtins.{_op}"] = stream(_op)


@ext("builtins.zip")
def x_zip(I, args, kws, st, n, fid):
    if any(a[0] == "*" for a in args):
        from .interp import Unsupported
        raise Unsupported("zip(*unknown)")
    return stream("zip")(I, args, [], st, n, fid)


@ext("builtins.map")
def x_map(I, args, kws, st, n, fid):
    if any(a[0] == "*" for a in args):
        return [(A("call", X("builtins.map"), tuple(I.freeze(a, st) if a[0] != "*" else a for a in args), ()), st)]
    return stream("map")(I, args, [], st, n, fid)


EXT["itertools.chain"] = lambda I, args, kws, st, n, fid: (
    x_chainfrom(I, [_star_list(I, args, st)], kws, st, n, fid)
    if any(a[0] == "*" for a in args) else stream("chain")(I, args, kws, st, n, fid))
EXT["itertools.product"] = stream("product")
EXT["itertools.starmap"] = stream("starmap")
EXT["itertools.takewhile"] = stream("takewhile")
EXT["itertools.filterfalse"] = stream("filterfalse")


def _star_list(I, args, st):
    return I.mklist(st, [("*", a[1]) if a[0] == "*" else ("1", a) for a in args])


@ext("builtins.enumerate")
def x_enumerate(I, args, kws, st, n, fid):
    start = args[1] if len(args) > 1 else dict(kws).get("start", C(0))
    return [(I.alloc(st, Obj("stream", x=("enumerate", args[0], start))), st)]


@ext("itertools.count")
def x_count(I, args, kws, st, n, fid):
    kw = dict(kws)
    start = args[0] if args else kw.get("start", C(0))
    step = args[1] if len(args) > 1 else kw.get("step", C(1))
    return [(I.alloc(st, Obj("stream", x=("count", start, step))), st)]


@ext("itertools.repeat")
def x_repeat(I, args, kws, st, n, fid):
    if len(args) > 1:
        return NotImplemented
    return [(I.alloc(st, Obj("stream", x=("repeat", args[0]))), st)]


@ext("itertools.accumulate")
def x_accumulate(I, args, kws, st, n, fid):
    o = st.obj(args[0])
    kw = dict(kws)
    f = args[1] if len(args) > 1 else kw.get("func", X("operator.add"))
    first = kw.get("initial", NONE)
    if o is not None and o.kind == "stream" and o.x[0] == "repeat" and f in (X("operator.add"), NONE) \
            and is_c(o.x[1]) and o.x[1][1] == "int" and (first == NONE or is_c(first) and first[1] == "int"):
        return [(I.alloc(st, Obj("stream", x=("count", o.x[1] if first == NONE else first, o.x[1]))), st)]
    return [(A("accumulate", I.freeze(args[0], st), I.freeze(f, st), I.freeze(first, st)), st)]


@ext("itertools.chain.from_iterable", "cytoolz.concat")
def x_chainfrom(I, args, kws, st, n, fid):
    out = []
    for ps, s in parts_of(I, args[0], st, n, fid):
        out.append((I.mklist(s, concat_parts(I, ps, s)), s))
    return out


@ext("itertools.islice")
def x_islice(I, args, kws, st, n, fid):
    items = I.known_items(args[0], st)
    if items is not None and all(is_c(a) for a in args[1:]):
        return [(T(*items[slice(*[cval(a) for a in args[1:]])]), st)]
    return [(A("islice", I.freeze(args[0], st), tuple(I.freeze(a, st) for a in args[1:])), st)]


@ext("builtins.range")
def x_range(I, args, kws, st, n, fid):
    if len(args) == 1:
        a, b, c = C(0), args[0], C(1)
    elif len(args) == 2:
        a, b, c = args[0], args[1], C(1)
    else:
        a, b, c = args
    if c == C(-1):
        # descending range: same elements as range(b + 1, a + 1), reversed
        lo, hi = _addany(b, C(1)), _addany(a, C(1))
        return [(A("reversed", A("range", lo, hi, C(1))), st)]
    return [(A("range", a, b, c), st)]


@ext("builtins.reversed")
def x_reversed(I, args, kws, st, n, fid):
    v = args[0]
    items = I.known_items(v, st)
    if items is not None:
        return [(("t", items[::-1]), st)]
    f = norm_src(I.freeze(v, st))
    if is_app(f, "reversed"):
        return [(f[2], st)]
    return [(A("reversed", f), st)]


def pyconst(t, rank=None):
    """Python value of a term made of constants only (or of terms whose order is known): (value,) or None"""
    if rank is not None and rank(t) is not None:
        return (rank(t),)
    if is_c(t):
        return (cval(t),)
    if t[0] == "t":
        vs = [pyconst(x, rank) for x in t[1]]
        return None if None in vs else (tuple(v[0] for v in vs),)
    return None


def sort_keys(I, elems, key, st, n, fid):
    """[(constant sort key, element)] when every key is a known constant, else None"""
    if len(elems) <= 1:
        return [(0, e) for e in elems], st
    keyed = []
    s = st.fork()
    saved, I.sink = I.sink, []
    try:
        for e in elems:
            k = e
            if key != NONE:
                r = I.call(key, [e], [], s, n, fid)
                if len(r) != 1 or I.sink:
                    return None, st
                k, s = r[0]
            pc = pyconst(k, I.rank)
            if pc is None and k[0] == "t" and k[1]:     # decided by distinct first components
                pc = pyconst(k[1][0], I.rank)
                if pc is not None and any(pc[0] == q[0] for q in keyed):
                    pc = None
            if pc is None:
                return None, st
            keyed.append((pc[0], e))
    finally:
        I.sink = saved
    return keyed, s


@ext("builtins.sorted")
def x_sorted(I, args, kws, st, n, fid):
    kw = dict(kws)
    key, rev = kw.get("key", NONE), kw.get("reverse", FALSE)
    out = []
    for l, s in to_list(I, args[0], st, n, fid):
        parts = s.heap[l[1]].parts
        if all(p[0] == "1" for p in parts) and is_c(rev):
            keyed, s = sort_keys(I, [p[1] for p in parts], key, s, n, fid)
            if keyed is not None:
                try:
                    vals = sorted(keyed, key=lambda kv: kv[0], reverse=bool(cval(rev)))
                except TypeError:
                    I.throw(s, "TypeError", C("unorderable"), node=n, fid=fid)
                    continue
                out.append((I.mklist(s, [("1", v) for _, v in vals]), s))
                continue
            if key != NONE and all(p[1][0] == "o" and s.heap[p[1][1]].kind == "iter" for p in parts):
                # the order is unknown, but what the key does to the iterators is not
                cur = [s]
                for p in parts:
                    cur = [s3 for s2 in cur for _, s3 in I.call(key, [p[1]], [], s2, n, fid)]
                out += [(I.mklist(s2, list(parts)), s2) for s2 in cur]
                continue
        inner = parts[0][1] if len(parts) == 1 and parts[0][0] == "*" else \
            A("list", I.freeze_parts(parts, s, 0))
        out.append((I.mklist(s, (("*", A("sorted", inner, I.freeze(key, s), rev)),)), s))
    return out


@ext("builtins.all", "builtins.any")
def x_all(I, args, kws, st, n, fid):
    raise NotImplementedError


def allany(isall):
    op = "all" if isall else "any"

    def f(I, args, kws, st, n, fid):
        out = []
        for ps, s in parts_of(I, args[0], st, n, fid):
            if all(p[0] == "1" for p in ps):
                cur = [s]
                for p in ps:
                    nxt = []
                    for s1 in cur:
                        for b, s2 in I.truth(p[1], s1):
                            if b == isall:
                                nxt.append(s2)
                            else:
                                out.append((C(not isall), s2))
                    cur = nxt
                out += [(C(isall), s1) for s1 in cur]
            else:
                # order of evaluation does not matter for the truth value
                out.append((A(op, A("list", I.freeze_parts(ps, s, 0))), s))
        return out
    return f


EXT["builtins.all"] = allany(True)
EXT["builtins.any"] = allany(False)


@ext("builtins.sum")
def x_sum(I, args, kws, st, n, fid):
    o = st.obj(args[1]) if len(args) > 1 else None
    if o is not None and o.kind == "list":
        out = []
        for ps, s in parts_of(I, args[0], st, n, fid):
            out.append((I.mklist(s, o.parts + concat_parts(I, ps, s)), s))
        return out
    src = st.obj(args[0])
    if src is None or src.kind not in ("iter", "gen", "genexp", "list"):
        return [(A("call", X("builtins.sum"), tuple(I.freeze(a, st) for a in args), ()), st)]
    out = []
    for l, s in to_list(I, args[0], st, n, fid):
        ps = s.heap[l[1]].parts
        start = args[1] if len(args) > 1 else C(0)
        if all(p[0] == "1" and is_c(p[1]) and p[1][1] in ("int", "bool") for p in ps) and is_c(start) and start[1] == "int":
            out.append((C(sum((cval(p[1]) for p in ps), cval(start))), s))
        else:
            out.append((A("call", X("builtins.sum"), (I.freeze(l, s),) + tuple(I.freeze(a, s) for a in args[1:]), ()), s))
    return out


def pure(name):
    def f(I, args, kws, st, n, fid):
        fa = tuple(I.freeze(a, st) for a in args)
        fk = tuple((k, I.freeze(v, st)) for k, v in kws)
        return [(A("call", X(name), fa, fk), st)]
    return f


def minmax(name):
    def f(I, args, kws, st, n, fid):
        if len(args) > 1 and not kws and all(is_c(a) and a[1] in ("int", "float") for a in args):
            return [(C((min if name.endswith("min") else max)(cval(a) for a in args)), st)]
        if len(args) == 1:
            out = []
            for l, s in to_list(I, args[0], st, n, fid):
                ps = s.heap[l[1]].parts
                if ps and not kws and all(p[0] == "1" and is_c(p[1]) and p[1][1] in ("int", "float") for p in ps):
                    out.append((C((min if name.endswith("min") else max)(cval(p[1]) for p in ps)), s))
                    continue
                out.append((A("call", X(name), (I.freeze(l, s),), tuple(
                    (k, I.freeze(v, s)) for k, v in kws)), s))
            return out
        return pure(name)(I, args, kws, st, n, fid)
    return f


EXT["builtins.min"] = minmax("builtins.min")
EXT["builtins.max"] = minmax("builtins.max")


@ext("builtins.float")
def x_float(I, args, kws, st, n, fid):
    if len(args) == 1 and not kws and is_c(args[0]) and args[0][1] in ("int", "float", "str"):
        try:
            v = float(cval(args[0]))
            if v == v:
                return [(C(v), st)]
        except (ValueError, OverflowError):
            pass
    return pure("builtins.float")(I, args, kws, st, n, fid)


for _n in ("abs", "round", "hash", "id", "divmod", "pow", "ord", "chr", "vars", "globals",
           "format", "slice", "hex", "object"):
    EXT[f"builtins.{_n}"] = pure(f"builtins.{_n}")


@ext("builtins.slice")
def x_slice(I, args, kws, st, n, fid):
    a = [I.freeze(x, st) for x in args]
    if len(a) == 1:
        a = [NONE] + a
    if len(a) == 2:
        a = a + [NONE]
    return [(A("slice", *a), st)]


@ext("builtins.object.__new__")
def x_objnew(I, args, kws, st, n, fid):
    if args and args[0][0] == "cls":
        return [(I.alloc(st, Obj("inst", cls=args[0][1])), st)]
    return NotImplemented


# functools ------------------------------------------------------------
@ext("functools.partial")
def x_partial(I, args, kws, st, n, fid):
    f = args[0]
    if f[0] == "part":
        merged = tuple(x for x in f[3] if x[0] not in [k for k, _ in kws]) + tuple(kws)
        return [(("part", f[1], f[2] + tuple(args[1:]), merged), st)]
    return [(("part", f, tuple(args[1:]), tuple(kws)), st)]


@ext("functools.wraps")
def x_wraps(I, args, kws, st, n, fid):
    return [(A("wrapsdeco", args[0]), st)]


@ext("functools.update_wrapper")
def x_update_wrapper(I, args, kws, st, n, fid):
    st.over[("attr", args[0], "__wrapped__")] = args[1]
    return [(args[0], st)]


@ext("functools.cache", "functools.lru_cache")
def x_cache(I, args, kws, st, n, fid):
    if args and not is_c(args[0]):
        return [(A("cached", args[0]), st)]
    return [(X("functools.cache"), st)]


@ext("functools.reduce")
def x_reduce(I, args, kws, st, n, fid):
    f, seq = args[:2]
    out = []
    for ps, s in parts_of(I, seq, st, n, fid):
        if all(p[0] == "1" for p in ps):
            vals = ([args[2]] if len(args) > 2 else []) + [p[1] for p in ps]
            if not vals:
                I.throw(s, "TypeError", C("reduce() of empty"), node=n, fid=fid)
                continue
            cur = [(vals[0], s)]
            for v in vals[1:]:
                cur = [r for a, s2 in cur for r in I.call(f, [a, v], [], s2, n, fid)]
            out += cur
        elif f == X("operator.add") or _is_add(I, f):
            pre = ()
            if len(args) > 2:
                o = s.obj(args[2])
                pre = o.parts if o is not None else (("*", args[2]),)
            out.append((I.mklist(s, pre + concat_parts(I, ps, s)), s))
        else:
            fz = tuple(I.freeze(a, s) for a in args[2:])
            out.append((A("reduce", I.freeze(f, s), A("list", I.freeze_parts(ps, s, 0)), fz), s))
    return out


def _is_add(I, f):
    if f[0] == "fn":
        node = I.repo.funcs[f[1]].node
        return isinstance(node, ast.Lambda) and isinstance(node.body, ast.BinOp) and \
            isinstance(node.body.op, ast.Add) and isinstance(node.body.left, ast.Name) and \
            isinstance(node.body.right, ast.Name) and len(node.args.args) == 2 and \
            node.body.left.id == node.args.args[0].arg and \
            node.body.right.id == node.args.args[1].arg
    return f in (X("operator.iadd"), X("operator.concat"))


# operator -------------------------------------------------------------
def op2(cls):
    def f(I, args, kws, st, n, fid):
        return I.binop(cls(), args[0], args[1], st, n, fid)
    return f


for _n, _c in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("or_", ast.BitOr),
               ("and_", ast.BitAnd), ("truediv", ast.Div), ("mod", ast.Mod), ("xor", ast.BitXor)):
    EXT[f"operator.{_n}"] = op2(_c)


def opcmp(c):
    def f(I, args, kws, st, n, fid):
        return I.compare1(c(), args[0], args[1], st, n, fid)
    return f


for _n, _c in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt),
               ("ge", ast.GtE), ("is_", ast.Is), ("is_not", ast.IsNot)):
    EXT[f"operator.{_n}"] = opcmp(_c)


@ext("operator.contains")
def x_contains(I, args, kws, st, n, fid):
    return contains(I, args[1], args[0], st, n, fid)


@ext("operator.not_")
def x_not(I, args, kws, st, n, fid):
    return [(C(not b), s) for b, s in I.truth(args[0], st)]


@ext("operator.getitem")
def x_getitem(I, args, kws, st, n, fid):
    return getitem(I, args[0], args[1], st, n, fid)


@ext("operator.setitem")
def x_setitem(I, args, kws, st, n, fid):
    return [(NONE, s) for s in setitem(I, args[0], args[1], args[2], st, n, fid)]


@ext("operator.methodcaller")
def x_methodcaller(I, args, kws, st, n, fid):
    return [(A("methodcaller", cval(args[0]), tuple(args[1:]), tuple(kws)), st)]


@ext("operator.attrgetter")
def x_attrgetter(I, args, kws, st, n, fid):
    if len(args) != 1 or not is_c(args[0]):
        return NotImplemented
    return [(A("attrgetter", cval(args[0])), st)]


@ext("operator.itemgetter")
def x_itemgetter(I, args, kws, st, n, fid):
    if len(args) != 1:
        return NotImplemented
    return [(A("itemgetter", args[0]), st)]


# cytoolz ----------------------------------------------------------------
@ext("cytoolz.identity")
def x_identity(I, args, kws, st, n, fid):
    return [(args[0], st)]


def xfilter(which):
    def f(I, args, kws, st, n, fid):
        pred, m = args[:2]
        d = I.mkdict(st)

        def body(kv, s):
            outs = []
            arg = [kv[1][0]] if which == "key" else ([kv[1][1]] if which == "val" else [kv])
            for v, s2 in I.call(pred, arg, [], s, n, fid):
                for b, s3 in I.truth(v, s2):
                    if b:
                        o = s3.heap[d[1]]
                        s3.heap[d[1]] = o.but(parts=o.parts + (("kv", kv[1][0], kv[1][1]),))
                    outs.append(("next", None, s3))
            return outs
        o = st.obj(m)
        src = I.alloc(st, Obj("stream", x=("ditems", m))) if o is not None and o.kind == "dict" \
            else A("items", I.freeze(m, st))
        out = []
        for k, v, s in iterate(I, src, st, body, n, fid):
            if k == "next":
                out.append((d, s))
            elif k == "raise":
                I.sink.append((v, s))
        return out
    return f


EXT["cytoolz.keyfilter"] = xfilter("key")
EXT["cytoolz.valfilter"] = xfilter("val")
EXT["cytoolz.itemfilter"] = xfilter("item")


@ext("cytoolz.first")
def x_first(I, args, kws, st, n, fid):
    out = []
    for k, v, s in iterate(I, args[0], st, lambda e, s: [("got", e, s)], n, fid):
        if k == "got":
            out.append((v, s))
        elif k == "next":
            I.throw(s, "StopIteration", node=n, fid=fid)
        elif k == "raise":
            I.sink.append((v, s))
    return out


@ext("cytoolz.nth")
def x_nth(I, args, kws, st, n, fid):
    if args[0] == C(0):
        return x_first(I, [args[1]], kws, st, n, fid)
    return [(A("nth", I.freeze(args[0], st), I.freeze(args[1], st)), st)]


@ext("cytoolz.merge")
def x_merge(I, args, kws, st, n, fid):
    if len(args) == 1:
        out = []
        for ps, s in parts_of(I, args[0], st, n, fid):
            out.append((I.mkdict(s, concat_maps(I, ps, s)), s))
        return out
    parts = ()
    for a in args:
        parts += map_parts(I, a, st)
    return [(I.mkdict(st, parts), st)]


def concat_maps(I, parts, st):
    out = []
    for p in parts:
        if p[0] == "1":
            out += list(map_parts(I, p[1], st))
        elif p[0] == "many":
            out.append(("many", p[1], tuple((c, tuple(concat_maps(I, ps, st))) for c, ps in p[2])))
        elif p[0] == "*":
            out.append(("many", p[1], (((), (("*", elem_of(p[1])),)),)))
        else:
            out.append(("*", A("partial", p)))
    return tuple(out)


@ext("cytoolz.juxt")
def x_juxt(I, args, kws, st, n, fid):
    fs = args
    if len(args) == 1:
        it = I.known_items(args[0], st)
        if it is not None:
            fs = it
        elif args[0][0] == "o":
            r = to_list(I, args[0], st, n, fid)
            fs = I.known_items(r[0][0], r[0][1]) if len(r) == 1 else None
            if fs is None:
                return NotImplemented
            st = r[0][1]
    return [(I.alloc(st, Obj("juxt", x=tuple(fs))), st)]


# codecs ------------------------------------------------------------------
JSONSAFE = {"indent", "separators", "sort_keys", "ensure_ascii", "check_circular", "allow_nan"}


@ext("json.dumps")
def x_jdumps(I, args, kws, st, n, fid):
    v = I.freeze(args[0], st)
    I.maybe_raise(st, "encode", A("dumps", "json", v), I.loc(n, fid))
    bad = tuple((k, I.freeze(x, st)) for k, x in kws if k not in JSONSAFE)
    st.ev("call", X("json.dumps"), (v,), tuple((k, I.freeze(x, st)) for k, x in kws),
          A("dumps", "json", v) if not bad else A("dumps", "json", v, bad), I.loc(n, fid), tuple(args))
    t = A("dumps", "json", v) if not bad else A("dumps", "json", v, bad)
    return [(t, st)]


@ext("json.dump")
def x_jdump(I, args, kws, st, n, fid):
    """writes as it encodes: a failure may leave part of the text behind"""
    kw = dict(kws)
    fp = args[1] if len(args) > 1 else kw.pop("fp", None)
    v = I.freeze(args[0], st)
    loc = I.loc(n, fid)
    t = A("dumps", "json", v)
    for kk in I.raises("encode", t):
        s = st.fork()
        s.ev("file", "write", fp, (A("partial", t),), loc, A("fileop", "write", fp, (), (), I.new()), ())
        exc = A("uexc", kk, I.new(), t)
        s.ev("raise", exc, loc)
        I.sink.append((exc, s))
    bad = tuple((k, I.freeze(x, st)) for k, x in kw.items() if k not in JSONSAFE)
    if bad:
        t = A("dumps", "json", v, bad)
    st.ev("file", "write", fp, (t,), loc, A("fileop", "write", fp, (), (), I.new()), ())
    return [(NONE, st)]


@ext("json.loads")
def x_jloads(I, args, kws, st, n, fid):
    t = I.freeze(args[0], st)
    if is_app(t, "enc") and len(t) == 3:
        t = t[2]
    if is_app(t, "dec") and len(t) == 3:
        t = t[2]
    if is_app(t, "dumps") and t[2] == "json" and len(t) == 4 and not kws:
        return [(t[3], st)]
    return [(A("loads", "json", t), st)]


@ext("pickle.dumps")
def x_pdumps(I, args, kws, st, n, fid):
    v = I.freeze(args[0], st)
    t = A("dumps", "pickle", v)
    I.maybe_raise(st, "encode", t, I.loc(n, fid))
    st.ev("call", X("pickle.dumps"), (v,), (), t, I.loc(n, fid), tuple(args))
    return [(t, st)]


@ext("pickle.loads")
def x_ploads(I, args, kws, st, n, fid):
    t = I.freeze(args[0], st)
    st.ev("call", X("pickle.loads"), (t,), (), None, I.loc(n, fid), tuple(args))
    if is_app(t, "dumps") and t[2] == "pickle":
        return [(t[3], st)]
    return [(A("loads", "pickle", t), st)]


@ext("ast.literal_eval")
def x_leval(I, args, kws, st, n, fid):
    t = I.freeze(args[0], st)
    loc = I.loc(n, fid)
    st.ev("call", X("ast.literal_eval"), (t,), (), None, loc, tuple(args))
    if is_app(t, "repr"):
        return [(t[2], st)]
    for k in I.raises("literal", t):
        s = st.fork()
        I.throw(s, k, node=n, fid=fid)
    return [(A("loads", "literal", t), st)]


# atexit, contextlib ------------------------------------------------------
@ext("atexit.register", "atexit.unregister")
def x_atexit(I, args, kws, st, n, fid):
    raise NotImplementedError


def atexit_(op):
    def f(I, args, kws, st, n, fid):
        st.ev("atexit", op, args[0], tuple(args[1:]), I.loc(n, fid))
        return [(args[0] if op == "register" else NONE, st)]
    return f


EXT["atexit.register"] = atexit_("register")
EXT["atexit.unregister"] = atexit_("unregister")


@ext("contextlib.suppress")
def x_suppress(I, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("suppress", x=tuple(args))), st)]


@ext("contextlib.closing")
def x_closing(I, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("closing", x=args[0])), st)]


@ext("contextlib.ExitStack")
def x_exitstack(I, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("exitstack")), st)]


def es_callback(I, r, o, args, kws, st, n, fid):
    st.heap[r[1]] = o.but(parts=o.parts + (("cb", args[0], tuple(args[1:]), tuple(kws)),))
    return [(args[0], st)]


def es_enter(I, r, o, args, kws, st, n, fid):
    st.heap[r[1]] = o.but(parts=o.parts + (("cm", args[0]),))
    return [(args[0], st)]


OBJ_METHODS[("exitstack", "callback")] = es_callback
OBJ_METHODS[("exitstack", "enter_context")] = es_enter


@ext("contextlib.nullcontext")
def x_nullcontext(I, args, kws, st, n, fid):
    return [(I.alloc(st, Obj("suppress", x=())), st)]


@ext("typing.cast")
def x_cast(I, args, kws, st, n, fid):
    return [(args[1], st)]


@ext("numpy.dtype")
def x_dtype(I, args, kws, st, n, fid):
    if len(args) != 1 or kws:
        return NotImplemented
    d = known_dtype(args[0])
    if d is not None:
        nm = DTNAMES[d[0]] + (str(d[1]) if d[0] != "b" else "")
        return [(A("call", X("numpy.dtype"), (C(nm),), ()), st)]
    if is_c(args[0]) and isinstance(cval(args[0]), str) and re.fullmatch(
            r"(u?int|float|complex)\d+", cval(args[0])):
        I.throw(st, "TypeError", C("data type not understood"), node=n, fid=fid)
        return []
    return NotImplemented


def _info(kinds, msg):
    def handler(I, args, kws, st, n, fid):
        d = known_dtype(args[0]) if len(args) == 1 else None
        if d is not None and d[0] not in kinds:
            I.throw(st, "ValueError", C(msg), node=n, fid=fid)
            return []
        return NotImplemented
    return handler


EXT["numpy.iinfo"] = _info("ui", "not an integer type")
EXT["numpy.finfo"] = _info("fc", "not an inexact type")


@ext("numpy.copyto")
def x_copyto(I, args, kws, st, n, fid):
    o = st.obj(args[0])
    if o is not None and o.kind == "nd":
        return [(NONE, s) for s in nd_write(I, o, ELL, args[1], st, n, fid)]
    st.ev("mut", I.freeze(args[0], st), "copyto", I.freeze(args[1], st), None, I.loc(n, fid))
    return [(NONE, st)]


@ext("numpy.array", "numpy.copy")
def x_nparray(I, args, kws, st, n, fid):
    o = st.obj(args[0])
    if o is not None and o.kind == "nd":
        return [(nd_value(I, args[0], o, st, n, fid), st)]
    return NotImplemented


@ext("numpy.asarray")
def x_asarray(I, args, kws, st, n, fid):
    o = st.obj(args[0])
    if o is not None and o.kind == "nd":
        return [(args[0], st)]
    return NotImplemented


@ext("builtins.setattr_")
def _never(I, args, kws, st, n, fid):
    return NotImplemented


@ext("collections.namedtuple")
def x_namedtuple(I, args, kws, st, n, fid):
    return [(A("ntclass", I.freeze(args[0], st)), st)]


@ext("itertools.tee")
def x_tee(I, args, kws, st, n, fid):
    """independent iterators at the same position; the first stands for the original,
    which must not be used any more"""
    it = args[0]
    k = args[1] if len(args) > 1 else dict(kws).get("n", C(2))
    o = st.obj(it)
    if not is_c(k) or o is not None and o.kind not in ("iter", "stream"):
        return [(A("call", ("x", "itertools.tee"), (I.freeze(it, st),), (), I.new()), st)]
    if o is None or "oneshot" not in o.attrs and o.kind == "iter":
        src = it if o is None else None
        mk = lambda: I.alloc(st, o) if o is not None else I.alloc(
            st, Obj("iter", attrs={"src": src, "pos": C(0)}))
        first = it if o is not None else mk()
        return [(T(first, *[mk() for _ in range(cval(k) - 1)]), st)]
    return [(T(it, *[I.alloc(st, o) for _ in range(cval(k) - 1)]), st)]


# ---------------------------------------------------- multiprocessing pools
@ext("multiprocessing.Pool", "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool")
def x_pool(I, args, kws, st, n, fid):
    loc = I.loc(n, fid)
    I.maybe_raise(st, "pool", X("multiprocessing.Pool"), loc)
    r = I.alloc(st, Obj("pool", attrs={}, x=tuple(I.freeze(a, st) for a in args)))
    st.ev("pool", "open", r, None, loc)
    return [(r, st)]


def pool_op(name, faulty):
    def op(I, r, o, args, kws, st, n, fid):
        loc = I.loc(n, fid)
        if faulty:
            I.maybe_raise(st, "pool", A("attr", r, name), loc)
        st.ev("pool", name, r, None, loc)
        return [(NONE, st)]
    return op


for _p, _f in (("close", True), ("join", True), ("terminate", False)):
    OBJ_METHODS[("pool", _p)] = pool_op(_p, _f)


def pool_submit(name):
    def op(I, r, o, args, kws, st, n, fid):
        loc = I.loc(n, fid)
        kw = dict(kws)
        for nm, a in zip(("func", "args", "kwds", "callback", "error_callback"), args):
            kw[nm] = a
        if set(kw) - {"func", "args", "kwds"}:
            raise unsupported(f"pool.{name} with callbacks")
        I.maybe_raise(st, "pool", A("attr", r, name), loc)
        h = I.alloc(st, Obj("async", attrs={}, x=(kw["func"], kw.get("args", T()), kw.get("kwds", None), r)))
        st.ev("pool", "submit", r, h, loc)
        if name == "apply":
            return async_get(I, h, st.heap[h[1]], [], [], st, n, fid)
        return [(h, st)]
    return op


def async_get(I, r, o, args, kws, st, n, fid):
    loc = I.loc(n, fid)
    f, a, k, p = o.x
    st.ev("pool", "collect", p, r, loc)
    if "done" in o.attrs:
        return [(o.attrs["done"], st)]
    I.maybe_raise(st, "pool", A("attr", r, "get"), loc)
    items = I.known_items(a, st)
    av = list(items) if items is not None else [("*", a)]
    kv = []
    if k == NONE:
        I.throw(st, "TypeError", C("argument after ** must be a mapping"), node=n, fid=fid)
        return []
    if k is not None:
        ob = st.obj(k)
        ps = ob.parts if ob is not None and ob.kind == "dict" else k[2] if is_app(k, "dict") else None
        if ps is not None and all(q[0] == "kv" and is_c(q[1]) for q in ps):
            kv = [(cval(q[1]), q[2]) for q in ps]
        else:
            kv = [("**", k)]
    outs = I.call(f, av, kv, st, n, fid)
    for v, s in outs:
        s.heap[r[1]] = s.heap[r[1]].but(attrs={**s.heap[r[1]].attrs, "done": v})
    return outs


def async_ready(I, r, o, args, kws, st, n, fid):
    return [(A("call", A("attr", r, "ready"), (), (), I.new()), st)]


def async_wait(I, r, o, args, kws, st, n, fid):
    return [(NONE, st)]


OBJ_METHODS[("pool", "apply_async")] = pool_submit("apply_async")
OBJ_METHODS[("pool", "apply")] = pool_submit("apply")
OBJ_METHODS[("async", "get")] = async_get
OBJ_METHODS[("async", "ready")] = async_ready
OBJ_METHODS[("async", "successful")] = async_ready
OBJ_METHODS[("async", "wait")] = async_wait


def split_items(I, st, groups, oneshot):
    out = []
    for g in groups:
        if oneshot:
            out.append(I.alloc(st, Obj("iter", attrs={"src": T(*g), "pos": C(0), "oneshot": TRUE})))
        else:
            out.append(I.mklist(st, tuple(("1", x) for x in g)))
    return [(I.mklist(st, tuple(("1", x) for x in out)), st)]


def wrong_count(I, k, st, n, fid):
    if is_c(k) and not isinstance(cval(k), int) or k[0] == "o" and I.known_items(k, st) is not None:
        I.throw(st, "TypeError", C("not a number"), node=n, fid=fid)
        return True
    if is_c(k) and cval(k) < 1:
        I.throw(st, "ValueError", C("n must be at least 1"), node=n, fid=fid)
        return True


@ext("more_itertools.divide")
def x_divide(I, args, kws, st, n, fid):
    kw = dict(zip(("n", "iterable"), args))
    kw.update(kws)
    items = I.known_items(kw["iterable"], st)
    k = cval(kw["n"]) if is_c(kw["n"]) else None
    if wrong_count(I, kw["n"], st, n, fid):
        return []
    if items is None or not isinstance(k, int) or k < 1:
        return NotImplemented
    q, r = divmod(len(items), k)
    groups, at = [], 0
    for i in range(k):
        w = q + (1 if i < r else 0)
        groups.append(items[at:at + w])
        at += w
    return split_items(I, st, groups, True)


@ext("more_itertools.distribute")
def x_distribute(I, args, kws, st, n, fid):
    kw = dict(zip(("n", "iterable"), args))
    kw.update(kws)
    items = I.known_items(kw["iterable"], st)
    k = cval(kw["n"]) if is_c(kw["n"]) else None
    if wrong_count(I, kw["n"], st, n, fid):
        return []
    if items is None or not isinstance(k, int) or k < 1:
        return NotImplemented
    return split_items(I, st, [items[i::k] for i in range(k)], True)


@ext("more_itertools.chunked")
def x_chunked(I, args, kws, st, n, fid):
    kw = dict(zip(("iterable", "n", "strict"), args))
    kw.update(kws)
    items = I.known_items(kw["iterable"], st)
    k = cval(kw["n"]) if is_c(kw["n"]) else None
    if wrong_count(I, kw["n"], st, n, fid):
        return []
    if items is None or not isinstance(k, int) or k < 1:
        return NotImplemented
    return split_items(I, st, [items[i:i + k] for i in range(0, len(items), k)], False)


@ext("more_itertools.windowed")
def x_windowed(I, args, kws, st, n, fid):
    kw = dict(zip(("seq", "n", "fillvalue", "step"), args))
    kw.update(kws)
    items = I.known_items(kw["seq"], st)
    k = cval(kw["n"]) if is_c(kw["n"]) else None
    step = kw.get("step", C(1))
    if items is None or not isinstance(k, int) or k < 1 or not is_c(step) or not isinstance(cval(step), int) \
            or cval(step) < 1:
        return NotImplemented
    fill, step = kw.get("fillvalue", NONE), cval(step)
    out, at = [], 0
    while True:
        w = items[at:at + k]
        out.append(T(*(list(w) + [fill] * (k - len(w)))))
        at += step
        if at + k - step >= len(items):
            break
    return [(I.mklist(st, tuple(("1", x) for x in out)), st)]


@ext("itertools.pairwise", "more_itertools.pairwise", "toolz.sliding_window", "cytoolz.sliding_window",
     "more_itertools.sliding_window")
def x_pairwise(I, args, kws, st, n, fid):
    k = 2
    if len(args) == 2:
        k = [cval(a) for a in args if is_c(a)]
        k = k[0] if k else None
        args = [a for a in args if not is_c(a)]
    items = I.known_items(args[0], st) if len(args) == 1 and not kws else None
    if items is None or not isinstance(k, int) or k < 1:
        return NotImplemented
    return [(I.mklist(st, tuple(("1", T(*items[i:i + k])) for i in range(len(items) - k + 1))), st)]
