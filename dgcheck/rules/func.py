"""Rules for dustgoggles.func (F01-F04) and for every except clause (F02)."""
import ast

from . import prop
from .lib import *

F, G = S("func"), S("func2")
A1, A2, A3, KV = S("arg1"), S("arg2"), S("arg3"), S("kwvalue")
XS, YS = S("items1"), S("items2")
KW = (("k", KV),)
SHAPES = (((), ()), ((A1,), ()), ((A1, A2), KW), ((NONE,), ()), ((A1, A2, A3), ()), ((), KW),
          ((T(A1, A2),), ()), ((FALSE, C(0)), ()))


def calls_to(evs, f):
    return [e for e in flat(evs) if e[0] == "call" and e[1] == f]


def in_loops(evs, f):
    out = []
    for e in flat(evs):
        if e[0] == "loop":
            for b in e[3]:
                out += [x for x in flat(b[2]) if x[0] == "call" and x[1] == f]
    return out


def shape_text(args, kws):
    return ", ".join([show(a) for a in args] + [f"{k}={show(v)}" for k, v in kws])


def args_same(got, want):
    """True / False / None: the arguments a call passed, against those expected"""
    if tuple(got) == tuple(want):
        return True
    if any(isinstance(g, tuple) and g[:1] == ("*",) for g in got):
        return None
    if len(got) != len(want):
        return False
    bad = [g for g, w in zip(got, want) if g != w]
    return None if any(opaque_parts(g) for g in bad) else False


def faithful(c, name, l, outs, want, kws, result):
    """each outcome calls F once with want, and gives result(call) back"""
    n = 0
    for k, v, s, evs in outs:
        n += 1
        cs = calls_to(evs, F)
        looped = in_loops(evs, F)
        if len(cs) != 1 or looped:
            if any(is_app(x[1], "attr") and x[1][2] == F for x in flat(evs) if x[0] == "call"):
                c.und(name, "the wrapped function is used as an object")
                continue
            c.bad(name, "called once", loc_of(cs[-1]) if cs else l,
                  f"{name}: the wrapped function is called "
                  f"{'repeatedly' if looped else len(cs)} times instead of once", evs)
            continue
        e = cs[0]
        a = args_same(e[2], want)
        kk = dict(e[3]) == dict(kws)
        c.must(None if a is None else a and kk, f"{name}: arguments", "same arguments", loc_of(e),
               f"{name}: the wrapped function gets ({shape_text(e[2], e[3])[:90]}) instead of "
               f"({shape_text(want, kws)[:90]})", evs)
        thrown = [x for x in flat(evs) if x[0] == "raise" and is_app(x[1], "uexc")]
        if thrown:
            c.must(k == "raise" and v == thrown[0][1], f"{name}: errors", "result", loc_of(thrown[0]),
                   f"{name}: an error of the wrapped function does not reach the caller", evs)
            continue
        if k != "return":
            c.bad(name, "result", loc_of(e), f"{name} raises {exc_kind(v)}", evs)
            continue
        w = result(e)
        fv = v
        if fv == w:
            c.ok(f"{name}: result")
        else:
            c.must(None if opaque_parts(fv) else False, f"{name}: result", "result", l,
                   f"{name} returns {show(fv)[:70]} instead of {show(w)[:70]}", evs)
    if not n:
        c.und(name, "no outcome")


def user_raises(kind, fv):
    return ("E", "KeyboardInterrupt") if kind == "user" and fv == F else ()


def plain(c, I, q, args, kws):
    return [(k, I.freeze(v, s) if k == "return" else v, s, s.events())
            for k, v, s in c.run(I, q, list(args), list(kws))]


def wrapped(c, I, q, make, args, kws, mkws=()):
    """outcomes of calling what the wrapper returned"""
    outs = []
    for k, v, s in c.run(I, q, list(make), list(mkws)):
        if k != "return":
            raise Undecided(q, f"wrapping raises {exc_kind(v)}")
        n = len(s.events())
        if calls_to(s.events(), F):
            c.bad(q.split(".")[-1], "called once", fn_loc(c.repo, q),
                  f"{q.split('.')[-1]} calls the function while wrapping it", s.events())
        for k2, v2, s2 in c.runv(I, v, list(args), list(kws), s):
            outs.append((k2, I.freeze(v2, s2) if k2 == "return" else v2, s2, s2.events()[n:]))
    return outs


@prop("F01", "Effect analysis of the call wrappers: each is run on an unknown function over a family "
             "of argument shapes (none, positional, keyword, None, falsy, a tuple, a sequence of unknown "
             "length), with errors injected into the wrapped function; the calls made to it and the "
             "value given back are compared with the caller's.")
def f01(c):
    c.rule("called once", "the wrapped function is called exactly once per use (never while "
           "wrapping; never when interaction is forbidden)")
    c.rule("same arguments", "it gets exactly the caller's arguments (those documented), in order")
    c.rule("result", "its result, the passed state or the default is returned; its errors pass through")
    ret = lambda e: e[4]
    for args, kws in SHAPES:
        with c.group(f"pass_parameters({shape_text(args, kws)})"):
            I = c.interp(raises=user_raises)
            faithful(c, "pass_parameters", fn_loc(c.repo, "func.pass_parameters"),
                     plain(c, I, "func.pass_parameters", (F,) + args, kws), args, kws, ret)
        interaction(c, args, kws)
        with c.group(f"splat over ({shape_text(args, ())})"):
            I = c.interp(raises=user_raises)
            faithful(c, "splat", fn_loc(c.repo, "func.splat"),
                     wrapped(c, I, "func.splat", [F], [T(*args)], ()), args, (), ret)
        stops(c, args, kws)
        with c.group(f"constant called with ({shape_text(args, kws)})"):
            for val in (A1, NONE, C(0), T()):
                I = c.interp()
                for k, v, s, evs in wrapped(c, I, "func.constant", [val], args, kws):
                    c.must(k == "return" and v == val, "constant", "result",
                           fn_loc(c.repo, "func.constant"),
                           f"a constant function of {show(val)} "
                           f"{'returns ' + show(v)[:60] if k == 'return' else 'raises'}", evs)
    with c.group("splat over a sequence of unknown length"):
        I = c.interp(raises=user_raises)
        outs = wrapped(c, I, "func.splat", [F], [XS], ())
        faithful(c, "splat", fn_loc(c.repo, "func.splat"), outs, (("*", XS),), (), ret)
    with c.group("triggerize"):
        l = fn_loc(c.repo, "func.triggerize")
        for args in ((A1,), (NONE,), (C(0),), ()):
            I = c.interp(raises=user_raises)
            faithful(c, "triggerize", l, wrapped(c, I, "func.triggerize", [F], args, ()), (), (),
                     lambda e: args[0] if args else NONE)
    greedy(c)
    optional(c)
    with c.group("zero"):
        for args, kws in SHAPES:
            I = c.interp()
            for k, v, s, evs in plain(c, I, "func.zero", args, kws):
                c.must(k == "return" and v == NONE or (None if k == "return" and opaque_parts(v) else False), "zero",
                       "result", fn_loc(c.repo, "func.zero"),
                       f"zero({shape_text(args, kws)}) {'returns ' + show(v)[:60] if k == 'return' else 'raises'}", evs)


def optional(c):
    q = "func.optionalize"
    l = fn_loc(c.repo, q)
    CB = S("exc_callback")
    for args, kws in SHAPES:
        for cb in (None, CB):
            with c.group(f"optionalize called with ({shape_text(args, kws)}){', own callback' if cb else ''}"):
                I = c.interp(raises=lambda kind, fv: ("ValueError", "OSError") if kind == "user" and fv == F else ())
                for k, v, s, evs in wrapped(c, I, q, [F], args, kws, (("exc_callback", cb),) if cb else ()):
                    thrown = [x for x in flat(evs) if x[0] == "raise" and is_app(x[1], "uexc")]
                    if not thrown:
                        faithful(c, "optionalize", l, [(k, v, s, evs)], args, kws, lambda e: e[4])
                        continue
                    n = len(calls_to(evs, F))
                    told = calls_to(evs, CB) if cb else []
                    c.must(n == 1 and not in_loops(evs, F), "optionalize: calls", "called once", l,
                           f"optionalize calls a failing function {n} times", evs)
                    if cb:
                        c.must(len(told) == 1 and tuple(told[0][2]) == (thrown[0][1],) and not told[0][3],
                               "optionalize: callback", "same arguments", l, f"the callback is called {len(told)} times"
                               if len(told) != 1 else "the callback does not get the error", evs)
                    c.must(k == "return" and v == NONE or (None if k == "return" and opaque_parts(v) else False),
                           "optionalize: result", "result", l, "after an error an optional function "
                           f"{'returns ' + show(v)[:60] if k == 'return' else 'raises'}", evs)


def interaction(c, args, kws):
    q = "func.catch_interaction"
    l = fn_loc(c.repo, q)
    D = S("given_default")
    for dkw, dv in (((), C("")), ((("_default", D),), D), ((("_default", NONE),), NONE)):
        with c.group(f"catch_interaction({shape_text(args, kws + dkw)})"):
            NI = S("noninteractive")
            I = c.interp(raises=user_raises)
            outs = plain(c, I, q, (NI, F) + args, kws + dkw)
            on, off = [], []
            for o in outs:
                b = decide(A("truthy", NI), o[2].facts)
                if b is None and any(mentions(a, NI) for a in o[2].facts):
                    # a narrower question than truthiness was asked
                    raise_if_ambiguous(c, I, NI, o, l)
                    continue
                if b is not False:
                    on.append(o)
                if b is not True:
                    off.append(o)
            for k, v, s, evs in on:
                cs = calls_to(evs, F)
                if cs:
                    c.bad("forbidden", "called once", loc_of(cs[0]),
                          "catch_interaction calls the function although interaction is forbidden", evs)
                else:
                    c.must(k == "return" and v == dv or (None if opaque_parts(v) else False),
                           "forbidden", "result", l, "catch_interaction gives "
                           f"{show(v)[:60]} instead of the default", evs)
            faithful(c, "catch_interaction", l, off, args, kws, lambda e: e[4])


def raise_if_ambiguous(c, I, NI, o, l):
    """the path's question about noninteractive is not its truth: find a value for which
    the path goes wrong"""
    k, v, s, evs = o
    called = bool(calls_to(evs, F))
    for a, val in s.facts.items():
        if not mentions(a, NI):
            continue
        for x in (TRUE, FALSE, NONE, C(0), C(1), C("yes"), C("")):
            sub = resolve(a, NI, x)
            if sub is None or sub != val:
                continue
            others = [resolve(b, NI, x) for b in s.facts if mentions(b, NI)]
            vals = [w for b, w in s.facts.items() if mentions(b, NI)]
            if any(r is None or r != w for r, w in zip(others, vals)):
                continue
            if bool(cval(x)) == called:
                c.bad("forbidden", "called once", loc_of(calls_to(evs, F)[0]) if called else l,
                      f"catch_interaction {'calls' if called else 'does not call'} the function when "
                      f"noninteractive is {show(x)}", evs)
                return
    c.ok("forbidden", "no ordinary value goes the wrong way")


def resolve(atom, x, val):
    a = replace(atom, {x: val})
    if is_app(a, "is"):
        a = cmp_is(a[2], a[3])
    elif is_app(a, "eq"):
        a = cmp_eq(a[2], a[3])
    elif is_app(a, "truthy"):
        a = C(bool(cval(a[2]))) if is_c(a[2]) else a
    elif is_app(a, "isinstance") and is_c(val):
        return None
    return bool(cval(a)) if is_c(a) else None


def stops(c, args, kws):
    q = "func.argstop"
    l = fn_loc(c.repo, q)
    for n in (0, 1, 2):
        for unpack in (None, FALSE):
            if len(args) == 1 and unpack is None and args[0] == NONE:
                continue
            with c.group(f"argstop({n}{', unpack=False' if unpack else ''}) called with "
                         f"({shape_text(args, kws)})"):
                I = c.interp(raises=user_raises, kinds={A1: "tuple"})
                outs = wrapped(c, I, q, [F, C(n)], args, kws,
                               (("unpack", unpack),) if unpack else ())
                want = args[:n]
                if len(args) == 1 and unpack is None:
                    if args[0][0] == "t":
                        want = args[0][1][:n]
                    else:
                        want = (("*", A("item", args[0], A("slice", NONE, C(n), NONE))),)
                faithful(c, "argstop", l, outs, want, kws, lambda e: e[4])
    with c.group("argstop with the default count"):
        I = c.interp(raises=user_raises)
        faithful(c, "argstop", l, wrapped(c, I, q, [F], (A1, A2), KW), (), KW, lambda e: e[4])


def greedy(c):
    q = "func.gmap"
    l = fn_loc(c.repo, q)
    with c.group("gmap with the caller's mapper and evaluator"):
        M_, E_ = S("mapper"), S("evaluator")
        for its in ((XS,), (XS, YS)):
            I = c.interp()
            for k, v, s, evs in plain(c, I, q, (F,) + its, (("mapper", M_), ("evaluator", E_))):
                m, e = calls_to(evs, M_), calls_to(evs, E_)
                ok_ = len(m) == 1 and len(e) == 1 and m[0][2] == (F,) + its and not m[0][3] and \
                    e[0][2] == (m[0][4],) and k == "return" and v == e[0][4]
                c.must(ok_, "gmap", "called once", l, "gmap does not evaluate one mapping of the "
                       "function over the iterables", evs)
    for its in ((XS,), (XS, YS)):
        with c.group(f"gmap over {len(its)} iterable(s)"):
            I = c.interp()
            for k, v, s, evs in plain(c, I, q, (F,) + its, ()):
                if k != "return":
                    c.bad("gmap", "result", l, f"gmap raises {exc_kind(v)}", evs)
                    continue
                ps = parts(v)
                if ps is None or len(ps) != 1 or ps[0][0] != "many":
                    raise Undecided("gmap", show(v)[:80])
                src = ps[0][1]
                want = (A("elem", XS),) if len(its) == 1 else (A("elem", XS), A("elem", YS))
                okv = len(ps[0][2]) == 1
                for cond, items in variants(ps[0]):
                    okv = okv and not cond and len(items) == 1 and items[0][0] == "1" and \
                        is_call_to(items[0][1], F) and tuple(items[0][1][3]) == want
                cs = in_loops(evs, F)
                if okv and len(cs) == 1:
                    c.ok("gmap")
                elif src not in (XS, A("zip", its)):
                    c.und("gmap", f"source {show(src)[:60]}")
                else:
                    c.bad("gmap", "called once", l,
                          f"gmap gives {show(v)[:90]} with {len(cs)} calls per element", evs)


# ------------------------------------------------------------------ F02
@prop("F02", "Control-flow analysis of every try statement, finally block, with statement and __exit__ "
             "method of the library: each handler that can catch KeyboardInterrupt or SystemExit must "
             "raise it again on every path (following tests of the exception's type and calls of "
             "functions that never return); no finally block may leave by return, break or continue.")
def f02(c):
    from ..interrupts import inspect
    c.rule("interrupts propagate", "a handler that catches KeyboardInterrupt or SystemExit re-raises it on "
           "every path; finally blocks and __exit__ methods do not discard it")
    n = 0
    for status, what, m, f, node, exc, text in inspect(c.repo):
        n += 1
        q = f.qual if f is not None else m.name
        c.functions.add(q)
        loc = (m.name.replace(".", "/") + ".py", getattr(node, "lineno", 0), q)
        name = f"{q}: {what} ({exc})"
        if status == "held":
            c.ok(name)
        elif status == "und":
            c.und(name, text)
        else:
            c.bad(name, "interrupts propagate", loc, text)
    c.sites += n
    if not n:
        c.und("try statements", "none found")


# ------------------------------------------------------------------ F03
def oneshot(I, st, src):
    """a generator over src's items"""
    return I.alloc(st, Obj("iter", attrs={"src": src, "pos": C(0), "oneshot": TRUE}))


ITEM_FUNCS = (
    ("func.intersection", 2, lambda xs: xs, ()),
    ("func.disjoint", 2, lambda xs: xs, ()),
    ("func.gmap", 2, lambda xs: [F] + xs, ()),
    ("func.filtern", 1, lambda xs: [F] + xs, ()),
    ("structures.separate_by", 1, lambda xs: xs + [F], ()),
    ("structures.get_from_all", 1, lambda xs: [S("key")] + xs, ()),
    ("structures.enumerate_as_mapping", 1, lambda xs: xs, ()),
    ("structures.get_from", 1, lambda xs: [S("collection")] + xs, ()),
    ("scrape.bulk_scrape_metadata", 1, lambda xs: xs + [F], ()),
    ("pivot.junction", 1, lambda xs: [S("df1"), S("df2")] + xs, ()),
    ("pivot.unique_to_records", 1, lambda xs: [S("df")] + xs, ()),
    ("pivot.typed_columns", 1, lambda xs: [S("df")] + xs, ()),
    ("mosaic.read_between", 1, lambda xs: [S("file"), S("field"), S("bounds")] + xs, ()),
    ("mosaic.read_between", 1, lambda xs: [S("file"), S("field"), S("bounds"), S("records")] + xs, ()),
)


@prop("F03", "Typestate of one-shot arguments: each function taking an iterable of items is run on "
             "generators of unknown length and content; no path may iterate one again after it was "
             "exhausted, nor fail where it would succeed for a list. Parameters annotated as iterables "
             "elsewhere in the library are found from the annotations.")
def f03(c):
    c.rule("consumed once", "no path iterates a one-shot argument again after exhausting it")
    c.rule("accepted", "no path fails on a generator where a list is accepted")
    for q, n, mk, kws in ITEM_FUNCS:
        base = [XS, YS][:n]
        for shots in ([True] * n, [True] + [False] * (n - 1)) if n > 1 else ([True],):
            with c.group(f"{q} on {'generators' if all(shots) else 'a generator and a list'}"):
                consumed(c, q, lambda I, st: mk([oneshot(I, st, x) if o else x
                                                 for x, o in zip(base, shots)]), mk(base), kws)
    annotated(c)
    pools(c)
    with c.group("structures.to_records with level names"):
        nested = lambda I, st: [A("nested"), NONE, oneshot(I, st, XS)]
        consumed(c, "structures.to_records", lambda I, st: [S("nested"), NONE, oneshot(I, st, XS)],
                 [S("nested"), NONE, XS], ())


def consumed(c, q, mk, listed, kws, kinds=None):
    l = fn_loc(c.repo, q)
    I = c.interp(kinds=kinds or {})
    fails = {exc_kind(v) for k, v, s in c.run(I, q, list(listed), list(kws)) if k == "raise"}
    I = c.interp(kinds=kinds or {})
    st = St()
    n = 0
    for k, v, s in c.run(I, q, mk(I, st), list(kws), st):
        n += 1
        judge(c, q, l, k, v, s.events(), fails)
    if not n:
        c.und(q, "no outcome")


def judge(c, q, l, k, v, evs, fails):
    again = [e for e in flat(evs) if e[0] == "exhausted"] or list(spent(evs)) or handed_twice(evs)
    name = q.split(".")[-1]
    if again:
        c.bad(name, "consumed once", loc_of(again[0]),
              f"{name} iterates a one-shot argument a second time", evs)
    elif k == "raise" and exc_kind(v) == "TypeError" and "TypeError" not in fails:
        c.bad(name, "accepted", next((loc_of(e) for e in reversed(list(flat(evs))) if e[0] == "raise"), l),
              f"{name} fails on a generator where a list is accepted", evs)
    else:
        c.ok(name)


CONSUMERS = {"select", "isin", "reindex", "drop", "take", "filter", "join", "from_dict", "concat", "to_list"}


def handed_twice(evs):
    """calls that hand a one-shot argument to a library function that reads it through, when an earlier call (or
    an earlier turn of the loop the call is in) already did"""
    def uses(evs):
        for e in evs:
            if e[0] == "loop":
                for b in e[3]:
                    inner = list(uses(b[2]))
                    for x, t in inner:
                        yield x, t
                    if b[0] in ("next", "continue"):
                        yield from inner        # the next turn of the loop
            elif e[0] == "call" and (is_app(e[1], "attr") and e[1][3] in CONSUMERS or e[1][0] == "x" and
                                     e[1][1].split(".")[0] in ("pandas", "pyarrow", "numpy")):
                for t in e[2] + tuple(v for _, v in e[3]):
                    if is_app(t, "iter") and t[3] == C(0):
                        yield e, t
    seen = []
    for e, t in uses(evs):
        if t in seen:
            return [e]
        seen.append(t)
    return []


def spent(evs):
    """uses, on each turn of a loop, of a one-shot argument that an earlier turn may have used up"""
    for e in flat(evs):
        if e[0] != "loop":
            continue
        for u in (x for b in e[3] for x in b[2] if x[0] == "reuse" and x[1][2] == e[1]):
            if any(b[0] == "next" and any(str(w[0]) == u[1][3] and is_app(w[1], "end") for w in b[3]) for b in e[3]):
                yield u


def annotated(c):
    """functions outside the list whose parameters are annotated as iterables"""
    known = {f"dustgoggles.{q}" for q, *_ in ITEM_FUNCS}
    for f in c.repo.funcs.values():
        if f.qual in known or f.cls is not None or f.parent is not None or f.body is None:
            continue
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
                 if x.annotation is not None and ast.unparse(x.annotation).split("[")[0].split(".")[-1]
                 in ("Iterable", "Iterator")]
        if not names or f.name == "are_in":
            continue
        with c.group(f"{f.qual} ({', '.join(names)})"):
            I = c.interp()
            st = St()
            kws = [(x, oneshot(I, st, S(x)) if x in names else S(x)) for x in required(f, names)]
            for k, v, s in c.run(I, f.qual, [], kws, st):
                judge(c, f.qual, fn_loc(c.repo, f.qual), k, v, s.events(), {"TypeError"})


def required(f, names):
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    need = pos[:len(pos) - len(a.defaults)] + [
        x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return need + [x for x in names if x not in need]


def pools(c):
    """a pool given its argument records as a generator"""
    q = c.repo.cls("structures.MaybePool").qual
    for threads in (NONE, C(2)):
        for chunks in (FALSE, TRUE):
            with c.group(f"MaybePool({show(threads)}).map(as_chunks={cval(chunks)})"):
                I = c.interp()
                st = St()
                I.types = dict(I.types)
                outs = c.runv(I, ("cls", q), [threads], [], st)
                n = 0
                for k, ob, s in outs:
                    if k != "return":
                        continue
                    m = I.get_attr(ob, "map", s, None, None)[0][0]
                    g = oneshot(I, s, XS)
                    for k2, v2, s2 in c.runv(I, m, [F, g], [("as_chunks", chunks)], s):
                        n += 1
                        judge(c, "structures.MaybePool.map", fn_loc(c.repo, "structures.MaybePool.map"),
                              k2, v2, s2.events(), {"TypeError"})
                if not n:
                    c.und("map", "no outcome")


# ------------------------------------------------------------------ F04
ZS = S("items3")
CONT, THING = S("container"), S("thing")


def member(t, env):
    """is an item that is in the collections env says in the collection t describes"""
    if t in env:
        return env[t]
    if is_app(t) and t[1] in ("set", "list", "tuple", "frozenset") and isinstance(t[2], tuple):
        rs = []
        for p in t[2]:
            if p[0] == "*":
                rs.append(member(p[1], env))
            else:
                return None
        return True if True in rs else None if None in rs else False
    if is_app(t) and t[1] in ("copyof", "sorted", "reversed", "setof", "seqof", "frozenset", "set"):
        return member(t[2], env)
    if is_app(t) and t[1] in ("bitand", "bitor", "bitxor", "sub", "add"):
        a, b = member(t[2], env), member(t[3], env)
        if t[1] in ("bitor", "add"):
            return True if True in (a, b) else None if None in (a, b) else False
        if t[1] == "bitand":
            return False if False in (a, b) else None if None in (a, b) else True
        if None in (a, b):
            return None
        return a != b if t[1] == "bitxor" else a and not b
    if is_app(t, "lin") and len(t[3]) == 2 and t[2] == 0 and {k for _, k in t[3]} == {1, -1}:
        a = member(next(x for x, k in t[3] if k == 1), env)
        b = member(next(x for x, k in t[3] if k == -1), env)
        return None if None in (a, b) else a and not b
    if is_app(t, "call") and is_app(t[2], "attr"):
        name, recv = t[2][3], t[2][2]
        xs = [member(x, env) for x in (recv,) + tuple(t[3])]
        if None in xs:
            return None
        if name == "intersection":
            return all(xs)
        if name == "union":
            return any(xs)
        if name == "difference":
            return xs[0] and not any(xs[1:])
        if name == "symmetric_difference":
            return xs[0] != xs[1]
    return None


def worlds(names):
    out = [{}]
    for n in names:
        out = [dict(w, **{}) | {n: b} for w in out for b in (True, False)]
    return out


def holds_in(facts, x, env):
    """do the facts about x's membership hold in a world: True / False / None"""
    r = True
    for a, v in facts.items():
        if is_app(a, "in") and a[2] == x:
            m = member(a[3], env)
            if m is None:
                return None
            if m != v:
                return False
        else:
            return None
    return r


@prop("F04", "Value analysis of the set and predicate helpers: results over unknown collections are "
             "compared with the documented meaning by the membership of an arbitrary item in every "
             "combination of the inputs.")
def f04(c):
    c.rule("membership", "the result holds exactly the items the documentation says, in the inputs' order "
           "where there is one")
    for xs in ((XS, YS), (XS, YS, ZS), (XS,)):
        with c.group(f"intersection of {len(xs)}"):
            l = fn_loc(c.repo, "func.intersection")
            I = c.interp()
            for k, v, s, evs in plain(c, I, "func.intersection", xs, ()):
                if k != "return":
                    c.bad("intersection", "membership", l, f"intersection raises {exc_kind(v)}", evs)
                    continue
                for w in worlds(xs):
                    m = member(v, w)
                    c.must(None if m is None else m == all(w.values()), "intersection", "membership", l,
                           "an item in " + (", ".join(show(x) for x in w if w[x]) or "none") + " of "
                           f"{len(xs)} is {'in' if m else 'not in'} their intersection", evs)
        with c.group(f"disjoint of {len(xs)}"):
            split(c, xs)
    first(c)
    with c.group("naturals"):
        I = c.interp()
        for k, v, s, evs in plain(c, I, "func.naturals", [], ()):
            l = fn_loc(c.repo, "func.naturals")
            if k == "return" and is_app(v, "count") and is_c(v[2]) and is_c(v[3]):
                c.must((v[2], v[3]) == (C(1), C(1)), "naturals", "membership", l,
                       f"naturals counts from {show(v[2])} by {show(v[3])}", evs)
            elif k == "return" and (is_app(v, "range") or is_app(v, "iter") and is_app(v[2], "range")
                                    or parts(v) is not None):
                c.bad("naturals", "membership", l, "naturals comes to an end", evs)
            else:
                c.und("naturals", show(v)[:60])
    are_in(c)
    types(c)
    lists(c)


def split(c, xs):
    l = fn_loc(c.repo, "func.disjoint")
    I = c.interp()
    for k, v, s, evs in plain(c, I, "func.disjoint", xs, ()):
        if k != "return":
            c.bad("disjoint", "membership", l, f"disjoint raises {exc_kind(v)}", evs)
            continue
        ps = parts(v)
        if ps is None or any(p[0] != "1" for p in ps):
            raise Undecided("disjoint", show(v)[:80])
        if len(ps) != len(xs):
            c.bad("disjoint", "membership", l, f"disjoint returns {len(ps)} lists for {len(xs)} inputs", evs)
            continue
        for x, p in zip(xs, ps):
            sub = parts(p[1])
            if sub is None or len(sub) != 1 or sub[0][0] != "many":
                raise Undecided("disjoint", show(p[1])[:80])
            e = A("elem", x)
            if sub[0][1] != x:
                c.must(False if sub[0][1] in xs else None, "disjoint", "membership", l,
                       f"the list for one input is made of the items of {show(sub[0][1])[:60]}", evs)
                continue
            for w in worlds(xs):
                if not w[x]:
                    continue
                kept = []
                for cond, items in variants(sub[0]):
                    h = holds_in(cond, e, w)
                    if h is None:
                        raise Undecided("disjoint", "condition")
                    if h:
                        if any(i != ("1", e) for i in items):
                            raise Undecided("disjoint", "element")
                        kept.append(len(items))
                c.must(kept == [0 if all(w.values()) else 1], "disjoint", "membership", l,
                       "an item in " + ", ".join(show(y) for y in w if w[y]) +
                       f" is {'kept' if kept and kept[0] else 'dropped'} by disjoint", evs)


def first(c):
    with c.group("filtern"):
        l = fn_loc(c.repo, "func.filtern")
        I = c.interp()
        e = A("elem", XS)
        for k, v, s, evs in plain(c, I, "func.filtern", [F, XS], ()):
            cs = calls_to(evs, F)
            if any(x[2] != (e,) or x[3] for x in cs):
                c.und("filtern", "how the predicate is called")
                continue
            if k == "raise":
                c.must(exc_kind(v) == "StopIteration" or (None if exc_kind(v)[:5] == "user:" else False),
                       "filtern", "membership", l, f"filtern raises {exc_kind(v)} when nothing matches", evs)
                continue
            pol = [atom_polarity(s.facts, x[4]) for x in cs]
            if v == e and 1 in pol:
                c.ok("filtern")
            elif v == e and -1 in pol:
                c.bad("filtern", "membership", l, "filtern returns an item its predicate rejects", evs)
            elif is_call_to(v, F):
                c.bad("filtern", "membership", l, "filtern returns the predicate's result", evs)
            elif is_c(v):
                c.bad("filtern", "membership", l, f"filtern returns {show(v)}", evs)
            else:
                c.und("filtern", show(v)[:60])


# collections of known length and arbitrary, pairwise different items
LISTS = (("pqrp", "qs"), ("pq", "qr", "qs"), ("pqr", "rp", "pqs"), ("qp",), ("pq", "pq"), ("pq", ""), ("", "p"),
         ("pqr", "s"), ("spqr", "q", "qqt"))


def names_state(lists):
    st = St()
    names = sorted({n for l in lists for n in l})
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            st.facts[cmp_eq(S(a), S(b))] = False
    return st


def val(t):
    """('seq', names in order) | ('set', names) | ('some', names: in an order that is not the input's) | bool | None"""
    if is_c(t) and isinstance(cval(t), bool):
        return cval(t)
    if is_app(t) and t[1] in ("list", "tuple", "set", "frozenset") and isinstance(t[2], tuple) or t[0] == "t":
        out, loose = [], False
        for p in parts(t) or [] if t[0] == "t" or t[1] != "frozenset" else t[2]:
            if p[0] == "1" and p[1][0] == "s":
                out.append(p[1][1])
            elif p[0] == "*":
                v = val(p[1])
                if not isinstance(v, tuple):
                    return None
                out += list(v[1])
                loose = loose or v[0] != "seq"
            else:
                return None
        if t[0] != "t" and t[1] in ("set", "frozenset"):
            return "set", frozenset(out)
        return ("some" if loose else "seq"), tuple(out)
    if is_app(t) and t[1] in ("sorted", "reversed"):
        v = val(t[2])
        if not isinstance(v, tuple):
            return None
        return ("some", tuple(v[1])) if t[1] == "sorted" else ("seq", tuple(v[1])[::-1]) if v[0] == "seq" else v
    if is_app(t) and t[1] in ("copyof", "setof", "frozenset", "seqof"):
        v = val(t[2])
        if isinstance(v, tuple) and t[1] in ("setof", "frozenset"):
            return "set", frozenset(v[1])
        return v if isinstance(v, tuple) else None
    if is_app(t) and t[1] in ("bitand", "bitor", "bitxor", "sub", "add", "lt", "le") or is_app(t, "lin"):
        if is_app(t, "lin"):
            if t[2] != 0 or len(t[3]) != 2 or {k for _, k in t[3]} != {1, -1}:
                return None
            op, x, y = "sub", next(a for a, k in t[3] if k == 1), next(a for a, k in t[3] if k == -1)
        else:
            op, x, y = t[1:4]
        a, b = val(x), val(y)
        if isinstance(a, bool) and isinstance(b, bool):
            return {"bitand": a and b, "bitor": a or b, "bitxor": a != b}.get(op)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "set":
            a, b = a[1], b[1]
            if op in ("lt", "le"):
                return a < b if op == "lt" else a <= b
            return "set", {"bitand": a & b, "bitor": a | b, "bitxor": a ^ b, "sub": a - b}.get(op)
        return None
    if is_app(t, "not"):
        v = val(t[2])
        return not truth(v) if truth(v) is not None else None
    if is_app(t, "truthy"):
        return truth(val(t[2]))
    if is_app(t, "in") and t[2][0] == "s":
        v = val(t[3])
        return t[2][1] in v[1] if isinstance(v, tuple) else None
    if is_app(t, "eq") and len(t) == 4:
        if t[2][0] == t[3][0] == "s":
            return t[2] == t[3]
        a, b = val(t[2]), val(t[3])
        return None if a is None or b is None else a == b
    if is_app(t, "call") and (is_app(t[2], "attr") or t[2][0] == "x" and t[2][1].startswith("builtins.set.")):
        name = t[2][3] if is_app(t[2], "attr") else t[2][1].split(".")[-1]
        xs = list(t[3])
        if is_app(t[2], "attr") and t[2][2] not in (X("builtins.set"), X("builtins.frozenset")):
            xs = [t[2][2]] + xs
        flatx = []
        for x in xs:
            if x[0] == "*" and len(x) == 2:
                ps = parts(x[1])
                if ps is None or any(p[0] != "1" for p in ps):
                    return None
                flatx += [p[1] for p in ps]
            else:
                flatx.append(x)
        vs = [val(x) for x in flatx]
        if any(not isinstance(v, tuple) for v in vs) or not vs:
            return None
        s = [frozenset(v[1]) for v in vs]
        r = {"intersection": lambda: frozenset.intersection(*s), "union": lambda: frozenset.union(*s),
             "difference": lambda: frozenset.difference(*s), "issubset": lambda: s[0] <= s[1],
             "issuperset": lambda: s[0] >= s[1], "isdisjoint": lambda: not s[0] & s[1]}.get(name)
        if r is None:
            return None
        r = r()
        return r if isinstance(r, bool) else ("set", r)
    return None


def truth(v):
    return v if isinstance(v, bool) else bool(v[1]) if isinstance(v, tuple) else None


def in_world(s, base):
    """can this path be taken with the given items? True / False / None"""
    r = True
    for a, v in s.facts.items():
        if a in base:
            continue
        if is_app(a, "truthy") and a[2][0] == "s":
            continue                       # items may be false themselves
        b = val(a)
        if not isinstance(b, bool):
            r = None
        elif b != v:
            return False
    return r


def lists(c):
    for ls in LISTS:
        sets = [frozenset(x) for x in ls]
        both = frozenset.intersection(*sets)
        for q, want in (("intersection", both), ("disjoint", [[x for x in l if x not in both] for l in ls])):
            with c.group(f"{q} of {', '.join(repr(x) for x in ls)}"):
                l = fn_loc(c.repo, "func." + q)
                I = c.interp()
                st = names_state(ls)
                base = dict(st.facts)
                args = [I.mklist(st, [("1", S(n)) for n in x]) for x in ls]
                for k, v, s in c.run(I, "func." + q, args, st=st):
                    w = in_world(s, base)
                    if w is False:
                        continue
                    if k != "return":
                        c.must(None if w is None else False, q, "membership", l, f"{q} raises {exc_kind(v)}", s.events())
                        continue
                    fv = I.freeze(v, s)
                    if q == "intersection":
                        got = val(fv)
                        if not isinstance(got, tuple) or w is None:
                            raise Undecided(q, show(fv)[:80])
                        c.must(frozenset(got[1]) == both, q, "membership", l,
                               f"the intersection of {show_lists(ls)} is {show_lists([sorted(got[1])])}", s.events())
                        continue
                    ps = parts(fv)
                    got = [val(p[1]) for p in ps] if ps is not None and all(p[0] == "1" for p in ps) else None
                    if got is None or any(not isinstance(g, tuple) for g in got) or w is None:
                        raise Undecided(q, show(fv)[:80])
                    same = len(got) == len(want) and all(sorted(g[1]) == sorted(x) for g, x in zip(got, want))
                    c.must(same, q, "membership", l,
                           f"disjoint of {show_lists(ls)} gives {show_lists(['?' * 0 + ''.join(g[1]) for g in got])}", s.events())
                    if same:
                        c.must(all(g[0] == "seq" and list(g[1]) == x or len(set(x)) < 2 for g, x in zip(got, want)),
                               q, "membership", l, "the items left by disjoint are not in their input's order", s.events())
    for items, cont in (("pq", "qr"), ("pq", "rs"), ("pq", "rqp"), ("p", "p"), ("p", "q"), ("pp", "qp"), ("pqr", "q")):
        for oper, want in ((None, all), (X("operator.and_"), all), (X("operator.or_"), any)):
            with c.group(f"are_in({items}{', ' + oper[1] if oper else ''}) of {cont}"):
                l = fn_loc(c.repo, "func.are_in")
                I = c.interp()
                st = names_state([items, cont])
                base = dict(st.facts)
                i1 = I.mklist(st, [("1", S(n)) for n in items])
                i2 = I.mklist(st, [("1", S(n)) for n in cont])
                for k, v, s in c.run(I, "func.are_in", [i1] + ([oper] if oper else []), st=st):
                    if k != "return":
                        raise Undecided("are_in", exc_kind(v))
                    for k2, v2, s2 in c.runv(I, v, [i2], [], s):
                        w = in_world(s2, base)
                        if w is False:
                            continue
                        got = val(I.freeze(v2, s2)) if k2 == "return" else None
                        if truth(got) is None or w is None:
                            raise Undecided("are_in", show(I.freeze(v2, s2))[:80] if k2 == "return" else exc_kind(v2))
                        c.must(truth(got) == want(x in cont for x in items), "are_in", "membership", l,
                               f"a predicate asking for {want.__name__} of {show_lists([items])} gives {truth(got)} of "
                               f"{show_lists([cont])}", s2.events())
    for items, text in ((("ab", "c"), "abc"), (("ca",), "abc"), (("a", "bc", "abc"), "abc")):
        with c.group(f"are_in of text ({', '.join(items)})"):
            l = fn_loc(c.repo, "func.are_in")
            I = c.interp()
            st = St()
            for k, v, s in c.run(I, "func.are_in", [I.mklist(st, [("1", C(x)) for x in items])], st=st):
                if k != "return":
                    raise Undecided("are_in", exc_kind(v))
                for k2, v2, s2 in c.runv(I, v, [C(text)], [], s):
                    got = truth(val(I.freeze(v2, s2))) if k2 == "return" else None
                    if got is None:
                        raise Undecided("are_in", show(I.freeze(v2, s2))[:80] if k2 == "return" else exc_kind(v2))
                    c.must(got == all(x in text for x in items), "are_in", "membership", l,
                           f"a predicate asking for all of {items} gives {got} of the text {text!r}", s2.events())
    with c.group("filtern of three items"):
        l = fn_loc(c.repo, "func.filtern")
        I = c.interp()
        st = names_state(["pqr"])
        for k, v, s in c.run(I, "func.filtern", [F, I.mklist(st, [("1", S(n)) for n in "pqr"])], st=st):
            pol = {}
            for e in calls_to(s.events(), F):
                if len(e[2]) != 1 or e[3]:
                    raise Undecided("filtern", "how the predicate is called")
                pol[e[2][0]] = atom_polarity(s.facts, e[4])
            yes = [S(n) for n in "pqr" if pol.get(S(n)) == 1]
            if k != "return":
                if exc_kind(v)[:5] == "user:":
                    continue
                c.must(exc_kind(v) == "StopIteration" and not yes or (False if yes or exc_kind(v) != "StopIteration" else None),
                       "filtern", "membership", l, f"filtern raises {exc_kind(v)}", s.events())
                continue
            v = I.freeze(v, s)
            if v[0] != "s" or v[1] not in "pqr":
                c.must(False if is_c(v) or is_call_to(v, F) else None, "filtern", "membership", l,
                       f"filtern returns {show(v)[:60]}", s.events())
                continue
            before = [S(n) for n in "pqr"[:"pqr".index(v[1])]]
            if pol.get(v) == -1:
                c.bad("filtern", "membership", l, "filtern returns an item its predicate rejects", s.events())
            elif pol.get(v) != 1 or any(pol.get(b) != -1 for b in before):
                c.must(False if any(pol.get(b) == 1 for b in before) else None, "filtern", "membership", l,
                       "filtern does not return the first item satisfying its predicate", s.events())
            else:
                c.ok("filtern")


def show_lists(ls):
    return ", ".join("[" + " ".join(l) + "]" for l in ls)


def are_in(c):
    l = fn_loc(c.repo, "func.are_in")
    for oper, want in ((None, "all"), (("x", "operator.and_"), "all"), (("x", "operator.or_"), "any")):
        with c.group(f"are_in ({'default' if oper is None else oper[1]})"):
            I = c.interp()
            for k, v, s, evs in wrapped(c, I, "func.are_in", [XS] + ([oper] if oper else []), [CONT], ()):
                if k != "return":
                    c.bad("are_in", "membership", l, f"a membership predicate raises {exc_kind(v)}", evs)
                    continue
                kind, lst = None, None
                if is_app(v, "reduce") and v[2][0] == "x":
                    kind = {"operator.and_": "all", "operator.or_": "any"}.get(v[2][1])
                    lst = v[3]
                    if kind is None:
                        c.bad("are_in", "membership", l, f"items are combined by {v[2][1]}", evs)
                        continue
                elif is_app(v) and v[1] in ("all", "any"):
                    kind, lst = v[1], v[2]
                ps = parts(lst) if lst is not None else None
                if ps is None or len(ps) != 1 or ps[0][0] != "many" or ps[0][1] != XS:
                    raise Undecided("are_in", show(v)[:80])
                vs = variants(ps[0])
                atom = A("in", A("elem", XS), CONT)
                if len(vs) == 1 and not vs[0][0] and vs[0][1] == (("1", atom),):
                    c.must(kind == want, "are_in", "membership", l,
                           f"the predicate asks for {kind} of the items to be in the container", evs)
                elif len(vs) == 1 and len(vs[0][1]) == 1 and vs[0][1][0][1] in (
                        A("not", atom), A("in", CONT, A("elem", XS))):
                    c.bad("are_in", "membership", l, "the predicate asks whether items are "
                          f"{show(vs[0][1][0][1])[:60]}", evs)
                else:
                    c.und("are_in", show(v)[:80])


def types(c):
    l = fn_loc(c.repo, "func.is_it")
    T1, T2 = ("x", "builtins.dict"), ("x", "builtins.int")
    a1, a2 = A("isinst", THING, C("dict")), A("isinst", THING, C("int"))
    for ts, want in (((T1,), (a1,)), ((T1, T2), (a1, a2))):
        with c.group(f"is_it of {len(ts)} types"):
            I = c.interp()
            for k, v, s, evs in wrapped(c, I, "func.is_it", ts, [THING], ()):
                if k != "return":
                    c.bad("is_it", "membership", l, f"a type predicate raises {exc_kind(v)}", evs)
                    continue
                fv = I.freeze(v, s) if k == "return" else v
                exact = [a for a in list(s.facts) + [fv] if is_app(a, "eq") and any(
                    x == A("type", THING) or is_app(x, "call") and x[2] == X("builtins.type") and x[3] == (THING,) for x in a[2:])
                    or is_app(a, "in") and a[2] == A("type", THING)]
                if exact:
                    c.bad("is_it", "membership", l, "a type predicate compares types exactly, rejecting instances of "
                          "their subclasses", evs)
                    continue
                if is_app(fv, "issub") and fv[2] == A("type", THING):
                    ts2 = fv[3][1] if fv[3][0] == "t" else (fv[3],)
                    c.must(set(ts2) == set(ts) or (False if set(ts2) < set(ts) else None), "is_it", "membership", l,
                           "a type predicate leaves out some of the given types", evs)
                    continue
                for w in worlds(want):
                    if len(want) == 2 and all(w.values()):
                        continue
                    if any(a in w and w[a] != b for a, b in s.facts.items()) or \
                            any(a not in w for a in s.facts):
                        if any(a not in w for a in s.facts):
                            c.und("is_it", show(next(a for a in s.facts if a not in w))[:60])
                        continue
                    got = cval(v) if is_c(v) else w.get(v, (not w[v[2]]) if is_app(v, "not") and
                                                        v[2] in w else None)
                    c.must(None if got is None else bool(got) == any(w.values()), "is_it", "membership", l,
                           f"a type predicate gives {got} for a value that is "
                           f"{'' if any(w.values()) else 'not '}of a given type", evs)
