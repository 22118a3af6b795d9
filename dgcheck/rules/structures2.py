"""Rules for dustgoggles.structures, second part: S06 hash dict, S07/S08 pools,
S09 flattened records, S10 unnesting, S11 small mapping helpers."""
import itertools

from . import prop
from .lib import *

MODF = "dustgoggles.structures"


def anchor(c, *quals):
    for q in quals:
        c.repo.func(q)


# ------------------------------------------------------------------ S06
ITEMS = (("i1", 0), ("i2", 0), ("i3", 7), (None, -3), ("i5", None))


def hash_model(I, args, kws, st, n, fid):
    x = I.freeze(args[0], st)
    for nm, h in ITEMS:
        if x == (S(nm) if nm else NONE):
            return [(C(h), st)]
    return NotImplemented


@prop("S06", "Abstract interpretation of HashDict over every history of up to three assignments of "
      "opaque items to two keys, with every pattern of equal and unequal (also falsy) hash values: "
      "the value each lookup returns is compared with the item last assigned.")
def s06(c):
    anchor(c, "structures.HashDict.__init__", "structures.HashDict.__setitem__",
           "structures.HashDict.__getitem__")
    c.rule("latest", "a lookup returns an item whose hash is the hash of the item last assigned to the key")
    c.rule("stored once", "keys whose items have equal hashes yield one and the same stored item")
    term = {nm: (S(nm) if nm else NONE) for nm, _ in ITEMS}
    hof = {term[nm]: h for nm, h in ITEMS}
    keys = (C("k"), C(""))
    loc = fn_loc(c.repo, "structures.HashDict.__setitem__")
    gl = fn_loc(c.repo, "structures.HashDict.__getitem__")
    moves = [(k, nm) for k in keys for nm, _ in ITEMS]
    for how in ("given", "default"):
        for n in (1, 2, 3) if how == "given" else (1, 2):
            with c.group(f"{how} hash, {n} assignments"):
                for hist in itertools.product(moves, repeat=n):
                    if hist[0][0] != keys[0]:
                        continue                      # keys are interchangeable
                    I = c.interp(ext={"test.hasher": hash_model, "builtins.hash": hash_model})
                    st = St()
                    outs = c.runv(I, I.modglobal(c.repo.modules[MODF], "HashDict"),
                                  [X("test.hasher")] if how == "given" else [], [], st)
                    last = {}
                    for k, nm in hist:
                        last[k] = nm
                        outs = [r for kind, hd, s in outs if want_return(c, kind, hd, loc)
                                for r in setit(c, I, hd, k, term[nm], s)]
                    for kind, hd, s in outs:
                        if not want_return(c, kind, hd, loc):
                            continue
                        got = {}
                        for k, nm in last.items():
                            rs = c.runv(I, ("bm", I.fnterm(c.repo.func("structures.HashDict.__getitem__").qual), hd),
                                        [k], [], s.fork())
                            for k2, v, s2 in rs:
                                if k2 != "return":
                                    c.bad("lookup", "latest", gl, f"looking up an assigned key raises {exc_kind(v)}",
                                          s2.events())
                                    continue
                                v = I.freeze(v, s2)
                                if v not in hof:
                                    raise Undecided("lookup", show(v)[:80])
                                got[k] = v
                                c.must(hof[v] == dict(ITEMS)[nm], "lookup", "latest", loc,
                                       "a lookup returns an item whose hash is not that of the item "
                                       "last assigned to the key", s2.events())
                        if len(got) == 2 and hof[got[keys[0]]] == hof[got[keys[1]]]:
                            c.must(got[keys[0]] == got[keys[1]], "stored once", "stored once", loc,
                                   "two items with one hash value are both stored", s.events())


def want_return(c, kind, v, loc):
    if kind == "return":
        return True
    c.bad("assignment", "latest", loc, f"assigning an item raises {exc_kind(v)}")
    return False


def setit(c, I, hd, k, item, s):
    return [(kind, hd if kind == "return" else v, s2) for kind, v, s2 in c.runv(
        I, ("bm", I.fnterm(c.repo.func("structures.HashDict.__setitem__").qual), hd), [k, item], [], s)]


# ------------------------------------------------------------- S07, S08
F = S("F")
RECSHAPES = (
    ("args",), ("args", "key"), ("args", "kwargs"), (), ("kwargs", "key"),
)


def records(I, st, shapes):
    """dict objects for argument records and what each asks for: [(key, args, kwargs)]"""
    recs, want = [], []
    for i, sh in enumerate(shapes):
        ps, key, args, kw = [], C(i), (), ()
        if "args" in sh:
            args = (S(f"a{i}"), C(i))
            ps.append(("kv", C("args"), T(*args)))
        if "kwargs" in sh:
            kw = (("w", S(f"b{i}")),)
            ps.append(("kv", C("kwargs"), I.mkdict(st, (("kv", C("w"), S(f"b{i}")),))))
        if "key" in sh:
            key = C("" if i == 1 else f"k{i}")
            ps.append(("kv", C("key"), key))
        recs.append(I.mkdict(st, ps))
        want.append((key, args, kw))
    return I.mklist(st, tuple(("1", r) for r in recs)), want


def shape_sets(c):
    yield ()
    for a in RECSHAPES:
        yield (a,)
    for a, b in itertools.product(RECSHAPES[:3], repeat=2):
        yield (a, b)
    yield ((), ("args", "key"))
    yield (("args",), ("args",), ("args", "kwargs"))
    yield (("args",),) * 5
    if c.tier == "thorough":
        yield (("args",), ("args",), ("args", "key"), ("args",))
        for s in itertools.product(RECSHAPES, repeat=3):
            yield s


def outcome_of(v, calls):
    """index of the call whose outcome v is, and whether it is an exception"""
    for i, e in enumerate(calls):
        if v == e[4]:
            return i, False
        if is_app(v, "uexc") and len(v) >= 5 and v[3][:1] == ("val",) and v[3][1] == e[4]:
            return i, True
    return None, None


def call_spans(evs, f):
    """[(call event, exception it raised or None)]"""
    out, pend = [], None
    for e in flat(evs):
        if e[0] == "call" and e[1] == f:
            pend = [e, None]
            out.append(pend)
        elif e[0] == "raise" and pend is not None and is_app(e[1], "uexc") and e[1][-1] == f \
                and pend[1] is None:
            pend[1] = e[1]
    return out


def check_outcomes(c, I, v, s, evs, want, loc, name, dropped=False):
    """v: the returned mapping; every record once, with its own outcome"""
    if want is None:
        return
    ob = parts(v)
    spans = call_spans(evs, F)
    for p in ob or ():
        if p[0] in ("many", "*") and any(mentions(p[1], x[0][4]) for x in spans):
            c.bad(name, "outcome", loc, "a record's own result is unpacked as if it were a chunk of results", evs)
            return
    if ob is None or any(p[0] != "kv" or not is_c(p[1]) for p in ob):
        raise Undecided(name, f"result {show(v)[:80]}")
    got = {}
    for p in ob:
        got[p[1]] = p[2]
    used = []
    for key, args, kw in want:
        mine = [x for x in spans if x[0][2] == args and tuple(sorted(x[0][3])) == tuple(sorted(kw))]
        used += mine
        if not mine:
            c.bad(name, "outcome", loc, "the function is not called with a record's own arguments", evs)
            return
        same = sum(1 for k2, a2, w2 in want if (a2, w2) == (args, kw))
        if len(mine) != same:
            c.bad(name, "outcome", loc, "the function is called more than once for one record", evs)
            return
        exc = [x[1] for x in mine]
        res = [x[0][4] for x in mine]
        isexc = [r for r, e in zip(res, exc) if e is None and
                 decide(A("isinst", r, C("Exception")), s.facts)]
        if key not in got:
            if dropped and (all(e is not None for e in exc) or isexc):
                c.ok(name)
                continue
            c.bad(name, "outcome", loc, "a record has no outcome under its own key" if not dropped else
                  "a successful record's outcome is dropped", evs)
            return
        g = got.pop(key)
        good = False
        for r, e in zip(res, exc):
            if e is None and g == r or e is not None and g == e or \
                    is_app(g, "uexc") and len(g) > 3 and isinstance(g[3], tuple) and g[3][:1] == ("val",) and g[3][1] == r:
                good = True
        if good and dropped and (is_app(g, "uexc") or isexc):
            c.bad(name, "outcome", loc, "a failed record is kept although exceptions are filtered", evs)
            return
        if not good:
            known = any(g in (x[0][4], x[1]) for x in spans) or is_c(g) or \
                is_app(g, "exc") or is_app(g, "uexc")
            c.must(False if known else None, name, "outcome", loc,
                   f"a record's outcome is {what(g, spans)}", evs)
            return
        c.ok(name)
    if got:
        c.bad(name, "outcome", loc, "the result has an entry that belongs to no record", evs)
    elif len(used) != len(spans) and len(spans) > sum(1 for _ in want):
        c.bad(name, "outcome", loc, "the function is called for no record", evs)


def what(g, spans):
    for x in spans:
        if g == x[0][4]:
            return "another record's result"
        if g == x[1]:
            return "another record's exception"
    if is_app(g, "exc"):
        return f"an internal {g[2]}"
    if is_app(g, "uexc"):
        return "an exception its function did not raise"
    return show(g)[:60]


def user_e(kind, fv):
    return ("E",) if kind == "user" and fv == F else ()


@prop("S07", "Abstract interpretation of the pool with opaque functions that may fail on every record, "
      "multiprocessing.Pool modelled as deferred calls: for every mode and record shape the mapping "
      "returned on each abstract path is compared, key by key, with the outcome of that record's call.")
def s07(c):
    anchor(c, "structures.map_into_pool", "structures.MaybePool.map", "structures.MaybePool.get",
           "structures.MaybePool.apply")
    c.rule("outcome", "each record's key maps to the result or exception of the one call made for it")
    loc = fn_loc(c.repo, "structures.MaybePool.map")
    ml = fn_loc(c.repo, "structures.map_into_pool")
    q = I0 = None
    modes = [(None, False), (None, True), (1, True), (2, False), (2, True), (3, True)]
    for threads, chunks in modes:
        nm = f"threads={threads}, chunks={chunks}"
        with c.group(f"map_into_pool, {nm}"):
            for shapes in shape_sets(c):
                for filt in (False, True) if len(shapes) < 3 else (False,):
                    I = c.interp(raises=user_e) if len(shapes) < 5 else c.interp()
                    st = St()
                    recs, want = records(I, st, shapes)
                    for k, v, s in c.run(I, "structures.map_into_pool", [F, recs],
                                         [("threads", C(threads)), ("as_chunks", C(chunks)),
                                          ("filter_exc", C(filt))], st):
                        if k != "return":
                            c.bad("outcome", "outcome", ml, f"mapping raises {exc_kind(v)} when "
                                  "a function fails" if call_spans(s.events(), F) else
                                  f"mapping raises {exc_kind(v)}", s.events())
                            continue
                        check_outcomes(c, I, I.freeze(v, s), s, s.events(), want, ml, "outcome", filt)
        if threads in (3,):
            continue
        with c.group(f"MaybePool, {nm}"):
            for shapes in ((), (("args",),), (("args",), ("args", "key"))):
                I = c.interp(raises=user_e)
                for s, v, want, e in driven(c, I, threads, [(chunks, shapes)], loc):
                    check_outcomes(c, I, v, s, e, want, loc, "outcome")
        with c.group(f"raising get, {nm}"):
            for shapes in ((("args",),), (("args",), ("args", "key"))):
                I = c.interp(raises=user_e)
                for s, v, want, e in driven(c, I, threads, [(chunks, shapes)], loc, raise_exc=True):
                    spans = call_spans(e, F)
                    failed = [x for x in spans if x[1] is not None]
                    retexc = [x[0][4] for x in spans if x[1] is None and
                              decide(A("isinst", x[0][4], C("Exception")), s.facts)]
                    if v[0] == "raised":
                        x = v[1]
                        okk = any(x == y[1] for y in failed) or any(mentions(x, r) for r in retexc)
                        c.must(True if okk else (False if not failed and not retexc or is_app(x, "exc")
                                                 else None), "raises a record's own exception",
                               "outcome", fn_loc(c.repo, "structures.MaybePool.get"),
                               f"get raises {exc_kind(x)} although "
                               + ("no record failed" if not failed else "that is no record's exception"), e)
                    elif failed:
                        c.bad("raises a record's own exception", "outcome",
                              fn_loc(c.repo, "structures.MaybePool.get"),
                              "asked to raise, get returns although a record failed", e)
                    else:
                        check_outcomes(c, I, v, s, e, want, loc, "outcome")
    for seq in ((True, False), (False, True), (True, True)):
        with c.group(f"mapping twice, chunks {seq}"):
            I = c.interp(raises=user_e)
            sh = (("args",), ("args", "key"))
            for s, v, want, e in driven(c, I, 2, [(seq[0], sh), (seq[1], sh)], loc):
                check_outcomes(c, I, v, s, e, want, loc, "outcome")


    gl = fn_loc(c.repo, "structures.MaybePool.get")
    for threads, chunks in ((2, False), (2, True)):
        with c.group(f"results that cannot be fetched, chunks={chunks}"):
            I = c.interp(raises=lambda k, f: ("E",) if k == "pool" and is_app(f, "attr") and f[3] == "get" else ())
            for s, v, want, e in driven(c, I, threads, [(chunks, (("args",), ("args", "key")))], loc):
                lost = [x[1] for x in flat(e) if x[0] == "raise" and is_app(x[1], "uexc")
                        and is_app(x[1][-1], "attr") and x[1][-1][3] == "get"]
                ps = parts(v)
                if ps is None or any(p[0] != "kv" for p in ps):
                    raise Undecided("fetching", show(v)[:80])
                c.must(all(any(p[2] == x for p in ps) for x in lost), "fetching", "outcome", gl,
                       "the failure to fetch a worker's results disappears from the outcomes", e)
    for threads, chunks in ((None, False), (2, False), (2, True)):
        with c.group(f"getting twice, threads={threads}, chunks={chunks}"):
            I = c.interp()
            for s, v, want, e in driven(c, I, threads, [(chunks, (("args",), ("args", "key")))], loc, again=True):
                ps = parts(v)
                if ps is None or any(p[0] != "kv" for p in ps):
                    raise Undecided("again", show(v)[:80])
                c.must({p[1] for p in ps} == {k for k, _, _ in want}, "again", "outcome", gl,
                       "getting the results a second time gives other records' outcomes, or none", e)
    single_calls(c)
    terminated(c)
    readiness(c)


def single_calls(c):
    """applying a function through the pool without mapping"""
    c.rule("single call", "the result of one applied call is that call's, with the arguments given")
    loc = fn_loc(c.repo, "structures.MaybePool.apply")
    A1, K1 = S("one_arg"), S("one_kw")
    for threads in (None, 2):
        for nm, args, kws, want_a, want_k in (
                ("function only", [], [], (), ()), ("arguments", [T(A1)], [], (A1,), ()),
                ("keywords", [], [("kwargs", A("dict", (("kv", C("k"), K1),)))], (), (("k", K1),)),
                ("both", [T(A1), A("dict", (("kv", C("k"), K1),))], [], (A1,), (("k", K1),)),
                ("keywords None", [T(A1), NONE], [], (A1,), ())):
            with c.group(f"apply, threads={threads}, {nm}"):
                I, st = c.interp(raises=user_e), St()
                for k, pool, s in c.runv(I, I.modglobal(c.repo.modules[MODF], "MaybePool"), [C(threads)], [], st):
                    if k != "return":
                        continue
                    mt = I.fnterm(c.repo.func("structures.MaybePool.apply").qual)
                    n = len(s.events())
                    for k1, r, s1 in c.runv(I, ("bm", mt, pool), [F] + args, kws, s):
                        if k1 != "return":
                            c.bad("apply", "single call", loc, f"apply raises {exc_kind(r)}", s1.events())
                            continue
                        for k2, g, s2 in c.runv(I, X("builtins.getattr"), [r, C("get")], [], s1):
                            for k3, v, s3 in c.runv(I, g, [], [], s2) if k2 == "return" else [(k2, g, s2)]:
                                e = s3.events()[n:]
                                spans = call_spans(e, F)
                                if len(spans) != 1:
                                    c.must(False if not spans else None, "called", "single call", loc,
                                           "an applied function is never called", e)
                                    continue
                                ev, exc = spans[0]
                                c.must(tuple(ev[2]) == want_a and tuple(ev[3]) == want_k, "arguments", "single call",
                                       loc, f"the function is called with {', '.join(map(show, ev[2])) or 'nothing'} and "
                                       f"{[x for x, _ in ev[3]]}", e)
                                if exc is None and k3 == "raise" and decide(A("isinst", ev[4], C("Exception")), s3.facts):
                                    continue  # it returned an exception, which serially is its outcome too
                                if exc is None:
                                    c.must(k3 == "return" and v == ev[4], "result", "single call", loc,
                                           "the result is not what the function returned", e)
                                else:
                                    c.must(k3 == "raise" and v == exc, "exception", "single call", loc,
                                           "the function's exception is not raised by get", e)


def terminated(c):
    """a terminated pool holds none of the results its workers will now never deliver"""
    c.rule("terminated", "terminating discards the results")
    loc = fn_loc(c.repo, "structures.MaybePool.terminate")
    for threads, chunks in ((None, False), (2, False), (2, True)):
        with c.group(f"terminated, threads={threads}, chunks={chunks}"):
            I, st = c.interp(), St()
            for k, pool, s in c.runv(I, I.modglobal(c.repo.modules[MODF], "MaybePool"), [C(threads)], [], st):
                recs, _ = records(I, s, (("args",), ("args", "key")))
                ms = {m: ("bm", I.fnterm(c.repo.func(f"structures.MaybePool.{m}").qual), pool)
                      for m in ("map", "terminate", "get")}
                for k1, _, s1 in c.runv(I, ms["map"], [F, recs], [("as_chunks", C(chunks))], s):
                    if k1 != "return":
                        continue
                    for k2, v, s2 in c.runv(I, ms["terminate"], [], [], s1):
                        if k2 != "return":
                            c.bad("terminate", "terminated", loc, f"terminating raises {exc_kind(v)}", s2.events())
                            continue
                        for k3, v3, s3 in c.runv(I, ms["get"], [], [], s2):
                            ps = parts(I.freeze(v3, s3)) if k3 == "return" else None
                            if k3 == "return" and ps is None:
                                raise Undecided("terminated", show(v3)[:80])
                            c.must(k3 == "return" and not ps, "nothing left", "terminated", loc,
                                   "a terminated pool still offers results, which its workers will never deliver"
                                   if k3 == "return" else f"getting from a terminated pool raises {exc_kind(v3)}",
                                   s3.events())


def readiness(c):
    """what the pool says about its results is what its results say"""
    loc = fn_loc(c.repo, "structures.MaybePool.ready")
    c.rule("readiness", "counts and readiness are those of the results")
    with c.group("readiness"):
        for n in range(3):
            rs = [S(f"r{i}") for i in range(n)]
            for what in ("n_ready", "n_results", "n_running", "results_ready", "ready"):
                I, st = c.interp(), St()
                for k, pool, s in c.runv(I, I.modglobal(c.repo.modules[MODF], "MaybePool"), [NONE], [], st):
                    for s1 in I.set_attr(pool, "results", I.mkdict(s, tuple(
                            ("kv", C(f"k{i}"), r) for i, r in enumerate(rs))), s, None, None):
                        outs = c.runv(I, X("builtins.getattr"), [pool, C(what)], [], s1)
                        for k2, v, s2 in outs:
                            if k2 == "return" and what in ("results_ready", "ready"):
                                fin = c.runv(I, v, [], [], s2)
                            else:
                                fin = [(k2, v, s2)]
                            for k3, v3, s3 in fin:
                                if k3 != "return":
                                    c.bad(what, "readiness", loc, f"{what} raises {exc_kind(v3)}", s3.events())
                                    continue
                                judge_ready(c, I, what, rs, I.freeze(v3, s3), s3, loc)
        I, st = c.interp(), St()
        for k, v, s in c.runv(I, I.modglobal(c.repo.modules[MODF], "MaybeResult"),
                              [F, T(), I.mkdict(st, ())], [], st):
            if k != "return":
                continue
            for k2, m, s2 in c.runv(I, X("builtins.getattr"), [v, C("ready")], [], s):
                for k3, r, s3 in c.runv(I, m, [], [], s2):
                    for b, _ in I.truth(r, s3):
                        c.must(k3 == "return" and b, "ready", "readiness", loc,
                               "a result that is already there says it is not ready", s3.events())


def judge_ready(c, I, what, rs, v, s, loc):
    says = {}
    for r in rs:
        call = [e[4] for e in flat(s.events()) if e[0] == "call" and e[1] == A("attr", r, "ready")]
        says[r] = (call, [decide(A("truthy", x), s.facts) for x in call])
    if what == "n_results":
        c.must(True if v == C(len(rs)) else False if is_c(v) else None, what, "readiness", loc,
               f"n_results of {len(rs)} results is {show(v)}", s.events())
        return
    if what == "results_ready":
        ps = parts(v)
        if ps is None or any(p[0] != "kv" for p in ps):
            raise Undecided(what, show(v)[:60])
        got = {p[1]: p[2] for p in ps}
        for i, r in enumerate(rs):
            x = got.get(C(f"k{i}"))
            c.must(x is not None and (x in says[r][0] or bool(says[r][1]) and x == C(says[r][1][-1])), what,
                   "readiness", loc, "a result's readiness is another's, or missing", s.events())
        return
    if what == "ready":
        if not rs:
            c.must(True if v == TRUE else False if is_c(v) else None, what, "readiness", loc,
                   "a pool without results is never ready")
            return
        if v in (TRUE, FALSE):
            flags = [says[r][1][-1] if says[r][1] else None for r in rs]
            want = False if False in flags else True if None not in flags else None
            c.must(want is not None and v == C(want), what, "readiness", loc,
                   f"ready() is {show(v)} when the results say {flags}", s.events())
            return
        if len(rs) == 1 and v in says[rs[0]][0]:
            c.ok(what)
            return
        raise Undecided(what, show(v)[:60])
    flags = [says[r][1][-1] if says[r][1] else None for r in rs]
    if None in flags:
        raise Undecided(what, show(v)[:60])
    want = sum(flags) if what == "n_ready" else len(rs) - sum(flags)
    c.must(True if v == C(want) else False if is_c(v) else None, what, "readiness", loc,
           f"{what} is {show(v)} when {sum(flags)} of {len(rs)} results are ready", s.events())


def driven(c, I, threads, maps, loc, raise_exc=False, again=False):
    """construct, map (each with fresh records), get; outcome of the last get"""
    st = St()
    outs = c.runv(I, I.modglobal(c.repo.modules[MODF], "MaybePool"), [C(threads)], [], st)
    mp, gt = (I.fnterm(c.repo.func(f"structures.MaybePool.{m}").qual) for m in ("map", "get"))
    for kind, pool, s in outs:
        if kind != "return":
            raise Undecided("constructor", exc_kind(pool))
        cur = [(s, None, 0)]
        for j, (chunks, shapes) in enumerate(maps):
            nxt = []
            for s1, _, _ in cur:
                n = len(s1.events())
                recs, want = records(I, s1, shapes)
                for k, v, s2 in c.runv(I, ("bm", mp, pool), [F, recs], [("as_chunks", C(chunks))], s1):
                    if k != "return":
                        c.bad("outcome", "outcome", loc, f"mapping raises {exc_kind(v)}", s2.events())
                        continue
                    if j < len(maps) - 1:
                        for k3, v3, s3 in c.runv(I, ("bm", gt, pool), [], [], s2):
                            if k3 == "return":
                                nxt.append((s3, want, n))
                    else:
                        nxt.append((s2, want, n))
            cur = nxt
        for s1, want, n in cur:
            for k, v, s2 in c.runv(I, ("bm", gt, pool), [], [("raise_exc", C(raise_exc))], s1):
                e = s2.events()[n:]
                if k == "return" and again:
                    for k3, v3, s3 in c.runv(I, ("bm", gt, pool), [], [], s2):
                        if k3 == "return":
                            yield s3, I.freeze(v3, s3), want, s3.events()[n:]
                        else:
                            c.bad("again", "outcome", loc, f"getting again raises {exc_kind(v3)}", s3.events())
                elif k == "return":
                    yield s2, I.freeze(v, s2), want, e
                elif raise_exc:
                    yield s2, ("raised", v), want, e
                else:
                    c.bad("outcome", "outcome", fn_loc(c.repo, "structures.MaybePool.get"),
                          f"get raises {exc_kind(v)}", e)


@prop("S08", "Typestate analysis of the worker pool created by map_into_pool (open, closed, joined, "
      "collected, terminated) on every path, with failures injected at every pool operation.")
def s08(c):
    anchor(c, "structures.map_into_pool")
    loc = fn_loc(c.repo, "structures.map_into_pool")
    c.rule("terminated", "every path on which a pool was created ends with it terminated")
    c.rule("order", "workers are told to finish, waited for, collected, and only then terminated")
    for raises, label in ((lambda k, f: (), "no failure"),
                          (user_e, "failing function"),
                          (lambda k, f: ("E",) if k == "pool" else (), "failing pool operation"),
                          (lambda k, f: ("KeyboardInterrupt",) if k == "pool" or k == "user" and f == F
                           else (), "interrupt")):
        for threads, chunks, filt in ((2, True, False), (2, False, True), (1, False, False)):
            with c.group(f"{label}, threads={threads}, chunks={chunks}"):
                for shapes in ((), (("args",),), (("args",), ("args", "key"))):
                    I = c.interp(raises=raises)
                    st = St()
                    recs, want = records(I, st, shapes)
                    for k, v, s in c.run(I, "structures.map_into_pool", [F, recs],
                                         [("threads", C(threads)), ("as_chunks", C(chunks)),
                                          ("filter_exc", C(filt))], st):
                        pool_path(c, k, v, s.events(), loc)
    with c.group("no pool without threads"):
        I = c.interp(raises=user_e)
        st = St()
        recs, want = records(I, st, (("args",), ("args",)))
        for k, v, s in c.run(I, "structures.map_into_pool", [F, recs], [("threads", NONE)], st):
            c.must(not any(e[0] == "pool" for e in flat(s.events())), "serial", "terminated", loc,
                   "worker processes are started although no threads were asked for", s.events())


def pool_path(c, kind, v, evs, loc):
    ev = [e for e in flat(evs) if e[0] == "pool"]
    for p in {e[2] for e in ev if e[1] == "open"}:
        mine = [e for e in ev if e[2] == p]
        ops = [e[1] for e in mine]
        term = [i for i, o in enumerate(ops) if o == "terminate"]
        how = "returning" if kind == "return" else f"raising {exc_kind(v)}"
        if not term:
            c.bad("terminated", "terminated", loc, f"the pool is not terminated on a path {how}", evs)
            continue
        c.ok("terminated")
        coll = [i for i, o in enumerate(ops) if o == "collect"]
        sub = [i for i, o in enumerate(ops) if o == "submit"]
        if coll and min(term) < max(coll) or sub and min(term) < max(sub):
            c.bad("order", "order", loc, "the pool is terminated before its results are collected", evs)
            continue
        if kind == "return":
            cl = [i for i, o in enumerate(ops) if o == "close"]
            jn = [i for i, o in enumerate(ops) if o == "join"]
            if coll and (not cl or cl[0] > coll[0]):
                c.bad("order", "order", loc, "results are collected before the pool stops accepting work", evs)
            elif coll and (not jn or jn[0] > coll[0]):
                c.bad("order", "order", loc, "results are collected before the workers were waited for", evs)
            elif jn and (not cl or cl[0] > jn[0]):
                c.bad("order", "order", loc, "the pool is waited for before it stops accepting work", evs)
            elif sub and not coll:
                c.bad("order", "order", loc, "results are never collected before the pool is terminated", evs)
            elif sub and cl and cl[0] < max(sub):
                c.bad("order", "order", loc, "the pool stops accepting work before everything was submitted", evs)
            else:
                c.ok("order")


# ------------------------------------------------------------------ S09
LEAF = "leaf"


def build(I, st, tree, path=()):
    """heap dicts for a tree of dicts whose leaves are constants"""
    if isinstance(tree, dict):
        return I.mkdict(st, tuple(("kv", C(k), build(I, st, v, path + (k,))) for k, v in tree.items()))
    return C(tree)


L1 = {"f": "v1", "g": 5}
TREES = (
    {"c1": {"f": "v1", "g": 5}},
    {"c1": {"f": "v1"}, "c2": {"f": "v2", "h": None}},
    {"c1": {"d1": {"f": "v1"}, "d2": {"f": "v2"}}, "c2": {"d3": {"f": "v3"}}},
    {"c1": {"f": "v1"}, "c2": {"d1": {"f": "v2"}}, "c3": {"f": "v3"}},
    {"c1": {"d1": {"f": "v1"}}, "c2": {"f": "v2"}, "c3": {"d2": {"f": "v3"}}},
    {"c1": {"d1": {"e1": {"f": "v1"}, "e2": {"f": "v2"}}, "d2": {"e3": {"f": "v3"}}},
     "c2": {"d3": {"e4": {"g": "v4"}}, "d4": {"f": "v5"}}, "c3": {"f": "v6"}},
    {"c1": {"f": "v1", "g": {"h": "deep"}}, "c2": {"d1": {"f": "v2", "g": {"h": "x"}}}},
    {0: {"d1": {"f": 0}}, "": {"d2": {"f": None}}},
    {"c1": {"x": "own", "f": 1, 1: "own"}, "c2": {"d1": {"y": "own", 2: "own", "f": 1}}},
)


def flat_expected(tree, names, labels):
    out = []
    for c_, m in tree.items():
        lab = {**labels, names[0]: c_}
        if all(isinstance(v, dict) for v in m.values()):
            out += flat_expected(m, names[1:], lab)
        else:
            out.append({**m, **lab})
    return out


def term_of(x):
    """frozen term of a python value built from dicts and constants"""
    if isinstance(x, dict):
        return frozenset((C(k), term_of(v)) for k, v in x.items())
    return C(x)


def value_of(t):
    """the same for a frozen term; None when it is not known exactly"""
    if is_c(t):
        return t
    ps = parts(t) if is_app(t, "dict") else None
    if ps is None:
        return None
    out = {}
    for p in ps:
        if p[0] != "kv" or not is_c(p[1]):
            return None
        v = value_of(p[2])
        if v is None:
            return None
        out[p[1]] = v
    return frozenset(out.items())


def listed(t):
    ps = parts(t)
    if ps is None:
        return None
    out = []
    for p in ps:
        if p[0] == "1":
            out.append(p[1])
        elif p[0] == "*" and parts(p[1]) is not None and listed(p[1]) is not None:
            out += listed(p[1])
        else:
            return None
    return out


@prop("S09", "Induction over the recursive structure of to_records (labels and level names handed to the "
      "recursive call on the generic branch), and abstract interpretation over mappings of every "
      "branching pattern up to three levels with opaque-name sources of every kind.")
def s09(c):
    anchor(c, "structures.to_records")
    loc = fn_loc(c.repo, "structures.to_records")
    c.rule("labels", "a record holds its own fields, and each ancestor's key under its level's name, and no other label")
    for kind in ("default", "list", "tuple", "iterator", "generator"):
        for given in (False, True):
            with c.group(f"level names: {kind}, labels {'given' if given else 'not given'}"):
                for tree in TREES:
                    I = c.interp()
                    I.rec_opaque = False
                    st = St()
                    names = [1, 2, 3] if kind == "default" else ["x", "y", "z"]
                    items = tuple(("1", C(x)) for x in names)
                    kws = []
                    if kind in ("list", "tuple"):
                        kws = [("level_names", I.mklist(st, items) if kind == "list" else
                                T(*[C(x) for x in names]))]
                    elif kind != "default":
                        src = T(*[C(x) for x in names])
                        kws = [("level_names", I.alloc(st, Obj(
                            "iter", attrs={"src": src, "pos": C(0), "oneshot": TRUE})))]
                    acc = {}
                    if given:
                        acc = {"top": "t"}
                        kws.append(("accumulated_levels", build(I, st, acc)))
                    elif kind == "default":
                        pass
                    want = sorted((term_of(x) for x in flat_expected(tree, names, acc)), key=repr_key)
                    for k, v, s in c.run(I, "structures.to_records", [build(I, st, tree)], kws, st):
                        if k != "return":
                            c.bad("records", "labels", loc, f"flattening raises {exc_kind(v)}", s.events())
                            continue
                        fr = I.freeze(v, s)
                        ls = listed(fr)
                        got = None if ls is None else [value_of(x) for x in ls]
                        if got is None or None in got:
                            raise Undecided("records", show(fr)[:100])
                        got = sorted(got, key=repr_key)
                        c.must(got == want, "records", "labels", loc,
                               "to_records of a mapping with branches " + shape(tree) + " gives "
                               + diff(got, want), s.events())
    with c.group("generic level"):
        generic_records(c, loc)


def repr_key(f):
    return sorted((show(k), repr(v) if not isinstance(v, frozenset) else str(repr_key(v))) for k, v in f)


def shape(t):
    return "(" + " ".join(shape(v) if isinstance(v, dict) else "." for v in t.values()) + ")"


def diff(got, want):
    if len(got) != len(want):
        return f"{len(got)} records instead of {len(want)}"
    for g, w in zip(got, want):
        if g != w:
            gd, wd = dict(g), dict(w)
            for k in wd:
                if k not in gd:
                    return f"a record without {show(k)}"
                if gd[k] != wd[k]:
                    return f"a record whose {show(k)} is wrong"
            for k in gd:
                if k not in wd:
                    return f"a record with a label {show(k)} that is not its own"
    return "other records"


def generic_records(c, loc):
    """one level of the recursion, for an opaque mapping"""
    N, ACC = S("nested"), S("acc")
    I = c.interp(kinds={N: "dict", ACC: "dict"})
    it = None
    for k, v, s in c.run(I, "structures.to_records", [N, ACC, S("names")]):
        if k != "return":
            if exc_kind(v) != "StopIteration":
                c.und("generic", f"raises {exc_kind(v)}")
            continue
        if any(a == A("is", NONE, S("names")) and b for a, b in s.facts.items()):
            name0, first_rest = C(1), 2
        else:
            name0, first_rest = A("at", S("names"), C(0)), 1
        ps = parts(I.freeze(v, s))
        if ps is None or len(ps) != 1 or ps[0][0] != "many" or ps[0][1] != A("items", N):
            raise Undecided("generic", show(I.freeze(v, s))[:80])
        e = A("elem", N)
        m = A("item", N, e)
        for facts, items in variants(ps[0]):
            if len(items) != 1:
                c.und("generic", f"{len(items)} entries per branch")
                continue
            p = items[0]
            if p[0] == "1" and is_app(p[1], "dict"):
                dp = p[1][2]
                lab = [q for q in dp if q[0] == "kv"]
                stars = [q[1] for q in dp if q[0] == "*"]
                if not set(stars) <= {m, ACC, A("copyof", ACC)}:
                    c.und("generic", f"a record is built from {show(p[1])[:80]}")
                    continue
                c.must(m in stars, "own fields", "labels", loc, "a record lacks its own fields")
                c.must(ACC in stars, "ancestors", "labels", loc, "a record lacks its ancestors' labels")
                c.must([(q[1], q[2]) for q in lab] == [(name0, e)], "label", "labels", loc,
                       "a record is labelled " + ", ".join(f"{show(q[1])}: {show(q[2])}" for q in lab))
            elif p[0] == "*" and is_app(p[1], "rec"):
                b = dict(p[1][3])
                al = b.get("accumulated_levels")
                ln = b.get("level_names")
                c.must(b.get("nested") == m, "descends", "labels", loc,
                       f"the recursive call flattens {show(b.get('nested'))}")
                if is_app(al, "dict"):
                    lab = [(q[1], q[2]) for q in al[2] if q[0] == "kv"]
                    stars = [q[1] for q in al[2] if q[0] == "*"]
                    if stars != [ACC]:
                        c.und("generic", f"labels handed down: {show(al)[:80]}")
                    else:
                        c.must(lab == [(name0, e)], "labels handed down", "labels", loc,
                               "the labels handed down are " + ", ".join(
                                   f"{show(x)}: {show(y)}" for x, y in lab))
                else:
                    c.und("generic", f"labels handed down: {show(al)[:80]}")
                if is_app(ln, "seqof"):
                    ln = ln[2]
                if is_app(ln, "rest") and len(ln) > 3:
                    ln = A("iter", *ln[2:])
                if is_app(ln, "count"):
                    c.must(ln[2:] == (C(first_rest), C(1)), "names handed down", "labels", loc,
                           f"the level numbers handed down start at {show(ln)}")
                elif is_app(ln, "iter") and len(ln) > 3:
                    c.must(ln[2] == S("names") and ln[3] == C(first_rest), "names handed down",
                           "labels", loc, f"the level names handed down are {show(ln)}")
                else:
                    c.und("generic", f"names handed down: {show(ln)[:80]}")
            else:
                c.und("generic", show(p)[:80] if isinstance(p, tuple) else "")


# ------------------------------------------------------------------ S10
NESTS = (
    {"a": 1},
    {"a": 1, "b": 2},
    {"a": {"x": 1, "y": 2}, "b": 3},
    {"a": {"x": {"p": 1, "q": 2}, "y": 3}, "b": {"x": {"p": 4}}},
    {"a": {}, "b": 1},
    {},
    {"a": {"x": {"p": {"deep": 1}}}, 3: {4: 5}},
    {"b": {"x": 0}, "a": {"x": None}},
    {"a": {"x": 1}, "A": {"X": 2, "x": 3, " x": 4}, "B": 5, "b": 6},
    {"a": {"x": True, "y": 1, "z": 1}, "b": {"": 0, None: ""}, 0: None, "": False},
    {0: {0: {"p": 1}, "q": 2}, "None": {"p": 3}, "False": {False: 4, 1: 5}, "_": {"_": 6}, 2: {3: {4: 7}}},
)


def unnested(tree, escape, levels=()):
    out = {}
    for k, v in tree.items():
        if isinstance(v, dict):
            out.update(unnested(v, escape, levels + (k,)))
        else:
            pre = f"{escape}_{escape}".join(map(str, levels))
            if pre:
                pre = f"{escape}{pre}{escape}_"
            out[f"{pre}{k}"] = v
    return out


@prop("S10", "Abstract interpretation of unnest over nested mappings of every branching pattern up to four "
      "levels: the flat mapping is compared, key by key, with the paths of the leaves.")
def s10(c):
    anchor(c, "structures.unnest")
    loc = fn_loc(c.repo, "structures.unnest")
    c.rule("leaf paths", "the result maps each leaf's path of keys, joined as documented, to that leaf")
    for esc in ("", "$"):
        with c.group(f"escape {esc!r}"):
            for tree in NESTS:
                I = c.interp()
                I.rec_opaque = False
                st = St()
                kws = [("escape", C(esc))] if esc else []
                for k, v, s in c.run(I, "structures.unnest", [build(I, st, tree)], kws, st):
                    if k != "return":
                        c.bad("leaves", "leaf paths", loc, f"unnesting raises {exc_kind(v)}", s.events())
                        continue
                    got = value_of(I.freeze(v, s))
                    if got is None:
                        raise Undecided("leaves", show(I.freeze(v, s))[:100])
                    want = term_of(unnested(tree, esc))
                    c.must(got == want, "leaves", "leaf paths", loc,
                           f"unnest of a mapping with branches {shape(tree)} " +
                           ("loses a leaf" if len(got) < len(want) else
                            "has other keys or values than the leaves' paths"), s.events())
    with c.group("mapping types at every level"):
        I = c.interp()
        I.rec_opaque = False
        st = St()
        for i in range(1, 5):
            st.facts[A("isinst", C(i), C("Box"))] = False
        d = lambda box, *kv: boxed(I.mkdict(st, tuple(("kv", C(a), b) for a, b in kv)), box)

        def boxed(t, box):
            st.facts[A("isinst", I.freeze(t, st), C("Box"))] = box
            return t
        tree = d(True, ("k", d(True, ("l", d(False, ("p", C(1)))), ("m", d(True, ("q", C(2)))), ("n", C(3)))),
                 ("o", d(False, ("r", C(4)))))
        for k, v, s in c.run(I, "structures.unnest", [tree, T(X("ext.Box"))], [], st):
            if k != "return":
                raise Undecided("levels", exc_kind(v))
            got = value_of(I.freeze(v, s))
            if got is None:
                raise Undecided("levels", show(I.freeze(v, s))[:100])
            leaves = frozenset((C(a), term_of(b)) for a, b in
                               (("k_l", {"p": 1}), ("k_m_q", 2), ("k_n", 3), ("o", {"r": 4})))
            c.must(got == leaves, "levels", "leaf paths", loc,
                   "the mapping types asked for are not the ones flattened at every level", s.events())
    with c.group("mapping types"):
        for mt in (("dict",), ("dict", "OrderedDict"), ("Mapping",)):
            I = c.interp()
            st = St()
            inner = S("inner")
            mts = T(*[X({"dict": "builtins.dict", "OrderedDict": "collections.OrderedDict",
                         "Mapping": "collections.abc.Mapping"}[x]) for x in mt])
            d = I.mkdict(st, (("kv", C("a"), inner), ("kv", C("b"), C(1))))
            for k, v, s in c.run(I, "structures.unnest", [d, mts], [], st):
                if k != "return":
                    continue
                isd = any(is_app(a, "isinst") and a[2] == inner and b for a, b in s.facts.items())
                fr = parts(I.freeze(v, s))
                if fr is None:
                    raise Undecided("mapping types", "result")
                plain_ = any(p[0] == "kv" and p[2] == inner for p in fr)
                if isd:
                    c.must(not plain_, "nested", "leaf paths", loc,
                           "a mapping of a given type is kept as a leaf", s.events())
                elif not all(decide(A("isinst", inner, C(x)), s.facts) is False for x in mt):
                    c.must(False if any(is_app(a, "isinst") and a[2] == inner for a in s.facts) and plain_
                           else None, "nested", "leaf paths", loc,
                           "a value is kept as a leaf without asking whether it is a mapping of a given type",
                           s.events())
                else:
                    c.must(plain_, "leaf", "leaf paths", loc,
                           "a value that is no mapping of the given types is lost", s.events())


# ------------------------------------------------------------------ S11
def exact(c, I, q, args, kws, want, ordered, loc, msg, st=None, types=None):
    """every outcome returns exactly the expected python value"""
    for k, v, s in c.run(I, q, args, kws, st or St()):
        nm = q.split(".")[-1]
        if k != "return":
            c.bad(nm, "helper", loc, f"{msg}: raises {exc_kind(v)}", s.events())
            continue
        fr = I.freeze(v, s)
        got = ordered_value(fr)
        if got is None:
            raise Undecided(nm, show(fr)[:100])
        w = want if not callable(want) else want(s)
        good = got == w if ordered else (got[0] == w[0] and sorted(got[1], key=repr) == sorted(w[1], key=repr)
                                         if isinstance(got, tuple) and isinstance(w, tuple)
                                         and got[0] == "dict" else got == w)
        c.must(good, nm, "helper", loc, f"{msg}: gives {show(fr)[:100]}", s.events())


def ordered_value(t):
    """('dict', ((key, value), ...)), ('list', (...)) or a term; None when unknown"""
    if is_app(t, "dict"):
        out = {}
        for p in t[2]:
            if p[0] != "kv":
                return None
            out[p[1]] = ordered_value(p[2])
        return None if None in out.values() else ("dict", tuple(out.items()))
    if is_app(t, "list") or is_app(t, "set") or t[0] == "t":
        out = []
        for p in parts(t):
            if p[0] != "1":
                return None
            out.append(ordered_value(p[1]))
        return None if None in out else ("tuple" if t[0] == "t" else t[1], tuple(out))
    if opaque_parts(t):
        return None
    return t


def D(*kv):
    return ("dict", tuple((a if isinstance(a, tuple) else C(a), b) for a, b in kv))


def mk(I, st, kv):
    return I.mkdict(st, tuple(("kv", C(a), b) for a, b in kv))


MAPS = ((), (("a", S("u")),), (("a", S("u")), ("b", S("v"))),
        (("a", S("u")), ("b", NONE), ("c", S("w"))), ((0, S("u")), ("", S("v")), (2, C(0))))


@prop("S11", "Abstract interpretation of the small mapping helpers over mappings and sequences of opaque "
      "values (every size up to three, every position, present and absent keys): the returned value "
      "is compared exactly, order included.")
def s11(c):
    st_ = "structures."
    c.rule("helper", "the helper returns exactly the documented value")
    loc = {n: fn_loc(c.repo, st_ + n) for n in
           ("insert_after", "reindex_mapping", "enumerate_as_mapping", "get_from_all", "get_from",
            "getitemattr", "listify")}
    with c.group("insert_after"):
        for m in MAPS:
            keys = [a for a, _ in m]
            for prior in keys + ["absent"]:
                I, st = c.interp(), St()
                want = []
                for a, b in m:
                    want.append((a, b))
                    if a == prior:
                        want.append(("new", S("nv")))
                exact(c, I, st_ + "insert_after", [C("new"), S("nv"), C(prior), mk(I, st, m)], [],
                      D(*want), True, loc["insert_after"],
                      f"inserting after key {keys.index(prior) if prior in keys else 'absent'} of {len(m)}", st)
        # keys are the mapping's own when they are equal to it, whatever object they are
        for key, prior in ((1, 1.0), (0, False), (1.0, True), ((1, "a"), (1, "a"))):
            I, st = c.interp(), St()
            key, prior = ((T(*map(C, x)) if isinstance(x, tuple) else C(x)) for x in (key, prior))
            d = I.mkdict(st, (("kv", C("a"), S("u")), ("kv", key, S("v")), ("kv", C("b"), S("w"))))
            exact(c, I, st_ + "insert_after", [C("new"), S("nv"), prior, d], [],
                  ("dict", ((C("a"), S("u")), (key, S("v")), (C("new"), S("nv")), (C("b"), S("w")))), True,
                  loc["insert_after"], f"inserting after {show(prior)} in a mapping with {show(key)}", st)
        I, st = c.interp(), St()
        exact(c, I, st_ + "insert_after", [C("a"), S("nv"), C("b"), mk(I, st, (
            ("a", S("u")), ("b", S("v")), ("c", S("w"))))], [], D(("a", S("nv")), ("b", S("v")), ("c", S("w"))),
            False, loc["insert_after"], "inserting under a key the mapping already has", st)
    with c.group("getitemattr"):
        for key, want in (("k", S("u")), ("values", S("v")), ("items", NONE), ("get", C(0))):
            I, st = c.interp(), St()
            exact(c, I, st_ + "getitemattr", [mk(I, st, (
                ("k", S("u")), ("values", S("v")), ("items", NONE), ("get", C(0)))), C(key)], [], want, True,
                loc["getitemattr"], f"the key {key!r} of a mapping that has it", st)
        for ix in (0, 1, -1):
            I, st = c.interp(), St()
            exact(c, I, st_ + "getitemattr", [T(S("u"), NONE), C(ix)], [], (S("u"), NONE)[ix], True,
                  loc["getitemattr"], f"index {ix} of a sequence", st)
    with c.group("reindex_mapping"):
        for m in MAPS:
            I, st = c.interp(), St()
            exact(c, I, st_ + "reindex_mapping", [mk(I, st, m)], [],
                  D(*[(i, b) for i, (_, b) in enumerate(m)]), True, loc["reindex_mapping"],
                  f"reindexing {len(m)} items", st)
    with c.group("enumerate_as_mapping"):
        for m in MAPS:
            I, st = c.interp(), St()
            exact(c, I, st_ + "enumerate_as_mapping", [mk(I, st, m)], [], D(*m), True,
                  loc["enumerate_as_mapping"], f"a mapping of {len(m)} items", st)
            I, st = c.interp(), St()
            exact(c, I, st_ + "enumerate_as_mapping", [I.mklist(st, tuple(("1", b) for _, b in m))], [],
                  D(*[(i, b) for i, (_, b) in enumerate(m)]), True, loc["enumerate_as_mapping"],
                  f"a sequence of {len(m)} items", st)
        I = c.interp()
        exact(c, I, st_ + "enumerate_as_mapping", [NONE], [], D(), True, loc["enumerate_as_mapping"],
              "no sequence")
    with c.group("get_from_all"):
        for n in range(4):
            for has in itertools.product((0, 1, 2), repeat=n):
                for as_map in (False, True):
                    for dflt in (None, S("dflt")):
                        if n == 3 and (as_map or dflt):
                            continue
                        I, st = c.interp(), St()
                        ms, want = [], []
                        for i, h in enumerate(has):
                            val = S(f"v{i}") if h == 1 else NONE
                            ms.append(mk(I, st, (("z", C(1)),) + ((("k", val),) if h else ())))
                            want.append(val if h else (dflt or NONE))
                        arg = I.mklist(st, tuple(("1", x) for x in ms)) if not as_map else \
                            mk(I, st, tuple((f"m{i}", x) for i, x in enumerate(ms)))
                        exact(c, I, st_ + "get_from_all", [C("k"), arg] + ([dflt] if dflt else []), [],
                              ("list", tuple(want)), True, loc["get_from_all"],
                              f"getting from {n} mappings" + (" held in a mapping" if as_map else ""), st)
    with c.group("get_from"):
        dv = S("dflt")
        for path, want in (((), "whole"), (("a",), "sub"), (("a", "x"), S("leaf")), (("a", "n"), NONE),
                           (("a", "f"), C(0)), (("absent",), dv), (("a", "absent"), dv),
                           (("absent", "x"), dv), (("l", 0), S("l0")), (("l", 1), S("l1")),
                           (("a", "d", "y"), S("deep"))):
            for given in (True, False):
                I, st = c.interp(), St()
                inner = I.mkdict(st, (("kv", C("y"), S("deep")),))
                sub = I.mkdict(st, (("kv", C("x"), S("leaf")), ("kv", C("n"), NONE), ("kv", C("f"), C(0)),
                                    ("kv", C("d"), inner)))
                whole = I.mkdict(st, (("kv", C("a"), sub), ("kv", C("l"), T(S("l0"), S("l1")))))
                w = want
                if w == dv and not given:
                    w = NONE
                if w == "whole":
                    w = ordered_value(I.freeze(whole, st))
                elif w == "sub":
                    w = ordered_value(I.freeze(sub, st))
                exact(c, I, st_ + "get_from", [whole, T(*[C(x) for x in path])] + ([dv] if given else []),
                      [], w, True, loc["get_from"], f"a path of {len(path)} keys " + (
                          "that is missing" if want == dv else "that is present"), st)
    with c.group("listify"):
        for th, want in ((T(S("p"), S("q")), ("list", (S("p"), S("q")))), (C("text"), ("list", (C("text"),))),
                         (C(""), ("list", (C(""),))), (C(0), ("list", (C(0),))), (NONE, ("list", (NONE,))),
                         (T(), ("list", ())), (("L", (S("p"),)), ("list", (S("p"),))),
                         (("L", ()), ("list", ())), (("D", (("a", S("u")), ("b", S("v")))),
                                                    ("list", (C("a"), C("b"))))):
            I, st = c.interp(), St()
            if th[0] == "L":
                a = I.mklist(st, tuple(("1", x) for x in th[1]))
            elif th[0] == "D":
                a = mk(I, st, th[1])
            else:
                a = th
            exact(c, I, st_ + "listify", [a], [], want, True, loc["listify"],
                  f"listing {show(th)[:40] if th[0] not in 'LD' else 'a collection'}", st)
