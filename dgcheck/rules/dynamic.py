"""Rules for dustgoggles.dynamic (D01-D04)."""
from . import prop
from .lib import *

CLS = "dynamic.Dynamic"
FN, CODE, SRC, GL = S("dynfunc"), S("code"), S("source_text"), S("globals_given")
XA, XB, XK = S("arg_a"), S("arg_b"), S("kwarg_v")
CB = S("recorder")
KINDS = {FN: "FunctionType", CODE: "object", SRC: "object", GL: "dict", CB: "FunctionType",
         XA: "object", XB: "object", XK: "object"}
ATTRS = ("func", "code", "source", "globals_", "optional", "call_fail", "compile_fail",
         "load_on_call", "errors")


def loc_m(c, name):
    return fn_loc(c.repo, f"{CLS}.{name}")


def raising(*fvs):
    def raises(kind, fv):
        return ("E", "KeyboardInterrupt", "SystemExit") if fv in fvs else ()
    return raises


def make(c, I, st, **kws):
    kws = {"lazy": TRUE, "globals_": GL, **kws}
    outs = c.runv(I, ("cls", c.repo.cls(CLS).qual), [SRC], list(kws.items()), st)
    if len(outs) != 1 or outs[0][0] != "return":
        raise Undecided("constructor", f"{len(outs)} outcomes")
    return outs[0][1], outs[0][2]


def method(c, I, ob, name):
    q = c.repo.func(f"{CLS}.{name}").qual
    c.functions.add(q)
    return ("bm", I.fnterm(q), ob)


def snap(c, I, ob, s):
    return {a: peek(I, ob, s, a) for a in ATTRS}


def put(ob, st, **kw):
    for a, v in kw.items():
        st.heap[ob[1]].attrs[a] = v


def clean(evs):
    return not [e for e in flat(evs) if e[0] in ("raise", "exhausted")]


# ------------------------------------------------------------------ D01
@prop("D01", "Path-sensitive value-flow analysis of Dynamic.__call__ for every combination of "
             "standing and per-call optionality, and of functions wrapped by optionalize, with the "
             "wrapped function raising an arbitrary exception or interrupt.")
def d01(c):
    c.rule("optional call", "on every path the function is called exactly once with the caller's "
           "argument terms; its result term is returned; an exception is handed to the recorder "
           "exactly once and hidden, with the failure flag set, iff the call is optional; an "
           "interrupt always reaches the caller unrecorded")
    for standing in (True, False):
        for percall in (None, True, False, "absent"):
            optional = standing if percall in (None, "absent") else percall
            for prior in ("clean", "after a compile error", "after a failed call"):
                with c.group(f"optional={standing}, _optional={percall}, {prior}"):
                    I = c.interp(kinds=KINDS, raises=raising(FN))
                    st = St()
                    ob, st = make(c, I, st, optional=C(standing))
                    put(ob, st, func=FN, code=CODE)
                    n_err = 0
                    if prior != "clean":
                        old = I.mkdict(st, [("kv", C("exception"), C("old")), (
                            "kv", C("category"), C("compile" if "compile" in prior else "call"))])
                        put(ob, st, errors=I.mklist(st, [("1", old)]))
                        if "compile" in prior:
                            put(ob, st, compile_fail=TRUE)
                        else:
                            put(ob, st, call_fail=TRUE)
                        n_err = 1
                    kws = [("kw", XK), ("nothing", NONE)] + ([] if percall == "absent" else [("_optional", C(percall))])
                    before = snap(c, I, ob, st)
                    n = len(st.events())
                    outs = c.runv(I, method(c, I, ob, "__call__"), [XA, NONE, XB], kws, st)
                    for k, v, s in outs:
                        d01_path(c, I, ob, before, k, v, s, s.events()[n:], optional, n_err,
                                 loc_m(c, "__call__"))
    opt = c.repo.func("func.optionalize")
    for given in (True, False):
        with c.group(f"optionalize, recorder {'given' if given else 'omitted'}"):
            I = c.interp(kinds=KINDS, raises=raising(FN))
            outs = c.run(I, "func.optionalize", [FN], [("exc_callback", CB)] if given else [])
            if len(outs) != 1 or outs[0][0] != "return":
                raise Undecided("optionalize", f"{len(outs)} outcomes")
            w, st = outs[0][1:]
            loc = fn_loc(c.repo, opt.qual)
            for k, v, s in c.runv(I, w, [XA, NONE, XB], [("kw", XK), ("nothing", NONE)], st):
                evs = s.events()
                ex = one_call(c, evs, loc)
                if ex is False:
                    continue
                recs = [e for e in evs if e[0] == "call" and e[1] == CB]
                judge(c, k, v, evs, ex, True, loc, [e for e in evs if e[0] == "call"
                                                    and e[1] == FN][0][4])
                if not given:
                    continue
                if ex is not None and ex[2] == "E":
                    good = len(recs) == 1 and recs[0][2] == (ex,) and not recs[0][3]
                    c.must(good, "recorder gets the exception once", "optional call", loc,
                           f"the recorder is called {len(recs)} times"
                           + (f" with {show(('t', recs[0][2]))}" if recs else "")
                           + " when the function raises", evs)
                else:
                    c.must(not recs, "recorder only hears of exceptions", "optional call", loc,
                           "the recorder is called though there was no exception to record", evs)


def one_call(c, evs, loc):
    """the injected exception, None, or False when the call itself is wrong"""
    calls = [e for e in flat(evs) if e[0] == "call" and e[1] == FN]
    ex = [e[1] for e in evs if e[0] == "raise" and is_app(e[1], "uexc") and e[1][4] == FN]
    nr = len(calls) + (len(ex) if not calls else 0)
    if not calls and not ex:
        if any(e[0] == "loop" for e in evs):
            raise Undecided("calls", "loop")
        c.bad("called once", "optional call", loc, "a path does not call the function", evs)
        return False
    if len(calls) != 1:
        c.bad("called once", "optional call", loc,
              f"one call makes {len(calls)} calls of the function", evs)
        return False
    e = calls[0]
    if e[2] != (XA, NONE, XB) or sorted(e[3]) != [("kw", XK), ("nothing", NONE)]:
        if any(opaque_parts(x) for x in e[2]):
            raise Undecided("arguments", show(e[4]))
        c.bad("arguments unchanged", "optional call", loc_of(e),
              f"called with ({', '.join(map(show, e[2]))}) and "
              f"{ {k: show(v) for k, v in e[3]} } instead of the caller's arguments", evs)
        return False
    c.ok("called exactly once with the caller's arguments")
    return ex[0] if ex else None


def judge(c, k, v, evs, ex, optional, loc, result):
    if ex is None:
        c.must(k == "return" and v == result, "returns the function's result", "optional call",
               loc, "on success " + (f"returns {show(v)}" if k == "return" else
                                     f"raises {exc_kind(v)}"), evs)
    elif ex[2] == "E" and optional:
        c.must(k == "return" and v == NONE, "exception hidden", "optional call", loc,
               "when the function raises an optional call " + (
                   f"returns {show(v)}" if k == "return" else f"raises {exc_kind(v)}"), evs)
    else:
        what = "exception" if ex[2] == "E" else "interrupt"
        c.must(k == "raise" and v == ex, f"{what} propagates", "optional call", loc,
               f"an {what} " + ("is swallowed" if k == "return" else
                                f"is replaced by {exc_kind(v)}")
               + ("" if what == "interrupt" else " by a call that is not optional"), evs)


def d01_path(c, I, ob, before, k, v, s, evs, optional, n_err, loc):
    ex = one_call(c, evs, loc)
    if ex is False:
        return
    judge(c, k, v, evs, ex, optional, loc,
          [e for e in evs if e[0] == "call" and e[1] == FN][0][4])
    aft = snap(c, I, ob, s)
    ps = parts(aft["errors"])
    old = parts(before["errors"])
    if ps is None:
        raise Undecided("errors", show(aft["errors"]))
    if ps[:len(old)] != old:
        c.bad("earlier records kept", "optional call", loc, "an earlier error record is lost", evs)
        return
    new = ps[len(old):]
    if any(p[0] != "1" for p in new):
        raise Undecided("errors", "not a plain list")
    if ex is not None and ex[2] == "E" and optional:
        if len(new) != 1:
            c.bad("recorded once", "optional call", loc,
                  f"an exception adds {len(new)} records instead of one", evs)
        else:
            c.must(True if mentions(new[0][1], ex) else None, "the record is of that exception",
                   "optional call", loc, show(new[0][1]))
            r = parts(new[0][1]) if is_app(new[0][1], "dict") else None
            if r is None or any(p[0] != "kv" for p in r):
                c.und("what the record says", show(new[0][1])[:80])
            else:
                r = {p[1]: p[2] for p in r}
                for key, want in (("category", C("call")), ("func", before["func"])):
                    got = r.get(C(key))
                    c.must(got == want if got is None or is_c(got) or got == want else None,
                           f"the record's {key}", "optional call", loc, f"the record of a failed call has "
                           + (f"the {key} {show(got)}" if got is not None else f"no {key}"), evs)
        c.must(aft["call_fail"] == TRUE, "marked as failed", "optional call", loc,
               "a failed optional call is not marked as failed", evs)
    else:
        what = "a success" if ex is None else (
            "an interrupt" if ex[2] != "E" else "an exception of a call that is not optional")
        c.must(not new, f"{what} leaves no record", "optional call", loc,
               f"{what} is recorded as an error", evs)
        c.must(aft["call_fail"] == before["call_fail"], f"{what} sets no failure flag",
               "optional call", loc, f"{what} marks the call as failed", evs)
    for a in ("func", "code", "source", "globals_"):
        if aft[a] != before[a]:
            c.bad(f"{a} kept", "optional call", loc, f"calling a loaded function changes {a}", evs)


# ------------------------------------------------------------------ D02
def loaded(c, I, optional=FALSE, failed=False):
    st = St()
    ob, st = make(c, I, st, optional=optional)
    put(ob, st, func=FN, code=CODE)
    if failed:
        old = I.mkdict(st, [("kv", C("exception"), C("old")), ("kv", C("category"), C("call"))])
        put(ob, st, errors=I.mklist(st, [("1", old)]), call_fail=TRUE)
    return ob, st


def new_func(t):
    """code term a function object was made from"""
    return t[3][0] if is_app(t, "call") and t[2] == ("x", "types.FunctionType") and t[3] else None


def compiled_from(t, src):
    return [x for x in subterms(t) if is_app(x, "call") and x[2][0] == "x" and x[2][1].endswith("compile")
            and x[3] and x[3][0] == src]


@prop("D02", "Typestate analysis of Dynamic over the states loaded and unloaded: every operation "
             "from each state, path by path.")
def d02(c):
    c.rule("load states", "from the loaded state, loading, compiling or defining without a reload "
           "raises with every attribute unchanged, and with one replaces the function by one "
           "compiled from the object's source; from the unloaded state, loading and calling define "
           "the function from the source (calling raises if load-on-call is off); unloading "
           "clears function, code, errors and flags and nothing else")
    loc = loc_m(c, "load")
    for name, args, kws in (("load", [], []), ("load", [FALSE], []),
                            ("load", [], [("reload", FALSE)]), ("compile_source", [FALSE], []),
                            ("compile_source", [], [("recompile", FALSE)]), ("define", [], []),
                            ("define", [FALSE], [])):
        with c.group(f"loaded: {name}({', '.join([show(a) for a in args] + [f'{a}={show(b)}' for a, b in kws])})"):
            I = c.interp(kinds=KINDS)
            ob, st = loaded(c, I, failed=True)
            before = snap(c, I, ob, st)
            n = len(st.events())
            for k, v, s in c.runv(I, method(c, I, ob, name), args, kws, st):
                aft = snap(c, I, ob, s)
                c.must(k == "raise", "raises", "load states", loc_m(c, name),
                       f"{name} on a loaded function silently goes through", s.events()[n:])
                own_error(c, k, v, "AlreadyLoadedError", loc_m(c, name), s.events()[n:])
                ch = [a for a in ATTRS if aft[a] != before[a]]
                c.must(not ch, "changes nothing", "load states", loc_m(c, name),
                       f"{name} on a loaded function changes {', '.join(ch)}", s.events()[n:])
    with c.group("compiled, not defined: compile_source(recompile=False)"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I, St())
        n0 = len(st.events())
        for k0, v0, s0 in c.runv(I, method(c, I, ob, "compile_source"), [], [], st):
            if k0 != "return" or not clean(s0.events()[n0:]):
                continue
            before = snap(c, I, ob, s0)
            if before["code"] == NONE or before["func"] != NONE:
                raise Undecided("state", "compiling alone")
            n = len(s0.events())
            s0.facts[cmp_is(before["code"], NONE)] = False
            for k, v, s in c.runv(I, method(c, I, ob, "compile_source"), [FALSE], [], s0.fork()):
                aft = snap(c, I, ob, s)
                c.must(k == "raise", "raises", "load states", loc_m(c, "compile_source"),
                       "compile_source(False) silently compiles a source already compiled",
                       s.events()[n:])
                own_error(c, k, v, "AlreadyLoadedError", loc_m(c, "compile_source"), s.events()[n:])
                ch = [a for a in ATTRS if aft[a] != before[a]]
                c.must(not ch, "changes nothing", "load states", loc_m(c, "compile_source"),
                       f"compile_source(False) on compiled code changes {', '.join(ch)}",
                       s.events()[n:])
    for name, kw in (("load", "reload"), ("define", "redefine"), ("compile_source", "recompile")):
        with c.group(f"loaded: {name}({kw}=True)"):
            I = c.interp(kinds=KINDS)
            ob, st = loaded(c, I)
            n = len(st.events())
            outs = c.runv(I, method(c, I, ob, name), [], [(kw, TRUE)], st)
            for k, v, s in outs:
                evs = s.events()[n:]
                if not clean(evs):
                    if k == "raise" and (refusal(c, v) or not [
                            e for e in flat(evs) if e[0] == "call"]):
                        c.bad("reload goes through", "load states", loc_m(c, name),
                              f"{name} refuses although a reload was requested", evs)
                    continue
                aft = snap(c, I, ob, s)
                if name != "compile_source":
                    if replaced(c, aft, name, loc_m(c, name), evs,
                                SRC if name == "load" else None):
                        named_after(c, I, ob, s, aft["func"], name, loc_m(c, name), evs)
                else:
                    c.must(True if compiled_from(aft["code"], SRC) else (
                        False if aft["code"] == CODE else None), "code replaced", "load states",
                        loc_m(c, name), "recompiling leaves the old code", evs)
    for name in ("load", "__call__"):
        with c.group(f"unloaded: {name}"):
            I = c.interp(kinds=KINDS)
            ob, st = make(c, I, St())
            n = len(st.events())
            good = 0
            for k, v, s in c.runv(I, method(c, I, ob, name), [XA] if name != "load" else [],
                                  [], st):
                evs = s.events()[n:]
                if not clean(evs):
                    if k == "raise" and not [e for e in flat(evs) if e[0] == "call"]:
                        c.bad("loads", "load states", loc_m(c, name),
                              f"{name} of an unloaded function raises {exc_kind(v)}", evs)
                    continue
                if k != "return":
                    raise Undecided("path", exc_kind(v))
                aft = snap(c, I, ob, s)
                if not replaced(c, aft, name, loc_m(c, name), evs, SRC):
                    continue
                good += 1
                named_after(c, I, ob, s, aft["func"], name, loc_m(c, name), evs)
                if name == "__call__":
                    cs = [e for e in flat(evs) if e[0] == "call" and e[1] == aft["func"]]
                    c.must(len(cs) == 1 and cs[0][2] == (XA,) and v == cs[0][4],
                           "calls what it loaded", "load states", loc_m(c, name),
                           "calling an unloaded function does not call the loaded function once",
                           evs)
            if not good and not c.violations:
                raise Undecided("loading", "no successful path")
    for lazy in (TRUE, FALSE):
        for loc_ in (TRUE, FALSE):
            with c.group(f"loaded: call, lazy={show(lazy)}, load_on_call={show(loc_)}"):
                I = c.interp(kinds=KINDS)
                ob, st = loaded(c, I)
                put(ob, st, lazy=lazy, load_on_call=loc_)
                before = snap(c, I, ob, st)
                n = len(st.events())
                for k, v, s in c.runv(I, method(c, I, ob, "__call__"), [XA], [], st):
                    evs, aft = s.events()[n:], snap(c, I, ob, s)
                    ch = [a for a in ATTRS if aft[a] != before[a]]
                    c.must(not ch, "a call changes nothing", "load states", loc_m(c, "__call__"),
                           f"calling a loaded function changes {', '.join(ch)}", evs)
                    c.must(k == "return" and is_app(v, "call") and v[2] == FN, "calls it",
                           "load states", loc_m(c, "__call__"), "calling a loaded function "
                           + (f"raises {exc_kind(v)}" if k != "return" else "calls another one"),
                           evs)
    for name, kws in (("constructor", []), ("lazy constructor", [("lazy", TRUE)])):
        with c.group(name):
            I = c.interp(kinds=KINDS)
            for k, v, s in c.runv(I, ("cls", c.repo.cls(CLS).qual), [SRC],
                                  [("globals_", GL)] + kws):
                evs = s.events()
                if not clean(evs):
                    continue
                if k != "return":
                    raise Undecided("path", exc_kind(v))
                aft = snap(c, I, v, s)
                if kws:
                    comp = [e for e in flat(evs) if e[0] == "call"]
                    c.must(aft["func"] == NONE and aft["code"] == NONE, "lazy stays unloaded",
                           "load states", loc_m(c, "__init__"), "a lazy object is loaded at once",
                           evs)
                else:
                    replaced(c, aft, "constructing", loc_m(c, "__init__"), evs, SRC)
                c.must(aft["errors"] == A("list", ()) and aft["call_fail"] == FALSE
                       and aft["compile_fail"] == FALSE, "starts without errors", "load states",
                       loc_m(c, "__init__"), "a new object starts with errors or failure flags")
    for how, kws in (("load", []), ("load(reload=True)", [("reload", TRUE)]), ("compile_source", [])):
        with c.group(f"source that does not compile: {how}"):
            nm = how.split("(")[0]
            lc = loc_m(c, nm)
            I = c.interp(kinds=KINDS, raises=lambda k, fv: ("E", "KeyboardInterrupt") if fv in (
                X("builtins.compile"), X("compile")) else ())
            ob, st = (loaded if "True" in how else lambda c, I: make(c, I, St()))(c, I)
            n = len(st.events())
            seen = 0
            for k, v, s in c.runv(I, method(c, I, ob, nm), [], kws, st):
                evs = s.events()[n:]
                ex = next((e[1] for e in flat(evs) if e[0] == "raise" and is_app(e[1], "uexc")), None)
                if ex is None:
                    continue
                seen += 1
                aft = snap(c, I, ob, s)
                if ex[2] != "E":
                    c.must(k == "raise" and v == ex, "interrupts reach the caller", "load states", lc,
                           "an interrupt while compiling is swallowed", evs)
                    continue
                ps = parts(aft["errors"])
                if ps is None:
                    raise Undecided("errors", show(aft["errors"])[:80])
                c.must(len(ps) == 1, "a compile error is recorded once", "load states", lc,
                       f"source that does not compile leaves {len(ps)} records", evs)
                c.must(aft["compile_fail"] == TRUE, "flagged as not compiling", "load states", lc,
                       f"when the source does not compile compile_fail is {show(aft['compile_fail'])}", evs)
                c.must(aft["call_fail"] == FALSE, "no call failed", "load states", lc,
                       "source that does not compile is flagged as a failed call", evs)
                if len(ps) == 1:
                    r = {p[1]: p[2] for p in parts(ps[0][1]) or () if p[0] == "kv"} if is_app(ps[0][1], "dict") else {}
                    got = r.get(C("category"))
                    c.must(got == C("compile") if got is not None and is_c(got) else False if r and got is None and all(
                        p[0] == "kv" for p in parts(ps[0][1])) else None, "recorded as a compile error", "load states", lc,
                        f"the record's category is {show(got) if got else 'missing'}", evs)
                    c.must(True if mentions(ps[0][1], ex) else None, "the record is of that error", "load states", lc,
                           show(ps[0][1])[:80])
            if not seen:
                raise Undecided("compiling", "no call that could fail")
    with c.group("unloaded, load-on-call off"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I, St(), load_on_call=FALSE)
        before = snap(c, I, ob, st)
        n = len(st.events())
        for o in (NONE, TRUE, FALSE):
            for k, v, s in c.runv(I, method(c, I, ob, "__call__"), [XA], [("_optional", o)],
                                  st.fork()):
                evs = s.events()[n:]
                c.must(k == "raise", "raises", "load states", loc_m(c, "__call__"),
                       "calling an unloaded function with load-on-call off "
                       + (f"returns {show(v)}" if k == "return" else ""), evs)
                own_error(c, k, v, "UnreadyError", loc_m(c, "__call__"), evs)
                ch = [a for a in ATTRS if snap(c, I, ob, s)[a] != before[a]]
                c.must(not ch, "changes nothing", "load states", loc_m(c, "__call__"),
                       f"a refused call changes {', '.join(ch)}", evs)
    for first in ("loaded", "failed", "unloaded"):
        with c.group(f"unload from {first}"):
            I = c.interp(kinds=KINDS)
            if first == "unloaded":
                ob, st = make(c, I, St())
            else:
                ob, st = loaded(c, I)
                put(ob, st, __name__=A("attr", FN, "__name__"), __signature__=S("old_signature"))
                if first == "failed":
                    put(ob, st, errors=I.mklist(st, [("1", I.mkdict(st, []))]), call_fail=TRUE,
                        compile_fail=TRUE)
            n = len(st.events())
            for k, v, s in c.runv(I, method(c, I, ob, "unload"), [], [], st):
                loc = loc_m(c, "unload")
                if k != "return":
                    c.bad("unloads", "load states", loc, f"unload raises {exc_kind(v)}",
                          s.events()[n:])
                    continue
                aft = snap(c, I, ob, s)
                want = dict(func=NONE, code=NONE, errors=A("list", ()), call_fail=FALSE,
                            compile_fail=FALSE, source=SRC, globals_=GL, load_on_call=TRUE,
                            optional=FALSE)
                for a, w in want.items():
                    if a == "errors" and parts(aft[a]) == ():
                        c.ok("errors cleared")
                        continue
                    c.must(aft[a] == w, f"{a} after unloading", "load states", loc,
                           f"after unloading, {a} is {show(aft[a])} instead of {show(w)}")
                for a in ("__name__", "__signature__"):
                    got = peek(I, ob, s, a)
                    c.must(not (mentions(got, FN) or mentions(got, S("old_signature"))), f"{a} after unloading",
                           "load states", loc, f"after unloading, {a} is still the unloaded function's", s.events()[n:])
                # and it can be loaded again
                n2 = len(s.events())
                for k2, v2, s2 in c.runv(I, method(c, I, ob, "load"), [], [], s):
                    evs = s2.events()[n2:]
                    if not clean(evs):
                        if k2 == "raise" and not [e for e in flat(evs) if e[0] == "call"]:
                            c.bad("loads again", "load states", loc_m(c, "load"),
                                  f"loading after unloading raises {exc_kind(v2)}", evs)
                        continue
                    replaced(c, snap(c, I, ob, s2), "loading again", loc_m(c, "load"), evs, SRC)


def own_error(c, k, v, want, loc, evs):
    """the class of the exception that refuses an operation"""
    if k != "raise":
        return
    q = c.repo.cls(f"dynamic.{want}").qual
    if not is_app(v, "exc"):
        c.und(want, show(v)[:60])
    elif v[2] == q or v[2] in c.repo.classes:
        c.must(True if v[2] == q else None, want, "load states", loc, show(v)[:60], evs)
    else:
        c.bad(want, "load states", loc, f"{exc_kind(v)} is raised instead of {want}", evs)


def named_after(c, I, ob, s, f, what, loc, evs):
    """a loaded object has the name and the signature of its function"""
    for a, want in (("__name__", A("attr", f, "__name__")), ("__signature__", A("call", X("inspect.signature"), (f,), ()))):
        got = strip_ids(peek(I, ob, s, a))
        w = strip_ids(want)
        good = got == w or is_app(got, "call") and got[2] == X("inspect.signature") and got[3] == (strip_ids(f),) \
            and a == "__signature__"
        if not good and got[0] != "c" and not (is_app(got, "call") and got[2] == X("inspect.Signature")) \
                and not (is_app(got, "call") and got[2] == X("inspect.signature")) and got not in (
                    A("attr", FN, "__name__"), S("old_signature"), strip_ids(f)) and not is_app(got, "attr"):
            raise Undecided(a, show(got)[:80])
        c.must(good, f"{a} after {what}", "load states", loc,
               f"after {what}, {a} is {show(got)[:60]} and not the loaded function's", evs)


def refusal(c, v):
    """an exception class of the library itself"""
    return is_app(v, "exc") and v[2] in c.repo.classes


def replaced(c, aft, name, loc, evs, src):
    f = aft["func"]
    if f == FN or f == NONE:
        c.bad("function replaced", "load states", loc,
              f"{name} leaves " + ("the old function in place" if f == FN else
                                   "the object without a function"), evs)
        return False
    code = new_func(f)
    if code is None:
        raise Undecided("function", show(f))
    if src is not None:
        if not compiled_from(code, src):
            if code in (CODE, NONE):
                c.bad("compiled from its source", "load states", loc,
                      f"{name} defines the function from " + (
                          "the old code" if code == CODE else "no code"), evs)
                return False
            raise Undecided("code", show(code))
        c.must(aft["code"] == code, "code is the function's", "load states", loc,
               f"{name} leaves other code than the function was made from")
    g = f[3][1] if len(f[3]) > 1 else dict(f[4]).get("globals")
    if g != GL:
        if g is None or is_app(g, "call") and g[2] == ("x", "builtins.globals"):
            c.bad("globals honoured", "load states", loc,
                  f"{name} ignores the globals it was given", evs)
            return False
    c.ok("function defined from the object's source")
    return True


# ------------------------------------------------------------------ D03
EX = S("exception")


def tb_chain(n):
    t, out = A("attr", EX, "__traceback__"), []
    for _ in range(n):
        out.append(t)
        t = A("attr", t, "tb_next")
    return out, t


def module_of(I, args, kws, st, n, fid):
    return [(A("module_of", I.freeze(args[0], st)), st)]


def report_lists(c, I, v, s):
    r = I.freeze(v, s)
    ps = parts(r) if is_app(r, "dict") else None
    if ps is None or any(p[0] != "kv" for p in ps):
        raise Undecided("report", show(r)[:200])
    d = {p[1]: p[2] for p in ps}
    out = {}
    for k in ("lineno", "name", "filename"):
        if C(k) not in d:
            c.bad("three lists", "frame report", fn_loc(c.repo, "dynamic.exc_report"),
                  f"a report has no {k} list")
            return None
        p = parts(d[C(k)])
        if p is None:
            raise Undecided(k, show(d[C(k)])[:200])
        out[k] = p
    return out


@prop("D03", "Value-flow analysis of exc_report on traceback chains of zero to four frames with "
             "every pattern of known and unknown modules, plus a generic loop iteration.")
def d03(c):
    c.rule("frame report", "the line numbers, names and file names are, element by element, those "
           "of the traceback's entries in tb_next order starting at the exception's own traceback; "
           "every path of the loop body adds exactly one element to each list; no exception gives "
           "an empty report")
    loc = fn_loc(c.repo, "dynamic.exc_report")
    for flag in (None, TRUE, FALSE):
        with c.group(f"no exception, stringify {show(flag) if flag else 'default'}"):
            I = c.interp(kinds=KINDS)
            for k, v, s in c.run(I, "dynamic.exc_report", [NONE] + ([flag] if flag else [])):
                if k != "return":
                    c.bad("empty report", "frame report", loc, f"no exception raises {exc_kind(v)}")
                    continue
                r = I.freeze(v, s)
                c.must(is_app(r, "dict") and parts(r) == (), "empty report", "frame report", loc,
                       f"a report on no exception is {show(r)}")
    pats = [()]
    for n in range(1, 4):
        pats += [tuple(bool(i >> j & 1) for j in range(n)) for i in range(2 ** n)]
    pats.append((True, False, True, True))
    for pat in pats:
        with c.group(f"{len(pat)} frames, modules {''.join('+-'[not b] for b in pat) or 'none'}"):
            chain, end = tb_chain(len(pat))
            frames = [A("attr", t, "tb_frame") for t in chain]
            mods = [A("module_of", f) for f in frames]
            kinds = {EX: "object", **{t: "object" for t in chain},
                     **{m: "object" for m, b in zip(mods, pat) if b}}
            I = c.interp(kinds=kinds, ext={"inspect.getmodule": module_of})
            st = St()
            st.facts[cmp_is(end, NONE)] = True
            st.facts[A("truthy", end)] = False
            for t in chain:
                st.facts[A("truthy", t)] = True
            for f in frames:
                st.facts[A("hasattr", A("attr", f, "f_code"), C("co_qualname"))] = True
            for m, b in zip(mods, pat):
                if not b:
                    st.facts[cmp_is(m, NONE)] = True
                st.facts[A("truthy", m)] = b
            for k, v, s in c.run(I, "dynamic.exc_report", [EX], st=st):
                if k != "return":
                    c.bad("reports", "frame report", loc, f"reporting raises {exc_kind(v)}",
                          s.events())
                    continue
                ls = report_lists(c, I, v, s)
                if ls is None:
                    continue
                got = {p[1]: p[2] for p in parts(I.freeze(v, s)) if p[0] == "kv"}.get(C("exception"))
                c.must(got is not None and (mentions(got, EX) or None), "the exception is named", "frame report", loc,
                       "the report does not say which exception it is about" if got is None else show(got)[:60])
                if not pat:
                    c.must(not any(ls.values()), "no frames, no entries", "frame report", loc,
                           "a report on no frames has entries")
                    continue
                for nm, ps in ls.items():
                    if any(p[0] != "1" for p in ps):
                        raise Undecided(nm, "not a plain list")
                    got = [p[1] for p in ps]
                    if len(got) != len(pat):
                        c.bad(f"one {nm} per frame", "frame report", loc,
                              f"a report on {len(pat)} frames has {len(got)} entries under {nm}")
                        continue
                    for i, g in enumerate(got):
                        frame_entry(c, nm, g, i, chain, frames, mods, loc, pat[i])
    for missing in (False, True):
        with c.group(f"any number of frames{', interpreters without co_qualname' if missing else ''}"):
            I = c.interp(kinds={EX: "object"}, raises=lambda k, fv: ("AttributeError",) if (
                missing and k == "attr" and fv[3] == "co_qualname") else ())
            for k, v, s in c.run(I, "dynamic.exc_report", [EX]):
                if k != "return":
                    c.bad("reports", "frame report", loc,
                          f"reporting can raise {exc_kind(v)}", s.events())
                    continue
                ls = report_lists(c, I, v, s)
                if ls is None:
                    continue
                shapes = {}
                for nm, ps in ls.items():
                    if len(ps) == 1 and ps[0][0] == "many":
                        shapes[nm] = ps[0]
                    elif ps != ():
                        raise Undecided(nm, "list not built in one loop")
                if not shapes:
                    if any(e[0] == "loop" for e in s.events()):
                        raise Undecided("lists", "no loop")
                    c.ok("no frames, empty lists")
                    continue
                for nm in ls:
                    if nm not in shapes:
                        c.bad(f"one {nm} per frame", "frame report", loc,
                              f"nothing is added under {nm} for a frame")
                        continue
                    vs = variants(shapes[nm])
                    c.must(all(len(p) == 1 and p[0][0] == "1" for _, p in vs),
                           f"one {nm} per turn", "frame report", loc,
                           f"some turn of the loop adds {[len(p) for _, p in vs]} entries under {nm}")
                srcs = {p[1] for p in shapes.values()}
                c.must(True if len(srcs) == 1 else None, "one loop builds all three lists",
                       "frame report", loc, "several loops")


def frame_entry(c, nm, g, i, chain, frames, mods, loc, known=None):
    def about(t):
        """index of the frame a term describes"""
        best = None
        for j, x in enumerate(chain):
            if mentions(t, x):
                best = j
        return best
    want = {"lineno": A("attr", chain[i], "tb_lineno"),
            "filename": A("attr", A("attr", frames[i], "f_code"), "co_filename")}.get(nm)
    if about(g) is not None and about(g) != i:
        c.bad(f"{nm} order", "frame report", loc,
              f"entry {i + 1} under {nm} describes frame {about(g) + 1}")
    elif want is not None:
        if g == want:
            c.ok(f"{nm} of each frame, in order")
        elif nm == "lineno" and g == A("attr", frames[i], "f_lineno"):
            c.bad("line number of the traceback entry", "frame report", loc,
                  "the line number is the frame's current line, not the traceback entry's")
        elif nm == "lineno" and (mentions(g, A("attr", frames[i], "f_code")) or is_app(g, "+") or
                                 is_app(g, "lin") and g != want):
            c.bad("line number of the traceback entry", "frame report", loc,
                  f"the line number reported is {show(g)}")
        else:
            raise Undecided(nm, show(g))
    elif about(g) is None:
        raise Undecided(nm, show(g))
    else:
        code = A("attr", frames[i], "f_code")
        ok = any(mentions(g, A("attr", code, a)) for a in ("co_name", "co_qualname"))
        c.must(True if ok else None, "name of each frame, in order", "frame report", loc, show(g))
        if known is not None:
            m = mentions(g, A("attr", mods[i], "__name__"))
            c.must(m if known else True, "names carry their module", "frame report", loc,
                   f"a frame whose module is known is named {show(g)[:60]}, without the module")


# ------------------------------------------------------------------ D04
@prop("D04", "Value-flow analysis of Dynamic.from_function for functions and other callables: the "
             "attribute terms of the object it returns.")
def d04(c):
    c.rule("from function", "the object's function is the one given, its source is getsource of "
           "it, its globals, code, name and signature are that function's; constructor options are "
           "honoured; calling it calls that function")
    loc = loc_m(c, "from_function")
    q = c.repo.func(f"{CLS}.from_function").qual
    c.functions.add(q)
    opts = [("none", [], []), ("optional", [], [("optional", TRUE)]),
            ("lazy", [], [("lazy", TRUE)]), ("lazy, no load on call", [], [
                ("lazy", TRUE), ("load_on_call", FALSE)])]
    for nm, args, kws in opts:
        with c.group(f"function, options {nm}"):
            I = c.interp(kinds=KINDS)
            outs = c.runv(I, ("bm", I.fnterm(q), ("cls", c.repo.cls(CLS).qual)), [FN] + args, kws)
            for k, v, s in outs:
                if k != "return":
                    c.bad("returns", "from function", loc, f"raises {exc_kind(v)}", s.events())
                    continue
                want = {"func": FN, "globals_": A("attr", FN, "__globals__"),
                        "code": A("attr", FN, "__code__"), "optional": C(nm == "optional"),
                        "load_on_call": C("no load" not in nm), "errors": A("list", ()),
                        "call_fail": FALSE, "compile_fail": FALSE}
                for a, w in want.items():
                    got = peek(I, v, s, a)
                    if a == "globals_" and got not in (w, NONE, TRUE, FALSE) and got[0] != "c":
                        if not (is_app(got, "globals") or got[0] == "s"):
                            raise Undecided(a, show(got))
                    c.must(got == w, f"{a} kept", "from function", loc,
                           f"the object's {a} is {show(got)} instead of {show(w)}")
                for a, fn in (("source", "inspect.getsource"), ("__signature__", "inspect.signature"),
                              ("__name__", None)):
                    got = strip_ids(peek(I, v, s, a))
                    if fn is None:
                        good = got == A("attr", FN, "__name__")
                    else:
                        good = is_app(got, "call") and got[2] == ("x", fn) and got[3] == (FN,)
                    if not good and not (got[0] == "c" or is_app(got, "attr") or (
                            is_app(got, "call") and got[2] == ("x", fn))):
                        raise Undecided(a, show(got))
                    c.must(good, f"{a} kept", "from function", loc,
                           f"the object's {a} is {show(got)} instead of the function's")
                bad = [e for e in flat(s.events()) if e[0] == "call" and (
                    e[1] in (("x", "types.FunctionType"), FN) or e[1][0] == "x"
                    and e[1][1].endswith("compile"))]
                c.must(not bad, "nothing compiled or called", "from function", loc,
                       "building from a function compiles or calls it")
                n = len(s.events())
                for k2, v2, s2 in c.runv(I, method(c, I, v, "__call__"), [XA], [("kw", XK)], s):
                    cs = [e for e in flat(s2.events()[n:]) if e[0] == "call" and e[1] == FN]
                    c.must(k2 == "return" and len(cs) == 1 and cs[0][2] == (XA,) and v2 == cs[0][4],
                           "calling it calls the function", "from function", loc,
                           "calling the object does not call the function once and return its "
                           "result", s2.events()[n:])
    with c.group("callable object"):
        OBJ = S("callable_object")

        def getsource(I, args, kws, st, n, fid):
            if args[0] == OBJ:
                I.throw(st, "TypeError", node=n, fid=fid)
                return []
            return [(A("source_of", I.freeze(args[0], st)), st)]
        m = A("attr", OBJ, "__call__")
        I = c.interp(kinds={OBJ: "object", m: "MethodType", A("attr", m, "__code__"): "object",
                            A("attr", m, "__globals__"): "dict"},
                     ext={"inspect.getsource": getsource})
        for k, v, s in c.runv(I, ("bm", I.fnterm(q), ("cls", c.repo.cls(CLS).qual)), [OBJ], []):
            if k != "return":
                c.bad("callable objects", "from function", loc,
                      f"an object with a __call__ method makes it raise {exc_kind(v)}", s.events())
                continue
            for a, ws in (("func", (OBJ, m)), ("source", (A("source_of", m),)),
                          ("globals_", (A("attr", m, "__globals__"),)),
                          ("code", (A("attr", m, "__code__"),))):
                got = peek(I, v, s, a)
                if got not in ws and not (got[0] == "c" or mentions(got, OBJ)):
                    raise Undecided(a, show(got))
                c.must(got in ws, f"{a} of a callable object", "from function", loc,
                       f"for a callable object {a} is {show(got)}")
    with c.group("digging for source"):
        OBJ, WR = S("wrapping_object"), S("unrelated_object")
        loc2 = fn_loc(c.repo, "dynamic.digsource")
        c.rule("digging", "digging for source reads the source of the function given, or of the function a wrapper "
               "(partial, dynamic) holds, and refuses anything else with TypeError")
        func = A("attr", OBJ, "func")
        for what, obj, kinds, facts, want in (
                ("a function", FN, {FN: "FunctionType"}, {A("hasattr", FN, C("func")): False}, FN),
                ("a method", FN, {FN: "MethodType"}, {A("hasattr", FN, C("func")): False}, FN),
                ("a wrapper", OBJ, {OBJ: "partial"}, {A("hasattr", OBJ, C("func")): True,
                                                     A("isinst", OBJ, C("FunctionType")): False,
                                                     A("isinst", OBJ, C("MethodType")): False}, func),
                ("anything else", WR, {WR: "object"}, {A("hasattr", WR, C("func")): False,
                                                      A("isinst", WR, C("FunctionType")): False,
                                                      A("isinst", WR, C("MethodType")): False}, None)):
            I = c.interp(kinds=kinds, raises=lambda k, fv: ("AttributeError",) if k == "attr" and fv == A(
                "attr", WR, "func") else ())
            st = St()
            st.facts = {**st.facts, **facts}
            for k, v, s in c.run(I, "dynamic.digsource", [obj], st=st):
                if want is None:
                    c.must(k == "raise" and exc_kind(v) == "TypeError", f"{what} is refused", "digging", loc2,
                           f"digging for the source of {what} " + (f"raises {exc_kind(v)}" if k == "raise" else
                                                                   f"returns {show(v)[:60]}"), s.events())
                    continue
                got = strip_ids(v) if k == "return" else v
                good = k == "return" and is_app(got, "call") and got[2] == ("x", "inspect.getsource") and got[3] == (want,)
                if k == "return" and not good and not (got[0] == "c" or got == obj or got == func or is_app(got, "call")
                                                       and got[2] == ("x", "inspect.getsource")):
                    raise Undecided(what, show(got))
                c.must(good, f"source of {what}", "digging", loc2, f"digging for the source of {what} " + (
                    f"raises {exc_kind(v)}" if k == "raise" else f"gives {show(got)[:80]}"), s.events())
