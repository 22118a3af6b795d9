"""Rules for dustgoggles.composition (P01-P06)."""
import ast
import itertools
from . import prop
from .lib import *

CLS = "composition.Composition"
F, G, H = S("step_f"), S("step_g"), S("step_h")
SIG = S("signal")
# deliberately not in sorted order, one of them falsy
NAMES = (C("m"), C(0), C("a"))


def loc_m(c, name):
    return fn_loc(c.repo, f"{CLS}.{name}")


def funcs(*ts):
    return {t: "FunctionType" for t in ts}


def build(c, I, st, **kws):
    """[(composition object, state)] from the public constructor"""
    cls = c.repo.cls(CLS)
    outs = c.runv(I, ("cls", cls.qual), [], list(kws.items()), st)
    res = []
    for k, v, s in outs:
        if k != "return":
            raise Undecided("constructor", f"raises {exc_kind(v)}")
        res.append((v, s))
    if len(res) != 1:
        raise Undecided("constructor", f"{len(res)} outcomes")
    return res[0]


def meth(c, I, ob, name):
    q = c.repo.func(f"{CLS}.{name}").qual
    c.functions.add(q)
    return ("bm", I.fnterm(q), ob)


def call1(c, I, ob, name, args, kws, st):
    outs = c.runv(I, meth(c, I, ob, name), list(args), list(kws), st)
    if len(outs) != 1 or outs[0][0] != "return":
        raise Undecided(name, f"{len(outs)} outcomes")
    return outs[0][1], outs[0][2]


def steps3(I, st, fs=(F, G, F)):
    return I.mkdict(st, [("kv", n, f) for n, f in zip(NAMES, fs)])


def after(s, n):
    """events after the first n; loops that call user code are not unrolled"""
    return s.events()[n:]


def user_calls(evs, fvs):
    out = []
    for e in evs:
        if e[0] == "loop":
            for x in flat([e]):
                if x[0] == "call" and x[1] in fvs:
                    raise Undecided("calls", f"made in a loop at line {e[4][1]} not unrolled")
        elif e[0] == "call" and e[1] in fvs:
            out.append(e)
    return out


def thread(c, name, evs, fs, loc, result=None, final=None, sig=SIG):
    """the calls in evs are exactly fs in order, each fed the previous output"""
    got = user_calls(evs, set(fs))
    if [e[1] for e in got] != list(fs):
        c.bad(f"{name}: order", "pipeline", loc,
              f"{name}: the steps called are {[show(e[1]) for e in got]} instead of "
              f"{[show(f) for f in fs]}", evs)
        return None
    prev = sig
    for i, e in enumerate(got):
        if e[2] != (prev,) or e[3]:
            if any(opaque_parts(x) for x in e[2]):
                raise Undecided(f"{name}: input", show(("t", e[2])))
            c.bad(f"{name}: threading", "pipeline", loc_of(e),
                  f"{name}: step {i + 1} receives {show(('t', e[2]))}"
                  + (f" and {dict(e[3])}" if e[3] else "") + f" instead of "
                  + ("the signal" if not i else "its predecessor's output"), evs)
            return None
        prev = e[4]
    if final is not None:
        if final != prev:
            c.bad(f"{name}: result", "pipeline", loc,
                  f"{name}: returns {show(final)} instead of the last step's output", evs)
            return None
    lost = next((e for e in flat(evs) if e[0] == "unordered"), None)
    if lost and name in ("execute", "__call__", "itercall"):
        c.bad(f"{name}: order", "pipeline", lost[1], f"{name}: the steps are taken from a set, which does not keep "
              "their order", evs)
        return None
    c.ok(f"{name}: every step once, in mapping order, each fed its predecessor's output")
    return [e[4] for e in got]


@prop("P01", "Value-flow analysis of Composition.execute, itercall and __call__: a generic step of "
             "an arbitrary step mapping (loop summary), and a three-step template whose abstract "
             "paths are all followed.")
def p01(c):
    c.rule("pipeline", "on every path the step calls are exactly the mapping's steps in its order, "
           "the first applied to the signal and each later one to the term returned by its "
           "predecessor; the value returned (and the values yielded) are those results")
    for entry in ("execute", "__call__"):
        with c.group(f"{entry}, three steps"):
            I = c.interp(kinds=funcs(F, G))
            st = St()
            ob, st = build(c, I, st, steps=steps3(I, st))
            n = len(st.events())
            for k, v, s in c.runv(I, meth(c, I, ob, entry), [SIG], [], st):
                if k != "return":
                    c.bad("returns", "pipeline", loc_m(c, "execute"),
                          f"raises {exc_kind(v)} on a plain pipeline", after(s, n))
                    continue
                thread(c, entry, after(s, n), (F, G, F), loc_m(c, "execute"), final=v)
    with c.group("itercall, three steps"):
        I = c.interp(kinds=funcs(F, G))
        st = St()
        ob, st = build(c, I, st, steps=steps3(I, st))
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "itercall"), [SIG], [], st, consume=True):
            if k != "return":
                c.bad("returns", "pipeline", loc_m(c, "itercall"), f"raises {exc_kind(v)}")
                continue
            r = thread(c, "itercall", after(s, n), (F, G, F), loc_m(c, "itercall"))
            if r is None:
                continue
            ps = parts(I.freeze(v, s))
            if ps is None:
                raise Undecided("yields", show(I.freeze(v, s)))
            got = [p[1] if p[0] == "1" else p for p in ps]
            c.must(got == r, "yields the successive outputs", "pipeline", loc_m(c, "itercall"),
                   f"yields {[show(x) for x in got]} instead of the successive step outputs")
    with c.group("sequence of steps"):
        I = c.interp(kinds=funcs(F, G, H))
        st = St()
        ob, st = build(c, I, st, steps=I.mklist(st, [("1", H), ("1", F), ("1", G)]))
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            thread(c, "sequence", after(s, n), (H, F, G), loc_m(c, "execute"), final=v)
    with c.group("add_step"):
        I = c.interp(kinds=funcs(F, G, H))
        st = St()
        ob, st = build(c, I, st, steps=I.mkdict(st, [("kv", C("m"), F), ("kv", C("a"), G)]))
        _, st = call1(c, I, ob, "add_step", [H, C("b")], [], st)
        _, st = call1(c, I, ob, "add_step", [H, C("m")], [], st)
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            thread(c, "added and replaced steps", after(s, n), (H, G, H), loc_m(c, "add_step"),
                   final=v)
    with c.group("default pipeline"):
        I = c.interp()
        st = St()
        ob, st = build(c, I, st)
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k == "return" and v == SIG:
                c.ok("a composition without steps returns its signal")
            elif k == "return" and not opaque_parts(I.freeze(v, s)):
                c.bad("default pipeline", "pipeline", loc_m(c, "__init__"),
                      f"returns {show(I.freeze(v, s))} instead of its signal")
            else:
                raise Undecided("default pipeline", show(v))
    with c.group("generic step"):
        generic(c)


def generic(c):
    steps = S("steps")
    el = A("elem", steps)
    step = A("item", steps, el)
    I = c.interp(kinds={step: "FunctionType", steps: "dict"})
    st = St()
    st.facts[cmp_is(steps, NONE)] = False
    ob, st = build(c, I, st, steps=steps)
    n = len(st.events())
    loc = loc_m(c, "execute")
    for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
        if k != "return":
            if any(a for a in s.facts if is_app(a, "in")):
                continue
            raise Undecided("path", exc_kind(v))
        loops = [e for e in after(s, n) if e[0] == "loop" and elem_base_(e[2]) == steps and any(
            x[0] == "call" and x[1] == step for b in e[3] for x in flat(b[2]))]
        if len(loops) != 1:
            raise Undecided("loop", f"{len(loops)} loops call steps")
        lp = loops[0]
        info = I.loops[lp[1]]
        for kind, facts, seg, ups, val in body_paths(lp):
            cs = [e for e in flat(seg) if e[0] == "call" and e[1] == step]
            if kind in ("next", "continue"):
                if len(cs) != 1:
                    c.bad("once per step", "pipeline", loc,
                          f"a step is called {len(cs)} times in one pass", seg)
                    return
                a = cs[0][2]
                if len(a) != 1 or not is_app(a[0], "phi"):
                    if a == (SIG,):
                        c.bad("threading", "pipeline", loc_of(cs[0]),
                              "every step receives the input signal", seg)
                        return
                    raise Undecided("input", show(("t", a)))
                ph = a[0]
                init = info["phi"].get(ph, {}).get("init")
                c.must(init == SIG if init is not None else None, "the first step gets the signal",
                       "pipeline", loc, f"the first step gets {show(init) if init else '?'}")
                new = dict((A("phi", lp[1], nm), x) for nm, x in ups).get(ph)
                if new is None:
                    raise Undecided("threading", show(ph))
                c.must(new == cs[0][4], "each later step gets its predecessor's output", "pipeline",
                       loc, f"the next step gets {show(new)}", seg)
            elif kind in ("break", "return"):
                c.bad("every step", "pipeline", loc, "the loop over the steps can stop early", seg)
        # result: whatever variable last received a step's output
        if is_app(v, "phi"):
            ups = [dict((A("phi", lp[1], nm), x) for nm, x in b[3]) for b in body_paths(lp)
                   if b[0] in ("next", "continue")]
            cs = [[e for e in flat(b[2]) if e[0] == "call" and e[1] == step]
                  for b in body_paths(lp) if b[0] in ("next", "continue")]
            good = all(x and u.get(v) == x[0][4] for u, x in zip(ups, cs))
            c.must(True if good else None, "returns the last step's output", "pipeline", loc,
                   f"result {show(v)}")
        elif v == NONE or v == SIG:
            pass        # no steps at all
        else:
            raise Undecided("result", show(I.freeze(v, s)))


def elem_base_(src):
    while is_app(src) and src[1] in ("items", "values", "keys", "list", "tuple"):
        if src[1] in ("list", "tuple"):
            if len(src[2]) == 1 and src[2][0][0] == "*":
                src = src[2][0][1]
                continue
            return src
        src = src[2]
    return src


# ------------------------------------------------------------------ P02
P1, P2, P3, P4 = S("pipe1"), S("pipe2"), S("pipe3"), S("pipe4")
TL, TA, TD, TW = S("target_list"), S("target_applist"), S("target_dict"), S("target_writer")


def send_template(c, add):
    kinds = {**funcs(F, G, P1, P2, P3, P4), TL: "list", TA: "list", TD: "dict"}
    I = c.interp(kinds=kinds)
    st = St()
    for t in (P1, P2, P3, P4, TL, TA, TD, TW):
        st.facts[cmp_is(t, NONE)] = False
    for a, b in itertools.combinations((P1, P2, P3, P4, TL, TA, TD, TW, C(0), C("a"), NONE), 2):
        st.facts[cmp_is(a, b)] = False
    for nm in ("append", "keys", "items"):
        st.facts[A("hasattr", TW, C(nm))] = False
    st.facts[A("hasattr", TW, C("write"))] = True
    for nm in ("str", "int", "list", "dict"):
        st.facts[A("isinst", TW, C(nm))] = False
    sends = [(P1, NONE, NONE), (NONE, TL, C(3)), (P2, TD, C("k")), (NONE, TA, NONE),
             (P3, TW, NONE), (NONE, C(0), C("kw")), (P1, NONE, NONE), (NONE, TA, NONE),
             (NONE, TL, C(0)), (NONE, TD, C("k")), (P4, C("a"), C("kx"))]
    if add == "add_send":
        ob, st = build(c, I, st, steps=steps3(I, st))
        for p, t, x in sends:
            st = add_send(c, I, ob, NAMES[0], [("pipe", p), ("target", t), ("pointer", x)], st)
    else:
        ob, st = build(c, I, st, steps=steps3(I, st), sends=I.mkdict(st, [
            ("kv", NAMES[0], I.mklist(st, [("1", T(*x)) for x in (
                sends[0], (NONE, NONE, NONE), *sends[1:])]))]))
    return I, ob, st, sends


def add_send(c, I, ob, step, kws, st):
    outs = c.runv(I, meth(c, I, ob, "add_send"), [step], kws, st)
    if outs and all(k == "raise" for k, _, _ in outs):
        c.bad("a send can be added", "sends", loc_m(c, "add_send"),
              f"add_send({show(step)}, " + ", ".join(f"{a}={show(b)}" for a, b in kws)
              + f") raises {exc_kind(outs[0][1])}", after(outs[0][2], 0))
    if len(outs) != 1 or outs[0][0] != "return":
        raise Undecided("add_send", f"{len(outs)} outcomes")
    return outs[0][2]


@prop("P02", "Value-flow analysis of one execution of a template pipeline whose first step carries "
             "every kind of send: the ordered events between that step's call and the next step's.")
def p02(c):
    c.rule("sends", "between a step's call and the next step's, on every path, the events are "
           "exactly: each send in order, its pipe called once on the step's output, the piped (or "
           "plain) output placed once at its target; the next step still receives the step's "
           "output")
    for add in ("add_send", "constructor"):
        with c.group(f"sends by {add}"):
            I, ob, st, sends = send_template(c, add)
            n = len(st.events())
            loc = loc_m(c, "execute")
            pl = loc_m(c, "place_into")
            outs = c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st)
            for k, v, s in outs:
                evs = after(s, n)
                if k != "return":
                    raise Undecided("path", exc_kind(v))
                steps_ = user_calls(evs, {F, G})
                if [e[1] for e in steps_] != [F, G, F]:
                    raise Undecided("steps", "not called in order")
                out1 = steps_[0][4]
                if len(steps_[1][2]) != 1 or steps_[1][2][0] != out1:
                    c.bad("signal unaltered", "sends", loc_of(steps_[1]),
                          f"after the sends the next step receives {show(('t', steps_[1][2]))} "
                          f"instead of its predecessor's output", evs)
                    continue
                if v != steps_[2][4]:
                    c.bad("signal unaltered", "sends", loc,
                          f"returns {show(v)} instead of the last step's output", evs)
                    continue
                pos = {id(e): i for i, e in enumerate(evs)}
                i0, i1 = (next(i for i, e in enumerate(evs) if e is x) for x in steps_[:2])
                window = observed(I, evs[i0 + 1:i1])
                other = observed(I, evs[:i0]) + observed(I, evs[i1 + 1:])
                want, r = [], out1
                pipes = {e[1]: e[4] for e in evs if e[0] == "call" and e[1] in (P1, P2, P3, P4)}
                for p, t, x in sends:
                    val = r
                    if p != NONE:
                        want.append(("pipe", p, r))
                        val = pipes.get(p)
                    if t == TL or t == TD:
                        want.append(("set", t, x, val))
                    elif t == TA:
                        want.append(("append", t, val))
                    elif t == TW:
                        want.append(("write", t, val))
                if other:
                    o = other[0]
                    c.bad("after its own step", "sends", pl,
                          f"a send acts outside the span between its step and the next: "
                          f"{o[0]} {show(o[1])}", evs)
                    continue
                if window != want:
                    miss = [w for w in want if w not in window]
                    extra = [w for w in window if w not in want]
                    if miss:
                        m = miss[0]
                        near = [w for w in window if w[:2] == m[:2]]
                        msg = f"send {m[0]} {show(m[1])} does not happen" if not near else \
                            f"send {m[0]} {show(m[1])} gets {[show(x) for x in near[0][2:]]} " \
                            f"instead of {[show(x) if x else '?' for x in m[2:]]}"
                    elif extra:
                        msg = f"an unexpected {extra[0][0]} on {show(extra[0][1])}"
                    elif len(window) != len(want):
                        msg = "a send happens more than once"
                    else:
                        msg = "sends do not happen in the order they were added"
                    if any(opaque_parts(x) for w in window for x in w[1:]):
                        raise Undecided("sends", msg)
                    c.bad("each send once, in order", "sends", pl, msg + (
                        " on a path where " + "; ".join(
                            ("" if b else "not ") + show(a) for a, b in s.facts.items()
                            if a not in st.facts) if set(s.facts) - set(st.facts) else ""), evs)
                    continue
                c.ok("each send acts once, in order, between its step and the next")
                # sends aimed at a step become its inserts
                for i, (nm, val) in ((1, ("kw", out1)), (2, ("kx", pipes.get(P4)))):
                    kw = dict(steps_[i][3])
                    c.must(kw.get(nm) == val and len(kw) == 1, "sends into steps", "sends", pl,
                           f"a send aimed at a later step reaches it as {show_kw(kw)} instead of "
                           f"{nm}={show(val)}", evs)
    with c.group("iterating over an execution"):
        I, ob, st, sends = send_template(c, "constructor")
        n = len(st.events())
        node = ast.Constant(None, lineno=0, col_offset=0)

        def took(x, s):
            s.ev("yielded", I.freeze(x, s), I.loc(node, None))
            return [("next", None, s)]
        for k, v, s in c.runv(I, meth(c, I, ob, "itercall"), [SIG], [], st):
            if k != "return":
                raise Undecided("itercall", exc_kind(v))
            for k2, v2, s2 in I.iterate(v, s, took, node, None):
                evs = after(s2, n)
                at = next((i for i, e in enumerate(evs) if e[0] == "yielded"), None)
                calls = [i for i, e in enumerate(evs) if e[0] == "call" and e[1] in (F, G)]
                if k2 != "next" or at is None or len(calls) < 2:
                    raise Undecided("itercall", "path")
                late = observed(I, evs[at + 1:calls[1]]) if at < calls[1] else []
                c.must(not late, "sends before the output is handed over", "sends", loc_m(c, "itercall"),
                       "a step's sends wait until the caller asks for the next output: where it stops, or edits what it "
                       "was given, they never happen or get something else", evs)
    with c.group("a falsy target"):
        I = c.interp(kinds=funcs(F, G))
        st = St()
        ob, st = build(c, I, st, steps=steps3(I, st))
        tl, td = I.mklist(st, []), I.mkdict(st, [])
        st = add_send(c, I, ob, NAMES[0], [("target", tl)], st)
        st = add_send(c, I, ob, NAMES[0], [("target", td), ("pointer", C(0))], st)
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            r = thread(c, "sends to empty containers", after(s, n), (F, G, F), loc_m(c, "execute"), final=v)
            if r is None:
                continue
            got = norm_d(I.freeze(tl, s)), norm_d(I.freeze(td, s))
            if any(opaque_parts(x) for x in got if x[0] == "a"):
                raise Undecided("targets", show(got[0]))
            c.must(got[0] == A("list", (("1", r[0]),)), "an empty list receives the output", "sends",
                   loc_m(c, "place_into"), f"an empty target list holds {show(got[0])} after one step's send")
            c.must(got[1] == ("d", ((C(0), r[0]),)), "an empty mapping receives the output", "sends",
                   loc_m(c, "place_into"), "an empty target mapping does not receive the output at its pointer")
    with c.group("captures"):
        I = c.interp(kinds=funcs(F, G))
        st = St()
        ob, st = build(c, I, st, steps=steps3(I, st))
        _, st = call1(c, I, ob, "add_captures", [], [], st)
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            r = thread(c, "captures", after(s, n), (F, G, F), loc_m(c, "execute"), final=v)
            if r is None:
                continue
            cap = I.freeze(s.heap[ob[1]].attrs["captures"], s)
            ps = parts(cap)
            if ps is None:
                raise Undecided("captures", show(cap))
            got = {p[1]: parts(p[2]) for p in ps if p[0] == "kv"}
            for nm, x in zip(NAMES, r):
                c.must(got.get(nm) == (("1", x),), "each capture holds its step's last output",
                       "sends", loc_m(c, "add_captures"),
                       f"the capture of step {show(nm)} holds {show_parts(got.get(nm))}")
    with c.group("steps without sends"):
        I = c.interp(kinds={**funcs(F, G, P1)})
        st = St()
        st.facts[cmp_is(P1, NONE)] = False
        ob, st = build(c, I, st, steps=steps3(I, st))
        _, st = call1(c, I, ob, "add_send", [C("absent")], [("pipe", P1)], st)
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            c.must(not user_calls(after(s, n), {P1}), "a send of no step does nothing", "sends",
                   loc_m(c, "execute"), "a send belonging to no step of the pipeline is performed")
        for p, t in ((NONE, NONE),):
            for k, v, s in c.runv(I, meth(c, I, ob, "add_send"), [C("m")], [], st.fork()):
                c.must(k == "raise", "a send needs a pipe or a target", "sends",
                       loc_m(c, "add_send"), "a send with neither pipe nor target is accepted")


def show_kw(kw):
    return "{" + ", ".join(f"{k}={show(v)}" for k, v in kw.items()) + "}"


def show_parts(ps):
    return "nothing" if ps is None else "; ".join(show(p[-1]) for p in ps)


def placed(e, I):
    """key and value of an event that puts one item into a container"""
    if e[2] == "setitem":
        return (e[3], e[4])
    a = e[3] if isinstance(e[3], tuple) else ()
    if e[2] == "__setitem__" and len(a) == 2 and all(isinstance(x, tuple) for x in a):
        return tuple(a)
    if e[2] == "update" and len(a) == 1 and is_app(a[0], "dict") and len(a[0][2]) == 1 \
            and a[0][2][0][0] == "kv":
        return a[0][2][0][1:]
    return None


def observed(I, evs):
    out = []
    for e in evs:
        if e[0] == "loop":
            for x in flat([e]):
                if x[0] == "call" and x[1] in (P1, P2, P3, P4) or x[0] == "mut":
                    raise Undecided("sends", "performed in a loop that is not unrolled")
        if e[0] == "call" and e[1] in (P1, P2, P3, P4):
            out.append(("pipe", e[1]) + e[2] + tuple(v for _, v in e[3]))
        elif e[0] == "call" and is_app(e[1], "attr") and e[1][2] in (TW, TL, TA, TD) \
                and e[1][3] not in M.MUTATORS:       # those are mut events too
            out.append((e[1][3] if e[1][3] != "__setitem__" else "set", e[1][2]) + e[2])
        elif e[0] == "mut" and e[1] in (TL, TD, TA, TW):
            put = placed(e, I)
            if put:
                out.append(("set", e[1]) + put)
            else:
                a = e[3]
                out.append((e[2], e[1]) + (tuple(a) if isinstance(a, tuple) and (
                    not a or isinstance(a[0], tuple)) else (a,)))
    return out


# ------------------------------------------------------------------ P03
UND, A0, A1, KV, KW = S("underlying"), S("baked0"), S("baked1"), S("baked_k"), S("baked_w")


SHAPES = {"partial-like": ((A0, A1), True), "partial-like, no baked positionals,": ((), True),
          "partial-like, no baked keywords,": ((A0,), False),
          "func and keywords only,": (None, True), "func and args only,": ((A0, A1), None),
          "func only,": (None, None)}


def partial_like(I, st, baked=(A0, A1), keywords=True):
    """an object with func, args and keywords, as functools.partial has"""
    kw = I.mkdict(st, [("kv", C("k"), KV), ("kv", C("w"), KW)] if keywords else [])
    attrs = {"func": UND}
    if baked is not None:
        attrs["args"] = T(*baked)
    if keywords is not None:
        attrs["keywords"] = kw
    ob = I.alloc(st, Obj("inst", attrs=attrs))
    for a in ("args", "keywords"):
        if a not in attrs:
            st.facts[A("hasattr", ob, C(a))] = False
    return ob, kw


def expect_args(baked, ins, sig):
    pos = {i: a for i, a in enumerate(baked)}
    pos.update({k: v for k, v in ins if isinstance(k, int)})
    free = next(i for i in range(100) if i not in pos)
    pos[free] = sig
    return tuple(pos[k] for k in sorted(pos))


X_, Y_, Z_, W_ = S("x"), S("y"), S("z"), S("w")
INSERTS = [(), ((0, X_),), ((1, X_),), ((2, X_),), (("k", X_),), (("n", X_),),
           ((1, X_), (0, Y_), ("k", Z_)), ((5, X_), (3, Y_), ("w", Z_), ("n", W_)),
           ((2, X_), (3, Y_)), tuple((i, S(f"p{i}")) for i in range(11)),
           tuple((i, S(f"p{i}")) for i in (12, 10, 9, 1, 2, 0, 3)),
           ((-1, X_), (0, Y_)), (("b", X_), ("a", Y_), ("k", NONE), (0, NONE))]


@prop("P03", "Value-flow analysis of one step call for every combination in a table of baked "
             "arguments and inserts, against the documented binding rule.")
def p03(c):
    c.rule("inserts", "the underlying function's abstract call has, positionally in key order, the "
           "baked positional arguments overridden by integer inserts, with the signal in the first "
           "free position, and as keywords the baked ones overridden by string inserts")
    for how in ("constructor", "add_insert"):
        for shape in (None, *SHAPES):
            if how == "add_insert" and shape not in (None, "partial-like"):
                continue
            for ins in INSERTS:
                with c.group(f"inserts by {how}, {shape or 'plain'} step, keys {[k for k, _ in ins]}"):
                    inserts(c, how, shape, ins)
    with c.group("latest insert"):
        I = c.interp(kinds=funcs(UND))
        st = St()
        ob, st = build(c, I, st, steps=I.mkdict(st, [("kv", C("m"), UND)]))
        for v in (X_, Y_):
            _, st = call1(c, I, ob, "add_insert", [C("m"), C("k"), v], [], st)
        check_step(c, I, ob, st, UND, (SIG,), {"k": Y_}, "an insert added twice")
    with c.group("functools.partial"):
        I = c.interp(kinds=funcs(UND))
        st = St()
        p = ("part", UND, (A0,), (("k", KV),))
        ob, st = build(c, I, st, steps=I.mkdict(st, [("kv", C("m"), p)]), inserts=I.mkdict(
            st, [("kv", C("m"), I.mkdict(st, [("kv", C("k"), X_)]))]))
        check_step(c, I, ob, st, UND, (A0, SIG), {"k": X_}, "functools.partial")


def inserts(c, how, shape, ins):
    I = c.interp(kinds=funcs(UND))
    st = St()
    if shape is None:
        step, baked, kw = UND, (), {}
    else:
        baked, keywords = SHAPES[shape]
        step, _ = partial_like(I, st, baked, keywords)
        baked, kw = baked or (), {"k": KV, "w": KW} if keywords else {}
    steps = I.mkdict(st, [("kv", C("m"), step)])
    if how == "constructor":
        d = I.mkdict(st, [("kv", C("m"), I.mkdict(st, [("kv", C(k), v) for k, v in ins]))])
        ob, st = build(c, I, st, steps=steps, inserts=d)
    else:
        ob, st = build(c, I, st, steps=steps)
        for k, v in ins:
            _, st = call1(c, I, ob, "add_insert", [C("m"), C(k), v], [], st)
    args = expect_args(baked, ins, SIG)
    kw = {**kw, **{k: v for k, v in ins if isinstance(k, str)}}
    check_step(c, I, ob, st, UND, args, kw, "inserts {" + ", ".join(
        f"{k!r}: {show(v)}" for k, v in ins) + "}")


def check_step(c, I, ob, st, fn, args, kw, what):
    n = len(st.events())
    for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
        evs = after(s, n)
        loc = loc_m(c, "call_step")
        cs = user_calls(evs, {fn})
        if k != "return":
            if not cs and is_app(v, "exc"):
                c.bad(f"{what}", "inserts", loc, f"with {what} executing raises {exc_kind(v)}", evs)
                continue
            raise Undecided("path", exc_kind(v))
        if len(cs) != 1:
            if any(e[0] == "call" for e in evs) and not cs:
                e = next(e for e in evs if e[0] == "call")
                c.bad(f"{what}: underlying function", "inserts", loc_of(e),
                      f"with {what} the step calls {show(e[1])} instead of its underlying "
                      f"function", evs)
                continue
            raise Undecided(what, f"{len(cs)} calls of the underlying function")
        e = cs[0]
        if any(opaque_parts(x) for x in e[2]) or any(
                k2 == "**" for k2, _ in e[3]) or any(x[0] == "*" for x in e[2]):
            raise Undecided(what, show(e[4]))
        c.must(e[2] == args, f"{what}: positional arguments", "inserts", loc_of(e),
               f"with {what} the step's function gets {show(('t', e[2]))} instead of "
               f"{show(('t', args))}", evs)
        c.must(dict(e[3]) == kw, f"{what}: keyword arguments", "inserts", loc_of(e),
               f"with {what} the step's function gets keywords {show_kw(dict(e[3]))} instead of "
               f"{show_kw(kw)}", evs)
        c.must(v == e[4], f"{what}: result", "inserts", loc, f"returns {show(v)}")


# ------------------------------------------------------------------ P04
REPORT = S("exc_report")


def tracker_interp(c, fail, kinds, **kw):
    def hook(I, fv, args, kws, st, n, fid):
        d = I.mkdict(st, [("kv", C("exception"), A("report", args[0] if args else NONE))])
        return [(d, st)]
    rep = c.repo.func("dynamic.exc_report").qual
    return c.interp(kinds=kinds, hooks={rep: hook}, raises=fail, **kw)


@prop("P04", "Exceptional-path analysis of execute: every step and send may raise (an arbitrary "
             "exception, KeyboardInterrupt or SystemExit); each path's outcome and its calls to "
             "the tracker.")
def p04(c):
    c.rule("failures", "on a path where a step or send raised e: e itself leaves execute unless "
           "optional is True and e is an Exception, and then None is returned; no later step runs; "
           "with a tracker exactly one failure record is made, for the step that failed")
    TR = S("tracker")
    pipe = S("a_pipe")
    for optional in (False, True):
        for tracked in (False, True):
            with c.group(f"optional={optional}, {'tracked' if tracked else 'untracked'}"):
                def fail(kind, fv):
                    if fv in (F, G, H, pipe):
                        return ("E", "KeyboardInterrupt", "SystemExit")
                    return ()
                I = tracker_interp(c, fail, funcs(F, G, H, pipe))
                st = St()
                st.facts[cmp_is(TR, NONE)] = False
                st.facts[cmp_is(pipe, NONE)] = False
                st.facts[A("truthy", TR)] = True
                ob, st = build(c, I, st, steps=steps3(I, st, (F, G, H)), optional=C(optional),
                               tracker=TR if tracked else NONE, sends=I.mkdict(st, [
                                   ("kv", NAMES[1], I.mklist(st, [("1", T(pipe, NONE, NONE))]))]))
                n = len(st.events())
                loc = loc_m(c, "execute")
                order = {F: 0, G: 1, H: 2, pipe: 1}
                byix = [F, G, H]
                for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
                    evs = after(s, n)
                    fails = [e for e in evs if e[0] == "raise" and is_app(e[1], "uexc")]
                    recs = [e for e in evs if e[0] == "call" and is_app(e[1], "attr")
                            and e[1][2] == TR and any(is_app(x, "report")
                                                      for x in subterms(e))]
                    if not fails:
                        if k != "return" or v == NONE:
                            raise Undecided("path", show(v))
                        if recs:
                            c.bad("success", "failures", loc, "a success is recorded as a failure")
                        else:
                            c.ok("success is not recorded as failure")
                        continue
                    ex = fails[0][1]
                    ix = order[ex[4]]
                    late = [e for e in evs[evs.index(fails[0]):] if e[0] == "call"
                            and e[1] in (F, G, H, pipe)]
                    if late:
                        c.bad("nothing runs after a failure", "failures", loc,
                              f"{show(late[0][1])} is called after {show(ex[4])} raised", evs)
                    hard = ex[2] in ("KeyboardInterrupt", "SystemExit")
                    what = f"{'interrupt' if hard else 'exception'} in " + (
                        "a send" if ex[4] == pipe else f"step {ix + 1}")
                    if hard or not optional:
                        c.must(k == "raise" and v == ex, f"{what} reaches the caller", "failures",
                               loc, f"an {what} is " + (
                                   f"swallowed (returns {show(v)})" if k == "return" else
                                   f"replaced by {exc_kind(v)}")
                               + f" with optional={optional}", evs)
                    else:
                        c.must(k == "return" and v == NONE, f"{what} is hidden", "failures", loc,
                               f"with optional=True an {what} makes execute " + (
                                   f"return {show(v)}" if k == "return" else "raise"), evs)
                    if tracked and not hard:
                        if len(recs) != 1:
                            c.bad(f"{what} recorded once", "failures", loc,
                                  f"an {what} is recorded {len(recs)} times", evs)
                            continue
                        who = [a for a in recs[0][2] if a in byix] + [
                            a for _, a in recs[0][3] if a in byix]
                        names = [a for a in recs[0][2] if a in NAMES]
                        c.must(who[0] == byix[ix] if who else (False if names else None),
                               f"{what} recorded against its step", "failures", loc_of(recs[0]),
                               f"an {what} is recorded against "
                               f"{'step %d' % (byix.index(who[0]) + 1) if who else '?'}", evs)


# ------------------------------------------------------------------ P05
@prop("P05", "Effect analysis of execute: the abstract heap of the steps, send table, inserts and "
             "baked arguments before and after, and the calls of a second execution.")
def p05(c):
    c.rule("no editing", "after every path of execute the step mapping, send table, inserts (other "
           "than those aimed at by sends) and the baked args/keywords of partial-like steps hold "
           "the same terms as before, and a second execution makes the same calls")
    kinds = {**funcs(UND, F, P1), TL: "list"}
    for nm, ins in (("no inserts", ()), ("positional inserts", ((1, X_),)),
                    ("keyword inserts", (("k", X_), ("n", Y_))),
                    ("both kinds of inserts", ((0, X_), ("n", Y_)))):
        for plain in (False, True):
            with c.group(f"{nm}, {'plain' if plain else 'partial-like'} step"):
                I = c.interp(kinds=kinds)
                st = St()
                st.facts[cmp_is(P1, NONE)] = False
                baked = None
                if plain:
                    step = UND
                else:
                    step, baked = partial_like(I, st)
                steps = I.mkdict(st, [("kv", C("m"), step), ("kv", C("b"), F)])
                sends = I.mkdict(st, [("kv", C("m"), I.mklist(st, [("1", T(P1, NONE, NONE))]))])
                d = I.mkdict(st, [("kv", C("m"), I.mkdict(st, [("kv", C(k), v) for k, v in ins]))])
                ob, st = build(c, I, st, steps=steps, sends=sends, inserts=d)
                n = len(st.events())
                attrs = ("steps", "sends", "inserts")

                def snap(s):
                    o = s.heap[ob[1]]
                    r = {a: norm_d(I.freeze(o.attrs[a], s)) for a in attrs}
                    if baked is not None:
                        r["the step's baked keywords"] = norm_d(I.freeze(baked, s))
                        so = s.heap[step[1]].attrs
                        r["the step's baked arguments"] = norm_d(I.freeze(so["args"], s))
                        r["the step's function"] = I.freeze(so["func"], s)
                    return r
                before = snap(st)
                muts = []
                for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
                    if k != "return":
                        raise Undecided("path", exc_kind(v))
                    loc = loc_m(c, "execute")
                    aft = snap(s)
                    for a in before:
                        if aft[a] != before[a]:
                            ev = [e for e in after(s, n) if e[0] in ("hset", "setattr", "mut")]
                            c.bad(f"{a} unchanged", "no editing", loc_of(ev[-1]) if ev else loc,
                                  f"executing changes {a}: {show(before[a])} becomes "
                                  f"{show(aft[a])}"[:300], after(s, n))
                        else:
                            c.ok(f"{a} unchanged")
                    calls1 = sig_calls(after(s, n))
                    n2 = len(s.events())
                    for k2, v2, s2 in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], s):
                        if k2 != "return":
                            c.bad("second execution", "no editing", loc,
                                  f"a second execution raises {exc_kind(v2)}", after(s2, n2))
                            continue
                        calls2 = sig_calls(after(s2, n2))
                        if calls1 != calls2 and any(opaque_parts(x) for x in calls1 + calls2):
                            raise Undecided("second execution", "calls not fully known")
                        if calls1 != calls2:
                            d2 = [(x, y) for x, y in zip(calls1 + [None], calls2 + [None])
                                  if x != y][:1]
                            c.bad("second execution", "no editing", loc,
                                  "a second execution does not make the same calls"
                                  + (f": {show(d2[0][1]) if d2[0][1] else 'fewer'}" if d2 else ""),
                                  after(s2, n2))
                        else:
                            c.ok("a second execution makes the same calls")
    with c.group("sends into steps"):
        I = c.interp(kinds=funcs(F, G))
        st = St()
        ob, st = build(c, I, st, steps=steps3(I, st), inserts=I.mkdict(st, [
            ("kv", NAMES[1], I.mkdict(st, [("kv", C("other"), X_)]))]))
        _, st = call1(c, I, ob, "add_insert", [NAMES[1], C("kw"), Y_], [], st)
        _, st = call1(c, I, ob, "add_send", [NAMES[0]], [("target", NAMES[1]),
                                                         ("pointer", C("kw"))], st)
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            out1 = user_calls(s.events(), {F})[0][4]
            got = norm_d(I.freeze(s.heap[ob[1]].attrs["inserts"], s))
            want = ("d", ((NAMES[1], ("d", ((C("kw"), out1), (C("other"), X_)))),))
            got2 = tuple(sorted(((k2, ("d", tuple(sorted(v2[1], key=repr)))) if v2[0] == "d"
                                 else (k2, v2) for k2, v2 in got[1]), key=repr)) \
                if got[0] == "d" else got
            c.must(got2 == tuple(want[1]), "a send into a step changes only that insert",
                   "no editing", loc_m(c, "place_into"),
                   f"after a send into a step the inserts are {show(got)}"[:300])


def norm_d(t):
    """a frozen container with later dict entries folded over earlier ones"""
    if is_app(t, "dict"):
        d = {}
        for p in t[2]:
            if p[0] == "kv":
                d[p[1]] = norm_d(p[2])
            elif p[0] == "del":
                d.pop(p[1], None)
            else:
                return t
        return ("d", tuple(d.items()))
    if is_app(t, "list") and all(p[0] == "1" for p in t[2]):
        return A("list", tuple(("1", norm_d(p[1])) for p in t[2]))
    return t


def sig_calls(evs):
    user_calls(evs, {UND, F, P1})
    return [strip_ids(e[4]) for e in evs if e[0] == "call" and e[1] in (UND, F, P1)]


# ------------------------------------------------------------------ P06
@prop("P06", "Value-flow and effect analysis of tracked against untracked pipelines: the send table "
             "after construction, add_step and track, and the calls of an execution.")
def p06(c):
    c.rule("passive", "with a tracker each step has exactly one more send, with a pipe and no "
           "target, and executing makes the same step calls and returns the same term while "
           "recording each step once, under its own name and function, in step order; without a "
           "tracker, or when already tracked, nothing is added")
    TR = S("tracker")
    kinds = funcs(F, G, H)

    def table(I, s, ob):
        t = norm_d(I.freeze(s.heap[ob[1]].attrs["sends"], s))
        if t[0] != "d":
            raise Undecided("send table", show(t))
        return {k: parts(v) for k, v in t[1]}

    def tracks(evs):
        for e in evs:
            if e[0] == "loop" and any(x[0] == "call" and is_app(x[1], "attr") and x[1][2] == TR
                                      for x in flat([e])):
                raise Undecided("tracking", "in a loop that is not unrolled")
        return [e for e in evs if e[0] == "call" and is_app(e[1], "attr") and e[1][2] == TR
                and e[1][3] == "track"]
    with c.group("tracked"):
        I = c.interp(kinds=kinds)
        st = St()
        st.facts[cmp_is(TR, NONE)] = False
        st.facts[A("truthy", TR)] = True
        ob, st = build(c, I, st, steps=I.mkdict(st, [("kv", NAMES[0], F), ("kv", NAMES[1], G)]),
                       tracker=TR)
        _, st = call1(c, I, ob, "add_step", [H, NAMES[2]], [], st)
        loc = loc_m(c, "__init__")
        tb = table(I, st, ob)
        for nm in NAMES:
            ps = tb.get(nm)
            if not ps:
                c.bad("every step tracked", "passive",
                      loc_m(c, "add_step") if nm == NAMES[2] else loc,
                      "a step added later is not tracked" if nm == NAMES[2] else
                      "a step is not tracked")
                continue
            c.must(len(ps) == 1, "one send per step", "passive", loc,
                   f"{len(ps)} sends are added to one step")
            it = parts(ps[0][1]) if ps[0][0] == "1" else None
            if it is None or len(it) != 3:
                raise Undecided("send", show(ps[0]))
            c.must(it[1][1] == NONE, "feeds nothing back", "passive", loc,
                   f"the tracking send places its result at {show(it[1][1])}")
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            evs = after(s, n)
            r = thread(c, "tracked", evs, (F, G, H), loc_m(c, "execute"), final=v)
            tr = tracks(evs)
            got = [[a for a in e[2] if a in (F, G, H)] + [a for _, a in e[3] if a in NAMES]
                   for e in tr]
            want = [[f, nm] for f, nm in zip((F, G, H), NAMES)]
            if got != want:
                if len(tr) != 3:
                    msg = f"executing three tracked steps records {len(tr)} times"
                else:
                    msg = "steps are recorded as " + "; ".join(
                        ", ".join(map(show, g)) for g in got)
                c.bad("each step recorded once", "passive", loc, msg, evs)
            else:
                c.ok("each step is recorded once, as itself, in order")
            fed = [e for e in tr if any(x in r for x in subterms((e[2], e[3])))] if r else []
            c.must(not fed, "only the step is recorded", "passive", loc_of(fed[0]) if fed else loc,
                   "the tracker is handed the pipeline's state along with the step", evs)
            outs = [e for e in evs if e[0] == "call" and e[1] not in (F, G, H) and not (
                is_app(e[1], "attr") and e[1][2] == TR)]
            c.ok("nothing else is called") if not outs else c.und("calls", show(outs[0][1]))
        # track() again changes nothing
        for k, v, s in c.runv(I, meth(c, I, ob, "track"), [], [], st.fork()):
            c.must(table(I, s, ob) == tb and s.heap[ob[1]].attrs.get("tracker") == TR,
                   "tracking twice", "passive", loc_m(c, "track"),
                   "asking a tracked pipeline to track changes its tracker or sends")
            asked = [e for e in after(s, len(st.events())) if e[0] == "call" and is_app(e[1], "attr")
                     and e[1][2] == TR]
            c.must(not asked, "tracking twice does nothing", "passive", loc_of(asked[0]) if asked else loc,
                   "asking a tracked pipeline to track calls " + (show(asked[0][1]) if asked else ""))
    with c.group("steps that have sends already"):
        I = c.interp(kinds=kinds)
        st = St()
        st.facts[cmp_is(TR, NONE)] = False
        st.facts[A("truthy", TR)] = True
        send, later = (I.mklist(st, [("1", T(p, NONE, NONE))]) for p in (P1, P2))
        ob, st = build(c, I, st, steps=I.mkdict(st, [("kv", NAMES[0], F), ("kv", NAMES[1], G)]),
                       sends=I.mkdict(st, [("kv", NAMES[1], send), ("kv", NAMES[2], later)]), tracker=TR)
        _, st = call1(c, I, ob, "add_step", [H, NAMES[2]], [], st)
        n = len(st.events())
        for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
            if k != "return":
                raise Undecided("path", exc_kind(v))
            c.must(len(tracks(after(s, n))) == 3, "each step recorded once", "passive", loc_m(c, "_add_track_send") if
                   f"dustgoggles.{CLS}._add_track_send" in c.repo.funcs else loc_m(c, "__init__"),
                   f"of three steps, two with sends of their own, {len(tracks(after(s, n)))} are recorded", after(s, n))
    with c.group("untracked"):
        def made(I_, fv, args, kws, s, n, fid):
            s.facts[cmp_is(TR, NONE)] = False
            return [(TR, s)]
        I = c.interp(kinds=kinds, hooks={c.repo.cls("tracker.Tracker").qual: made})
        st = St()
        ob, st = build(c, I, st, steps=I.mkdict(st, [("kv", NAMES[0], F), ("kv", NAMES[1], G)]))
        _, st = call1(c, I, ob, "add_step", [H, NAMES[2]], [], st)
        tb = table(I, st, ob)
        c.must(not any(tb.values()), "no send without a tracker", "passive", loc_m(c, "__init__"),
               "sends are added though there is no tracker")
        for k, v, s in c.runv(I, meth(c, I, ob, "track"), [], [], st):
            if k != "return":
                raise Undecided("track", exc_kind(v))
            tb = table(I, s, ob)
            c.must(all(len(tb.get(nm) or ()) == 1 for nm in NAMES), "track() tracks every step",
                   "passive", loc_m(c, "track"), "track() does not add one send to every step")
            c.must(s.heap[ob[1]].attrs.get("tracker") == TR, "track() makes a tracker", "passive",
                   loc_m(c, "track"), "track() does not attach a new tracker")
            n = len(s.events())
            for k2, v2, s2 in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], s):
                if k2 != "return":
                    raise Undecided("path", exc_kind(v2))
                thread(c, "tracked later", after(s2, n), (F, G, H), loc_m(c, "execute"), final=v2)
                c.must(len(tracks(after(s2, n))) == 3, "each step recorded once", "passive",
                       loc_m(c, "track"), "executing after track() does not record each step once")


# ------------------------------------------------------------------ P07
def table(I, ob, s, name):
    """{key: value} of one of a composition's mappings, in order; None when not known exactly"""
    t = peek(I, ob, s, name)
    ps = parts(t) if is_app(t, "dict") else None
    if ps is None or any(p[0] not in ("kv", "del") for p in ps):
        raise Undecided(name, show(t)[:100])
    d = {}
    for p in ps:
        if p[0] == "kv":
            d[p[1]] = p[2]
        else:
            d.pop(p[1], None)
    return d


def entries(t):
    ps = parts(t)
    if ps is None or any(p[0] != "1" for p in ps):
        raise Undecided("sends", show(t)[:100])
    return [p[1] for p in ps]


@prop("P07", "Pre/post analysis of every operation that builds or inspects a pipeline: the step, send and insert "
             "tables before and after, on a pipeline that has some of each, and what an execution then does.")
def p07(c):
    c.rule("only what was named", "an operation changes the named step's entry as documented and every other entry of "
           "every table, and their order, stays as it was")
    c.rule("refused", "a send with neither pipe nor target raises ValueError and changes nothing")
    c.rule("captures", "each step's own capture holds that step's latest output")
    c.rule("names", "reindexing keeps the steps' order under 0, 1, ...; the index properties list names in order; a "
           "pipeline without a name is given one, and its tracker is given the pipeline's")
    c.rule("runtime keywords", "the subclass hook receives the keywords of an execution once, before the first step")
    P1, P2, L, L2 = S("pipe_one"), S("pipe_two"), S("target_one"), S("target_two")
    V1, V2, OLD = S("value_one"), S("value_two"), S("old_value")
    M, A0, Z, NEW = C("m"), C("a"), C(0), C("new")
    LATER = C("later")
    kinds = {**funcs(F, G, H, P1, P2), L: "list", L2: "list", V1: "object", V2: "object", OLD: "object"}
    TABLES = ("steps", "sends", "inserts")

    def start(fixed=False, **kw):
        I = c.interp(kinds=kinds)
        st = St()
        one = T(P1, L, NONE)
        d = dict(steps=steps3(I, st), sends=I.mkdict(st, [("kv", M, T(one) if fixed else I.mklist(st, [("1", one)])),
                                    ("kv", LATER, I.mklist(st, [("1", one)]))]),
                 inserts=I.mkdict(st, [("kv", A0, I.mkdict(st, [("kv", C("k"), OLD), ("kv", C(1), OLD)])),
                                      ("kv", M, I.mkdict(st, [("kv", C("k"), OLD)])),
                                      ("kv", LATER, I.mkdict(st, [("kv", C("k"), OLD)]))]))
        d.update(kw)
        ob, st = build(c, I, st, **{k: v for k, v in d.items() if v is not None})
        return I, ob, st

    def snapshot(I, ob, s):
        return {t: table(I, ob, s, t) for t in TABLES}

    def same(what, b, a, rule, loc, evs, skip=()):
        for t in TABLES:
            if t in skip:
                continue
            c.must(list(b[t].items()) == list(a[t].items()), f"{what}: {t} as before", rule, loc,
                   f"{what} changes the {t} from {show_table(b[t])} to {show_table(a[t])}", evs)

    def show_table(d):
        return "{" + ", ".join(f"{show(k)}: {show(v)[:40]}" for k, v in d.items()) + "}"
    # ---- steps
    for what, args, kws, want in (
            ("adding a step", [H, NEW], [], {M: F, Z: G, A0: F, NEW: H}),
            ("adding a step by keyword", [H], [("name", NEW)], {M: F, Z: G, A0: F, NEW: H}),
            ("replacing a step", [H, Z], [], {M: F, Z: H, A0: F}),
            ("replacing the first step", [H, M], [], {M: H, Z: G, A0: F}),
            ("replacing the last step", [H, A0], [], {M: F, Z: G, A0: H}),
            ("adding a step without a name", [H], [], {M: F, Z: G, A0: F, C(4): H})):
        with c.group(what):
            I, ob, st = start()
            b = snapshot(I, ob, st)
            n = len(st.events())
            loc = loc_m(c, "add_step")
            for k, v, s in c.runv(I, meth(c, I, ob, "add_step"), args, kws, st):
                if k != "return":
                    c.bad(what, "only what was named", loc, f"{what} raises {exc_kind(v)}", after(s, n))
                    continue
                a = snapshot(I, ob, s)
                c.must(list(a["steps"].items()) == list(want.items()), what, "only what was named", loc,
                       f"{what} makes the steps {show_table(a['steps'])} instead of {show_table(want)}", after(s, n))
                same(what, b, a, "only what was named", loc, after(s, n), skip=("steps",))
    # ---- sends
    for what, step, args, kws, want, fresh in (
            ("adding a send to a step whose sends are a tuple", M, [], [("pipe", P2), ("target", L2)], T(P2, L2, NONE), False),
            ("adding a send to a step that has one", M, [], [("pipe", P2), ("target", L2)], T(P2, L2, NONE), False),
            ("adding a send to a step without any", Z, [P2], [], T(P2, NONE, NONE), True),
            ("adding another send to a later step", LATER, [P2], [], T(P2, NONE, NONE), False),
            ("adding a send to a later step", NEW, [P2, L2], [("pointer", C(0))], T(P2, L2, C(0)), True),
            ("adding a send with a target only", A0, [], [("target", L2), ("pointer", C("x"))], T(NONE, L2, C("x")), True)):
        with c.group(what):
            I, ob, st = start("tuple" in what)
            b = snapshot(I, ob, st)
            n = len(st.events())
            loc = loc_m(c, "add_send")
            for k, v, s in c.runv(I, meth(c, I, ob, "add_send"), [step] + args, kws, st):
                if k != "return":
                    c.bad(what, "only what was named", loc, f"{what} raises {exc_kind(v)}", after(s, n))
                    continue
                a = snapshot(I, ob, s)
                same(what, b, a, "only what was named", loc, after(s, n), skip=("sends",))
                rest = {x: y for x, y in a["sends"].items() if x != step}
                c.must(rest == {x: y for x, y in b["sends"].items() if x != step}, f"{what}: other sends",
                       "only what was named", loc, f"{what} changes the sends of other steps to {show_table(rest)}",
                       after(s, n))
                if step not in a["sends"]:
                    c.bad(what, "only what was named", loc, f"{what} adds none", after(s, n))
                    continue
                es = entries(a["sends"][step])
                before = [] if fresh else entries(b["sends"][step])
                if es == before + [want]:
                    c.ok(what)
                    continue
                if len(es) == len(before) + 1 and es[:-1] == before and es[-1][0] != "t":
                    raise Undecided(what, show(es[-1])[:100])
                c.bad(what, "only what was named", loc, f"{what} leaves {', '.join(map(show, es))[:160]}", after(s, n))
    for step in (M, Z, NEW):
        with c.group(f"a send of nothing after {show(step)}"):
            I, ob, st = start()
            b = snapshot(I, ob, st)
            n = len(st.events())
            loc = loc_m(c, "add_send")
            for kws in ([], [("pipe", NONE), ("target", NONE)], [("pointer", C(0))]):
                for k, v, s in c.runv(I, meth(c, I, ob, "add_send"), [step], kws, st.fork()):
                    c.must(k == "raise" and exc_kind(v).endswith("ValueError"), "refused", "refused", loc,
                           "a send with neither pipe nor target " + (
                               "is accepted" if k == "return" else f"raises {exc_kind(v)}"), after(s, n))
                    if k == "raise":
                        same("a refused send", b, snapshot(I, ob, s), "refused", loc, after(s, n))
    # ---- inserts
    for what, step, key, want in (
            ("a new insert of a step that has some", A0, C("x"), {C("k"): OLD, C(1): OLD, C("x"): V1}),
            ("a positional insert", A0, C(0), {C("k"): OLD, C(1): OLD, C(0): V1}),
            ("replacing an insert", A0, C("k"), {C("k"): V1, C(1): OLD}),
            ("another insert for a later step", LATER, C("x"), {C("k"): OLD, C("x"): V1}),
            ("the first insert of a step", Z, C("k"), {C("k"): V1}),
            ("an insert for a later step", NEW, C(0), {C(0): V1})):
        for val in (V1, NONE):
            with c.group(f"{what}, {show(val)}"):
                I, ob, st = start()
                b = snapshot(I, ob, st)
                n = len(st.events())
                loc = loc_m(c, "add_insert")
                for k, v, s in c.runv(I, meth(c, I, ob, "add_insert"), [step, key, val], [], st):
                    if k != "return":
                        c.bad(what, "only what was named", loc, f"{what} raises {exc_kind(v)}", after(s, n))
                        continue
                    a = snapshot(I, ob, s)
                    same(what, b, a, "only what was named", loc, after(s, n), skip=("inserts",))
                    for x in b["inserts"]:
                        if x != step:
                            c.must(a["inserts"].get(x) == b["inserts"][x], f"{what}: other inserts",
                                   "only what was named", loc, f"{what} changes another step's inserts", after(s, n))
                    got = a["inserts"].get(step)
                    ps = parts(got) if got is not None and is_app(got, "dict") else None
                    if got is not None and (ps is None or any(p[0] != "kv" for p in ps)):
                        raise Undecided(what, show(got)[:100])
                    d = {p[1]: p[2] for p in ps or ()}
                    w = {x: val if y == V1 else y for x, y in want.items()}
                    c.must(d == w, what, "only what was named", loc,
                           f"{what} leaves the inserts {show_table(d)} instead of {show_table(w)}", after(s, n))
    # ---- captures
    def made(I, ob, name, args, st):
        outs = c.runv(I, meth(c, I, ob, name), args, [], st)
        for k, v, s in outs:
            if k != "return":
                c.bad(name, "captures", loc_m(c, name), f"{name} raises {exc_kind(v)}", s.events())
        return [s for k, v, s in outs if k == "return"]

    with c.group("captures of all steps"):
        I, ob, st = start(sends=None, inserts=None)
        loc = loc_m(c, "add_captures")
        sts = made(I, ob, "add_captures", [], st)
        for turn in (1, 2):
            nxt = []
            for k, v, s in [x for st in sts for x in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st)]:
                if k != "return":
                    c.bad("captures", "captures", loc, f"executing with captures raises {exc_kind(v)}", s.events())
                    continue
                calls = user_calls(s.events(), {F, G})[-3:]
                caps = table(I, ob, s, "captures")
                if len(calls) != 3:
                    raise Undecided("captures", f"{len(calls)} calls")
                if set(caps) != set(NAMES):
                    c.bad("one per step", "captures", loc, f"the steps captured are {list(map(show, caps))}", s.events())
                    continue
                for nm, e in zip(NAMES, calls):
                    got = entries(caps[nm])
                    if any(opaque_parts(x) and x != e[4] and not is_app(x, "call") for x in got):
                        raise Undecided("captures", show(caps[nm])[:100])
                    c.must(len(got) == 1 and got[0] == e[4], f"capture of {show(nm)}", "captures", loc,
                           f"the capture of {show(nm)} holds {', '.join(map(show, got))[:100]} instead of that step's "
                           "latest output", s.events())
                nxt.append(s)
            sts = nxt
    for given in (True, False):
        with c.group("one capture" + ("" if given else ", target None")):
            I, ob, st = start(sends=None, inserts=None)
            tgt = I.mklist(st, [("1", NONE)])
            loc = loc_m(c, "add_capture")
            b = snapshot(I, ob, st)
            sts = made(I, ob, "add_capture", [Z, tgt if given else NONE], st)
            if len(sts) != 1:
                raise Undecided("add_capture", f"{len(sts)} outcomes")
            st = sts[0]
            a = snapshot(I, ob, st)
            same("adding a capture", b, a, "only what was named", loc, [], skip=("sends",))
            c.must(list(a["sends"]) == [Z] and len(entries(a["sends"][Z])) == 1, "one send", "captures", loc,
                   f"a capture makes the sends {show_table(a['sends'])}")
            for k, v, s in c.runv(I, meth(c, I, ob, "execute"), [SIG], [], st):
                if k != "return":
                    c.bad("captured", "captures", loc, f"executing with a capture raises {exc_kind(v)}", s.events())
                    continue
                e = user_calls(s.events(), {F, G})[1:2]
                if given and e:
                    got = entries(I.freeze(tgt, s))
                    c.must(got == [e[0][4]], "captured", "captures", loc, "the capture's target holds "
                           f"{', '.join(map(show, got))[:100]} instead of its step's latest output", s.events())
    # ---- names
    with c.group("reindexing"):
        I, ob, st = start()
        loc = loc_m(c, "reindex")
        for k, v, s in c.runv(I, meth(c, I, ob, "reindex"), [], [], st):
            if k != "return":
                c.bad("reindexing", "names", loc, f"reindexing raises {exc_kind(v)}", s.events())
                continue
            a = table(I, ob, s, "steps")
            want = {C(0): F, C(1): G, C(2): F}
            c.must(list(a.items()) == list(want.items()), "reindexing", "names", loc,
                   f"reindexing makes the steps {show_table(a)} instead of {show_table(want)}", s.events())
    for prop_, want in (("index", T(*NAMES)), ("send_index", T(M, LATER)), ("insert_index", T(A0, M, LATER)),
                        ("function_names", A("list", tuple(("1", A("attr", x, "__name__")) for x in (F, G, F))))):
        with c.group(prop_):
            I, ob, st = start()
            got = peek(I, ob, st, prop_)
            ps, ws = parts(got), parts(want)
            if ps is None or any(p[0] != "1" for p in ps):
                if got[0] not in ("c", "t") and not is_app(got, "dict"):
                    raise Undecided(prop_, show(got)[:100])
            vals = [p[1] for p in ps] if ps is not None and all(p[0] == "1" for p in ps) else None
            c.must(vals == [p[1] for p in ws], prop_, "names", loc_m(c, "__init__"),
                   f"{prop_} is {show(got)[:100]} instead of {show(want)[:100]}")
    for given in (True, False):
        for tracked in (True, False):
            with c.group(f"name {'given' if given else 'left out'}{', tracked' if tracked else ''}"):
                nm = S("pipeline_name")
                I = c.interp(kinds={**kinds, S("tracker_given"): "object", nm: "str"})
                st = St()
                kws = {"steps": steps3(I, st)}
                if given:
                    kws["name"] = nm
                if tracked:
                    kws["tracker"] = S("tracker_given")
                ob, st = build(c, I, st, **kws)
                got = peek(I, ob, st, "name")
                loc = loc_m(c, "__init__")
                c.must(got == nm if given else (is_c(got) and isinstance(cval(got), str) and bool(cval(got))
                                                if is_c(got) else None), "name", "names", loc,
                       f"the pipeline's name is {show(got)}")
                if tracked:
                    sets = [e for e in flat(st.events()) if e[0] == "setattr" and e[1] == S("tracker_given")
                            and e[2] == "name"]
                    c.must(bool(sets) and sets[-1][3] == got, "the tracker's name", "names", loc,
                           "the tracker is not given the pipeline's name" if not sets else
                           f"the tracker is named {show(sets[-1][3])}")
    # ---- the hook for subclasses
    cq = c.repo.cls(CLS).qual
    hook = c.repo.funcs.get(f"{cq}._bind_special_runtime_kwargs")
    if hook is None:
        c.und("runtime keywords", "the hook for subclasses is not found under its name")
    for entry in () if hook is None else ("execute", "__call__", "itercall"):
        for kws in ([], [("special", V1), ("none", NONE)]):
            with c.group(f"{entry}({', '.join(['signal'] + [a for a, _ in kws])})"):
                seen = []

                def spy(I, fv, args, kw, st, n, fid):
                    st.ev("hook", I.freeze(args[-1], st) if args else A("dict", tuple(("kv", C(a), b) for a, b in kw)),
                          I.loc(n, fid))
                    return [(NONE, st)]
                I, ob, st = start()
                I.hooks[hook.qual] = spy
                n = len(st.events())
                loc = loc_m(c, entry)
                for k, v, s in c.runv(I, meth(c, I, ob, entry), [SIG], kws, st, consume=entry == "itercall"):
                    evs = after(s, n)
                    if k != "return":
                        c.bad("runs", "runtime keywords", loc, f"{entry} with keywords raises {exc_kind(v)}", evs)
                        continue
                    hs = [(i, e) for i, e in enumerate(evs) if e[0] == "hook"]
                    first = next((i for i, e in enumerate(evs) if e[0] == "call" and e[1] in (F, G)), len(evs))
                    c.must(len(hs) == 1 and hs[0][0] < first, "called once, first", "runtime keywords", loc,
                           f"the hook for runtime keywords is called {len(hs)} times" + (
                               ", after the first step" if hs and hs[0][0] > first else ""), evs)
                    if len(hs) == 1:
                        t = hs[0][1][1]
                        d = {p[1]: p[2] for p in parts(t) or ()} if is_app(t, "dict") else None
                        if d is None:
                            raise Undecided("runtime keywords", show(t)[:80])
                        c.must(d == {C(a): b for a, b in kws}, "given the keywords", "runtime keywords", loc,
                               f"the hook receives {show_table(d)}", evs)
