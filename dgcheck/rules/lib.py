"""Helpers shared by the rules."""
from ..terms import *
from ..state import St, decide, Obj, Seg, type_rel
from ..interp import Interp, Unsupported, flat
from ..core import Undecided
from .. import models as M


def strip_ids(t):
    """forget call identities: repeated calls with equal arguments agree"""
    if not isinstance(t, tuple):
        return t
    if t[:2] == ("a", "call") and len(t) == 6:
        t = t[:5]
    return tuple(strip_ids(x) for x in t)


def parts(t):
    """parts of a frozen list/dict/set/tuple term, or None"""
    if t[0] == "t":
        return tuple(("1", x) for x in t[1])
    if is_app(t) and t[1] in ("list", "dict", "set", "tuple"):
        return t[2]
    return None


def variants(part):
    """[(facts dict, items)] of one part of an accumulated container"""
    if part[0] == "many":
        return [(dict(c), ps) for c, ps in part[2]]
    return [({}, (part,))]


def src_of(part):
    return part[1] if part[0] in ("many", "*") else None


def compat(*dicts):
    """union of fact sets, or None when they contradict"""
    out = {}
    for d in dicts:
        for a, v in d.items():
            r = decide(a, out)
            if r is None:
                out[a] = v
            elif r != v:
                return None
    # re-check earlier atoms against the full set
    for a, v in list(out.items()):
        rest = {x: y for x, y in out.items() if x != a}
        r = decide(a, rest)
        if r is not None and r != v:
            return None
    return out


def holds(atom, facts):
    return decide(atom, facts)


def is_call_to(t, f):
    return is_app(t, "call") and t[2] == f


def opaque_parts(t):
    """subterms whose meaning the engine does not know"""
    return [s for s in subterms(t) if is_app(s) and s[1] in (
        "phi", "unknown", "again", "rest", "unbound", "kwor", "at")] + [
        s for s in subterms(t) if s and s[0] in ("acc", "reset")]


def ext_calls(t):
    return [s for s in subterms(t) if is_app(s, "call") and s[2][0] in ("x", "a")]


def atom_polarity(facts, call):
    """+1 if facts say call's result is true, -1 false, 0 unknown"""
    for a, v in facts.items():
        n = a
        if is_app(n, "not"):
            n, v = n[2], not v
        if is_app(n, "truthy") and n[2] == call:
            return 1 if v else -1
        if is_app(n) and n[1] in ("is", "eq") and call in n[2:]:
            other = n[3] if n[2] == call else n[2]
            if other == TRUE:
                return 1 if v else -1
            if other == FALSE:
                return -1 if v else 1
    return 0


def segs(events, kinds=None, loops=True):
    return [e for e in flat(events, loops) if kinds is None or e[0] in kinds]


def loc_of(e):
    return next((x for x in reversed(e) if isinstance(x, tuple) and len(x) == 3
                 and isinstance(x[0], str) and x[0].endswith(".py")), ("?", 0, "?"))


def fn_loc(repo, qual):
    f = repo.func(qual)
    return (f.mod.name.replace(".", "/") + ".py", f.node.lineno, f.qual)


def linear(events):
    """the event list with every summarised loop replaced by its marker; yields
    (event, depth, enclosing loop events)"""
    for e in events:
        yield e


def body_paths(loop):
    """[(kind, facts, events, updates, value)] of a summarised loop"""
    return [(k, dict(c), list(seg), u, v) for k, c, seg, u, v in loop[3]]


def loops_over(events, src):
    return [e for e in flat(events) if e[0] == "loop" and e[2] == src]


def exc_kind(v):
    """('exc', name) raised by the code itself, ('uexc', kind) injected"""
    if is_app(v, "exc"):
        return v[2]
    if is_app(v, "uexc"):
        return "user:" + str(v[2])
    return "?"


def peek(I, ob, s, name):
    """frozen value of an object's attribute (class attributes included)"""
    outs = I.get_attr(ob, name, s.fork(), None, None)
    if not outs:
        return A("missing")
    if len(outs) != 1:
        raise Undecided(name, "attribute")
    return I.freeze(outs[0][0], outs[0][1])


def mentions(t, x):
    return any(s == x for s in subterms(t))
