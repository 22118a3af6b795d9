"""finite worlds for the dig functions, dig_and_edit and rmerge (S02, S03, S04): the functions are interpreted
abstractly over small trees of mappings with opaque predicates and setters given as tables, and the outcome is
compared with what the property says of that tree"""
from .lib import *

TREES = (
    {},
    {"a": 1},
    {"a": 1, "b": 2},
    {"x": {"a": 1}, "y": {"a": 1}},
    {"a": {"a": {"a": 3}, "b": 1}, "b": {"c": 2}},
    {"x": {}, "y": {"b": 2}, "z": {"a": 0}},
    {"x": {"b": 1}, "y": {"c": {"d": 3}}, "z": {"b": {"a": None}}, "w": {"c": 4}},
    {"a": "b", "b": {"c": "a", "a": {"b": "c"}}, "c": 2},
    {"x": {"y": {"z": {"a": 1}}}, "b": 1},
    {"a": None, "b": {"a": 0, "c": {"a": ""}}},
    {1: {"a": 2, 2: {"b": 1}}, 0: 1, "": {"": 0}},
)


def build(I, st, t):
    if isinstance(t, dict):
        return I.mkdict(st, tuple(("kv", C(k), build(I, st, v)) for k, v in t.items()))
    return C(t)


def tree_of(t):
    """python value of a frozen term, or None and False when it is not known exactly"""
    if is_c(t):
        return cval(t), True
    ps = parts(t) if is_app(t, "dict") else None
    if ps is None:
        if t[0] == "t":
            vs = [tree_of(x) for x in t[1]]
            return tuple(v for v, _ in vs), all(b for _, b in vs)
        return None, False
    out = {}
    for p in ps:
        if p[0] != "kv" or not is_c(p[1]):
            return None, False
        v, good = tree_of(p[2])
        if not good:
            return None, False
        out[cval(p[1])] = v
    return out, True


def walk(t):
    for k, v in t.items():
        yield k, v
    for v in t.values():
        if isinstance(v, dict):
            yield from walk(v)


PREDS = (
    ("items under 'a'", lambda k, v: k == "a"),
    ("values that are 1", lambda k, v: type(v) is int and v == 1),
    ("everything", lambda k, v: True),
    ("nothing", lambda k, v: False),
    ("mappings", lambda k, v: isinstance(v, dict)),
    ("false values", lambda k, v: not v),
)


def table(fn, conv=lambda I, st, x: C(x)):
    """an external function given by a python function of known terms"""
    def h(I, args, kws, st, n, fid):
        if len(args) == 1 and args[0][0] == "t":
            args = list(args[0][1])
        vs = [tree_of(I.freeze(a, st)) for a in args]
        if kws or len(vs) != 2 or not all(b for _, b in vs):
            raise Undecided("world", "the function is called with unknown arguments")
        return [(conv(I, st, fn(*[v for v, _ in vs])), st)]
    return h


def only(c, I, *a):
    """the outcome of a run in which everything is known; several mean that something was not"""
    outs = c.run(I, *a)
    if len(outs) != 1:
        raise Undecided("worlds", "the outcome depends on something that was not modelled")
    return outs


def key(x):
    return repr(x)


def digs(c):
    for name, ix, every in (("dig_for_values", 1, True), ("dig_for_keys", 0, True), ("dig_for_items", None, True),
                            ("dig_for_value", 1, False), ("dig_for_key", 0, False),
                            ("dig_for_item", None, False)):
        loc = fn_loc(c.repo, "structures." + name)
        with c.group(f"{name}, small worlds"):
            for t in TREES:
                for what, pred in PREDS + (("the key 'a'", "a"), ("the value 1", 1)):
                    I = c.interp(ext={"test.pred": table(pred)}, kinds={X("test.pred"): "FunctionType"}) if callable(pred) else c.interp()
                    I.rec_opaque = False
                    st = St()
                    kws = [("match", C("value"))] if pred == 1 else []
                    ref = X("test.pred") if callable(pred) else C(pred)
                    test = pred if callable(pred) else PREDS[0][1] if pred == "a" else PREDS[1][1]
                    want = [(k, v) if ix is None else (k, v)[ix] for k, v in walk(t) if test(k, v)]
                    for k, v, s in only(c, I, "structures." + name, [build(I, st, t), ref], kws, st):
                        if k != "return":
                            c.bad("worlds", "dig", loc, f"digging for {what} in {t} raises {exc_kind(v)}", s.events())
                            continue
                        fr = I.freeze(v, s)
                        if not every:
                            got, good = tree_of(fr)
                            if not good:
                                raise Undecided("worlds", show(fr)[:80])
                            # a match that is itself None cannot be told from no match by value
                            c.must(key(got) in map(key, want) if want else got is None, "worlds", "dig", loc,
                                   f"digging for {what} in {t} gives {got!r}" + (
                                       ", which is no match" if want else ", and there is no match"), s.events())
                            continue
                        if fr == NONE:
                            c.must(not want, "worlds", "dig", loc,
                                   f"digging for {what} in {t} finds nothing instead of {want}", s.events())
                            continue
                        ps = parts(fr)
                        if ps is None or not all(p[0] == "1" for p in ps):
                            raise Undecided("worlds", show(fr)[:80])
                        got = [tree_of(p[1]) for p in ps]
                        if not all(b for _, b in got):
                            raise Undecided("worlds", show(fr)[:80])
                        got = [g for g, _ in got]
                        c.must(sorted(map(key, got)) == sorted(map(key, want)) and want, "worlds", "dig", loc,
                               f"digging for {what} in {t} finds {got} instead of {want or None}", s.events())


def setter(k, v):
    if isinstance(v, dict):
        return {**v, "a": 1}
    return {"a": 1, "b": {"c": 2}} if v == 1 and k == "b" else f"{k}={v}"


def edited(t, test, depth=0):
    out = {k: setter(k, v) if test(k, v) else v for k, v in t.items()}
    if depth > 4:
        return None
    return {k: edited(v, test, depth + 1) if isinstance(v, dict) else v for k, v in out.items()}


def edits(c):
    loc = fn_loc(c.repo, "structures.dig_and_edit")
    with c.group("dig_and_edit, small worlds"):
        for t in TREES:
            for what, test in PREDS:
                I = c.interp(ext={"test.pred": table(test), "test.set": table(setter, build)},
                             kinds={X("test.pred"): "FunctionType", X("test.set"): "FunctionType"})
                I.rec_opaque = False
                st = St()
                d = build(I, st, t)
                want = edited(t, test)
                for k, v, s in only(c, I, "structures.dig_and_edit", [d, X("test.pred"), X("test.set")], [], st):
                    if k != "return":
                        c.bad("worlds", "edit", loc, f"editing {what} in {t} raises {exc_kind(v)}", s.events())
                        continue
                    got, good = tree_of(I.freeze(d, s))
                    if not good:
                        raise Undecided("worlds", show(I.freeze(d, s))[:80])
                    c.must(key(got) == key(want) or got == want and key(sorted(walk(got), key=key)) == key(
                        sorted(walk(want), key=key)), "worlds", "edit", loc,
                        f"editing {what} in {t} gives {got} instead of {want}", s.events())
                    c.must(v == d, "worlds", "edit", loc, "the mapping returned is not the one given", s.events())


MERGES = (
    ({}, {}), ({"a": 1}, {}), ({}, {"a": 1}), ({"a": 1}, {"a": 2}), ({"a": 1, "b": 2}, {"b": 3, "c": 4}),
    ({"a": {"x": 1}}, {"a": {"y": 2}}), ({"a": {"x": 1, "z": 5}}, {"a": {"x": 2}}),
    ({"a": {"x": 1}}, {"a": 2}), ({"a": 1}, {"a": {"x": 2}}), ({"a": {"x": 1}}, {"a": {}}),
    ({"a": {}}, {"a": {"x": 1}}), ({"a": {"x": 1}}, {"a": None}), ({"a": None}, {"a": {"x": 1}}),
    ({"a": 0, "b": ""}, {"b": 0, "a": None}), ({"a": 1}, {"a": 0}),
    ({"a": {"b": {"c": 1, "d": 2}, "e": 3}, "f": 4}, {"a": {"b": {"c": 5, "g": 6}, "e": {"h": 7}}, "i": {"j": 8}}),
    ({"a": {"b": {"c": {"d": 1}}}}, {"a": {"b": {"c": {"e": 2}}}}),
    ({"a": 1, "b": {"a": 1}}, {"b": {"b": 1}, "c": 2}), ({"a": {"a": 1}}, {"a": {"a": {"a": 2}}}),
    ({1: {"x": 1}, "": 2}, {1: {"": 3}, "": {}}),
)


def merged(a, b):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        if k in a and k in b:
            out[k] = merged(a[k], b[k]) if isinstance(a[k], dict) and isinstance(b[k], dict) else b[k]
        else:
            out[k] = a[k] if k in a else b[k]
    return out


def merges(c):
    loc = fn_loc(c.repo, "structures.rmerge")
    with c.group("rmerge, small worlds"):
        for a, b in MERGES:
            I = c.interp()
            I.rec_opaque = False
            st = St()
            want = merged(a, b)
            for k, v, s in only(c, I, "structures.rmerge", [build(I, st, a), build(I, st, b)], [], st):
                if k != "return":
                    c.bad("worlds", "merge", loc, f"merging {a} with {b} raises {exc_kind(v)}", s.events())
                    continue
                got, good = tree_of(I.freeze(v, s))
                if not good:
                    raise Undecided("worlds", show(I.freeze(v, s))[:80])
                c.must(got == want, "worlds", "merge", loc, f"merging {a} with {b} gives {got} instead of {want}",
                       s.events())
