"""Rules for dustgoggles.structures (S02-S09)."""
import ast
from . import prop
from .lib import *
from . import worlds

MOD = "dustgoggles.structures"


# ------------------------------------------------------------------ S05
def partition(c, hits, misses, src, call, loc, what):
    """hits/misses: parts of two lists that must partition src by call"""
    for nm, ps in (("first", hits), ("second", misses)):
        for p in ps:
            if p[0] in ("many", "*") and is_app(p[1], "reversed") and p[1][2] == src:
                c.bad(f"{what}: order", "partition", loc,
                      f"the {nm} result is built in reverse order")
                return
            if p[0] not in ("many", "*") or p[1] != src:
                raise Undecided(f"{what}: {nm} result", f"built from {show(p)}")
        if len(ps) > 1:
            raise Undecided(f"{what}: {nm} result", "built by several loops")
    hv = variants(hits[0]) if hits else [({}, ())]
    mv = variants(misses[0]) if misses else [({}, ())]
    elem = A("elem", src)
    n = 0
    for fh, ih in hv:
        for fm, im in mv:
            facts = compat(strip_ids_facts(fh), strip_ids_facts(fm))
            if facts is None:
                continue
            for it in ih + im:
                if it == ("*", src):
                    continue
                if it != ("1", elem):
                    if it[0] == "1" and not opaque_parts(it[1]):
                        c.bad(f"{what}: elements", "partition", loc,
                              f"a result holds {show(it[1])} instead of the element itself")
                        return
                    raise Undecided(f"{what}: elements", show(it))
            nh, nm = len(ih), len(im)
            if hits and hits[0][0] == "*":
                nh = 1
            if misses and misses[0][0] == "*":
                nm = 1
            pol = atom_polarity(facts, strip_ids(call))
            why = " and ".join(("" if v else "not ") + show(a) for a, v in facts.items())
            n += 1
            if nh + nm != 1:
                c.bad(f"{what}: every element once", "partition", loc,
                      f"an element is put in {nh + nm} results when {why or 'always'}")
                return
            if pol == 0:
                c.bad(f"{what}: by predicate", "partition", loc,
                      f"an element goes to the {'first' if nh else 'second'} result "
                      f"without regard to the predicate ({why or 'always'})")
                return
            if (pol > 0) != (nh == 1):
                c.bad(f"{what}: right side", "partition", loc,
                      f"an element goes to the {'first' if nh else 'second'} result when {why}")
                return
    c.ok(f"{what}: each element in exactly one result, by the predicate", f"{n} cases")


def strip_ids_facts(f):
    return {strip_ids(a): v for a, v in f.items()}


FULL = A("slice", NONE, NONE, NONE)
ROWLOSING = {"drop_duplicates", "dropna", "head", "tail", "sample", "sort_values", "sort_index",
             "nlargest", "nsmallest", "query", "filter", "truncate"}


def frame_select(t, df):
    """('rows'|'cols', mask) when t selects from df by a mask"""
    if is_app(t, "item"):
        base, k = t[2], t[3]
        if base == A("attr", df, "loc"):
            if k[0] == "t" and len(k[1]) == 2:
                if k[1][0] == FULL:
                    return "cols", k[1][1]
                if k[1][1] == FULL:
                    return "rows", k[1][0]
                return None
            return "rows", k
        if base == df:
            return "rows", k
    if is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "copy":
        return frame_select(t[2][2], df)
    return None


def row_changer(t, df):
    """name of a row-dropping or reordering frame method applied on the way from df to t"""
    for s in subterms(t):
        if is_app(s, "call") and is_app(s[2], "attr") and s[2][3] in ROWLOSING \
                and mentions(s[2][2], df):
            return s[2][3]
        if is_app(s, "item") and is_app(s[2], "attr") and s[2][3] == "iloc" \
                and mentions(s[2][2], df):
            return "iloc"
    return None


def complement(m):
    """(base mask, negated?)"""
    neg_ = False
    while True:
        if is_app(m, "inv"):
            m, neg_ = m[2], not neg_
        elif is_app(m, "call") and m[2] in (X("numpy.logical_not"), X("numpy.invert"),
                                            X("operator.inv"), X("operator.invert")):
            m, neg_ = m[3][0], not neg_
        elif is_app(m, "eq") and FALSE in m[2:]:
            m, neg_ = (m[3] if m[2] == FALSE else m[2]), not neg_
        elif is_app(m, "eq") and TRUE in m[2:]:
            m = m[3] if m[2] == TRUE else m[2]
        elif is_app(m, "not"):
            m, neg_ = m[2], not neg_
        else:
            return m, neg_


def frame_partition(c, pair, df, want, axis, loc, what):
    got = []
    for nm, t in zip(("first", "second"), pair):
        s = frame_select(t, df)
        if s is None:
            r = row_changer(t, df)
            if r:
                c.bad(f"{what}: rows", "partition", loc,
                      f"the {nm} frame is put through {r}, which drops or reorders rows")
                return None
            if t == df:
                c.bad(f"{what}: rows", "partition", loc, f"the {nm} result is the whole frame")
                return None
            raise Undecided(f"{what}: {nm} frame", show(t))
        got.append((s[0],) + complement(s[1]))
    (ax1, m1, n1), (ax2, m2, n2) = got
    if ax1 != axis or ax2 != axis:
        c.bad(f"{what}: axis", "partition", loc, f"splits along {ax1}/{ax2}, not {axis}")
        return None
    if m1 != m2:
        if want is not None and {m1, m2} <= {want} or not ext_calls(m1) and not ext_calls(m2):
            c.bad(f"{what}: complementary", "partition", loc,
                  f"the two masks are {show(m1)} and {show(m2)}, not complements")
            return None
        raise Undecided(f"{what}: masks", f"{show(m1)} / {show(m2)}")
    if n1 == n2:
        c.bad(f"{what}: complementary", "partition", loc,
              "both frames are selected by the same mask")
        return None
    if n1:
        c.bad(f"{what}: sides", "partition", loc,
              "the first frame gets what does not satisfy the mask")
        return None
    if want is not None and m1 != want:
        raise Undecided(f"{what}: mask", show(m1))
    c.ok(f"{what}: the two frames are selected by a mask and its complement")
    return m1


@prop("S05", "Value-flow analysis of separate_by, split_on and extract_constants: which of the two "
             "results each generic element (or row mask) flows into, under which predicate facts.")
def s05(c):
    c.rule("partition", "on every path of the splitting loop the generic element is appended to "
           "exactly one result, the first iff the predicate holds; frames are selected by a mask "
           "and by its complement; a row or column is marked constant only on paths where its "
           "own values were compared")
    c.rule("constants", "constants are keyed by their own labels, and where missing values are ignored "
           "none is reported as the constant")
    with c.group("separate_by"):
        I = c.interp()
        src = S("collection")
        fn = c.repo.func("structures.separate_by")
        loc = fn_loc(c.repo, "structures.separate_by")
        for k, v, s in c.run(I, "structures.separate_by", [src, S("ref")]):
            if k != "return":
                c.bad("returns", "partition", loc, f"raises {exc_kind(v)}", s.events())
                continue
            v = I.freeze(v, s)
            ps = parts(v)
            if ps is None or len(ps) != 2:
                raise Undecided("result", show(v))
            h, m = parts(ps[0][1]), parts(ps[1][1])
            if h is None or m is None:
                raise Undecided("result", show(v))
            early = [b for e in s.events() if e[0] == "loop" and e[2] == src
                     for b in e[3] if b[0] in ("break", "return")]
            if early:
                c.bad("whole collection", "partition", loc,
                      "the loop over the collection can stop before its end")
                continue
            calls_ = [e for e in flat(s.events()) if e[0] == "call" and e[1] == S("ref")]
            if not calls_:
                c.bad("predicate", "partition", loc, "the predicate is never called")
                continue
            args = {e[2] for e in calls_}
            if args != {(A("elem", src),)}:
                raise Undecided("predicate argument", str([show(("t", a)) for a in args]))
            partition(c, h, m, src, calls_[0][4], loc, "collection")
    with c.group("split_on"):
        I = c.interp()
        df, pr = S("df"), S("predicate")
        loc = fn_loc(c.repo, "pivot.split_on")
        for k, v, s in c.run(I, "pivot.split_on", [df, pr]):
            v = I.freeze(v, s)
            ps = parts(v) if k == "return" else None
            if ps is None or len(ps) != 2:
                raise Undecided("result", show(v))
            frame_partition(c, (ps[0][1], ps[1][1]), df, pr, "rows", loc, "frame")
    for how in ("rows", "columns"):
        with c.group(f"extract_constants how={how}"):
            extract_constants(c, how)


def extract_constants(c, how):
    loc = fn_loc(c.repo, "pivot.extract_constants")
    df = S("df")
    axis = "cols" if how == "rows" else "rows"
    for drop in (True, False):
        for to_dict, dropna in ((False, S("dropna")), (True, TRUE), (True, FALSE)):
            I = c.interp()
            outs = c.run(I, "pivot.extract_constants", [df], [
                ("to_dict", C(to_dict)), ("drop_constants", C(drop)), ("how", C(how)),
                ("dropna", dropna)])
            for k, v, s in outs:
                if k != "return":
                    raise Undecided("path", exc_kind(v))
                ps = parts(I.freeze(v, s))
                if ps is None or len(ps) != 2:
                    raise Undecided("result", show(v))
                one, two = ps[0][1], ps[1][1]
                if to_dict:
                    # the frame the dict was made from
                    sel = [x for x in subterms(one) if frame_select(x, df)]
                    if not sel:
                        raise Undecided("constants", show(one))
                    whole, one = one, max(sel, key=lambda x: len(repr(x)))
                    constant_values(c, whole, df, how, dropna == TRUE, loc, s.events())
                if not drop:
                    if two != df:
                        if frame_select(two, df) or row_changer(two, df):
                            c.bad("full frame", "partition", loc,
                                  "returns part of the frame though constants are not dropped")
                        else:
                            raise Undecided("full frame", show(two))
                    else:
                        c.ok("the whole frame is returned unless constants are dropped")
                    continue
                m = frame_partition(c, (one, two), df, None, axis, loc,
                                    f"to_dict={to_dict}")
                if m is None:
                    return
                marks(c, s.events(), m, loc)
                if drop and to_dict:
                    compared(c, s.events(), m, df, how, dropna == TRUE, loc)


def constant_values(c, t, df, how, dropna, loc, events):
    """the dict of constants made by <selection>[.T][.bfill()].iloc[0].to_dict()"""
    def method(t):
        return (t[2][3], t[2][2]) if is_app(t, "call") and is_app(t[2], "attr") else (None, None)
    m, t = method(t)
    if m != "to_dict" or not is_app(t, "item") or not is_app(t[2], "attr") or t[2][3] != "iloc" \
            or t[3] != C(0):
        return
    t = t[2][2]
    turned = filled = False
    while True:
        m, x = method(t)
        if m in ("bfill", "backfill", "fillna", "interpolate", "dropna", "agg", "apply", "apply_map", "transform",
                 "max", "min", "mode"):
            filled, t = True, x
        elif m in ("ffill", "pad", "copy", "convert_dtypes", "infer_objects"):
            t = x
        elif m in ("transpose",):
            turned, t = not turned, x
        elif is_app(t, "attr") and t[3] == "T":
            turned, t = not turned, t[2]
        else:
            break
    if not frame_select(t, df):
        return
    c.must(turned == (how == "columns"), "constants' labels", "constants", loc,
           "the constants are keyed by the labels along which they are constant, not by their own", events)
    if dropna:
        c.must(filled, "constants' values", "constants", loc,
               "a missing value is reported as the constant although missing values were left out of the comparison",
               events)


def marks(c, events, mask, loc):
    """the mask is set for an index only where that index's own values compared equal"""
    n = 0
    for lp in [e for e in flat(events) if e[0] == "loop"]:
        for k, facts, seg, ups, val in body_paths(lp):
            pos = negs = 0
            for a, v in facts.items():
                a = strip_ids(a)
                about = any(is_app(x, "elem") and x[2] == elem_base(lp[2]) for x in subterms(a))
                if not about:
                    continue
                if is_app(a, "truthy") and is_app(a[2], "call") and is_app(a[2][2], "attr") \
                        and a[2][2][3] == "all":
                    pos, negs = pos + bool(v), negs + (not v)
                elif is_app(a, "truthy"):        # emptiness
                    pos += bool(v) if is_app(a[2], "attr") and a[2][3] == "empty" else (not v)
                elif not is_app(a, "in"):
                    pos += bool(v)
            for e in seg:
                if e[0] == "mut" and e[2] == "setitem" and mentions(e[1], mask):
                    n += 1
                    if TRUE in e[3:5] or True:
                        val_ = e[4] if len(e) > 4 else None
                    if val_ == TRUE and not pos:
                        c.bad("marked after comparison", "partition", loc_of(e),
                              "an index is marked constant on a path where its values were "
                              + ("found to differ" if negs else "not compared"), seg)
                        return
    if n:
        c.ok("an index is marked constant only after its values compared equal", f"{n} marks")
    else:
        c.und("marking", "no marking of the mask recognised")


def mentions_dtype(a):
    return any(is_app(x, "attr") and x[3] == "dtype" for x in subterms(a))


def compared(c, events, mask, df, how, dropna, loc):
    """what the marking loop compares: values of columns (or rows), with or without the missing ones, and
    the label of what it compared is what it marks"""
    MISSING = {"dropna", "notna", "isna", "notnull", "isnull", "nunique", "unique", "first_valid_index", "mode",
               "ffill", "bfill", "value_counts", "count"}

    def equality(a):
        """the comparison inside <comparison>.all()"""
        return is_app(a, "truthy") and is_app(a[2], "call") and is_app(a[2][2], "attr") and a[2][2][3] == "all" \
            and any(is_app(x, "eq") for x in subterms(a))
    loops = []
    for lp in [e for e in flat(events) if e[0] == "loop"]:
        if is_app(lp[2], "iterrows") or is_app(lp[2], "call") and is_app(lp[2][2], "attr") \
                and lp[2][2][2] == df and lp[2][2][3] in ("iterrows", "itertuples"):
            axis = "columns"
        elif is_app(lp[2], "items") and lp[2][2] == df or lp[2] == df \
                or is_app(lp[2], "attr") and lp[2][2] == df and lp[2][3] == "columns":
            axis = "rows"
        else:
            axis = None
        paths = [(k, {strip_ids(a): v for a, v in f.items() if not is_app(a, "in")}, seg)
                 for k, f, seg, ups, val in body_paths(lp)]
        marked = []
        for k, f, seg in paths:
            for e in seg:
                if e[0] == "mut" and e[2] == "setitem" and mentions(e[1], mask) and len(e) > 4:
                    marked.append((f, e, seg))
        if marked:
            loops.append((axis, paths, marked))
    false = is_app(mask, "call") and mask[3][:1] == (FALSE,)
    for i, (axis, paths, marked) in enumerate(loops):
        hit = [f for f, e, seg in marked if e[4] == TRUE]
        for f, e, seg in marked:
            if axis and any(equality(a) for a in f):
                c.must(axis == how, "compared along the right axis", "compared", loc_of(e),
                       f"how={how!r} marks labels after comparing the values of "
                       + ("columns" if axis == "rows" else "rows"), seg)
            if is_app(e[1], "attr") and e[1][3] in ("iloc", "iat"):
                c.bad("marked by label", "compared", loc_of(e), "a label is used as a position", seg)
            if false and e[4] == FALSE and any(equality(a) and v for a, v in f.items()):
                c.bad("equal values are marked", "compared", loc_of(e),
                      "labels whose values compared equal are not marked constant", seg)
        for k, f, seg in paths:
            eqs = {a: v for a, v in f.items() if equality(a)}
            if not eqs:
                continue
            if i == 0:
                words = {x[3] for a in f for x in subterms(a) if is_app(x, "attr")}
                if dropna:
                    c.must(bool(words & MISSING) or any(is_app(x, "call") and x[2][0] in ("fn", "x") and x[3]
                                                        for a in f for x in subterms(a)),
                           "missing values are left out", "compared", loc,
                           "missing values are compared although dropna is True", seg)
                else:
                    c.must("dropna" not in words, "missing values are kept", "compared", loc,
                           "missing values are left out of the comparison although dropna is False", seg)
                    raw = [a for a in eqs if is_app(a[2][2][2], "eq") and not a[2][3] and not a[2][4]]
                    c.must(not raw or bool(words & MISSING), "missing nullable values are not equal", "compared", loc,
                           "a value missing from a nullable column is skipped by all() and counts as the constant",
                           seg)
                for t in {x[2][2] for a in eqs for x in subterms(a) if is_app(x, "item") and is_app(x[2], "attr")
                          and x[2][3] == "iloc" and x[3] == C(0)}:
                    if not dropna:
                        continue
                    about = [a for a in f if a not in eqs and any(
                        x == t for y in subterms(a) if not (is_app(a, "eq") and mentions_dtype(a))
                        for x in [y])]
                    sure = [a for a in about if not (is_app(a, "eq") and any(
                        x[0] == "c" and x[1] == "int" and x[2] != 0 for x in a[2:] if isinstance(x, tuple))
                        or is_app(a, "eq0") and a[2][2] not in (0, C(0)))]
                    c.must(bool(sure) and not any(is_app(a, "truthy") and a[2] == t and not f[a] for a in about),
                           "no first value of nothing", "compared", loc,
                           "the first value of a column or row without values is looked up", seg)
            if all(eqs.values()) and not any(e[0] == "mut" and mentions(e[1], mask) for e in seg) and k == "next" \
                    and any(h.items() <= f.items() for h in hit if any(equality(a) for a in h)):
                c.bad("equal values are marked", "compared", loc,
                      "labels whose values compared equal are not marked constant", seg)


def elem_base(src):
    if is_app(src) and src[1] in ("items", "values", "keys"):
        return src[2]
    return src


# ------------------------------------------------------------------ S04
def membership(t, K, case):
    """is generic key K in the set-like term t, given {map term: bool}"""
    if t in case:
        return case[t]
    if is_app(t) and t[1] in ("keys", "items") and t[2] in case:
        return case[t[2]]
    if is_app(t, "set") or is_app(t, "list"):
        res = False
        for p in t[2]:
            if p[0] == "*":
                r = membership(p[1], K, case)
                if r is None:
                    return None
                res = res or r
            elif p[0] == "many":
                r = membership(p[1], K, case)
                if r is None:
                    return None
                if not r:
                    continue
                ok = None
                for f, items in variants(p):
                    f2 = {replace(a, {A("elem", elem_base(p[1])): K}): v for a, v in f.items()}
                    e = eval_facts(f2, K, case)
                    if e is None:
                        return None
                    if e:
                        ok = any(replace(i[1], {A("elem", elem_base(p[1])): K}) == K
                                 for i in items)
                        res = res or ok
            else:
                return None
        return res
    op = None
    if is_app(t, "call") and is_app(t[2], "attr") and len(t[3]) == 1:
        op = {"symmetric_difference": "^", "union": "|", "intersection": "&",
              "difference": "-"}.get(t[2][3])
        a, b = t[2][2], t[3][0]
    elif is_app(t) and t[1] in ("bitxor", "bitor", "bitand", "sub", "xor", "or", "and"):
        op = {"bitxor": "^", "bitor": "|", "bitand": "&", "sub": "-", "xor": "^", "or": "|",
              "and": "&"}[t[1]]
        a, b = t[2], t[3]
    if op is None:
        return None
    ra, rb = membership(a, K, case), membership(b, K, case)
    if ra is None or rb is None:
        return None
    return {"^": ra != rb, "|": ra or rb, "&": ra and rb, "-": ra and not rb}[op]


def eval_facts(facts, K, case):
    """truth of the membership facts; None if one is not understood (others ignored)"""
    for a, v in facts.items():
        if is_app(a, "not"):
            a, v = a[2], not v
        if is_app(a, "in") and a[2] == K:
            r = membership(a[3], K, case)
            if r is None:
                return None
            if r != v:
                return False
    return True


def dict_at(ps, K, case):
    """possible values under generic key K of a dict built from parts ps:
    [(facts, value term or None when absent)]"""
    cur = [({}, None)]
    for p in ps:
        if p[0] == "*":
            r = membership(p[1], K, case)
            if r is None:
                raise Undecided("dict part", show(p[1]))
            if r:
                cur = [(f, A("item", p[1], K)) for f, _ in cur]
            continue
        if p[0] != "many":
            raise Undecided("dict part", p[0])
        src, base = p[1], elem_base(p[1])
        r = membership(base, K, case)
        if r is None:
            raise Undecided("dict source", show(src))
        if not r:
            continue
        m = {A("elem", base): K}
        nxt = []
        for f0, v0 in cur:
            for f, items in variants(p):
                f = {replace(strip_ids(a), m): v for a, v in f.items()}
                e = eval_facts(f, K, case)
                if e is None:
                    raise Undecided("condition", "; ".join(show(a) for a in f))
                if not e:
                    continue
                f = {a: v for a, v in f.items() if not (
                    is_app(a, "in") and a[2] == K or is_app(a, "not") and is_app(a[2], "in"))}
                g = compat(f0, f)
                if g is None:
                    continue
                val = v0
                for it in items:
                    if it[0] != "kv":
                        raise Undecided("dict update", show(it))
                    if replace(strip_ids(it[1]), m) != K:
                        raise Undecided("dict key", show(it[1]))
                    val = replace(strip_ids(it[2]), m)
                nxt.append((g, val))
        cur = nxt
    return cur


def same_under(a, b, facts):
    if a == b:
        return True
    for f, v in facts.items():
        if v and is_app(f) and f[1] in ("eq", "is") and set(f[2:]) == {a, b}:
            return True
    return False


@prop("S04", "Value-flow analysis of rmerge: the value finally held under a generic key, for a key "
             "in the first input only, the second only, and both (mappings or not).")
def s04(c):
    c.rule("merge", "the abstract result dict, evaluated at a generic key under each membership "
           "case, holds map1[k], map2[k], map2[k], or the recursive merge of both (with the "
           "caller's mapping types) exactly when both values are instances of those types")
    fn = c.repo.func("structures.rmerge")
    loc = fn_loc(c.repo, "structures.rmerge")
    p1, p2, pm = fn.params()[:3]
    m1, m2, mt = S("map1"), S("map2"), S("mtypes")
    worlds.merges(c)
    with c.group("rmerge"):
        I = c.interp()
        K = S("k")
        for kind, v, s in c.run(I, "structures.rmerge", [m1, m2, mt]):
            if kind != "return":
                raise Undecided("path", exc_kind(v))
            ps = parts(I.freeze(v, s))
            if v[0] == "s":
                c.bad("result", "merge", loc, f"returns its argument {show(v)} itself")
                continue
            if ps is None:
                raise Undecided("result", show(v))
            i1, i2 = A("item", m1, K), A("item", m2, K)
            rec = A("rec", fn.qual, tuple(sorted(((p1, i1), (p2, i2), (pm, mt)))))
            for case, nm in (({m1: True, m2: False}, "first only"),
                             ({m1: False, m2: True}, "second only"),
                             ({m1: True, m2: True}, "both")):
                alts = dict_at(ps, K, case)
                if not alts:
                    raise Undecided(nm, "no feasible path")
                for facts, val in alts:
                    t1 = decide(A("isinst", i1, mt), facts)
                    t2 = decide(A("isinst", i2, mt), facts)
                    if nm == "first only":
                        want = [i1]
                    elif nm == "second only":
                        want = [i2]
                    elif t1 and t2:
                        want = [rec]
                    elif t1 is False or t2 is False:
                        want = [i2]
                    else:
                        want = [i2, rec]
                        if val in want and val == i2 or val == rec:
                            # merged or replaced without looking at both types
                            c.bad(f"key in {nm}", "merge", loc,
                                  f"a key in both inputs gets {show(val)} without both values' "
                                  f"types being checked against the caller's mapping types")
                            continue
                    if any(same_under(val, w, facts) for w in want):
                        c.ok(f"key in {nm}" + (
                            f" (mappings: {t1}, {t2})" if nm == "both" else ""))
                    elif val is None:
                        c.bad(f"key in {nm}", "merge", loc, f"a key in {nm} is dropped")
                    elif opaque_parts(val) or (is_app(val, "rec") and val[2] != fn.qual):
                        raise Undecided(f"key in {nm}", show(val))
                    else:
                        c.bad(f"key in {nm}", "merge", loc,
                              f"a key in {nm} inputs gets {show(val)} instead of {show(want[0])}")


# ------------------------------------------------------------------ S03
@prop("S03", "Typestate-like analysis of dig_and_edit's loops (which items are written, with what, "
             "under which filter outcome; which values are descended into, and when), and of the "
             "arguments todict drives it with.")
def s03(c):
    c.rule("edit", "an item is written iff the filter accepted its own key and value, with the "
           "setter's result for them; every value of the mapping types is descended into after "
           "the writes, with the same filter, setter and types; the given mapping is returned")
    fn = c.repo.func("structures.dig_and_edit")
    loc = fn_loc(c.repo, "structures.dig_and_edit")
    pm, pf, ps_, pt = fn.params()[:4]
    mp, ff, sf, mt = S("mapping"), S("filter_func"), S("setter_func"), S("mtypes")
    worlds.edits(c)
    with c.group("dig_and_edit"):
        I = c.interp()
        K = A("elem", mp)
        V = A("item", mp, K)
        for kind, v, s in c.run(I, "structures.dig_and_edit", [mp, ff, sf, mt]):
            if kind != "return":
                raise Undecided("path", exc_kind(v))
            c.must(v == mp if v[0] in ("s", "c", "o", "t") else None, "returns the mapping", "edit",
                   loc, f"returns {show(I.freeze(v, s))} instead of the mapping it was given")
            evs = s.events()
            lps = [e for e in evs if e[0] == "loop"]
            if any(b[0] in ("break", "return") for l in lps for b in l[3]):
                c.bad("all items", "edit", loc, "a loop over the mapping can stop before its end")
                continue
            edits, recs, first_isinst = [], [], None
            complete_edit = complete_rec = False
            skipped_edit = skipped_rec = None
            for i, lp in enumerate(lps):
                if elem_base(lp[2]) != mp:
                    continue
                full_e, any_e, full_r, any_r = True, False, True, False
                for k, facts, seg, ups, val in body_paths(lp):
                    facts = strip_ids_facts(facts)
                    fcall = A("call", ff, (K, V), ())
                    pol = atom_polarity(facts, fcall)
                    nmut = 0
                    cur = V
                    wrote = False
                    for j, e in enumerate(seg):
                        if e[0] == "mut" and e[1] == mp and e[2] == "setitem":
                            nmut += 1
                            wrote = True
                            key, value = e[3], strip_ids(e[4])
                            edits.append(i)
                            if key != K:
                                c.bad("own key", "edit", loc_of(e),
                                      f"writes under {show(key)} instead of the item's own key")
                            want = A("call", sf, (K, V), ())
                            if value != want:
                                if opaque_parts(value):
                                    raise Undecided("written value", show(value))
                                c.bad("setter result", "edit", loc_of(e),
                                      f"writes {show(value)} instead of the setter's result for "
                                      f"the item's own key and value")
                            if pol == 0:
                                if any(is_call_to(x, ff) for a in facts for x in subterms(a)):
                                    raise Undecided("filter", "; ".join(map(show, facts)))
                                c.bad("filtered", "edit", loc_of(e),
                                      "writes an item without consulting the filter")
                            elif pol < 0:
                                c.bad("filtered", "edit", loc_of(e),
                                      "writes an item the filter rejected")
                            cur = want
                        elif e[0] == "mut" and e[1] == mp:
                            c.bad("only values", "edit", loc_of(e),
                                  f"modifies the mapping by {e[2]}")
                        elif e[0] == "call" and e[1] == ("fn", fn.qual, None, ()):
                            b = dict(e[6])
                            any_r = True
                            recs.append(i)
                            for nm_, want in ((pf, ff), (ps_, sf), (pt, mt)):
                                if b.get(nm_) != want:
                                    c.bad("same arguments", "edit", loc_of(e),
                                          f"descends with {nm_}={show(b.get(nm_))} instead of "
                                          f"the caller's")
                            tgt = strip_ids(b.get(pm))
                            if tgt == V and wrote:
                                c.bad("after the edit", "edit", loc_of(e),
                                      "descends into the value that was just replaced, not its "
                                      "replacement")
                            elif tgt not in (V, cur):
                                raise Undecided("descends into", show(tgt))
                            t = decide(A("isinst", tgt, mt), facts)
                            if t is False:
                                c.bad("mapping types", "edit", loc_of(e),
                                      "descends into values that are not of the mapping types")
                            elif t is None and any(
                                    is_app(a, "isinst") and strip_ids(a[2]) == tgt
                                    for a in facts):
                                c.bad("mapping types", "edit", loc_of(e),
                                      "recognises nested values by other types than the "
                                      "caller's mapping types")
                            elif t is None and not any(
                                    is_app(a, "isinst") for a in facts):
                                c.bad("mapping types", "edit", loc_of(e),
                                      "descends into values without checking their type")
                    if nmut > 1:
                        raise Undecided("writes", "several writes of one item")
                    if k in ("next", "continue"):
                        if pol > 0 and not nmut:
                            full_e = False
                        if nmut:
                            any_e = True
                        isn = [v2 for a, v2 in facts.items() if is_app(a, "isinst")
                               and strip_ids(a[2]) in (V, cur)
                               and a[3] == mt]
                        rec_here = any(
                            e[0] == "call" and e[1] == ("fn", fn.qual, None, ()) for e in seg)
                        if any(isn) and not rec_here:
                            full_r = False
                        if wrote and not rec_here and not any(
                                is_app(a, "isinst") and strip_ids(a[2]) == cur for a in facts):
                            full_r = False      # the replacement was not looked at here
                        if isn and first_isinst is None:
                            first_isinst = i
                if any_e and full_e:
                    complete_edit = True
                if any_r and full_r:
                    complete_rec = True
            if not edits:
                raise Undecided("edits", "no write to the mapping recognised")
            c.must(complete_edit, "every matching item", "edit", loc,
                   "some matching items are not written")
            if not recs:
                if any(is_app(x, "rec") for e in flat(evs) for x in subterms(e)
                       if isinstance(x, tuple)):
                    raise Undecided("descent", "not recognised")
                c.bad("every level", "edit", loc, "nested mappings are never descended into")
                continue
            c.must(complete_rec, "every nested mapping", "edit", loc,
                   "some nested mappings are not descended into")
            if first_isinst is not None:
                c.must(first_isinst >= max(edits), "after the edits", "edit", loc,
                       "nested mappings are collected before the matching items are replaced, so "
                       "the replacements are never descended into")
    with c.group("todict"):
        todict(c, fn)
    c.rule("nesting", "a nesting dict keeps what it is made with, and each missing level becomes one of its own")
    with c.group("nesting dict"):
        nesting(c)


def nesting(c):
    """what a nesting dict is made with, and what its missing levels become"""
    cls = c.repo.cls("structures.NestingDict")
    loc = fn_loc(c.repo, "structures.NestingDict.todict")
    if "defaultdict" not in " ".join(map(ast.unparse, cls.node.bases)):
        raise Undecided("nesting dict", "not a defaultdict")
    G, K = S("given"), S("keyword_value")
    for args, kws in (([], []), ([NONE, G], []), ([NONE, G], [("kw", K)]), ([NONE], [("kw", K)])):
        I, st = c.interp(), St()
        for kind, v, s in c.runv(I, ("cls", cls.qual), args, kws, st):
            if kind != "return":
                c.bad("made", "nesting", loc, f"making a nesting dict raises {exc_kind(v)}", s.events())
                continue
            evs = [e for e in s.events() if e[0] == "baseinit" and e[1] == v]
            ob = s.obj(v)
            if ob is None or ob.kind != "inst" or any(e[0] == "call" for e in s.events()):
                raise Undecided("nesting dict", show(v))
            made = [e for e in evs if e[2][1:] == tuple(args[1:]) and e[3] == tuple(kws)]
            c.must(bool(made) or not (args[1:] or kws), "keeps what it is made with", "nesting", loc,
                   "a nesting dict made with contents does not have them", s.events())
            got = ob.attrs.get("default_factory")
            if got is None and evs and evs[-1][2]:
                got = evs[-1][2][0]
            if f"{cls.qual}.__missing__" in c.repo.funcs:
                raise Undecided("nesting dict", "__missing__")
            if got is None or got == NONE:
                c.bad("missing levels", "nesting", loc, "a level missing from a nesting dict raises KeyError", s.events())
                continue
            for k2, x, s2 in c.runv(I, got, [], [], s):
                o2 = s2.obj(x)
                c.must(True if o2 is not None and o2.cls == cls.qual and x != v else
                       False if o2 is not None or is_c(x) or k2 == "raise" else None,
                       "missing levels", "nesting", loc, "a level missing from a nesting dict becomes "
                       f"{show(x) if o2 is None else o2.cls or o2.kind}, which is not a nesting dict of its own", s2.events())


def todict(c, fn):
    cls = c.repo.cls("structures.NestingDict")
    loc = fn_loc(c.repo, "structures.NestingDict.todict")
    seen = []

    def hook(I, fv, args, kws, st, n, fid):
        for b, s in I.bind(fn, fv, args, kws, st, n, fid):
            seen.append((b, s.fork()))
            return [(b[fn.params()[0]], s)]
        return []
    I = c.interp(hooks={fn.qual: hook}, types={S("self"): cls.qual})
    node_args = fn.params()
    for kind, v, s in c.run(I, "structures.NestingDict.todict", [S("self")]):
        if kind != "return":
            raise Undecided("path", exc_kind(v))
        fz = I.freeze(v, s)
        if v == S("self"):
            c.bad("plain result", "edit", loc, "returns the nesting dict itself")
            return
        if not seen:
            raise Undecided("todict", "does not use dig_and_edit")
        if parts(fz) != (("*", S("self")),):
            raise Undecided("result", show(fz))
        c.ok("returns a plain dict of the nesting dict's items")
    K, V = S("key"), S("value")
    for b, st in seen[:1]:
        flt, setr, mts = (b[p] for p in node_args[1:4])
        for want in (True, False):
            s0 = st.fork()
            s0.facts[A("isinst", V, C("NestingDict"))] = want
            for kind, r, s in c.runv(I, flt, [K, V], st=s0):
                if kind != "return":
                    raise Undecided("filter", exc_kind(r))
                got = [x for x, _ in I.truth(r, s)]
                if any(is_app(a, "isinst") and a[2] == V and a != A("isinst", V, C("NestingDict"))
                       for a in s.facts):
                    pass
                if len(got) != 1 or len(s.facts) > len(s0.facts):
                    if want and False in got:
                        c.bad("every nesting dict is converted", "edit", loc,
                              f"a nested nesting dict is selected only if {show(r)}")
                        continue
                    raise Undecided("filter", show(r))
                if want:
                    c.must(got[0], "every nesting dict is converted", "edit", loc,
                           "a nested nesting dict is not selected for conversion")
                elif got[0]:
                    raise Undecided("filter", "also selects other values")
        for kind, r, s in c.runv(I, setr, [K, V], st=st.fork()):
            fz = I.freeze(r, s)
            if fz == V:
                c.bad("converted", "edit", loc, "a nested nesting dict is put back unchanged")
            elif parts(fz) == (("*", V),) and is_app(fz, "dict"):
                c.ok("a nested nesting dict is replaced by a plain dict of its items")
            else:
                raise Undecided("setter", show(fz))
        items = I.known_items(mts, st)
        if items is None:
            items = [mts]
        names = [x[1].split(".")[-1] for x in items if x[0] in ("x", "cls")]
        c.must(True if {"dict", "Mapping", "MutableMapping"} & set(names) else (
            False if names else None), "descends into what it converted", "edit", loc,
            f"mapping types {names} do not include the plain dicts nesting dicts are turned into")


# ------------------------------------------------------------------ S02
def own_matches(c, ps, mp, pred, loc, name):
    """parts of a list must be exactly the accepted (key, value) items of mp, in order"""
    K = A("elem", mp)
    V = A("item", mp, K)
    if len(ps) != 1 or src_of(ps[0]) is None or elem_base(src_of(ps[0])) != mp:
        raise Undecided(name, "own matches not recognised")
    ok = True
    seen = set()
    for facts, items in variants(ps[0]):
        pol = atom_polarity(strip_ids_facts(facts), A("call", pred, (K, V), ()))
        if pol == 0:
            calls_ = [x for a in facts for x in subterms(a) if is_call_to(x, pred)]
            if calls_:
                args = {x[3] for x in calls_}
                if args != {(K, V)}:
                    c.bad(name, "dig", loc, "the predicate is given "
                          + ", ".join(show(("t", a)) for a in args)
                          + " instead of the item's key and value")
                    return False
                raise Undecided(name, "predicate outcome not recognised")
            if items or facts:
                c.bad(name, "dig", loc, "items are selected without applying the predicate"
                      if items else "an item is skipped without applying the predicate ("
                      + "; ".join(("" if v else "not ") + show(a) for a, v in facts.items()) + ")")
                return False
            raise Undecided(name, "predicate not applied")
        seen.add(pol)
        strict = [a for a in facts if is_app(a) and a[1] in ("is", "eq") and any(
            x in (TRUE, FALSE) for x in a[2:]) and any(is_call_to(x, pred) for x in a[2:])]
        if strict:
            c.bad(name, "dig", loc, "an item is rejected when the predicate's result is true "
                  "without being True")
            return False
        want = (("1", T(K, V)),) if pol > 0 else ()
        if tuple(strip_ids(i) for i in items) != want:
            if pol > 0 and not items:
                c.bad(name, "dig", loc, "an item the predicate accepted is left out")
            elif pol < 0:
                c.bad(name, "dig", loc, "an item the predicate rejected is returned")
            else:
                c.bad(name, "dig", loc, f"a match is returned as {show(items[0][1])} instead of "
                                        f"its key and value")
            return False
    c.ok(name)
    return ok


def find_isinst(facts, v):
    return [(a[3], val) for a, val in facts.items() if is_app(a, "isinst") and a[2] == v]


@prop("S02", "Value-flow analysis of the dig functions: matches of one level, descent into exactly "
             "the values of the caller's mapping types with unchanged arguments, and how the "
             "public variants derive their result from the matches.")
def s02(c):
    c.rule("dig", "every item of the mapping is put to the predicate and returned iff accepted; "
           "every value of the caller's mapping types, and no other, is descended into with the "
           "same predicate and types; a search stops only at a match or at the end; variants "
           "return the key, value or item of the same matches, None only when there are none")
    worlds.digs(c)
    for vals in (("dig_for_values", 1), ("dig_for_keys", 0), ("dig_for_items", None)):
        with c.group(vals[0]):
            variant(c, vals[0], vals[1], True)
    for vals in (("dig_for_value", 1), ("dig_for_key", 0), ("dig_for_item", None)):
        with c.group(vals[0]):
            variant(c, vals[0], vals[1], False)
    with c.group("dig_for_all"):
        dig_for_all(c)
    with c.group("dig_for"):
        dig_for(c)
    with c.group("constant_to_dig_predicate"):
        const_pred(c)


def dig_for_all(c):
    fn = c.repo.func("structures.dig_for_all")
    loc = fn_loc(c.repo, "structures.dig_for_all")
    pm, pp, pt = fn.params()[:3]
    mp, pred, mt = S("mapping"), S("predicate"), S("mtypes")
    K = A("elem", mp)
    V = A("item", mp, K)
    I = c.interp()
    rec = A("rec", fn.qual, tuple(sorted(((pm, V), (pp, pred), (pt, mt)))))
    outs = c.run(I, "structures.dig_for_all", [mp, pred, mt])
    for kind, v, s in outs:
        if kind != "return":
            raise Undecided("path", exc_kind(v))
        ps = parts(I.freeze(v, s))
        if ps is None:
            raise Undecided("result", show(v))
        own = [p for p in ps if not any(is_app(x, "rec") for x in subterms(p))]
        nested = [p for p in ps if any(is_app(x, "rec") for x in subterms(p))]
        own_matches(c, own, mp, pred, loc, "own level")
        if not nested:
            # only right if there is nothing to descend into
            no = [a for a, val in s.facts.items() if not val and is_app(a, "truthy")
                  and any(is_app(x, "isinst") and x[3] == mt for x in subterms(a))]
            if no:
                c.ok("no descent only when no value is of the mapping types")
            else:
                c.bad("every level", "dig", loc, "nested mappings are not descended into when "
                      + ("; ".join(("" if x else "not ") + show(a) for a, x in s.facts.items())
                         or "(always)"))
            continue
        if len(nested) != 1 or elem_base(src_of(nested[0]) or ()) != mp:
            raise Undecided("descent", "not recognised")
        good = True
        for facts, items in variants(nested[0]):
            facts = strip_ids_facts(facts)
            isn = find_isinst(facts, V)
            other = [t for t, _ in isn if t != mt]
            if other and not any(t == mt for t, _ in isn):
                c.bad("mapping types", "dig", loc, f"nested values are recognised by "
                      f"{show(other[0])} instead of the caller's mapping types")
                good = False
                break
            t = decide(A("isinst", V, mt), facts)
            recs = [x for it in items for x in subterms(it) if is_app(x, "rec")]
            if t is None and not isn:
                c.bad("mapping types", "dig", loc, "values are descended into, or not, without "
                                                  "checking their type")
                good = False
            elif t and not recs:
                c.bad("every nested mapping", "dig", loc, "a nested mapping is skipped when "
                      + "; ".join(("" if x else "not ") + show(a) for a, x in facts.items()))
                good = False
            elif t is False and recs:
                c.bad("mapping types", "dig", loc, "values that are not of the mapping types are "
                                                  "descended into")
                good = False
            elif recs:
                if recs[0] != rec:
                    diff = [f"{k}={show(x)}" for (k, x), (_, w) in zip(recs[0][3], rec[3])
                            if x != w] if recs[0][2] == fn.qual else None
                    if diff is None:
                        raise Undecided("descent", show(recs[0]))
                    c.bad("same arguments", "dig", loc, "descends with " + ", ".join(diff))
                    good = False
                elif [strip_ids(i) for i in items] != [("*", rec)]:
                    raise Undecided("nested matches", show(items[0]))
        if good:
            c.ok("descends into every value of the mapping types and adds all its matches")


def dig_for(c):
    fn = c.repo.func("structures.dig_for")
    loc = fn_loc(c.repo, "structures.dig_for")
    pm, pp, pt = fn.params()[:3]
    mp, pred, mt = S("mapping"), S("predicate"), S("mtypes")
    K = A("elem", mp)
    V = A("item", mp, K)
    I = c.interp()
    for kind, v, s in c.run(I, "structures.dig_for", [mp, pred, mt]):
        if kind != "return":
            raise Undecided("path", exc_kind(v))
        fz = strip_ids(I.freeze(v, s))
        evs = list(flat(s.events()))
        # descents: arguments
        for e in evs:
            if e[0] == "call" and e[1] == ("fn", fn.qual, None, ()):
                b = dict(e[6])
                bad = [(p, b.get(p)) for p, w in ((pp, pred), (pt, mt)) if b.get(p) != w]
                if bad:
                    c.bad("same arguments", "dig", loc_of(e), f"descends with "
                          f"{bad[0][0]}={show(bad[0][1])}")
                    return
                c.ok("descends with the same predicate and types")
        ps = parts(fz)
        if ps and any(True for p in ps):
            own_matches(c, ps, mp, pred, loc, "own level")
            continue
        nests_none = [a for a, val in s.facts.items() if is_app(a, "truthy") and not val and any(
            is_app(x, "isinst") and x[3] == mt for x in subterms(a))]
        own_none = [a for a, val in s.facts.items() if is_app(a, "truthy") and not val and any(
            is_call_to(x, pred) for x in subterms(a))]
        exhausted = any(not val and is_app(a, "hasnext") for a, val in s.facts.items())
        lp = [e for e in s.events() if e[0] == "loop" and any(
            x[0] == "call" and x[1] == ("fn", fn.qual, None, ()) for b in e[3] for x in b[2])]
        if fz == NONE:
            if not own_none:
                raise Undecided("own level", "None returned without looking at own matches")
            if nests_none:
                c.ok("None when nothing matches and nothing is nested")
            elif exhausted or (lp and not any(b[0] == "break" for b in lp[0][3]) and I.loops[
                    lp[0][1]]["for"]):
                # every iteration that went on had found nothing
                for e in lp:
                    for k, facts, seg, ups, val in body_paths(e):
                        if k in ("next", "continue"):
                            search_step(c, fn, facts, seg, I.loops[e[1]], loc)
                c.ok("None only when every nested mapping was searched")
            elif not lp:
                c.bad("every level", "dig", loc, "returns None without descending into nested "
                                                "mappings")
            else:
                raise Undecided("search end", "; ".join(show(a) for a in s.facts))
        elif is_app(fz, "rec"):
            t = decide(cmp_is(fz, NONE), {strip_ids(a): x for a, x in s.facts.items()})
            tr = decide(A("truthy", fz), {strip_ids(a): x for a, x in s.facts.items()})
            c.must(t is False or bool(tr), "stops at a match", "dig", loc,
                   "the search ends at the first nested mapping even if it holds no match")
        elif is_app(fz, "phi"):
            lost = False
            for e in lp:
                for k, facts, seg, ups, val in body_paths(e):
                    if k in ("next", "continue") and fz == A("phi", e[1], fz[3]):
                        new = [strip_ids(v2) for nm, v2 in ups if nm == fz[3]]
                        if new and is_app(new[0], "rec") and decide(
                                cmp_is(fz, NONE), facts) is None and decide(
                                A("truthy", fz), facts) is None and decide(
                                cmp_is(new[0], NONE), strip_ids_facts(facts)) is None:
                            lost = True
            if lost:
                c.bad("stops at a match", "dig", loc,
                      "the search goes on after a match was found and loses it")
                continue
            t = decide(cmp_is(fz, NONE), s.facts)
            tr = decide(A("truthy", fz), s.facts)
            if not (t is False or tr) or not lp:
                raise Undecided("search result", show(fz))
            for e in lp:
                for k, facts, seg, ups, val in body_paths(e):
                    if k in ("next", "continue") and fz in [
                            A("phi", e[1], nm) for nm, _ in ups]:
                        t = decide(cmp_is(fz, NONE), facts)
                        tr = decide(A("truthy", fz), facts)
                        c.must(True if t or tr is False else False, "stops at a match", "dig", loc,
                               "the search goes on after a match was found and loses it")
        else:
            raise Undecided("result", show(fz))


def search_step(c, fn, facts, seg, info, loc):
    """an iteration that goes on must have found nothing so far"""
    return True


def variant(c, name, ix, many):
    """public variant: result derived from the same matches"""
    loc = fn_loc(c.repo, f"structures.{name}")
    fn = c.repo.func(f"structures.{name}")
    mp, ref, mt, bp = S("mapping"), S("ref"), S("mtypes"), S("base_pred")
    core = c.repo.func("structures.dig_for_all" if many else "structures.dig_for")
    for match in ("key", "value", "item"):
        seen = []
        found = S("matches")

        def hook(I, fv, args, kws, st, n, fid):
            out = []
            for b, s in I.bind(core, fv, args, kws, st, n, fid):
                seen.append((b, s.fork()))
                s2 = s.fork()
                if many:
                    s.facts[A("truthy", found)] = True
                    s2.facts[A("truthy", found)] = False
                    out += [(found, s), (found, s2)]
                else:
                    s.facts[A("truthy", found)] = True
                    s.facts[cmp_is(found, NONE)] = False
                    out += [(found, s), (NONE, s2)]
            return out
        I = c.interp(hooks={core.qual: hook})
        outs = c.run(I, f"structures.{name}", [mp, ref], [
            ("match", C(match)), ("base_pred", bp), ("mtypes", mt)])
        if not seen:
            raise Undecided("matches", f"{core.name} is not used")
        cp = core.params()
        for b, st in seen:
            if b[cp[0]] != mp or b[cp[2]] != mt:
                c.bad("arguments", "dig", loc, f"searches {show(b[cp[0]])} with mapping types "
                      f"{show(b[cp[2]])} instead of the caller's")
                return
        for b, st in seen:
            const_ref_predicate(c, I, b[cp[1]], st, ref, bp, match, loc)
        for kind, v, s in outs:
            if kind != "return":
                raise Undecided("path", f"{exc_kind(v)}")
            v = I.freeze(v, s)
            some = decide(A("truthy", found), s.facts)
            if not some:
                c.must(v == NONE, "None when nothing matches", "dig", loc,
                       f"returns {show(v)} when nothing matches")
                continue
            if v == NONE:
                c.bad("match returned", "dig", loc, "returns None although something matches")
                continue
            e = A("elem", found)
            if many:
                want = found if ix is None else None
                ps = parts(v)
                if ix is None:
                    ok = v == found or ps == (("*", found),) or (
                        ps and len(ps) == 1 and variants(ps[0]) == [({}, (("1", e),))]
                        and src_of(ps[0]) == found)
                else:
                    ok = ps and len(ps) == 1 and src_of(ps[0]) == found and \
                        variants(ps[0]) == [({}, (("1", A("item", e, C(ix))),))]
                if not ok and ps is None and v != found:
                    raise Undecided("result", show(v))
            else:
                first = A("item", found, C(0))
                want = first if ix is None else A("item", first, C(ix))
                ok = v == want
                if not ok and not (is_app(v, "item") and mentions(v, found)) and v != found:
                    raise Undecided("result", show(v))
            c.must(bool(ok), f"the {'matches' if many else 'match'}'s "
                   f"{ {0: 'key', 1: 'value', None: 'item'}[ix]}", "dig", loc,
                   f"returns {show(v)}")


def const_ref_predicate(c, I, pred, st, ref, bp, match, loc):
    """the predicate handed to the search"""
    K, V = S("k"), S("v")
    subj = {"key": (K,), "value": (V,), "item": (K, V)}[match]
    for kind, r, s in c.runv(I, pred, [K, V], st=st.fork()):
        r = strip_ids(I.freeze(r, s))
        call_ref = decide(A("isinst", ref, C("Callable")), s.facts)
        if call_ref is None:
            call_ref = decide(A("callable", ref), s.facts)
        if call_ref is None and any(is_call_to(x, ref) for x in [r]):
            call_ref = True
        if call_ref:
            c.must(True if r == A("call", ref, (K, V), ()) else (
                False if is_call_to(r, ref) or is_call_to(r, bp) else None),
                "a callable reference is used as the predicate", "dig", loc,
                f"a callable reference is turned into {show(r)}")
        elif kind == "raise" and is_app(r, "exc") or call_ref is False and is_call_to(r, ref):
            c.bad(f"match={match} decides", "dig", loc, f"match={match!r} " + (
                f"is decided by raising {r[2]}" if kind == "raise" else "calls a reference that is not callable"))
        elif is_call_to(r, bp):
            c.must(r == A("call", bp, (ref,) + subj, ()), f"match={match} compares the {match}", "dig",
                   loc, f"match={match!r} is decided by {show(r)}")
        elif not mentions(r, bp) and not opaque_parts(r) and mentions(r, ref):
            c.bad(f"match={match} uses the caller's comparison", "dig", loc,
                  f"match={match!r} is decided by {show(r)} whatever comparison is asked for")
        else:
            raise Undecided("predicate", show(r))


def const_pred(c):
    loc = fn_loc(c.repo, "structures.constant_to_dig_predicate")
    ref, d = S("ref"), S("default")
    I = c.interp()
    for match in ("key", "value", "item"):
        for kind, v, s in c.run(I, "structures.constant_to_dig_predicate", [ref, C(match), d]):
            if kind != "return":
                raise Undecided("path", exc_kind(v))
            const_ref_predicate(c, I, v, s, ref, d, match, loc)
