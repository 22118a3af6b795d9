"""M01 chunked sorting loses and repeats nothing, M02 options take effect, M03 parquet metadata."""
from . import prop
from .lib import *

COLS, GROUPS = ("a", "b"), (0, 1)
TCOLS = ("ab", "a", "Ab")  # columns of the metadata tables M03 is tried on
NG = 3       # row groups of the file parquet_metadata_records is tried on
RB = X("dustgoggles.mosaic.read_between")
MINS = {"builtins.min", "numpy.min", "numpy.amin", "numpy.nanmin"}
MAXS = {"builtins.max", "numpy.max", "numpy.amax", "numpy.nanmax"}
KEEP = {"combine_chunks", "unify_dictionaries", "replace_schema_metadata", "cast", "validate", "set_column"}


# ------------------------------------------------------- the environment
def records_hook(cols=COLS):
    """two row groups of the columns, each with its own statistics"""
    def h(I, fv, args, kws, st, n, fid):
        recs = []
        for col in cols:
            for g in GROUPS:
                recs.append(I.mkdict(st, [
                    ("kv", C("path_in_schema"), C(col)), ("kv", C("row_group"), C(g)),
                    ("kv", C("col_ix"), C(cols.index(col))), ("kv", C("has_min_max"), TRUE),
                    ("kv", C("num_values"), S(f"num_{col}{g}")),
                    ("kv", C("min"), S(f"min_{col}{g}")), ("kv", C("max"), S(f"max_{col}{g}"))]))
        return [(I.mklist(st, [("1", r) for r in recs]), st)]
    return h


def linspace(I, args, kws, st, n, fid):
    kw = dict(zip(("start", "stop", "num", "endpoint", "retstep", "dtype", "axis"), args))
    kw.update(kws)
    k, end = kw.get("num", C(50)), kw.get("endpoint", TRUE)
    if not is_c(k) or not isinstance(cval(k), int) or kw.get("retstep", FALSE) != FALSE or end not in (TRUE, FALSE):
        raise Unsupported("linspace")
    k = cval(k)
    a, b = I.freeze(kw["start"], st), I.freeze(kw["stop"], st)
    xs = [A("edge", a, b, C(i), C(k)) for i in range(k)]
    if k:
        xs[0] = a
    if k > 1 and end == TRUE:
        xs[-1] = b
    return [(I.mklist(st, [("1", x) for x in xs]), st)]


def windows_interp(c, seen):
    """interpreter in which edges of value ranges are ordered"""
    I = c.interp(hooks={"dustgoggles.mosaic.parquet_metadata_records": records_hook(),
                        "dustgoggles.mosaic.read_between": rb_hook(c, seen)},
                 ext={"numpy.linspace": linspace}, budget=3000000)

    def rank(t):
        if is_app(t, "edge"):
            return cval(t[4]) / cval(t[5])
        if known_extreme(t, {}, "min") == "ok":
            return 0.0
        if known_extreme(t, {}, "max") == "ok":
            return 1.0
        if upper_ok(t, {}) == "ok" or is_app(t, "lin"):
            return 2.0
        return None

    I.rank = rank
    I.methods["tolist"] = lambda I, recv, name, args, kws, st, n, fid: (
        [(I.mklist(st, st.heap[recv[1]].parts), st)] if recv[0] == "o" else NotImplemented)
    return I


def rb_hook(c, seen):
    def h(I, fv, args, kws, st, n, fid):
        f = c.repo.func("mosaic.read_between")
        ps = f.params() + f.kwonly()
        got = dict(zip(ps, args))
        for k, v in kws:
            if k not in ps:
                raise Undecided("read_between", f"argument {k}")
            got[k] = v
        got = {k: I.freeze(v, st) for k, v in got.items()}
        t = A("call", RB, tuple(I.freeze(a, st) for a in args),
              tuple((k, I.freeze(v, st)) for k, v in kws), I.new())
        seen[t] = got
        ev = ("call", RB, t[3], t[4], t, I.loc(n, fid))
        st.ev(*ev)
        st2 = st.fork()
        st2.facts[A("none", t)] = True
        st.facts[cmp_is(t, NONE)] = False
        return [(t, st), (NONE, st2)]
    return h


def sort_paths(c, n_chunks, direction, extra=()):
    """[(kind, value, state, windows read)] of sort_chunked on two row groups"""
    seen = {}
    I = windows_interp(c, seen)
    kws = dict(direction=C(direction), n_chunks=C(n_chunks), verbose=FALSE)
    kws.update(extra)
    outs = c.run(I, "mosaic.sort_chunked", [S("input"), S("output"), C("a")], list(kws.items()))
    res = []
    for k, v, s in outs:
        if k != "return":
            raise Undecided("sort_chunked", f"{exc_kind(v)} in the modelled environment")
        wins = []
        for e in flat(s.events()):
            if e[0] == "call" and e[1] == RB:
                if not isinstance(e[4], tuple) or e[4] not in seen:
                    raise Undecided("read_between", "unrecognised call")
                wins.append((e[4], seen[e[4]], e))
        if any(e[0] == "loop" and any(x[0] == "call" and x[1] == RB for x in flat([e])) for e in s.events()):
            raise Undecided("windows", "read in an unbounded loop")
        res.append((k, v, s, wins, I))
    return res


# --------------------------------------------------------- value windows
def extreme(t, names, which):
    """the statistics t is the minimum or maximum of: 'ok', a message, or None"""
    good = MINS if which == "min" else MAXS
    wrong = MAXS if which == "min" else MINS
    want = {S(f"{which}_a{g}") for g in GROUPS}
    if is_app(t, "call") and t[2][0] == "x" and t[2][1] in good | wrong:
        items = list(t[3])
        if len(items) == 1:
            ps = parts(items[0])
            if ps is None or any(p[0] != "1" for p in ps):
                return None
            items = [p[1] for p in ps]
        if any(k not in ("axis",) for k, _ in t[4]):
            return None
        if t[2][1] in wrong:
            return f"the {'largest' if which == 'min' else 'smallest'} of the row groups' statistics is used"
        have = set(items)
        if have == want:
            return "ok"
        if any(x[0] != "s" for x in have):
            if want <= have:
                return None
            return None
        if want - have:
            return f"the {which} of some row groups of the column is not considered"
        if which == "min" and not any(x[1].startswith("max_a") for x in have):
            return None
        return f"statistics other than the column's own {which} are considered"
    if t in want:
        return "one"
    if t[0] == "s":
        return f"{t[1].rsplit('_', 1)[0]} of another column is used"
    if is_c(t):
        return f"it is the constant {cval(t)!r}"
    return None


def single(t, want, facts, which):
    """is the symbol t known to be the extreme of want on this path?"""
    return all(o == t or decide(cmp_lt(o, t) if which == "min" else cmp_lt(t, o), facts) is False for o in want)


def known_extreme(t, facts, which):
    want = {S(f"{which}_a{g}") for g in GROUPS}
    if is_app(t, "edge"):
        return f"it is not the {which} but an inner edge"
    r = extreme(t, want, which)
    if r == "one":
        r = "ok" if single(t, want, facts, which) else f"it is the {which} of one row group"
    return r


INFS = (X("numpy.inf"), X("math.inf"), C(float("inf")), X("numpy.Inf"), X("numpy.infty"))


def lower_ok(t, facts):
    r = known_extreme(t, facts, "min")
    if r is None and is_app(t, "lin") and len(t[3]) == 1 and t[3][0][1] == 1:
        r = known_extreme(t[3][0][0], facts, "min")
        if r == "ok":
            return "ok" if t[2] <= 0 else "it lies above the smallest value"
    if r is None and (is_app(t, "neg") and t[2] in INFS or t == C(float("-inf"))
                      or is_app(t, "lin") and len(t[3]) == 1 and t[3][0][1] < 0 and t[3][0][0] in INFS):
        return "ok"
    return r


def upper_ok(t, facts):
    """windows exclude their upper bounds"""
    if t in INFS:
        return "ok"
    if is_app(t, "call") and t[2][0] == "x":
        if t[2][1] in ("numpy.nextafter", "math.nextafter") and len(t[3]) == 2:
            r = known_extreme(t[3][0], facts, "max")
            if r == "ok" and t[3][1] in INFS:
                return "ok"
            if r not in ("ok", None):
                return r
            if r == "ok" and (is_app(t[3][1], "neg") or is_c(t[3][1]) and cval(t[3][1]) < 0):
                return "it lies below the largest value"
            return None
        if t[2][1] in MAXS | {"numpy.maximum"} and len(t[3]) > 1 or t[2][1] in MAXS and len(t[3]) == 1 \
                and parts(t[3][0]) and not all(p[1][0] == "s" for p in parts(t[3][0]) if p[0] == "1"):
            items = t[3] if len(t[3]) > 1 else tuple(p[1] for p in parts(t[3][0]))
            rs = [upper_ok(x, facts) for x in items]
            if "ok" in rs:
                return "ok"
            if all(r is not None for r in rs):
                return rs[0]
            return None
    r = known_extreme(t, facts, "max")
    if r == "ok":
        return "rows with the largest value are in no window, as windows exclude their upper bounds"
    if r is None and is_app(t, "lin") and len(t[3]) == 1 and t[3][0][1] == 1:
        r = known_extreme(t[3][0][0], facts, "max")
        if r == "ok":
            if t[2] > 0:
                return "adding a constant to a huge largest value leaves it unchanged, so its rows are in no window"
            return "it lies below the largest value"
    return r


def bounds_of(got):
    b = got.get("bounds")
    if b is None:
        raise Undecided("bounds", "not given")
    if b[0] == "t" and len(b[1]) == 2:
        return b[1]
    ps = parts(b)
    if ps and len(ps) == 2 and all(p[0] == "1" for p in ps):
        return ps[0][1], ps[1][1]
    raise Undecided("bounds", show(b)[:60])


def window_checks(c, wins, s, direction, loc):
    bs = [bounds_of(g) for _, g, _ in wins]
    if not bs:
        raise Undecided("windows", "none read")
    f = s.facts
    firsts = [i for i, b in enumerate(bs) if lower_ok(b[0], f) == "ok"]
    fwd = all(bs[i][1] == bs[i + 1][0] for i in range(len(bs) - 1))
    rev = all(bs[i][0] == bs[i + 1][1] for i in range(len(bs) - 1))
    seq = bs if fwd else bs[::-1] if rev else None
    if seq is None:
        # any order that chains is fine here
        rest, cur = list(bs), None
        chain = []
        start = [b for b in rest if not any(o[1] == b[0] for o in rest if o != b)]
        if len(start) == 1:
            cur = start[0]
            while cur is not None:
                chain.append(cur)
                rest.remove(cur)
                cur = next((b for b in rest if b[0] == chain[-1][1]), None)
        if len(chain) == len(bs):
            seq = chain
    if seq is None:
        if any(known_edge(x) for b in bs for x in b) and all(known_edge(x) for b in bs for x in b):
            c.bad("no gap or overlap", "tiling", loc, "two consecutive windows do not share an edge", s.events())
            return
        raise Undecided("windows", "their edges")
    c.ok("no gap or overlap")
    for name, r in (("lowest edge", lower_ok(seq[0][0], f)), ("highest edge", upper_ok(seq[-1][1], f))):
        if r is None:
            raise Undecided(name, show(seq[0][0] if name[0] == "l" else seq[-1][1])[:80])
        c.must(r == "ok", name, "tiling", loc, f"the {name.split()[0]} window edge does not take in every row: {r}",
               s.events())


def known_edge(t):
    return not opaque_parts(t)


# ------------------------------------------------------- written chunks
def chain(t):
    """[(step, detail)] from a written table back to the table read, and that table"""
    steps = []
    while is_app(t, "call") and t[2] != RB:
        f = t[2]
        if is_app(f, "attr"):
            steps.append((f[3], t[3], dict(t[4])))
            t = f[2]
        elif f[0] == "s":
            steps.append(("processor", t[3], dict(t[4])))
            if not t[3]:
                return steps, None
            t = t[3][0]
        elif f[0] == "x":
            steps.append((f[1], t[3], dict(t[4])))
            if not t[3]:
                return steps, None
            t = t[3][0]
        else:
            return steps, None
    return steps, t if is_app(t, "call") else None


def writes(s):
    out = []
    for e in flat(s.events()):
        if e[0] == "file" and e[1] in ("write_table", "write", "write_batch"):
            o = s.heap.get(e[2][1])
            kw = dict(e[6]) if len(e) > 6 else {}
            args = list(e[3])
            if not args:
                args = [v for k, v in kw.items() if k in ("table", "table_or_batch", "batch")]
            if len(args) > 1:
                kw["row_group_size"] = args[1]
            out.append((args[0], kw, e))
    return out


def emptiness(t, facts):
    """True when the facts say that the table has no rows, False when it has; else None"""
    sizes = [t, A("len", t), A("call", X("builtins.len"), (t,), ()), A("attr", t, "num_rows"),
             A("item", A("attr", t, "shape"), C(0))]
    for x in sizes:
        if decide(cmp_lt(x, C(1)), facts) is True or decide(cmp_lt(C(0), x), facts) is False \
                or decide(cmp_eq(x, C(0)), facts) is True or decide(A("truthy", x), facts) is False:
            return True
    return None


def size_test(t, facts):
    """is every test made of the table a comparison of its size with constants?"""
    def leaf_ok(x):
        return is_c(x) or x in (t, A("attr", t, "num_rows")) or is_app(x, "len") and x[2] in (t,) \
            or is_app(x, "attr") and x[2] == t and x[3] in ("num_rows", "nbytes", "num_columns")
    for a, v in facts.items():
        if not mentions(a, t) or is_app(a, "none"):
            continue
        n = a[2] if is_app(a, "not") else a
        if is_app(n, "is") and NONE in n[2:]:
            continue
        if not is_app(n) or n[1] not in ("lt", "lt0", "eq", "eq0", "truthy"):
            return False
    return True


def same(t, u):
    return t == u


def chunk_checks(c, wins, s, loc):
    ws = writes(s)
    used = {}
    for t, kw, e in ws:
        steps, base = chain(t)
        srcs = {x for x in subterms(t) if is_app(x, "call") and x[2] == RB}
        if base is None or len(srcs) != 1:
            raise Undecided("written table", show(t)[:60])
        for st, args, kws in steps:
            if st in ("slice", "head", "filter", "drop_duplicates", "group_by", "drop_null", "limit"):
                c.bad("whole chunks", "chunks", loc_of(e), f"rows are dropped from a chunk by {st}", s.events())
                return
            if st not in KEEP | {"sort_by", "take", "processor"} and not st.startswith("pyarrow"):
                raise Undecided("written table", st)
        used.setdefault(base, []).append(e)
    c.ok("whole chunks")
    for t, got, e in wins:
        if s.facts.get(A("none", t)):
            continue
        n = len(used.get(strip_last(t, used), ()))
        if n > 1:
            c.bad("each chunk written once", "chunks", loc_of(e), "the rows of a window are written more than once", s.events())
        elif n == 0:
            em = emptiness(t, s.facts)
            if em is True:
                c.ok("each chunk written once")
            elif size_test(t, s.facts):
                c.bad("each chunk written once", "chunks", loc_of(e), "rows read for a window are not written", s.events())
            else:
                raise Undecided("each chunk written once", "the condition under which it is skipped")
        else:
            c.ok("each chunk written once")


def strip_last(t, used):
    return t if t in used else next((u for u in used if strip_ids(u) == strip_ids(t)), t)


@prop("M01", "Windows: sort_chunked is executed abstractly on two row groups of two columns with symbolic statistics, "
      "for each direction and several numbers of chunks; the windows it reads must chain through shared edges, begin "
      "at or below the minimum over exactly the column's row groups and end strictly above their maximum for every "
      "number, with the column's records and no others, and each window's rows must be written exactly once unless "
      "there are none. Selection: read_between is executed on symbolic bounds and statistics; a row group may be "
      "skipped only on paths whose conditions imply that it cannot hold a row of the half-open window, and kept "
      "groups must be filtered by exactly the two bounds. Records: parquet_metadata_records on a 2 by 2 file.")
def m01(c):
    c.rule("tiling", "the windows chain through shared edges from the smallest to beyond the largest value")
    c.rule("records", "each window is read with exactly the sort column's records, over all columns")
    c.rule("chunks", "the rows of each window are written exactly once")
    c.rule("skipping", "a row group is skipped only if none of its rows can be in the window")
    c.rule("selection", "a window's rows are those at or above the lower and below the upper bound")
    c.rule("metadata", "each record describes one column of one row group")
    loc = fn_loc(c.repo, "mosaic.sort_chunked")
    c.repo.func("mosaic.read_between")
    c.repo.func("mosaic.parquet_metadata_records")
    for direction in ("ascending", "descending"):
        for n in (1, 2, 3):
            for extra in ((), (("inline_processor", S("proc")),)):
                if extra and n != 2:
                    continue
                with c.group(f"sort_chunked in {n} chunks, {direction}{', processed' if extra else ''}"):
                    for k, v, s, wins, I in sort_paths(c, n, direction, extra):
                        window_checks(c, wins, s, direction, loc)
                        for t, got, e in wins:
                            record_args(c, t, got, e, s, I)
                        chunk_checks(c, wins, s, loc)
    between(c)
    metadata(c)


def record_args(c, t, got, e, s, I):
    recs = got.get("meta_records")
    ps = parts(recs) if recs is not None else None
    if ps is None or any(p[0] != "1" for p in ps):
        raise Undecided("records", "not a known list")
    have = []
    for p in ps:
        d = parts(p[1])
        kv = {x[1]: x[2] for x in d if x[0] == "kv"} if d else {}
        have.append((kv.get(C("path_in_schema")), kv.get(C("row_group")), kv.get(C("min")), kv.get(C("max"))))
    want = [(C("a"), C(g), S(f"min_a{g}"), S(f"max_a{g}")) for g in GROUPS]
    if sorted(map(str, have)) == sorted(map(str, want)):
        c.ok("records")
    elif any(w not in have for w in want):
        c.must(None if any(None in h for h in have) else False, "records", "records", loc_of(e),
               "some of the sort column's row groups are not read", s.events())
    elif len(have) > len(want):
        c.bad("records", "records", loc_of(e), "row groups are read by the statistics of other columns too, or twice", s.events())
    else:
        raise Undecided("records", "unrecognised")
    fld = got.get("field")
    c.must(fld == C("a") if fld is not None and is_c(fld) else None, "column", "records", loc_of(e),
           "windows are applied to another column", s.events())
    cols = got.get("columns", NONE)
    c.must(cols == NONE if is_c(cols) or parts(cols) is not None else None, "all columns", "records", loc_of(e),
           "only some columns are read for the sorted file", s.events())


# ---------------------------------------------------------- read_between
B0, B1, FLD = S("lower"), S("upper"), S("field")


def run_between(c, columns=None, verbose=FALSE):
    I = c.interp(budget=3000000)
    st = St()
    rs = [I.mkdict(st, [
        ("kv", C("path_in_schema"), FLD), ("kv", C("row_group"), S(f"row_group_{g}")),
        ("kv", C("col_ix"), S("col_ix")), ("kv", C("has_min_max"), TRUE),
        ("kv", C("min"), S(f"min_{g}")), ("kv", C("max"), S(f"max_{g}"))]) for g in GROUPS]
    kws = [("verbose", verbose)]
    if columns is not None:
        kws.append(("columns", columns))
        st.facts[cmp_is(columns, NONE)] = False
    lst = I.mklist(st, [("1", r) for r in rs])
    return I, c.run(I, "mosaic.read_between", [S("file"), FLD, ("t", (B0, B1)), lst], kws, st=st)


def copied(t):
    """t, or the sequence it is a plain copy of"""
    ps = parts(t)
    return ps[0][1] if ps is not None and len(ps) == 1 and ps[0][0] == "*" else t


def group_reads(s):
    """[(table term, [row groups], event)]"""
    out = []
    for e in flat(s.events()):
        if e[0] == "call" and is_app(e[1], "attr") and e[1][2] == S("file"):
            if e[1][3] in ("read_row_group", "read_row_groups"):
                kw = dict(e[3])
                a = list(e[2]) or [kw.get("i", kw.get("row_groups"))]
                gs = [a[0]]
                if e[1][3] == "read_row_groups":
                    ps = parts(a[0]) if a[0] is not None else None
                    if ps is None or any(p[0] != "1" for p in ps):
                        raise Undecided("row groups", show(a[0])[:60])
                    gs = [p[1] for p in ps]
                cols = a[1] if len(a) > 1 else kw.get("columns", NONE)
                cols = copied(cols)
                out.append((e[4], gs, cols, e))
            elif e[1][3] in ("read", "iter_batches"):
                raise Undecided("row groups", e[1][3])
    return out


LESS = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}


def kernel(t):
    if is_app(t, "call") and t[2][0] == "x" and t[2][1].startswith("pyarrow"):
        return t[2][1].split(".")[-1]
    return None


def column_of(x, tab):
    """is x the field's column of this table (or an expression naming it)?"""
    if is_app(x, "item") and x[2] == tab and x[3] == FLD:
        return True
    if is_app(x, "call"):
        if is_app(x[2], "attr") and x[2][2] == tab and x[2][3] in ("column", "__getitem__") and x[3][:1] == (FLD,):
            return True
        if kernel(x) in ("field",) and x[3][:1] == (FLD,):
            return True
    return False


def mask(m, tab):
    """[(op, bound)] a mask over tab's column imposes; 'stale' if built from another table; None unknown"""
    k = kernel(m)
    if k in ("and_", "and_kleene"):
        a, b = mask(m[3][0], tab), mask(m[3][1], tab)
        if "stale" in (a, b):
            return "stale"
        return None if a is None or b is None else a + b
    if k == "invert" and m[3]:
        r = mask(m[3][0], tab)
        return [(NEG[r[0][0]], r[0][1])] if isinstance(r, list) and len(r) == 1 and r[0][0] in NEG else None
    if k in LESS:
        x, y = (list(m[3]) + [None, None])[:2]
        if y is None:
            return None
        y2, x2 = unscalar(y), unscalar(x)
        if column_of(x, tab):
            return [(LESS[k], y2)]
        if column_of(y, tab):
            return [(FLIP[LESS[k]], x2)]
        for z in (x, y):
            if is_app(z, "item") and z[3] == FLD and z[2] != tab:
                return "stale"
        if is_app(x, "item") and x[2] == tab or is_app(y, "item") and y[2] == tab:
            return "other"
        return None
    if is_app(m, "bitand") or is_app(m, "and") or is_app(m, "&"):
        a, b = mask(m[2], tab), mask(m[3], tab)
        return None if not isinstance(a, list) or not isinstance(b, list) else a + b
    if is_app(m, "lt"):
        if column_of(m[2], tab):
            return [("<", m[3])]
        if column_of(m[3], tab):
            return [(">", m[2])]
    if is_app(m, "not"):
        r = mask(m[2], tab)
        return [(NEG[r[0][0]], r[0][1])] if isinstance(r, list) and len(r) == 1 and r[0][0] in NEG else None
    if is_app(m, "le"):
        if column_of(m[2], tab):
            return [("<=", m[3])]
        if column_of(m[3], tab):
            return [(">=", m[2])]
    return None


def unscalar(x):
    return x[3][0] if is_app(x, "call") and kernel(x) == "scalar" and x[3] else x


def tables(t, reads):
    """[(row group, constraints, columns)] of a table term"""
    for term, gs, cols, e in reads:
        if t == term:
            return [(g, [], cols) for g in gs]
    k = kernel(t)
    if k == "concat_tables":
        ps = parts(t[3][0]) if t[3] else None
        if ps is None or any(p[0] != "1" for p in ps):
            raise Undecided("result", "concatenation of an unknown list")
        return [x for p in ps for x in tables(p[1], reads)]
    meth = t[2][3] if is_app(t, "call") and is_app(t[2], "attr") else None
    if k == "filter" or meth == "filter":
        tab, m = (t[3][0], t[3][1]) if k == "filter" else (t[2][2], t[3][0])
        inner = tables(tab, reads)
        if any(cols != NONE for _, _, cols in inner):
            raise Bad("the bounds are applied after the columns were selected, which fails on a field that is not among them")
        cons = mask(m, tab)
        if cons == "stale":
            raise Bad("a mask made from one table is applied to another")
        if cons == "other":
            raise Bad("rows are selected by another column")
        if cons is None:
            raise Undecided("selection", show(m)[:80])
        return [(g, cs + cons, cols) for g, cs, cols in inner]
    if meth in ("select", "select_columns") and t[3]:
        return [(g, cs, copied(t[3][0])) for g, cs, cols in tables(t[2][2], reads)]
    if meth in ("combine_chunks", "unify_dictionaries"):
        return tables(t[2][2], reads)
    if meth in ("slice",) or k in ("drop_null",):
        raise Bad("rows of the window are dropped")
    raise Undecided("result", show(t)[:60])


class Bad(Exception):
    pass


def between(c, columns=None):
    loc = fn_loc(c.repo, "mosaic.read_between")
    with c.group("read_between"):
        I, outs = run_between(c)
        for k, v, s in outs:
            if k != "return":
                raise Undecided("read_between", f"{exc_kind(v)} in the modelled environment")
            reads = group_reads(s)
            read = [g for _, gs, _, _ in reads for g in gs]
            f = s.facts
            kept = []
            for g in GROUPS:
                n = read.count(S(f"row_group_{g}"))
                if n > 1:
                    c.bad("read once", "selection", loc, "a row group is read more than once", s.events())
                elif n == 1:
                    kept.append(S(f"row_group_{g}"))
                else:
                    mn, mx = S(f"min_{g}"), S(f"max_{g}")
                    if decide(cmp_lt(B1, mn), f) is True or decide(cmp_lt(mn, B1), f) is False \
                            or decide(cmp_lt(mx, B0), f) is True:
                        c.ok("skipped groups")
                    elif all(plain_test(a) for a in f):
                        why = "a row group is skipped although its statistics do not rule out rows of the window"
                        if decide(cmp_lt(B0, mx), f) is False:
                            why = "a row group is skipped although its largest value may equal the lower bound"
                        c.bad("skipped groups", "skipping", loc, why, s.events())
                    else:
                        raise Undecided("skipped groups", "tests of an unknown form")
            odd = [g for g in read if g not in [S(f"row_group_{x}") for x in GROUPS]]
            if odd:
                if all(is_c(g) or g[0] == "s" for g in odd):
                    c.bad("read once", "selection", loc, f"row group {show(odd[0])} is read instead of the record's own", s.events())
                    continue
                raise Undecided("row groups", show(odd[0])[:60])
            val = I.freeze(v, s)
            if not kept:
                c.must(val == NONE or None, "nothing kept", "selection", loc, show(val)[:60], s.events())
                continue
            if val == NONE:
                c.bad("result", "selection", loc, "row groups with rows of the window are not returned", s.events())
                continue
            try:
                got = tables(val, reads)
            except Bad as e:
                c.bad("result", "selection", loc, str(e), s.events())
                continue
            names = [g for g, _, _ in got]
            if sorted(map(str, names)) != sorted(map(str, kept)):
                c.bad("result", "selection", loc, "a row group is missing from the result or repeated in it", s.events())
                continue
            for g, cons, cols in got:
                extra = [x for x in cons if x not in (("<", B1), (">=", B0))]
                if extra and any(x[1] not in (B0, B1) for x in extra):
                    raise Undecided("selection", show(extra[0][1])[:60])
                if ("<", B1) in cons and (">=", B0) in cons and not extra:
                    c.ok("selection")
                elif ("<=", B1) in cons:
                    c.bad("selection", "selection", loc, "rows equal to the upper bound are selected, which the next "
                          "window selects too", s.events())
                elif (">", B0) in cons:
                    c.bad("selection", "selection", loc, "rows equal to the lower bound are in no window", s.events())
                elif extra:
                    c.bad("selection", "selection", loc, f"rows {extra[0][0]} {show(extra[0][1])} are selected", s.events())
                else:
                    c.bad("selection", "selection", loc, "rows beyond the window's "
                          + ("upper" if (">=", B0) in cons else "lower") + " bound are selected", s.events())


def plain_test(a):
    """a comparison among statistics and bounds"""
    leaves = {B0, B1} | {S(f"{w}_{g}") for w in ("min", "max") for g in GROUPS}
    n = a[2] if is_app(a, "not") else a
    if is_app(n) and n[1] in ("lt", "eq", "is", "lt0", "eq0", "truthy"):
        return all(x in leaves or is_c(x) for x in flatten(n[2:]))
    return False


def flatten(xs):
    out = []
    for x in xs:
        if is_app(x, "lin"):
            out += [y[0] for y in x[3]]
        else:
            out.append(x)
    return out


# ------------------------------------------------- parquet_metadata_records
def meta_term(I, st):
    t = S("meta")
    st.over[("attr", t, "num_columns")] = C(2)
    st.over[("attr", t, "num_row_groups")] = C(NG)
    return t


def metadata(c):
    loc = fn_loc(c.repo, "mosaic.parquet_metadata_records")
    for variant in ("statistics", "no statistics (None)", "no statistics key"):
        with c.group(f"parquet_metadata_records, {variant}"):
            I = c.interp(ext={"pyarrow.parquet.read_metadata": lambda I, a, kw, st, n, fid: [(meta_term(I, st), st)]})

            def to_dict(I, recv, name, args, kws, st, n, fid):
                d = [("kv", C("path_in_schema"), A("path", recv)), ("kv", C("num_values"), A("num", recv))]
                if variant == "statistics":
                    d.append(("kv", C("statistics"), I.mkdict(st, [
                        ("kv", C("min"), A("min", recv)), ("kv", C("max"), A("max", recv)),
                        ("kv", C("has_min_max"), TRUE), ("kv", C("num_values"), A("snum", recv))])))
                elif "None" in variant:
                    d.append(("kv", C("statistics"), NONE))
                return [(I.mkdict(st, d), st)]

            def row_group(I, recv, name, args, kws, st, n, fid):
                a = [I.freeze(x, st) for x in args] + [I.freeze(x, st) for _, x in kws]
                t = A("colchunk" if name == "column" else "rowgroup", recv, *a)
                if name == "row_group":
                    st.over[("attr", t, "num_columns")] = C(2)
                return [(t, st)]
            I.methods.update(to_dict=to_dict, row_group=row_group, column=row_group)
            for k, v, s in c.run(I, "mosaic.parquet_metadata_records", [S("file")]):
                if k != "return":
                    c.must(False if exc_kind(v) in ("TypeError", "KeyError", "AttributeError", "ValueError") else None,
                           "never fails", "metadata", loc, f"{exc_kind(v)} for a column with {variant}", s.events())
                    continue
                c.ok("never fails")
                record_list(c, parts(I.freeze(v, s)), s, loc, variant)


def record_list(c, ps, s, loc, variant):
    if ps is None or any(p[0] != "1" for p in ps):
        raise Undecided("records", "not a known list")
    seen = []
    for p in ps:
        d = parts(p[1])
        if d is None or any(x[0] != "kv" for x in d):
            raise Undecided("records", "not known dictionaries")
        kv = {cval(x[1]): x[2] for x in d if is_c(x[1])}
        path = kv.get("path_in_schema")
        if path is None:
            c.bad("own fields", "metadata", loc, "records do not name their column", s.events())
            continue
        if not is_app(path, "path") or not is_app(path[2], "colchunk") or not is_app(path[2][2], "rowgroup"):
            raise Undecided("own fields", show(path)[:60])
        ch = path[2]
        col, grp = ch[3], ch[2][3]
        seen.append((col, grp))
        for key, want in (("row_group", grp), ("col_ix", col)):
            if key not in kv:
                c.bad("own fields", "metadata", loc, f"records have no {key}", s.events())
            elif kv[key] == want:
                c.ok("own fields")
            elif is_c(kv[key]):
                c.bad("own fields", "metadata", loc, f"a record's {key} is not its own", s.events())
            else:
                raise Undecided("own fields", show(kv[key])[:60])
        if variant == "statistics":
            for key in ("min", "max"):
                t = kv.get(key)
                if t == A(key, ch):
                    c.ok("own statistics")
                elif t is None or is_app(t) and t[1] in ("min", "max"):
                    c.bad("own statistics", "metadata", loc, f"a record's {key} is {'missing' if t is None else 'not its own'}", s.events())
                else:
                    raise Undecided("own statistics", show(t)[:60])
    want = [(C(i), C(j)) for i in range(2) for j in range(NG)]
    if sorted(map(str, seen)) == sorted(map(str, want)):
        c.ok("one record each")
    elif all(is_c(a) and is_c(b) for a, b in seen):
        c.bad("one record each", "metadata", loc, "some column of some row group has no record, or several", s.events())
    else:
        raise Undecided("one record each", "unrecognised")


# ------------------------------------------------------------------ M02
PRINTS = {"builtins.print", "sys.stdout.write", "pprint.pprint", "sys.stderr.write"}


def prints(s):
    return [e for e in flat(s.events()) if e[0] == "call" and e[1][0] == "x" and e[1][1] in PRINTS]


OPTIONS = (
    ("version", C("1.0")), ("row_group_size", C(1000)), ("use_dictionary", FALSE), ("use_dictionary", TRUE),
    ("schema", S("schema")), ("inline_processor", S("proc")))


def option_paths(c, direction, n, opts, verbose=FALSE):
    seen = {}
    I = windows_interp(c, seen)
    st = St()
    kws = dict(direction=C(direction), n_chunks=C(n), verbose=verbose)
    for k, v in opts:
        kws[k] = v
        if v[0] == "s":
            st.facts[cmp_is(v, NONE)] = False
            st.facts[A("truthy", v)] = True
    res = []
    for k, v, s in c.run(I, "mosaic.sort_chunked", [S("input"), S("output"), C("a")], list(kws.items()), st=st):
        if k != "return":
            raise Undecided("sort_chunked", f"{exc_kind(v)} in the modelled environment")
        wins = [(e[4], seen[e[4]], e) for e in flat(s.events()) if e[0] == "call" and e[1] == RB and e[4] in seen]
        if any(e[0] == "loop" and any(x[0] == "call" and x[1] == RB for x in flat([e])) for e in s.events()):
            raise Undecided("windows", "read in an unbounded loop")
        res.append((s, wins, I))
    return res


@prop("M02", "sort_chunked is executed abstractly for each direction, several numbers of chunks and each option given "
      "and not given, on two row groups: windows must be read in the direction's order, every chunk written must have "
      "been sorted by exactly the sort column in that direction and passed through the processor exactly when there "
      "is one, the writer and each write must receive the options under their own names and only when given, and "
      "no path may print when verbosity is off. read_between likewise for columns and verbosity.")
def m02(c):
    c.rule("order", "windows are read, and their rows written, in the requested direction's order")
    c.rule("sorting", "each chunk is sorted by the sort column in the requested direction")
    c.rule("options", "each option reaches the operation it is named for, and only when it is given")
    c.rule("quiet", "nothing is printed when verbosity is off")
    c.rule("count", "as many windows are read as chunks were requested")
    c.rule("columns", "bounded reads return the requested columns")
    loc = fn_loc(c.repo, "mosaic.sort_chunked")
    for direction in ("ascending", "descending"):
        for n in (1, 2, 4):
            with c.group(f"sort_chunked in {n} chunks, {direction}"):
                for s, wins, I in option_paths(c, direction, n, ()):
                    c.must(len(wins) == n, "number of chunks", "count", loc,
                           f"{len(wins)} windows are read for {n} chunks", s.events())
                    reading_order(c, wins, s, direction, loc)
                    written(c, s, direction, (), loc, wins)
        for i, o in enumerate(OPTIONS):
            with c.group(f"sort_chunked with {o[0]}={show(o[1])}, {direction}"):
                for s, wins, I in option_paths(c, direction, 1, (o,)):
                    written(c, s, direction, (o,), loc, wins)
        with c.group(f"sort_chunked with every option, {direction}"):
            opts = tuple(o for o in OPTIONS if o[1] != TRUE)
            for s, wins, I in option_paths(c, direction, 2, opts):
                written(c, s, direction, opts, loc, wins)
    for v in (FALSE, TRUE):
        with c.group(f"verbosity {'on' if v == TRUE else 'off'}"):
            for s, wins, I in option_paths(c, "ascending", 2, (), v):
                if v == FALSE:
                    for e in prints(s):
                        c.bad("quiet", "quiet", loc_of(e), "it prints although verbosity is off", s.events())
                for t, got, e in wins:
                    g = got.get("verbose")
                    if v == FALSE:
                        c.must(g == FALSE if g is None or is_c(g) else None, "quiet", "quiet", loc_of(e),
                               "bounded reads are left verbose although verbosity is off", s.events())
                    else:
                        c.must(g in (None, TRUE) or None, "verbose", "quiet", loc_of(e), "bounded reads are not verbose")
            bl = fn_loc(c.repo, "mosaic.read_between")
            I, outs = run_between(c, verbose=v)
            for k, r, s in outs:
                ps = prints(s)
                if v == FALSE:
                    c.must(not ps, "read_between", "quiet", loc_of(ps[0]) if ps else bl,
                           "it prints although verbosity is off", s.events())
                else:
                    c.must(bool(ps) or None, "read_between", "quiet", bl, "no output recognised")
    for cols in (None, NONE, S("columns")):
        with c.group(f"read_between, columns {'not given' if cols is None else show(cols)}"):
            bl = fn_loc(c.repo, "mosaic.read_between")
            I, outs = run_between(c, columns=cols)
            for k, v, s in outs:
                if k != "return":
                    raise Undecided("read_between", f"{exc_kind(v)} in the modelled environment")
                reads = group_reads(s)
                val = I.freeze(v, s)
                if not reads or val == NONE:
                    continue
                early = [e for _, _, cs, e in reads if cs not in (NONE,)]
                if early and cols == S("columns"):
                    cs = [x[2] for x in reads if x[2] != NONE][0]
                    c.must(False if cs == S("columns") else None, "columns", "columns", loc_of(early[0]),
                           "only the requested columns are read, so the bounds fail on a field that is not among them",
                           s.events())
                    continue
                try:
                    got = tables(val, reads)
                except Bad as e:
                    if "columns" in str(e):
                        c.bad("columns", "columns", bl, str(e), s.events())
                    continue
                for g, cons, cs in got:
                    want = S("columns") if cols == S("columns") else NONE
                    if cs == want:
                        c.ok("columns")
                    elif cs == NONE:
                        c.bad("columns", "columns", bl, "the requested columns are ignored", s.events())
                    elif want == NONE:
                        c.bad("columns", "columns", bl, "columns are left out although none were requested", s.events())
                    else:
                        raise Undecided("columns", show(cs)[:60])


def reading_order(c, wins, s, direction, loc):
    bs = [bounds_of(g) for _, g, _ in wins]
    if len(bs) < 2:
        return
    fwd = all(bs[i][1] == bs[i + 1][0] for i in range(len(bs) - 1))
    rev = all(bs[i][0] == bs[i + 1][1] for i in range(len(bs) - 1))
    if fwd == rev:
        raise Undecided("order", "windows without shared edges")
    c.must(fwd == (direction == "ascending"), "order", "order", loc,
           f"windows are read in {'ascending' if fwd else 'descending'} order for a{'n ascending' if direction == 'ascending' else ' descending'} sort",
           s.events())


def sort_keys(args, kws):
    """[(column, direction)] of a sort_by/sort_indices call, or None"""
    a = args[0] if args else kws.get("sorting", kws.get("sort_keys"))
    if a is None:
        return None
    if is_c(a):
        return [(a, C("ascending"))]
    ps = parts(a)
    if ps is None or any(p[0] != "1" for p in ps):
        return None
    out = []
    for p in ps:
        if p[1][0] != "t" or len(p[1][1]) != 2:
            return None
        out.append(p[1][1])
    return out


def written(c, s, direction, opts, loc, wins):
    opt = dict(opts)
    ws = writes(s)
    order = []
    for t, kw, e in ws:
        steps, base = chain(t)
        if base is None or base[2] != RB:
            raise Undecided("written table", show(t)[:60])
        order.append(base)
        sorts, procs, odd = [], [], []
        for i, (st, args, kws) in enumerate(steps):
            if st == "sort_by":
                sorts.append((sort_keys(args, kws), i))
            elif st == "take":
                ix = [x for x in subterms(args[0]) if is_app(x, "call") and kernel(x) in ("sort_indices", "array_sort_indices")] if args else []
                if len(ix) != 1:
                    odd.append(st)
                else:
                    sorts.append((sort_keys(ix[0][3][1:], dict(ix[0][4])), i))
            elif st == "processor":
                procs.append(i)
            elif st not in KEEP:
                odd.append(st)
        if odd:
            raise Undecided("written table", odd[0])
        if not sorts:
            c.bad("sorted", "sorting", loc_of(e), "a chunk is written without having been sorted", s.events())
        else:
            keys = sorts[0][0]
            if keys is None:
                raise Undecided("sorted", "unknown keys")
            first = keys[0] if keys else None
            c.must(first == (C("a"), C(direction)) if not keys or all(is_c(x) or by_position(x) for x in first) else None,
                   "sorted", "sorting", loc_of(e),
                   f"a chunk is sorted by {', '.join(show(x) for x in keys[0]) if keys else 'nothing'} for a sort by "
                   f"'a', '{direction}'", s.events())
        want = "inline_processor" in opt
        c.must(len(procs) == int(want), "processor", "options", loc_of(e),
               "the processor is not applied once to each chunk" if want else "something is called in place of a processor",
               s.events())
        if procs and sorts and want:
            c.must(max(procs) < min(i for _, i in sorts), "processor", "options", loc_of(e),
                   "the processor is given a chunk before it is sorted", s.events())
        rg = kw.get("row_group_size", NONE)
        option(c, "row_group_size", rg, opt.get("row_group_size", NONE), loc_of(e), s)
    # chunks in the order they were read
    read = [t for t, _, _ in wins]
    pos = [next((i for i, r in enumerate(read) if strip_ids(r) == strip_ids(b)), None) for b in order]
    if None in pos:
        raise Undecided("order", "unrecognised chunk")
    bs = [bounds_of(wins[i][1]) for i in pos]
    allb = [bounds_of(g) for _, g, _ in wins]
    asc = sorted(range(len(allb)), key=lambda i: rank(allb, i))
    rk = [asc.index(i) for i in pos]
    good = rk == sorted(rk, reverse=direction == "descending")
    c.must(good, "order", "order", loc, f"chunks are written out of order for a sort that is {direction}", s.events())
    opened = [e for e in flat(s.events()) if e[0] == "file" and e[1] == "open" and e[3] and e[3][0] == X("pyarrow.parquet.ParquetWriter")]
    if len(opened) != 1:
        if ws and len(opened) > 1:
            c.bad("writer", "options", loc_of(opened[1]), "the output is opened more than once", s.events())
            return
        raise Undecided("writer", "not recognised")
    e = opened[0]
    args, kws = list(e[3][1]), dict(e[3][2])
    names = ("where", "schema", "filesystem", "flavor", "version", "use_dictionary")
    kws.update(zip(names, args))
    option(c, "output", kws.get("where"), S("output"), loc_of(e), s)
    option(c, "version", kws.get("version", C("2.6")), opt.get("version", C("2.6")), loc_of(e), s)
    option(c, "use_dictionary", kws.get("use_dictionary", TRUE), opt.get("use_dictionary", TRUE), loc_of(e), s)
    sch = kws.get("schema")
    if "schema" in opt:
        option(c, "schema", sch, S("schema"), loc_of(e), s)
    else:
        c.must(sch is not None and sch != NONE, "schema", "options", loc_of(e),
               "the output has no schema when none is given", s.events())


def by_position(x):
    """a column found by its position, whatever the sort column"""
    return is_app(x, "item") and is_c(x[3]) and cval(x[3]) != "a"


def rank(bs, i):
    """how many windows precede window i by value"""
    n, cur, guard = 0, bs[i], 0
    while guard < len(bs):
        prev = next((b for b in bs if b[1] == cur[0] and b != cur), None)
        if prev is None:
            break
        cur, n, guard = prev, n + 1, guard + 1
    return n


def option(c, name, got, want, loc, s):
    if got == want:
        c.ok(name)
    elif got is None or is_c(got) or got[0] in ("s", "x") or want[0] == "s" and not mentions(got, want) \
            and not opaque_parts(got):
        c.bad(name, "options", loc, f"{name} is {show(got) if got is not None else 'missing'} "
              f"{'when not given' if want in (NONE, TRUE) else 'instead of ' + show(want)}", s.events())
    else:
        raise Undecided(name, show(got)[:60])


# ------------------------------------------------------------------ M03
RAW = ("file_offset", "file_path", "physical_type", "num_values", "path_in_schema", "is_stats_set", "compression",
       "encodings", "has_dictionary_page", "dictionary_page_offset", "data_page_offset", "total_compressed_size",
       "total_uncompressed_size", "has_min_max", "min", "max", "null_count", "distinct_count", "row_group", "col_ix")
TOTALS = ("num_values", "total_compressed_size", "total_uncompressed_size")
NAMES = {"column": "path_in_schema", "type": "physical_type", "comp_size": "total_compressed_size",
         "uncomp_size": "total_uncompressed_size", "num_values": "num_values", "dict_page": "has_dictionary_page",
         "encodings": "encodings", "compression": "compression", "col_ix": "col_ix"}


@prop("M03", "meta_record_df is executed abstractly on the records of two columns: the totals and the constants of "
      "each column must be taken from exactly its own records, no field may occur twice among them, and after "
      "renaming every column of the brief table must exist and carry the field it is named for, where a name that "
      "does not exist would silently become an empty column; meta_column_df must index that table by column name, "
      "transpose it and pass on its options.")
def m03(c):
    c.rule("own records", "a column's row is made from its own records only")
    c.rule("once", "no field occurs twice in a column's row")
    c.rule("names", "every column of the table exists and carries the field it is named for")
    c.rule("totals", "sizes and counts are summed over row groups")
    c.rule("metadata", "every column of every row group has exactly one record, which is its own")
    c.rule("complete", "every column, and in extended tables every constant field, is described")
    loc = fn_loc(c.repo, "mosaic.meta_record_df")
    for ext in (FALSE, TRUE):
        with c.group(f"meta_record_df, {'extended' if ext == TRUE else 'brief'}"):
            flattened = 0
            for k, v, s, I in record_df(c, ext):
                if k != "return":
                    raise Undecided("meta_record_df", exc_kind(v))
                merged = table(c, I.freeze(v, s), s, ext == TRUE, loc)
                flattened += merged
                if not merged:
                    repeats = repeated(s.facts)
                    if repeats:
                        c.bad("merged", "once", loc, "a column's records of several row groups are not merged: the path "
                              + repeats, s.events())
            c.must(flattened > 0 or None, "merged", "once", loc, "merging of row groups' records not recognised")
    column_df(c)
    metadata(c)


def repeated(facts):
    """why facts of a path allow two records of the same column, or None"""
    for a, t in facts.items():
        f = a[2] if is_app(a, "truthy") else None
        if not is_app(f, "call") or not is_app(f[2], "attr") or f[2][3] not in ("any", "all"):
            continue
        d = f[2][2]
        if is_app(d, "call") and is_app(d[2], "attr") and d[2][3] == "duplicated" and not d[3] and not d[4] and any(
                x == C("path_in_schema") for x in subterms(d)):
            if f[2][3] == "any" and t:
                return "is the one where columns repeat"
            if f[2][3] == "all" and not t:
                return "includes tables where some columns repeat"
    return None


def record_df(c, ext):
    I = c.interp(hooks={"dustgoggles.pivot.extract_constants": constants_hook(c)}, budget=3000000)

    def unique(I, recv, name, args, kws, st, n, fid):
        if is_app(recv, "item") and recv[3] == C("path_in_schema"):
            return [(I.mklist(st, [("1", C(x)) for x in TCOLS]), st)]
        return NotImplemented

    def total(I, recv, name, args, kws, st, n, fid):
        while is_app(recv, "call") and is_app(recv[2], "attr") and (
                recv[2][3] in FEWER or recv[2][3] in ("copy", "convert_dtypes", "infer_objects")):
            if recv[2][3] in FEWER:
                name = f"{name} of {recv[2][3]}()"
            recv = recv[2][2]
        if is_app(recv, "item"):
            ps = parts(recv[3])
            if ps is not None and all(p[0] == "1" and is_c(p[1]) for p in ps):
                t = A("totals", recv[2], tuple(p[1] for p in ps), C(name))
                st.over[("attr", t, "index")] = I.mklist(st, [("1", p[1]) for p in ps])
                return [(t, st)]
        return NotImplemented
    I.methods.update(unique=unique)
    for m in ("sum", "mean", "max", "min", "first", "median", "prod", "nunique", "count"):
        I.methods[m] = total
    return [(k, v, s, I) for k, v, s in c.run(I, "mosaic.meta_record_df", [S("records")], [("extended", ext)])]


def constants_hook(c):
    def h(I, fv, args, kws, st, n, fid):
        kw = dict(kws)
        df = I.freeze(args[0] if args else kw.get("df"), st)
        d = I.mkdict(st, [("kv", C(r), A("constant", df, C(r))) for r in RAW])
        return [(("t", (d, A("varying", df))), st)]
    return h


FEWER = {"drop_duplicates", "head", "tail", "nlargest", "nsmallest", "sample"}


def chosen(m, frame):
    """the columns whose records a mask over the frame selects, or None"""
    col = A("item", frame, C("path_in_schema"))
    if is_app(m, "not") or is_app(m, "inv") or is_app(m, "invert"):
        r = chosen(m[2], frame)
        return None if r is None else set(TCOLS) - r
    if is_app(m) and m[1] in ("startswith", "endswith") and len(m) == 4:
        recv, name, a = m[2], m[1], m[3]
    elif is_app(m, "call") and is_app(m[2], "attr") and m[3] and not m[4]:
        recv, name, a = m[2][2], m[2][3], m[3][0]
    else:
        return None
    if recv == col and name == "isin":
        ps = parts(a)
        return None if ps is None or any(p[0] != "1" or not is_c(p[1]) for p in ps) else \
            {x for x in TCOLS if C(x) in [p[1] for p in ps]}
    if is_app(recv, "attr") and recv[3] == "str" and is_c(a) and isinstance(cval(a), str):
        v = cval(a)
        if recv[2] != col:
            if is_app(recv[2], "call") and recv[2][2] == A("attr", A("attr", col, "str"), "lower"):
                pool = {x: x.lower() for x in TCOLS}
            else:
                return None
        else:
            pool = {x: x for x in TCOLS}
        f = {"startswith": lambda x: x.startswith(v), "endswith": lambda x: x.endswith(v), "contains": lambda x: v in x,
             "match": lambda x: x.startswith(v), "fullmatch": lambda x: x == v}.get(name)
        return None if f is None else {x for x in TCOLS if f(pool[x])}
    return None


def own(t, frame):
    """the column name whose records this slice of the frame selects (or all of the columns it takes), or None"""
    if is_app(t, "item") and (t[2] == frame or is_app(t[2], "attr") and t[2][3] == "loc" and t[2][2] == frame):
        got = chosen(t[3], frame)
        if got is not None:
            return sorted(got)[0] if len(got) == 1 else ", ".join(sorted(got)) or "*"
    if is_app(t, "item") and (t[2] == frame or is_app(t[2], "attr") and t[2][3] == "loc" and t[2][2] == frame):
        m = t[3]
        if is_app(m, "eq") or is_app(m, "call") and is_app(m[2], "attr") and m[2][3] in ("eq", "__eq__"):
            xs = list(m[2:]) if is_app(m, "eq") else [m[2][2], m[3][0]]
            col = A("item", frame, C("path_in_schema"))
            if col in xs:
                o = xs[0] if xs[1] == col else xs[1]
                if is_c(o):
                    return cval(o)
    return None


def table(c, t, s, extended, loc):
    """check one resulting table; 1 when row groups' records were merged into it"""
    ren, sel = {}, None
    while is_app(t, "call") and is_app(t[2], "attr"):
        m, kw = t[2][3], dict(t[4])
        if m == "rename":
            d = parts(kw["columns"]) if "columns" in kw else None if t[3] or {"mapper", "index"} & set(kw) else ()
            if d is None or any(p[0] != "kv" or not is_c(p[1]) or not is_c(p[2]) for p in d):
                raise Undecided("names", "unknown renaming")
            ren.update({cval(p[1]): cval(p[2]) for p in d})
        elif m == "reindex":
            if ren:
                raise Undecided("names", "columns are selected before renaming")
            sel = names_of(kw.get("columns", kw.get("labels", t[3][0] if t[3] else None)))
        elif m in ("convert_dtypes", "reset_index", "copy", "infer_objects"):
            pass
        else:
            raise Undecided("table", m)
        t = t[2][2]
        if is_app(t, "attr") and t[3] == "T":
            break
    if is_app(t, "item") and names_of(t[3]) is not None and is_app(t[2], "call"):
        raise Undecided("table", "selection")
    merged = 0
    avail = set(RAW)
    if is_app(t, "attr") and t[3] == "T" or is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "transpose":
        inner = t[2] if is_app(t, "attr") else t[2][2]
        avail = rows(c, inner, s, extended, loc)
        if avail is None:
            return 1
        merged = 1
    elif not (is_app(t, "call") and t[2] == X("pandas.DataFrame")):
        raise Undecided("table", show(t)[:60])
    after = {}
    for raw in avail:
        after[ren.get(raw, raw)] = raw
    if extended and sel is not None:
        c.bad("complete", "complete", loc, "an extended table has only selected columns", s.events())
        return merged
    for name in sel or ():
        if name not in after:
            c.bad("names", "names", loc, f"the table's column {name!r} does not exist before it is selected, so it is always empty",
                  s.events())
        elif name in NAMES and after[name] != NAMES[name]:
            c.bad("names", "names", loc, f"the table's column {name!r} carries the field {after[name]!r}", s.events())
        else:
            c.ok("names")
    if sel is None and not extended:
        raise Undecided("names", "no selection recognised")
    for name in NAMES:
        if sel is not None and name not in sel:
            c.bad("names", "names", loc, f"the table has no column {name!r}", s.events())
        elif sel is None:
            if after.get(name) == NAMES[name]:
                c.ok("names")
            elif after.get(name) is None:
                c.bad("names", "names", loc, f"the extended table has no column {name!r}", s.events())
            else:
                c.bad("names", "names", loc, f"the table's column {name!r} carries the field {after[name]!r}", s.events())
    return merged


def names_of(t):
    ps = parts(t) if t is not None else None
    if ps is None or any(p[0] != "1" or not is_c(p[1]) for p in ps):
        return None
    return [cval(p[1]) for p in ps]


def rows(c, t, s, extended, loc):
    """the fields of the merged table, checking each column's row"""
    if not (is_app(t, "call") and t[2] == X("pandas.concat") and dict(t[4]).get("axis") in (C(1), C("columns"))):
        raise Undecided("rows", show(t)[:60])
    ps = parts(t[3][0]) if t[3] else None
    if ps is None or any(p[0] != "1" for p in ps):
        raise Undecided("rows", "not a known list")
    frames = {x for x in subterms(t) if is_app(x, "call") and x[2] == X("pandas.DataFrame")}
    if len(frames) != 1:
        raise Undecided("rows", "records' table")
    frame = frames.pop()
    done, avail = [], None
    for p in ps:
        r = p[1]
        inner = parts(r[3][0]) if is_app(r, "call") and r[2] == X("pandas.concat") and r[3] else None
        if inner is None:
            raise Undecided("row", show(r)[:60])
        keys, who = [], []
        for q in inner:
            x = q[1]
            if is_app(x, "totals"):
                if x[4] != C("sum"):
                    c.bad("totals", "totals", loc, f"the {cval(x[4])} over row groups is given for totals", s.events())
                keys += [cval(y) for y in x[3]]
                who.append(own(x[2], frame) if x[2] != frame else "*")
                tot = {cval(y) for y in x[3]}
                if set(TOTALS) - tot:
                    c.bad("totals", "totals", loc, f"{sorted(set(TOTALS) - tot)[0]} is not summed over row groups", s.events())
                elif tot - set(TOTALS):
                    c.bad("totals", "totals", loc, f"{sorted(tot - set(TOTALS))[0]} is summed over row groups", s.events())
                else:
                    c.ok("totals")
            elif is_app(x, "call") and x[2] == X("pandas.Series") and x[3]:
                d = parts(x[3][0])
                if d is None or any(y[0] != "kv" or not is_c(y[1]) for y in d):
                    raise Undecided("row", "its constants")
                for y in d:
                    keys.append(cval(y[1]))
                    if is_app(y[2], "constant"):
                        who.append(own(y[2][2], frame) if y[2][2] != frame else "*")
                        if y[2][3] != y[1]:
                            c.bad("own records", "own records", loc, f"{cval(y[1])} is another field's value", s.events())
            else:
                raise Undecided("row", show(x)[:60])
        if None in who:
            raise Undecided("own records", "the selection of a column's records")
        if "*" in who or len(set(who)) != 1 or who[0] not in TCOLS:
            c.bad("own records", "own records", loc, "a column's row is made from other columns' records", s.events())
        else:
            c.ok("own records")
            done.append(who[0])
        # contradictory paths: a name is or is not among the totals
        dup = sorted({k for k in keys if keys.count(k) > 1})
        if dup:
            if any(is_app(a, "in") and any(is_app(y, "totals") for y in a[2:]) for a in s.facts):
                raise Undecided("once", "tests of the totals' names")
            c.bad("once", "once", loc, f"{dup[0]} occurs twice in a column's row when it is equal in all row groups",
                  s.events())
        else:
            c.ok("once")
        if extended:
            lost = set(RAW) - set(keys)
            c.must(not lost, "complete", "complete", loc, f"{sorted(lost)[0] if lost else ''} is left out of extended tables",
                   s.events())
        avail = set(keys) if avail is None else avail & set(keys)
    if sorted(map(str, done)) == sorted(TCOLS):
        c.ok("every column")
    elif len(done) == len(ps):
        c.bad("every column", "complete", loc, "a column is left out of the table or repeated in it", s.events())
    return avail


def column_df(c):
    loc = fn_loc(c.repo, "mosaic.meta_column_df")
    for ext in (None, FALSE, TRUE):
        with c.group(f"meta_column_df, extended {'not given' if ext is None else show(ext)}"):
            seen = []

            def recs(I, fv, args, kws, st, n, fid):
                a = list(args) + [v for _, v in kws]
                return [(A("records", *[I.freeze(x, st) for x in a]), st)]

            def rdf(I, fv, args, kws, st, n, fid):
                kw = {k: I.freeze(v, st) for k, v in kws}
                kw.update(zip(("meta_records", "extended"), [I.freeze(a, st) for a in args]))
                t = A("table", kw.get("meta_records", NONE), kw.get("extended", FALSE))
                return [(t, st)]
            I = c.interp(hooks={"dustgoggles.mosaic.parquet_metadata_records": recs,
                                "dustgoggles.mosaic.meta_record_df": rdf})
            for k, v, s in c.run(I, "mosaic.meta_column_df", [S("file")] + ([ext] if ext is not None else [])):
                if k != "return":
                    raise Undecided("meta_column_df", exc_kind(v))
                t = I.freeze(v, s)
                tabs = {x for x in subterms(t) if is_app(x, "table")}
                if len(tabs) != 1:
                    raise Undecided("table", show(t)[:60])
                tab = tabs.pop()
                c.must(tab[2] == A("records", S("file")) or None, "records", "own records", loc, "not the file's records")
                c.must(tab[3] == (ext or FALSE) if is_c(tab[3]) else None, "extended", "complete", loc,
                       "the request for an extended table is not passed on", s.events())
                tr = any(is_app(x, "attr") and x[3] == "T" or is_app(x, "attr") and x[3] == "transpose" for x in subterms(t))
                c.must(tr or (False if t == tab else None), "transposed", "names", loc, "columns are not described by columns", s.events())
                sets = [e for e in s.events() if e[0] == "setattr" and e[1] == tab and e[2] == "index"]
                ix = [e[3] for e in sets]
                calls = [x for x in subterms(t) if is_app(x, "attr") and x[3] in ("set_index", "set_axis")]
                if ix:
                    if is_app(ix[-1], "call") and is_app(ix[-1][2], "attr") and ix[-1][2][3] in (
                            "rename", "astype", "rename_axis", "tolist", "to_list", "copy"):
                        ix[-1] = ix[-1][2][2]
                    if is_app(ix[-1], "attr") and ix[-1][3] == "values":
                        ix[-1] = ix[-1][2]
                    c.must(ix[-1] == A("item", tab, C("column")) or (False if is_app(ix[-1], "item") and ix[-1][2] == tab and is_c(ix[-1][3]) else None),
                           "indexed", "names", loc, f"the table is not indexed by its columns' names", s.events())
                elif not calls and t in (A("attr", tab, "T"),):
                    c.bad("indexed", "names", loc, "the table is not indexed by its columns' names", s.events())
                else:
                    raise Undecided("indexed", show(t)[:60])
