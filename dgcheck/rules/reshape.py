"""V05 reshaping of frames and series."""
from . import prop
from .lib import *

SAME_ROWS = {"copy", "convert_dtypes", "infer_objects", "astype", "tolist", "to_list", "to_numpy", "map", "apply"}


def method(t):
    """(name, receiver, args, kwargs) of a method call"""
    if is_app(t, "call") and is_app(t[2], "attr"):
        return t[2][3], t[2][2], t[3], dict(t[4])
    return None, None, (), {}


def function(t, *names):
    return is_app(t, "call") and t[2][0] == "x" and t[2][1] in names


def words(t):
    """names of attributes, methods and functions in a term"""
    out = set()
    for x in subterms(t):
        if is_app(x, "attr"):
            out.add(x[3])
        elif isinstance(x, tuple) and len(x) == 2 and x[0] == "x" and isinstance(x[1], str):
            out.add(x[1].rsplit(".", 1)[-1])
        elif is_c(x) and isinstance(x[2], str):
            out.add(x[2])
        elif is_app(x) and isinstance(x[1], str):
            out.add(x[1])
    return out


@prop("V05", "Value flow through each reshaping helper on every path: which frame, column, label and option each part of the "
      "result is made from. A result made from another operand, from rows other than those its labels come from, "
      "without an option the caller gave, or through an operation that loses types or labels is a violation; "
      "an expression that is none of these and not recognised is undecided.")
def v05(c):
    c.rule("junction", "the set operation is applied to the first frame's keys with the second's")
    c.rule("records", "each record pairs every column with that column's own value")
    c.rule("unpack", "unpacked values keep their row labels; other columns and the caller's frame stay")
    c.rule("smash", "each value is named for its own keys and variable, of the requested rows")
    c.rule("squeeze", "one value for each distinct label, by the requested aggregation")
    c.rule("repeat", "every row the requested number of times, with its columns' types")
    c.rule("str", "the string method is called with the arguments given")
    for f in (junction, records, unpack, unpack_column, smash, squeeze, dupes, pdstr):
        q = "pivot." + {"records": "unique_to_records", "dupes": "dupe_df_block"}.get(f.__name__, f.__name__)
        loc = fn_loc(c.repo, q)
        with c.group(q.split(".")[1]):
            f(c, q, loc)


def results(c, q, args, kws=()):
    I = c.interp()
    for k, v, s in c.run(I, q, args, list(kws)):
        if k != "return":
            if any("isinst" in repr(a)[:40] or "hasattr" in repr(a)[:40] for a in s.facts):
                continue        # refused arguments
            raise Undecided(q, exc_kind(v))
        yield I, strip_ids(I.freeze(v, s)), s


def nothing(c, v, rule, loc, s):
    if is_c(v):
        c.bad("result", rule, loc, "nothing is returned", s.events())
        return True
    return False


OPS = {"difference": "sub", "intersection": "&", "union": "|", "symmetric_difference": "^"}


def junction(c, q, loc):
    a, b, cols, m = S("df1"), S("df2"), S("columns"), S("set_method")
    for how in (C("difference"), C("intersection"), m):
        for I, v, s in results(c, q, [a, b, cols], [("set_method", how)]):
            evs = s.events()
            if nothing(c, v, "junction", loc, s):
                continue
            name, one, args, kw = method(v)
            if is_app(v, "call") and is_app(v[2], "getattr") and len(v[3]) == 1:
                name, one, args = v[2][3], v[2][2], v[3]
            elif is_app(v) and len(v) == 4 and v[1] in ("sub", "-", "&", "|", "^", "bitand", "bitor", "bitxor"):
                name, one, args = v[1], v[2], (v[3],)
            if one is None or len(args) != 1:
                raise Undecided("junction", show(v)[:80])
            two = args[0]
            if not any(is_app(x) and x[1] == "set" for t in (one, two) for x in subterms(t)) or not (
                    mentions(v, a) or mentions(v, b)):
                raise Undecided("junction", show(v)[:80])
            c.must(mentions(one, a) and not mentions(one, b) and mentions(two, b) and not mentions(two, a), "operands",
                   "junction", loc, "the operation is not applied to the first frame's keys with the second's", evs)
            for t, d in ((one, a), (two, b)):
                c.must(mentions(t, cols), "columns", "junction", loc, "keys are made from columns other than those given",
                       evs)
            if how == m:
                c.must(name == m or mentions(v, m), "method", "junction", loc, "the requested set operation is ignored",
                       evs)
            elif name in OPS and is_c(how):
                c.must(name == cval(how), "method", "junction", loc,
                       f"{name} is returned where {cval(how)} was requested", evs)


def records(c, q, loc):
    df, cols = S("df"), S("cols")
    for I, v, s in results(c, q, [df, cols]):
        evs = s.events()
        if nothing(c, v, "records", loc, s):
            continue
        src = v
        if not mentions(v, df):
            if opaque_parts(v):
                raise Undecided("records", show(v)[:80])
            c.bad("records", "records", loc, "the records are not made from the frame", evs)
            continue
        dicts = [(p, y) for x in subterms(v) if is_app(x, "list") and x[2] for p in x[2] if p[0] == "many"
                 for f, items in variants(p) for i in items for y in i[1:2] if is_app(y, "dict")]
        if not dicts:
            if "value_counts" in words(v) or "drop_duplicates" in words(v) or "unique" in words(v):
                c.ok("unique rows of the frame")
                continue
            raise Undecided("records", show(v)[:80])
        for outer, d in dicts:
            if not d[2]:
                c.bad("fields", "records", loc, "records have no fields", evs)
            w = words(outer[1])
            c.must(bool(w & {"value_counts", "drop_duplicates", "unique", "set", "groupby", "dict"}) or None, "unique",
                   "records", loc, "", evs)
            c.must(mentions(outer[1], cols), "columns", "records", loc, "records are made from columns other than those given",
                   evs)
            for p in d[2]:
                if p[0] != "many":
                    raise Undecided("fields", str(p)[:60])
                for f, items in variants(p):
                    for i in items:
                        if i[0] != "kv":
                            raise Undecided("fields", str(i)[:60])
                        key, val = i[1], i[2]
                        row = A("elem", outer[1])
                        if mentions(key, row) and not mentions(val, row):
                            c.bad("fields", "records", loc, "columns and values are exchanged", evs)
                        elif mentions(val, row):
                            c.must(key == A("elem", cols) or None, "fields", "records", loc, "", evs)
                        else:
                            c.bad("fields", "records", loc, "a field does not have the row's value", evs)


def row_filter(t):
    """the chain of row-changing steps a term's rows come from, down to a symbol, or None"""
    out = []
    while True:
        name, recv, args, kw = method(t)
        if name in SAME_ROWS:
            t = recv
        elif name is not None and recv is not None and name in (
                "dropna", "sort_values", "sort_index", "head", "tail", "drop_duplicates", "sample", "reset_index", "iloc"):
            out.append((name, args, tuple(sorted(kw.items()))))
            t = recv
        elif is_app(t, "attr") and t[3] in ("values", "array", "index"):
            t = t[2]
        elif is_app(t, "list") and len(t[2]) == 1 and t[2][0][0] == "*":
            t = t[2][0][1]
        elif is_app(t, "item") and is_app(t[3], "slice"):
            if set(t[3][2:5]) != {NONE}:
                out.append(("slice",) + t[3][2:5])
            t = t[2]
        elif is_app(t, "item") and t[2][0] == "s" or t[0] == "s":
            return t, tuple(out)
        else:
            return None


def unpacked_frame(c, t, series, loc, evs):
    """the frame made of a series' unpacked values"""
    if not function(t, "pandas.DataFrame") or not t[3]:
        return None
    kw = dict(t[4])
    index = t[3][1] if len(t[3]) > 1 else kw.get("index")
    data = row_filter(t[3][0])
    if data is None or data[0] != series:
        return None
    if index is None or index == NONE:
        late = [e[3] for e in flat(evs) if e[0] == "setattr" and e[2] in ("index", C("index"))]
        late += [x for e in flat(evs) if e[0] == "call" and method(e[4])[0] in ("set_index", "set_axis", "reindex")
                 for x in e[2]]
        if late:
            return True if any(row_filter(strip_ids(x)) == data for x in late if isinstance(x, tuple)) else None
        if any(n != "reset_index" for n, *_ in data[1]) or words(t[3][0]) & {"tolist", "to_list", "list", "to_numpy", "values"}:
            c.bad("labels", "unpack", loc, "the unpacked values lose their row labels", evs)
        return True
    rows = row_filter(index)
    if rows is None:
        return None
    c.must(rows == data, "labels", "unpack", loc, "values are labelled with the index of other rows", evs)
    return True


def unpack(c, q, loc):
    series = S("series")
    for I, v, s in results(c, q, [series]):
        evs = s.events()
        if nothing(c, v, "unpack", loc, s):
            continue
        frames = [x for x in subterms(v) if function(x, "pandas.DataFrame")]
        if not frames:
            raise Undecided("unpack", show(v)[:80])
        if unpacked_frame(c, frames[0], series, loc, evs) is None:
            raise Undecided("unpack", show(frames[0])[:80])
        if v == frames[0]:
            sets = [x for (kind, t, name), x in ((k, w) for k, w in s.over.items() if len(k) == 3)
                    if kind == "attr" and name == "columns" and function(strip_ids(t), "pandas.DataFrame")]
            named = "columns" in dict(v[4]) or bool(sets) or any(
                e[0] in ("setattr", "mut") and "columns" in repr(e)[:2000] for e in flat(evs))
            c.must(named, "names", "unpack", loc, "the unpacked columns are not named for the series", evs)
            for x in sets:
                x = strip_ids(I.freeze(x, s))
                if is_app(x, "list"):
                    text = repr(x)
                    c.must("'name'" in text, "names", "unpack", loc, "the unpacked columns are not named for the series",
                           evs)


def unpack_column(c, q, loc):
    df, col = S("df"), S("colname")
    for I, v, s in results(c, q, [df, col]):
        evs = s.events()
        if nothing(c, v, "unpack", loc, s):
            continue
        everything = [v] + [x for e in flat(evs) if e[0] in ("mut", "call", "setattr") for x in e[1:] if isinstance(x, tuple)]
        used = any(function(y, "pandas.DataFrame") and mentions(strip_ids(y), A("item", df, col))
                   for x in everything for y in subterms(x))
        if not used:
            if any(opaque_parts(x) for x in everything[:1]):
                raise Undecided("unpack_column", show(v)[:80])
            c.bad("values", "unpack", loc, "the unpacked values are lost", evs)
            continue
        for e in flat(evs):
            if e[0] == "mut" and strip_ids(e[1]) in (df, A("attr", df, "loc"), A("attr", df, "iloc")):
                c.bad("caller's frame", "unpack", loc_of(e), "the caller's frame is changed", evs)
        lands = [x for e in flat(evs) if e[0] == "mut" for x in e[1:] if isinstance(x, tuple)] + [v]
        if not any(function(y, "pandas.DataFrame") for x in lands for y in subterms(x)):
            c.bad("values", "unpack", loc, "the unpacked values are lost", evs)
        gone = "drop" in words(v) or "loc" in words(v) or any(
            e[0] == "mut" and e[2] in ("delitem", "pop", "drop") for e in flat(evs)) or is_app(v, "item")
        c.must(gone or None if opaque_parts(v) and not is_app(v, "copyof") else gone, "column", "unpack", loc,
               "the nested column itself stays", evs)
        name, recv, args, kw = method(v)
        if name == "drop":
            target = kw.get("columns", kw.get("labels", args[0] if args else None))
            axis = kw.get("axis", args[1] if len(args) > 1 else C(0))
            if "columns" not in kw and axis in (C(0), C("index")):
                c.bad("column", "unpack", loc, "a row is dropped instead of the column", evs)
            elif target is not None:
                c.must(mentions(target, col), "column", "unpack", loc, "another column is dropped", evs)


def smash(c, q, loc):
    df, by, values = S("df"), S("by"), S("values")
    for given in (False, True):
        for I, v, s in results(c, q, [df, by] + ([values] if given else [])):
            evs = s.events()
            if nothing(c, v, "smash", loc, s):
                continue
            if given and any(is_app(a, "is") and values in a[2:4] and t for a, t in s.facts.items()):
                continue
            if not function(v, "pandas.Series"):
                raise Undecided("smash", show(v)[:80])
            kw = dict(v[4])
            data = v[3][0] if v[3] else kw.get("data")
            index = v[3][1] if len(v[3]) > 1 else kw.get("index")
            if data is None:
                raise Undecided("smash", show(v)[:80])
            if index is None or index == NONE:
                c.bad("names", "smash", loc, "the values are not named", evs)
                continue
            frames = [{x for x in subterms(t) if method(x)[0] in ("melt", "stack") or function(x, "pandas.melt")}
                      for t in (data, index)]
            big = [max(f, key=lambda x: len(repr(x))) if f else None for f in frames]
            if None in big:
                raise Undecided("smash", "no melting recognised")
            c.must(big[0] == big[1], "same rows", "smash", loc, "values and names come from different rows", evs)
            if not words(data) & {"to_numpy", "values", "tolist", "to_list", "array", "list"}:
                raise Undecided("smash", "values may be realigned")
            keys = [x[3] for x in subterms(index) if is_app(x, "item") and strip_ids(x[2]) == big[1]]
            c.must(any("variable" in words(x) or mentions(x, A("elem", big[1])) for x in keys) if keys else None, "names",
                   "smash", loc, "names lack the variable", evs)
            c.must(mentions(index, by) and any(is_app(x, "item") and mentions(x[3], by) for x in subterms(index)) or None,
                   "names", "smash", loc, "", evs)
            mname, recv, args, mkw = method(big[0])
            if mname == "melt" and C("variable") in [x for x in subterms(index) if is_c(x)]:
                c.must("var_name" in mkw or len(args) > 2, "names", "smash", loc,
                       "the variable's column has another name when the frame's columns are named", evs)
            w = words(big[0])
            if given:
                if not mentions(big[0], values):
                    c.bad("values", "smash", loc, "the requested values are ignored", evs)
                elif "any" in w and "all" not in w:
                    c.bad("values", "smash", loc, "rows stay in which only one key has a requested value", evs)
                else:
                    c.ok("values")
            else:
                c.must("isin" not in w, "values", "smash", loc, "rows are left out though no values were requested", evs)


def squeeze(c, q, loc):
    series, agg = S("series"), S("aggfunc")
    for given in (False, True):
        for I, v, s in results(c, q, [series], [("aggfunc", agg)] if given else []):
            evs = s.events()
            if nothing(c, v, "squeeze", loc, s):
                continue
            if given and any(is_app(a, "is") and agg in a[2:4] and t for a, t in s.facts.items()):
                continue
            w = words(v)
            boolean = None
            for a, t in s.facts.items():
                r = repr(a)
                if "is_bool_dtype" in r or "'?'" in r or "'bool'" in r or "builtins.bool" in r or "numpy.bool" in r or "BooleanDtype" in r or "'boolean'" in r:
                    boolean = t if boolean is None else boolean or t
                if ".char" in r or "'char'" in r:
                    c.bad("types", "squeeze", loc, "pandas' own types have no character code, so their series are refused",
                          evs)
                    return
            if "pivot_table" in w:
                c.bad("labels", "squeeze", loc, "a pivot table leaves out labels without values, and takes a series' "
                      "own values for labels when it is named like its index", evs)
                return
            groups = [x for x in subterms(v) if method(x)[0] == "groupby"]
            for g in groups:
                c.must(method(g)[3].get("dropna", TRUE) == FALSE, "labels", "squeeze", loc, "missing labels are left out", evs)
            if given:
                c.must(mentions(v, agg), "aggregation", "squeeze", loc, "the requested aggregation is ignored", evs)
            elif boolean:
                if w & {"first", "duplicated", "all", "min", "last"} and "any" not in w:
                    c.bad("aggregation", "squeeze", loc, "a boolean series is not squeezed by any", evs)
                else:
                    c.must("any" in w or "max" in w or None, "aggregation", "squeeze", loc, "", evs)
            elif boolean is False:
                if "any" in w and not "duplicated" in w:
                    c.bad("aggregation", "squeeze", loc, "a series that is not boolean is squeezed by any", evs)
                elif "duplicated" in w:
                    dup = [x for x in subterms(v) if method(x)[0] == "duplicated"]
                    for d in dup:
                        n, recv, args, kw = method(d)
                        keep = kw.get("keep", args[0] if args else C("first"))
                        c.must(keep == C("first"), "first", "squeeze", loc, "not the first value of a label is kept", evs)
                    loc_ = [x for x in subterms(v) if is_app(x, "item") and any(y in dup for y in subterms(x[3]))]
                    for x in loc_:
                        n = sum(1 for y in subterms(x[3]) if is_app(y) and y[1] in ("inv", "not", "invert"))
                        if x[3] in dup:
                            c.bad("first", "squeeze", loc, "only the repeated labels are kept", evs)
                        elif n:
                            c.ok("first")
                else:
                    c.must("first" in w or None, "first", "squeeze", loc, "", evs)
            else:
                raise Undecided("squeeze", "no test for a boolean series recognised")


def dupes(c, q, loc):
    df, n = S("dataframe"), S("repeats")
    for I, v, s in results(c, q, [df, n]):
        evs = s.events()
        if nothing(c, v, "repeat", loc, s):
            continue
        if not mentions(v, n):
            c.bad("times", "repeat", loc, "the requested number of times is ignored", evs)
            continue
        whole = [x for x in subterms(v) if is_app(x, "attr") and x[2] == df and x[3] == "values" or
                 method(x)[0] in ("to_numpy", "to_records") and method(x)[1] == df]
        if function(v, "pandas.DataFrame") and whole and mentions(v[3][0] if v[3] else v, df):
            c.bad("types", "repeat", loc, "columns of different types become one array, which loses their types "
                  "(and the digits of large integers)", evs)
            continue
        rep = [x for x in subterms(v) if function(x, "numpy.repeat") or method(x)[0] == "repeat"]
        if not rep:
            if any(function(x, "numpy.tile") for x in subterms(v)):
                c.bad("order", "repeat", loc, "the block is repeated instead of each row", evs)
                continue
            raise Undecided("repeat", show(v)[:80])
        for x in rep:
            name, recv, args, kw = method(x)
            if function(x, "numpy.repeat"):
                args, kw = x[3][1:], dict(x[4])
            times = args[0] if args else kw.get("repeats")
            c.must(times == n or (None if times is not None and mentions(times, n) and not is_app(times, "lin")
                                  else False), "times", "repeat", loc, "rows are repeated another number of times", evs)
        c.must("reset_index" in words(v) or "ignore_index" in repr(v) or "index" in words(v) or None, "labels", "repeat", loc,
               "", evs)
        for x in subterms(v):
            name, recv, args, kw = method(x)
            if name == "reset_index" and kw.get("drop", C(False)) != TRUE and mentions(recv, df):
                c.bad("columns", "repeat", loc, "the old labels become a column", evs)


def pdstr(c, q, loc):
    name, x, y, series = S("method"), S("argument"), S("option"), S("series")
    I = c.interp()
    for k, fv, s in c.run(I, q, [name, x], [("flags", y)]):
        if k != "return" or is_c(fv):
            c.bad("function", "str", loc, "no function is made", s.events())
            continue
        for k2, v, s2 in c.runv(I, fv, [series], [], s):
            if k2 != "return":
                raise Undecided("pdstr", exc_kind(v))
            v = strip_ids(I.freeze(v, s2))
            if nothing(c, v, "str", loc, s2):
                continue
            if not is_app(v, "call"):
                raise Undecided("pdstr", show(v)[:80])
            c.must(mentions(v, A("attr", series, "str")), "method", "str", loc, "not the series' own method is called",
                   s2.events())
            c.must(mentions(v[2], name), "method", "str", loc, "another method is called", s2.events())
            c.must(v[3] == (x,), "arguments", "str", loc, "the arguments given do not reach the method", s2.events())
            c.must(dict(v[4]) == {"flags": y}, "options", "str", loc, "the options given do not reach the method", s2.events())
