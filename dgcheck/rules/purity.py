"""S01: functions that compute do not modify their inputs."""
from . import prop
from .lib import *

MODS = {
    "structures": (
        "to_records unnest listify reindex_mapping enumerate_as_mapping insert_after get_from_all "
        "getitemattr get_from constant_to_dig_predicate keyonly valonly dig_for_all dig_all_wrapper "
        "dig_for_values dig_for_keys dig_for_items dig_for dig_wrapper dig_for_value dig_for_key "
        "dig_for_item separate_by rmerge map_into_pool"),
    "func": (
        "pass_parameters catch_interaction zero triggerize are_in is_it intersection disjoint "
        "constant splat gmap filtern argstop optionalize"),
    "pivot": (
        "itemize_numpy dupe_df_block check_and_drop_duplicate_columns extract_constants split_on "
        "pdstr typed_columns numeric_columns check_in_dtype_bounds downcast downcast_df junction "
        "smash unpack unpack_column unique_to_records squeeze"),
    "scrape": (
        "make_scraper get_label_text scrape_subframe scrape_from_file trim_label "
        "scrape_patterns bulk_scrape_metadata"),
    "mosaic": (
        "parquet_metadata_records meta_record_df meta_column_df read_between sort_chunked"),
}
# options driven with constants so that every path is analysed within budget
OPTIONS = {
    "to_records": [dict(accumulated_levels=NONE, level_names=NONE)],
    "downcast": [dict(library=C(l), use_nillable_int=C(u)) for l, u in
                 (("numpy", False), ("pandas", False), ("pandas", True))],
    "downcast_df": [dict(reassemble=C(r), copy_all=C(k), use_nillable_int=FALSE)
                    for r in (True, False) for k in (True, False)],
    "sort_chunked": [dict(direction=C(d), row_group_size=NONE, use_dictionary=NONE, verbose=FALSE,
                          n_chunks=C(3), inline_processor=NONE, schema=S("schema"), version=C("2.6"))
                     for d in ("ascending", "descending")],
    "extract_constants": [dict(how=C(h), to_dict=C(t), drop_constants=C(d), dropna=C(n))
                          for h in ("rows", "columns") for t in (True, False)
                          for d in (True, False) for n in (True, False)],
}
# what the digging functions recurse into
GIVEN = {"mtypes": T(X("builtins.dict"))}
# parameters that take containers, where not every parameter does
CONTAINERS = {
    "pivot": {"columns", "by", "values", "cols", "typenames", "obj", "str_args"},
    "mosaic": {"meta_records", "bounds", "columns"},
    "scrape": {"metadata_regex", "files"},
}
# parameters that are arrays or dataframes: `param += x` edits them in place
ARRAYS = {"dataframe", "df", "df1", "df2", "series", "arr", "predicate", "meta_df"}
# methods and functions that return (a view of) the very object they are given
SAME = {"view", "reshape", "ravel", "swapaxes", "transpose", "squeeze", "__getitem__", "get",
        "setdefault", "diagonal"}
SAMEF = {"numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "numpy.atleast_1d",
         "numpy.atleast_2d", "numpy.squeeze", "numpy.transpose", "numpy.ascontiguousarray",
         "builtins.iter", "builtins.next", "builtins.getattr"}
NOCOPY = {"astype": 1, "to_numpy": 1}
MUTF = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal",
        "numpy.random.shuffle", "random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop",
        "bisect.insort", "operator.setitem", "operator.delitem", "operator.iconcat", "operator.ior",
        "operator.iadd", "operator.iand"}


def root_of(t, params):
    """the parameter a term is (part of), None when it is a new object, False when unknown"""
    if t[0] == "s":
        return t[1] if t[1] in params else None
    if not is_app(t):
        return None
    h = t[1]
    if h in ("attr", "elem"):
        return root_of(t[2], params)
    if h == "item":
        r = root_of(t[2], params)
        if not r:
            return r
        k = t[3]
        if k[0] == "c" or is_app(k, "elem") or is_app(k, "slice"):
            return r
        return False
    if h in ("items", "values", "seqof", "reversed", "sorted"):
        return root_of(t[2], params)
    if h == "phi":
        rs = {root_of(x, params) for x in subterms(t) if x[0] == "s"} - {None}
        return False if rs else None
    if h == "call":
        f, args, kws = t[2], t[3], dict(t[4])
        if is_app(f, "attr"):
            if f[3] in NOCOPY and kws.get("copy") == FALSE:
                return root_of(f[2], params) and False
            if f[3] in SAME:
                return root_of(f[2], params)
            return None
        if f[0] == "x" and f[1] in SAMEF and args:
            return root_of(args[0], params)
    return None


def is_call(t, names):
    return is_app(t, "call") and t[2][0] == "x" and t[2][1] in names


def edits(events, params):
    """[(param or False, what, loc)] of every in-place change of something passed in"""
    out = []
    for e in flat(events):
        if e[0] in ("mut", "setattr"):
            target = e[1]
            if e[0] == "setattr" and target[0] == "o":
                continue
            r = root_of(target, params)
            if r is None:
                continue
            if e[0] == "mut" and e[2] == "aug":
                if target[0] == "s" and r not in ARRAYS and r is not False:
                    continue
                if is_app(target, "elem") or is_app(target, "item"):
                    r = False
            what = e[2] if e[0] == "mut" else f"attribute {e[2]}"
            out.append((r, f"{show(target)[:60]} is changed in place ({what})", loc_of(e)))
        elif e[0] == "augc" and is_call(e[1], SAMEF):
            r = root_of(e[1], params)
            if r is not None:
                out.append((r, f"{show(e[1])[:60]} is changed in place (augmented assignment)", loc_of(e)))
        elif e[0] == "call":
            f, args, kws = e[1], e[2], dict(e[3])
            o = kws.get("out")
            if o is not None and o != NONE:
                for x in (o[1] if o[0] == "t" else (o,)):
                    r = root_of(x, params)
                    if r is not None:
                        out.append((r, f"{show(f)[:40]} writes its result into {show(x)[:40]}", loc_of(e)))
            if f[0] == "x" and f[1] in MUTF and args:
                r = root_of(args[0], params)
                if r is not None:
                    out.append((r, f"{f[1]} changes {show(args[0])[:50]} in place", loc_of(e)))
    return out


def archetypes(I, st, nm, other=False):
    """containers of plain leaves standing for one argument; another one shares some of the leaves"""
    s = lambda x: C({"p": "q", "q": "x", "r": "y"}[x] if other else x)
    d = lambda *kv: I.mkdict(st, tuple(("kv", C(k), v) for k, v in kv))
    l = lambda *v: I.mklist(st, tuple(("1", x) for x in v))
    yield "nested mapping", lambda: d(("a", d(("b", s("p")), ("c", s("q")))), ("d", s("r")))
    yield "mapping of lists", lambda: d(("a", l(s("p"), s("q"))), ("d", l(d(("e", s("r"))))))
    yield "list of mappings", lambda: l(d(("a", s("p")), ("b", s("q"))), d(("a", s("r"))))
    yield "list of lists", lambda: l(l(s("p"), s("q")), l(s("r")))
    yield "list", lambda: l(s("p"), s("q"), s("r"))
    yield "set", lambda: I.alloc(st, Obj("set", parts=(("1", s("p")), ("1", s("q")))))


def contents(I, t, st):
    return I.freeze(t, st)


def optional(f):
    """parameters that have defaults"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    return {p.arg for p in pos[len(pos) - len(a.defaults):]} | {
        p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


def call_result(c, I, outs, params):
    """also runs a returned wrapper, on fresh opaque arguments"""
    res = []
    for k, v, s in outs:
        res.append((k, v, s))
        if k == "return" and v[0] == "fn" and len(outs) < 8:
            q = v[1] if len(v) > 1 else None
            f = c.repo.funcs.get(q) if isinstance(q, str) else None
            if f is not None:
                names = [p for p in f.params()]
                params |= set(names)
                a = f.node.args
                pos = [S(p.arg) for p in a.posonlyargs + a.args]
                try:
                    res += c.runv(I, v, pos, [], s.fork(), consume=True)
                except (Unsupported, Undecided):
                    pass
                wrapped(c, I, f, v, s)
    return res


def wrapped(c, I, f, v, s):
    """a returned wrapper handed one container leaves it alone"""
    for nm in ("list of lists", "nested mapping", "set"):
        s2 = s.fork()
        arg = dict(archetypes(I, s2, "arg"))[nm]()
        before = contents(I, arg, s2)
        try:
            outs = c.runv(I, v, [arg], [], s2, consume=True)
        except (Unsupported, Undecided):
            continue
        for k, r, s3 in outs:
            after = contents(I, arg, s3)
            if after != before and (not opaque_parts(after) or _written(s3, I, arg)):
                name = f.qual.split(".")[2]
                c.bad(name, "unmodified", (f.mod.name.replace(".", "/") + ".py", f.node.lineno, f.qual),
                      f"the function returned by {name} changes the {nm} passed to it", s3.events())


@prop("S01", "Effect analysis: every in-place change (item, attribute, augmented assignment, mutating method, "
      "inplace= and out= arguments) on every abstract path of every public function is traced to the object it "
      "changes; for opaque arguments the access path is rooted, for containers (nested mappings, lists of "
      "mappings, lists of lists, sets) the abstract heap before and after is compared.")
def s01(c):
    c.rule("unmodified", "no path of a computing function changes an object reachable from an argument")
    for mod, names in MODS.items():
        for name in names.split():
            q = f"{mod}.{name}"
            f = c.repo.func(q)
            loc = fn_loc(c.repo, q)
            params = [p for p in f.params()]
            for opts in OPTIONS.get(name, [{}]) if name != "map_into_pool" else ():
                tag = name + ("" if not opts else " " + ",".join(
                    f"{k}={show(v)}" for k, v in sorted(opts.items()) if v[0] == "c")[:60])
                with c.group(tag):
                    symbolic(c, q, f, loc, params, opts)
            takes = set(params) | ({f.node.args.vararg.arg} if f.node.args.vararg else set())
            if not takes & CONTAINERS.get(mod, takes) or name == "meta_column_df":
                continue
            with c.group(f"{name} containers"):
                concrete(c, q, f, loc, params, {} if name == "to_records" else OPTIONS.get(name, [{}])[0])
    pool(c)


HIDE = {"pivot.downcast_df": "pivot.downcast", "mosaic.meta_column_df": "mosaic.parquet_metadata_records",
        "mosaic.sort_chunked": "mosaic.parquet_metadata_records"}


def hooks_for(c, q):
    """public functions analysed on their own are opaque, and new-valued, to their callers"""
    if q not in HIDE:
        return {}
    f = c.repo.func(HIDE[q])

    def made(I, fv, args, kws, st, node, fid):
        return [(A("call", X(f.qual), tuple(I.freeze(a, st) for a in args), ()), st)]
    return {f.qual: made}


def symbolic(c, q, f, loc, params, opts):
    name = q.split(".")[-1]
    I = c.interp(budget=1500000, hooks=hooks_for(c, q))
    known = set(params)
    outs = c.run(I, q, [opts.get(p, S(p)) for p in params], consume=True)
    n = len(outs)
    outs = call_result(c, I, outs, known)
    seen = False
    for k, v, s in outs:
        for r, what, l in edits(s.events(), known):
            if r is False:
                raise Undecided(name, what)
            seen = True
            c.bad(name, "unmodified", l, f"{name}: {what}, which is the caller's {r}", s.events())
    if not seen:
        c.ok(f"{name}: {n} paths")


def concrete(c, q, f, loc, params, opts):
    name = q.split(".")[-1]
    opt = optional(f)
    va = f.node.args.vararg.arg if f.node.args.vararg else None
    kw = f.node.args.kwarg.arg if f.node.args.kwarg else None
    tried = 0
    for p in params + [va] * (va is not None and va not in params):
        if p == kw or p in opts or p != va and p not in CONTAINERS.get(q.split(".")[0], params):
            continue
        for nm, _ in archetypes(None, None, p):
            for dflt in (True, False) if opt else (False,):
                I = c.interp(budget=20000, hooks=hooks_for(c, q))
                I.rec_opaque, I.maxdepth, I.maxnodes = bool(params) and p != params[0], 7, 10 ** 6
                st = St()
                mk = dict(archetypes(I, st, p))[nm]
                try:
                    arg = mk()
                    pos, kws = [], []
                    for x in params:
                        if x in (kw, va):
                            continue
                        v = arg if x == p else opts.get(x) or GIVEN.get(x)
                        if v is None and dflt and x in opt:
                            continue
                        kws.append((x, v if v is not None else S(x)))
                    # positional where nothing is skipped before
                    a = f.node.args
                    lead = [y.arg for y in a.posonlyargs + a.args]
                    while kws and lead and kws[0][0] == lead[0]:
                        pos.append(kws.pop(0)[1])
                        lead.pop(0)
                    if p == va:
                        lead = [y.arg for y in a.posonlyargs + a.args]
                        pos = [S(x) for x in lead] + [arg, dict(archetypes(I, st, p, True))[nm]()]
                        kws = []
                    before = contents(I, arg, st)
                    outs = c.run(I, q, pos, kws, st, consume=True)
                except (Unsupported, Undecided, RecursionError):
                    continue
                except Exception:
                    continue
                tried += 1
                for k, v, s in outs:
                    after = contents(I, arg, s)
                    if after == before:
                        continue
                    if opaque_parts(after) and not _written(s, I, arg):
                        raise Undecided(name, show(after)[:100])
                    c.bad(name, "unmodified", loc,
                          f"{name} changes the {nm} passed as {p}", s.events())
    if tried:
        c.ok(f"{name}: {tried} container arguments")
    elif params and any(x not in opts and x not in (va, kw) for x in params):
        raise Undecided(name, "no container argument could be analysed")
    else:
        c.ok(f"{name}: no container arguments")


def _written(s, I, arg):
    """some event writes to an object inside the argument"""
    inside, todo = set(), [arg]
    while todo:
        t = todo.pop()
        if t[0] == "o" and t[1] not in inside:
            inside.add(t[1])
            for part in s.heap[t[1]].parts or ():
                todo += [x for x in part[1:] if isinstance(x, tuple) and x and x[0] == "o"]
    return any(e[0] == "hset" and e[1][0] == "o" and e[1][1] in inside for e in flat(s.events()))


def pool(c):
    """mapping a pool over records leaves the records alone"""
    q = "structures.MaybePool.map"
    c.repo.func(q)
    loc = fn_loc(c.repo, q)
    with c.group("MaybePool.map"):
        for thr in (NONE, C(2)):
            for chunked in (FALSE, TRUE):
                for keyed, whole in ((True, True), (False, True), (True, False)):
                    I = c.interp(budget=400000)
                    st = St()
                    mod = c.repo.modules["dustgoggles.structures"]
                    for k, pl, s in c.runv(I, I.modglobal(mod, "MaybePool"), [thr], [], st):
                        if k != "return":
                            continue
                        d = lambda *kv: I.mkdict(s, tuple(("kv", C(a), v) for a, v in kv))
                        l = lambda *v: I.mklist(s, tuple(("1", x) for x in v))
                        recs = l(*[d(("args", l(S(f"a{i}")) if whole else S(f"args{i}")),
                                     ("kwargs", d(("k", S(f"b{i}"))) if whole else S(f"kwargs{i}")),
                                     *([("key", C(f"k{i}"))] if keyed else [])) for i in range(2)])
                        before = I.freeze(recs, s)
                        bm = ("bm", I.fnterm(c.repo.func(q).qual), pl)
                        f = c.repo.func(q)
                        kws = [("as_chunks", chunked)] if "as_chunks" in f.params() else []
                        for k2, v, s2 in c.runv(I, bm, [S("func"), recs], kws, s):
                            after = I.freeze(recs, s2)
                            c.must(True if after == before else None if opaque_parts(after) else False,
                                   "records", "unmodified", loc,
                                   "mapping over records edits the caller's records", s2.events())
                            for r, what, at in edits(s2.events(), {"args0", "args1", "kwargs0", "kwargs1"}):
                                if r is False:
                                    raise Undecided("records", what)
                                c.bad("records", "unmodified", at,
                                      f"mapping over records: {what}, which is part of a record", s2.events())
