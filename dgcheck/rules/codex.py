"""Rules for dustgoggles.codex (C01-C15)."""
import ast
import itertools

from . import prop
from ..models import elem_of
from .world import *
from .turns import straighten, consistent, relin, replace

INDEXES = ("TagIndex", "MetaTagIndex")
PADS = ("Notepad", "GridPaper")


def cell_is(w, I, s, kind, x, want):
    """[(True/False, what, state)] the cell's final value compared with want:
    None for absent, else (size, content)"""
    out = []
    for seg, s2 in w.look(I, s, kind, x):
        if want is None:
            out.append((not seg.exists, "still exists" if seg.exists else "", s2))
        elif not seg.exists:
            out.append((False, "does not exist", s2))
        elif strip_ids(seg.content) != strip_ids(want[1]):
            out.append((False, f"holds {show(seg.content)[:90]} instead of {show(want[1])[:90]}", s2))
        elif not same_size(I, s2, seg.size, want[0]):
            out.append((False, "has the wrong size", s2))
        else:
            out.append((True, "", s2))
    return out


def same_size(I, s, a, b):
    a, b = strip_ids(a), strip_ids(b)
    return a == b or M.blen(a) == b or decide(cmp_eq(a, b), s.facts) is True


def untouched(w, I, s, evs, expected):
    """addresses outside the expected ones whose content the events changed"""
    exp = [w.len_addr if k == "len" else w.addr(k, x) for k, x in expected]
    bad = []
    seen = set()
    for e in flat(evs):
        if e[0] != "shm" or e[1] not in ("write", "create", "unlink") or e[2] in seen:
            continue
        a = e[2]
        seen.add(a)
        states = [s.fork()]
        for x in exp:
            nxt = []
            for s2 in states:
                nxt += [s3 for same, s3 in M.addr_rel(I, a, x, s2) if not same]
            states = nxt
        for s2 in states:
            if not w.is_index(a) and not (w.pad and unify(*w.templates["data"][:2], a) is not None):
                continue          # not part of the stored structure (lock counter and the like)
            init = w.init(I, a, s2.fork())
            cur = M.cell(I, a, s2.fork())
            if init is None or len(init) != 1 or len(cur) != 1:
                continue
            x, y = init[0][0], cur[0][1]
            if (x.exists, x.content) != (y.exists, y.content):
                bad.append((e, a))
    return bad


def post(w, c, I, name, outs, expected, rule, op, exc=None, known=()):
    """every outcome of an operation leaves exactly the expected cells changed.
    exc: the exception it must raise (None: it must return)"""
    n = 0
    for k, v, s, evs in outs:
        n += 1
        l = w.loc(op)
        if exc is not None:
            if k == "return":
                c.bad(name, rule, l, f"{op} returns instead of raising {exc[0]}", evs)
                continue
            if exc_kind(v) not in exc:
                c.bad(name, rule, l, f"{op} raises {exc_kind(v)} instead of {exc[0]}", evs)
                continue
        elif k != "return":
            c.bad(name, rule, last_loc(evs, l), f"{op} raises {exc_kind(v)}", evs)
            continue
        good = True
        for kind, x, want in expected:
            for ok_, why, s2 in cell_is(w, I, s, kind, x, want(s) if callable(want) else want):
                if not ok_:
                    good = False
                    c.bad(name, rule, last_write(evs, l),
                          f"after {op} the {NAMES[kind]} {why}", evs)
        for e, a in untouched(w, I, s, evs, [(k_, x) for k_, x, _ in expected]):
            good = False
            c.bad(name, rule, loc_of(e), f"{op} changes {show(a)[:80]}, which belongs to another entry",
                  evs)
        if good:
            c.ok(name)
    if not n:
        c.und(name, "no outcome")


NAMES = {"len": "recorded length", "key": "key slot", "rev": "reverse-lookup entry",
         "val": "metadata cell", "data": "stored value"}


def last_loc(evs, l):
    for e in reversed(list(flat(evs))):
        if e[0] in ("raise", "shm"):
            return loc_of(e)
    return l


def last_write(evs, l):
    for e in reversed(list(flat(evs))):
        if e[0] == "shm" and e[1] in ("write", "create", "unlink"):
            return loc_of(e)
    return l


def index_world(c, cls, present, **kw):
    w = World(c, cls)
    w.key_present = present
    for a, b in kw.items():
        setattr(w, a, b)
    I = w.interp()
    ob, s = w.obj(I)
    return w, I, ob, s


def last_of(w):
    return add(w.n0, C(1), -1)


def split_last(w, I, outs):
    """outcomes with the removed slot known to be the last one or not"""
    out = []
    for k, v, s, evs in outs:
        for b, s2 in I.branch(cmp_eq(w.p, last_of(w)), s):
            out.append((b, (k, v, s2, evs)))
    return out


def removal(w, c, I, op, outs, metadata=False):
    """the key at slot p is gone; the last entry fills its slot"""
    lst = last_of(w)
    for is_last, (k, v, s, evs) in split_last(w, I, outs):
        moved = w.keyat(lst)
        exp = [("len", None, (w.len_size, w.len_content(lst))), ("rev", A("str", K), None)]
        if is_last:
            exp.append(("key", w.p, None))
        else:
            exp += [("key", w.p, w.content("key", moved)), ("key", lst, None),
                    ("rev", moved, w.content("rev", w.p))]
        allowed = [(a, b) for a, b, _ in exp] + ([("val", w.p), ("val", lst)] if w.meta else [])
        if not metadata:
            post_cells(w, c, I, op, (k, v, s, evs), exp, allowed)
            continue
        if is_last:
            post_cells(w, c, I, op, (k, v, s, evs), [("val", w.p, None)], allowed, "metadata")
            continue
        for has, s2 in I.branch(w.hasmeta(lst), s):
            post_cells(w, c, I, op, (k, v, s2, evs), [
                ("val", lst, None),
                ("val", w.p, w.content("val", w.p, w.metaat(lst)) if has else None)],
                allowed, "metadata")


def post_cells(w, c, I, op, o, expected, allowed, rule="index consistency"):
    k, v, s, evs = o
    name = f"{op} of a present key"
    l = w.loc(op)
    if k != "return":
        c.bad(name, rule, last_loc(evs, l), f"{op} of a present key raises {exc_kind(v)}", evs)
        return
    good = True
    for kind, x, want in expected:
        for ok_, why, s2 in cell_is(w, I, s, kind, x, want):
            if not ok_:
                good = False
                c.bad(name, rule, last_write(evs, l),
                      f"after {op} the {where_slot(w, kind, x)} {why}", evs)
    for e, a in untouched(w, I, s, evs, allowed):
        good = False
        c.bad(name, rule, loc_of(e),
              f"{op} changes {show(a)[:80]}, which belongs to another entry", evs)
    if good:
        c.ok(name)


def where_slot(w, kind, x):
    n = NAMES[kind]
    if kind in ("key", "val"):
        return n + (" of the freed last slot" if x == last_of(w) else " of the removed key's slot"
                    if x == w.p else " of the new slot")
    if kind == "rev":
        return n + (" of the removed key" if x == A("str", K) else " of the moved key")
    return n


# ------------------------------------------------------------------ C04
@prop("C04", "Pre/post analysis over an abstract shared memory: each index class adds and removes "
             "a key from an arbitrary consistent index (unknown length, unknown keys, the key "
             "absent or at an unknown slot), with an object that has already seen an older state "
             "of the same memory; every outcome's cells are compared with the consistent "
             "successor state. The cell layout is read off the code's own writes.")
def c04(c):
    c.rule("index consistency", "after adding an absent key: length n+1, slot n holds the key, its "
           "reverse entry names n; after removing the key at p: length n-1, the last slot is gone, "
           "the last key (if another) is at p with reverse entry p, the key's reverse entry is "
           "gone; a present key is not added twice; removing an absent key raises KeyError; no "
           "other entry's cell changes")
    for cls in INDEXES:
        with c.group(f"{cls}: add a new key"):
            w, I, ob, s = index_world(c, cls, False)
            post(w, c, I, "add of an absent key", w.call(I, ob, "add", [K], [], s),
                 [("len", None, (w.len_size, w.len_content(add(w.n0, C(1))))),
                  ("key", w.n0, w.content("key", K)),
                  ("rev", A("str", K), w.content("rev", w.n0))], "index consistency", "add")
        with c.group(f"{cls}: add a present key"):
            w, I, ob, s = index_world(c, cls, True)
            post(w, c, I, "add of a present key", w.call(I, ob, "add", [K], [], s), [],
                 "index consistency", "add")
        with c.group(f"{cls}: add a new bytes key"):
            w, _, ob, s = index_world(c, cls, False)
            I = w.interp(kinds={K: "bytes"})
            post(w, c, I, "add of an absent bytes key", w.call(I, ob, "add", [K], [], s),
                 [("len", None, (w.len_size, w.len_content(add(w.n0, C(1))))),
                  ("key", w.n0, w.content("key", K)),
                  ("rev", A("str", K), w.content("rev", w.n0))], "index consistency", "add")
        for op in ("__delitem__", "remove"):
            with c.group(f"{cls}: {op} a present key"):
                w, I, ob, s = index_world(c, cls, True)
                removal(w, c, I, op, w.call(I, ob, op, [K], [], s))
            with c.group(f"{cls}: {op} an absent key"):
                w, I, ob, s = index_world(c, cls, False)
                post(w, c, I, f"{op} of an absent key", w.call(I, ob, op, [K], [], s), [],
                     "index consistency", op, ("KeyError",))
        with c.group(f"{cls}: listing"):
            w, I, ob, s = index_world(c, cls, None)
            for op in ("update",) + (("keys",) if cls == "MetaTagIndex" else ()):
                for k, v, s2, evs in w.call(I, ob, op, [], [], s.fork()):
                    if k != "return":
                        c.bad(f"{op} lists the keys", "listing", last_loc(evs, w.loc(op)),
                              f"{op} raises {exc_kind(v)}", evs)
                        continue
                    listing(w, c, op, I.freeze(v, s2), evs)
        with c.group(f"{cls}: listing around a missing block"):
            w, I, ob, s = index_world(c, cls, None)
            w.key_state = "any"
            for k, v, s2, evs in w.call(I, ob, "update", [], [], s):
                c.must(k == "return", "update lists the other keys", "listing",
                       last_loc(evs, w.loc("update")),
                       f"update raises {exc_kind(v)} when a slot's block is missing", evs)
                if k == "return":
                    ends = [e for e in evs if e[0] == "loop" for b in e[3]
                            if b[0] not in ("next", "continue")
                            and any(is_app(a, "haskey") and t is False for a, t in dict(b[1]).items())]
                    c.must(not ends, "update lists the other keys", "listing",
                           loc_of(ends[0]) if ends else w.loc("update"),
                           "update stops listing at a slot whose block is missing", evs)
                    listing(w, c, "update", I.freeze(v, s2), evs)
    c.rule("listing", "listing an index yields exactly the key of every slot, in slot order")


def concrete_list(t):
    ps = parts(t)
    if ps is None or any(p[0] != "1" for p in ps):
        return None
    return [p[1] for p in ps]


def listing(w, c, op, t, evs):
    ps = parts(t)
    l = w.loc(op)
    if ps is None:
        return c.und(f"{op} lists the keys", show(t)[:80])
    rng = A("range", C(0), w.n0, C(1))
    vs = [v for p in ps for v in [p]]
    if len(vs) == 1 and src_of(vs[0]) is not None and src_of(vs[0])[:4] == rng[:4]:
        p = vs[0]
        good = True
        for cond, items in variants(p):
            ks = [x for x in items]
            there = decide(w.haskey(A("elem", src_of(p))), cond)
            if there is False:
                if ks:
                    good = False
                    c.bad(f"{op} lists the keys", "listing", l,
                          f"{op} lists {show(ks[0][1])[:60]} for a slot with no block", evs)
                continue
            want = w.keyat(A("elem", src_of(p)))
            if len(ks) != 1:
                good = False
                c.bad(f"{op} lists the keys", "listing", l,
                      f"{op} lists {len(ks)} keys for some occupied slot", evs)
            elif ks[0] != ("1", want):
                good = False
                if opaque_parts(ks[0][1]):
                    return c.und(f"{op} lists the keys", show(ks[0][1])[:80])
                c.bad(f"{op} lists the keys", "listing", l,
                      f"{op} lists {show(ks[0][1])[:80]} for a slot", evs)
        if good:
            c.ok(f"{op} lists the keys")
    elif any(isinstance(x, tuple) and x[:1] == ("s",) and str(x[1]).endswith("_before")
             for x in subterms(t)):
        c.bad(f"{op} lists the keys", "listing", l,
              f"{op} lists keys the object saw before the index last changed", evs)
    elif len(vs) == 1 and is_app(src_of(vs[0]), "range") and src_of(vs[0])[2] in (C(0), C(1)) \
            and src_of(vs[0])[4] == C(1) and is_c(add(src_of(vs[0])[3], w.n0, -1)):
        c.bad(f"{op} lists the keys", "listing", l,
              f"{op} looks at the slots {show(src_of(vs[0]))[:80]} only", evs)
    elif not ps:
        c.bad(f"{op} lists the keys", "listing", l, f"{op} lists nothing", evs)
    else:
        c.und(f"{op} lists the keys", show(t)[:100])


# ------------------------------------------------------------------ C05
@prop("C05", "Pre/post analysis of MetaTagIndex over an abstract shared memory in which every slot "
             "may or may not have metadata: adding with, adding without, replacing, removing, "
             "reading and listing, from an arbitrary consistent index.")
def c05(c):
    c.rule("metadata", "a key's metadata cell holds exactly what was recorded with it; removing a "
           "key removes its metadata and moves the last entry's metadata (or its absence) with "
           "that entry; no other entry's metadata cell changes; reading returns the key's own")
    cls = "MetaTagIndex"
    NEW = S("new_meta")
    with c.group("add a new key with metadata"):
        w, I, ob, s = index_world(c, cls, False)
        post(w, c, I, "add with metadata", w.call(I, ob, "add", [K, META], [], s),
             [("len", None, (w.len_size, w.len_content(add(w.n0, C(1))))),
              ("key", w.n0, w.content("key", K)), ("rev", A("str", K), w.content("rev", w.n0)),
              ("val", w.n0, w.content("val", w.n0, META))], "metadata", "add")
    with c.group("add a new key without metadata"):
        w, I, ob, s = index_world(c, cls, False)
        post(w, c, I, "add without metadata", w.call(I, ob, "add", [K], [], s),
             [("len", None, (w.len_size, w.len_content(add(w.n0, C(1))))),
              ("key", w.n0, w.content("key", K)), ("rev", A("str", K), w.content("rev", w.n0)),
              ("val", w.n0, None)], "metadata", "add")
    with c.group("add a present key with metadata"):
        w, I, ob, s = index_world(c, cls, True)
        post(w, c, I, "replace metadata", w.call(I, ob, "add", [K, META], [], s),
             [("val", w.p, w.content("val", w.p, META))], "metadata", "add")
    with c.group("add a present key without metadata"):
        w, I, ob, s = index_world(c, cls, True)
        post(w, c, I, "add again without metadata", w.call(I, ob, "add", [K], [], s), [],
             "metadata", "add")
    for op in ("__delitem__", "remove"):
        with c.group(f"{op} a present key"):
            w, I, ob, s = index_world(c, cls, True)
            removal(w, c, I, op, w.call(I, ob, op, [K], [], s), metadata=True)
        with c.group(f"{op} an absent key"):
            w, I, ob, s = index_world(c, cls, False)
            post(w, c, I, f"{op} of an absent key", w.call(I, ob, op, [K], [], s), [],
                 "metadata", op, ("KeyError",))
    with c.group("read a present key's metadata"):
        w, I, ob, s = index_world(c, cls, True)
        s.facts[w.hasmeta(w.p)] = True
        want = w.content("val", w.p, w.metaat(w.p))[1]
        for k, v, s2, evs in w.call(I, ob, "__getitem__", [K], [], s):
            l = w.loc("__getitem__")
            if k != "return":
                c.bad("read", "metadata", last_loc(evs, l), f"reading raises {exc_kind(v)}", evs)
                continue
            v = I.freeze(v, s2)
            if v in (want, w.metaat(w.p), A("dumps", "json", w.metaat(w.p))):
                c.ok("read")
            elif opaque_parts(v) or st_obj(s2, v):
                c.und("read", show(v)[:80])
            else:
                c.bad("read", "metadata", l, f"reading returns {show(v)[:90]}", evs)
    with c.group("read an absent key's metadata"):
        w, I, ob, s = index_world(c, cls, False)
        post(w, c, I, "read of an absent key", w.call(I, ob, "__getitem__", [K], [], s), [],
             "metadata", "__getitem__", ("KeyError",))
    for n in (1, 2):
        for op in ("keys", "items", "values"):
            with c.group(f"{op} of {n} keys"):
                w, I, ob, s = index_world(c, cls, None, fixed=n)
                for k, v, s2, evs in w.call(I, ob, op, [], [], s):
                    if k != "return":
                        c.bad(op, "metadata", last_loc(evs, w.loc(op)), f"{op} raises {exc_kind(v)}", evs)
                        continue
                    want = []
                    for i in range(n):
                        has = decide(w.hasmeta(C(i)), s2.facts)
                        m = w.metaat(C(i)) if has else NONE
                        want.append(w.keyat(C(i)) if op == "keys" else
                                    T(w.keyat(C(i)), m) if op == "items" else m)
                        if has is None and op != "keys":
                            want[-1] = None
                    t = I.freeze(v, s2)
                    got = concrete_list(t)
                    if got is None:
                        c.und(op, show(t)[:80])
                    elif got == want:
                        c.ok(op)
                    elif any(opaque_parts(x) for x in got):
                        c.und(op, show(t)[:80])
                    else:
                        c.bad(op, "metadata", w.loc(op), f"{op} of an index with {n} keys "
                              f"({', '.join(show(x)[:40] if x else '?' for x in want)}) is {show(t)[:120]}",
                              evs)
    for op in ("items", "values"):
        with c.group(op):
            w, I, ob, s = index_world(c, cls, None)
            for k, v, s2, evs in w.call(I, ob, op, [], [], s):
                l = w.loc(op)
                if k != "return":
                    c.bad(op, "metadata", last_loc(evs, l), f"{op} raises {exc_kind(v)}", evs)
                    continue
                ps = parts(I.freeze(v, s2))
                if ps is None or len(ps) != 1 or src_of(ps[0]) is None:
                    c.und(op, show(I.freeze(v, s2))[:100])
                    continue
                e = A("elem", src_of(ps[0]))
                good = True
                for cond, items in variants(ps[0]):
                    has = decide(w.hasmeta(e), cond)
                    if has is None:
                        raise Undecided(op, "presence of metadata is not examined")
                    m = w.metaat(e) if has else NONE
                    want = T(w.keyat(e), m) if op == "items" else m
                    if len(items) != 1:
                        good = False
                        c.bad(op, "metadata", l, f"{op} yields {len(items)} entries for a slot", evs)
                    elif items[0] != ("1", want):
                        if opaque_parts(items[0][1]):
                            raise Undecided(op, show(items[0][1])[:80])
                        good = False
                        c.bad(op, "metadata", l, f"{op} yields {show(items[0][1])[:80]} for a slot "
                              + ("with" if has else "without") + " metadata", evs)
                if good:
                    c.ok(op)


def st_obj(s, v):
    return any(x[0] == "o" for x in subterms(v))


# ------------------------------------------------------------ C02 and C03
LOCK = f"{IMPL}.SlidingLock"
LNAME = S("lock_name")


def lock_interp(c, raises=None):
    return c.interp(volatile=lambda a: True, kinds={LNAME: "str"}, raises=raises)


def new_lock(c, I, **attrs):
    """a lock attached to an existing counter other processes also change"""
    outs = [o for o in c.runv(I, ("cls", c.repo.cls(LOCK).qual), [LNAME], [], St())
            if o[0] == "return"]
    if not outs:
        raise Undecided("lock", "cannot be constructed")
    _, ob, s = outs[-1]
    s = s.fork()
    s.shm, s.trace = {}, None
    for a, v in attrs.items():
        if a in s.obj(ob).attrs:
            s.setattr_(ob, a, v)
    return ob, s


def lock_call(c, I, ob, name, args, s):
    q = f"{c.repo.cls(LOCK).qual}.{name}"
    c.functions.add(q)
    n = len(s.events())
    return [(k, v, s2, s2.events()[n:]) for k, v, s2 in c.runv(
        I, ("bm", I.fnterm(q), ob), args, [], s)]


def owner_of(handles, e):
    """handle an unlink concerns"""
    if e[0] == "shm" and e[1] == "unlink":
        return e[2]
    return None


def live_claims(trace, start=()):
    """claims (address, handle, index) exclusively created and not withdrawn;
    opaque withdrawals through a handle are resolved"""
    live = list(start)
    for i, e in enumerate(trace):
        if e[0] == "shm" and e[1] == "create":
            live.append((e[2], e[5], i))
        elif e[0] == "shm" and e[1] == "unlink":
            live = [x for x in live if x[0] != e[2]]
        elif e[0] == "call" and is_app(e[1], "attr") and e[1][3] == "unlink":
            live = [x for x in live if x[1] != e[1][2]]
    return live


def unlinks(trace, handles):
    """[(address, position, event)] in order"""
    out = []
    for i, e in enumerate(trace):
        if e[0] == "shm" and e[1] == "unlink":
            out.append((e[2], i, e))
        elif e[0] == "call" and is_app(e[1], "attr") and e[1][3] == "unlink" and \
                e[1][2] in handles:
            out.append((handles[e[1][2]], i, e))
    return out


def handles_of(trace):
    return {e[5]: e[2] for e in trace if e[0] == "shm" and e[1] == "create"}


def lock_loc(c, name):
    return fn_loc(c.repo, f"{LOCK}.{name}")


def last_probe(seg):
    """'absent' / 'present' of the last existence probe of a loop variant"""
    for e in reversed(list(seg)):
        if e[0] == "shm" and e[1] in ("attach", "exists", "absent"):
            return ("absent" if e[1] == "absent" else "present"), e[2]
    return None, None


# ------------------------------------------------------------------ C01
def lock_inlined(c, I):
    """did analysis see inside the lock in spite of the hooks"""
    q = c.repo.cls(LOCK).qual
    return [f for f in I.inlined if f.startswith(q + ".") and not f.endswith(".__init__")]


def locked_trace(evs):
    """[(event, names of locks held)] and the acquisition errors"""
    held, out = [], []
    for e in flat(evs):
        if e[0] == "lock":
            if e[1] == "enter":
                out.append((e, tuple(held)))
                held.append(e[2])
            else:
                out.append((e, tuple(held)))
                if e[2] in held:
                    held.remove(e[2])
        else:
            out.append((e, tuple(held)))
    return out, held


INDEX_OPS = (("add", False), ("add", True), ("__delitem__", True), ("__delitem__", False),
             ("remove", True))


def index_calls(cls):
    out = [(op, present, index_args(cls, op), ()) for op, present in INDEX_OPS]
    if cls == "MetaTagIndex":
        out += [("add", p, [K], ()) for p in (False, True)]
    return out + [("add", True, index_args(cls, "add"), (("exists_ok", FALSE),))]


def index_args(cls, op):
    return [K, META] if op == "add" and cls == "MetaTagIndex" else [K]


@prop("C01", "Effect analysis: every abstract path of adding and removing a key, on both index "
             "classes and through notepad and grid paper, over an abstract shared memory; each "
             "access to an address of the index's storage must lie between entering and leaving "
             "the lock, and the name of the lock must be a function of the index's name alone.")
def c01(c):
    c.rule("under the lock", "between entering and leaving the lock: every access of add, "
           "__delitem__ and remove to the index's own blocks (length, key, reverse and metadata "
           "cells)")
    c.rule("one lock", "the lock entered is named after the index only, the same in every "
           "operation and object; its blocks' addresses derive from that name and slot numbers")
    c.rule("only when asked", "without no_lockout every operation enters the lock; with it none does")
    names = {}
    for cls in INDEXES:
        for op, present, args, kws in index_calls(cls):
            for dbg in (FALSE, TRUE):
                if dbg == TRUE and ((op, present) not in (("add", False), ("__delitem__", True)) or kws):
                    continue
                with c.group(f"{cls}: {op} of {'a present' if present else 'an absent'} key"
                             + (", no metadata" if len(args) < len(index_args(cls, op)) else "")
                             + (", exists_ok=False" if kws else "") + (" (debug)" if dbg == TRUE else "")):
                    w = World(c, cls)
                    w.key_present = present
                    I = w.interp()
                    ob, s = w.obj(I, debug=dbg)
                    outs = w.call(I, ob, op, args, kws, s)
                    if lock_inlined(c, I):
                        raise Undecided("lock", "used otherwise than by entering and leaving it")
                    under_lock(c, w, op, outs, names)
        with c.group(f"{cls}: locking disabled"):
            w = World(c, cls)
            w.key_present = False
            I = w.interp()
            ob, s = w.obj(I, no_lockout=TRUE)
            hit = [e for o in w.call(I, ob, "add", index_args(cls, "add"), [], s)
                   for e in flat(o[3]) if e[0] == "lock"]
            c.must(not hit, "no lock", "only when asked", loc_of(hit[0]) if hit else w.loc("add"),
                   "the lock is entered although the index was constructed with no_lockout", hit)
    for cls in PADS:
        for op in ("__setitem__", "__delitem__"):
            with c.group(f"{cls}: {op}"):
                w = World(c, cls)
                w.key_present = op == "__delitem__"
                if cls == "GridPaper":
                    w.meta_state = "always"
                I = w.interp()
                ob, s = w.obj(I)
                outs = w.call(I, ob, op, [K, V] if op == "__setitem__" else [K], [], s)
                if lock_inlined(c, I):
                    raise Undecided("lock", "used otherwise than by entering and leaving it")
                under_lock(c, w, op, outs, {}, ("write", "create", "unlink"))
    with c.group("one lock per index"):
        for op, nm in names.items():
            pass
        vals = set(x for v in names.values() for x in v)
        for v in vals:
            odd = [t for t in subterms(v) if t and t[0] == "s" and t not in (PREFIX,)] + \
                  [t for t in subterms(v) if t and t[0] == "o"] + \
                  [t for t in subterms(v) if is_app(t, "call")]
            where = next(l for vs in names.values() for x, l in vs.items() if x == v)
            c.must(not odd, "lock name", "one lock", where,
                   f"the lock's name {show(v)[:80]} depends on more than the index's name")
            c.must(mentions(v, PREFIX), "lock name", "one lock", where,
                   f"the lock's name {show(v)[:80]} does not depend on the index")
        if len(vals) > 1:
            l = [l for vs in names.values() for x, l in vs.items()]
            c.bad("same lock", "one lock", l[-1], "operations enter different locks: "
                  + ", ".join(sorted(show(v)[:50] for v in vals)))
        elif vals:
            c.ok("same lock")
    with c.group("lock addresses"):
        I = lock_interp(c)
        ob, s = new_lock(c, I)
        n = 0
        for k, v, s2, evs in lock_call(c, I, ob, "__enter__", [], s):
            for e in flat(evs):
                if e[0] != "shm":
                    continue
                a = e[2]
                n += 1
                odd = [t for t in subterms(a) if is_app(t, "anon") or is_app(t, "call")
                       and not is_app(t[2], "attr")]
                c.must(mentions(a, LNAME) and not odd, f"address {show(strip_ids(a))[:40]}", "one lock",
                       loc_of(e), f"lock block {show(a)[:80]} is not shared by every process "
                       "that uses this lock's name")
        if not n:
            c.und("addresses", "the lock touches no shared memory")


def under_lock(c, w, op, outs, names, ops=None):
    n = 0
    for k, v, s, evs in outs:
        tr, _ = locked_trace(evs)
        seen = False
        good = True
        for e, held in tr:
            if e[0] == "lock" and e[1] == "enter":
                seen = True
                names.setdefault(op, {}).setdefault(e[2], loc_of(e))
            if e[0] == "shm" and w.is_index(e[2]) and (ops is None or e[1] in ops):
                n += 1
                c.sites += 1
                if not held:
                    good = False
                    c.bad("under the lock", "under the lock" if seen or ops else "only when asked",
                          loc_of(e), f"{op} {VERB.get(e[1], e[1])} {show(e[2])[:70]} without holding "
                          "the index's lock", evs)
        if good and any(e[0] == "shm" and w.is_index(e[2]) for e, _ in tr):
            c.ok("under the lock")
    if not n:
        c.und("under the lock", "no access to the index was recognised")


VERB = {"create": "creates", "write": "writes", "unlink": "removes", "attach": "opens",
        "read": "reads", "exists": "probes", "absent": "probes", "stalewrite": "writes",
        "clash": "writes", "partial": "writes", "close": "closes"}


# ------------------------------------------------------------------ C02
def wait_raises(kind, fv):
    """what may interrupt a process that is taking or holding a lock"""
    if kind == "ext":
        return ("KeyboardInterrupt", "E")
    if kind == "shmcreate":
        return ("OSError", "KeyboardInterrupt")
    if kind == "shmprobe":
        return ("KeyboardInterrupt",)
    if kind == "io":
        return ("OSError",)
    return ()


def debug_raises(kind, fv):
    if kind == "ext" and "sleep" in show(fv):
        return ("KeyboardInterrupt",)
    return ("OSError",) if kind == "io" else ()


def op_raises(kind, fv):
    if kind in ("ext", "user", "encode", "decode", "shmcreate"):
        return ("KeyboardInterrupt", "E")
    return ()


def carried_claims(I, e):
    """leaks of one summarised while loop: claims made in a turn that neither
    that turn withdraws nor a later turn or the code after the loop can"""
    lid, bodies = e[1], e[3]
    names = {t[3]: t for t in I.loops[lid]["phi"]}
    nx = [b for b in bodies if b[0] in ("next", "continue")]
    bad = []
    for b in nx:
        for a, h, i in live_claims(b[2]):
            ups = {n: v for n, v in dict(b[3]).items() if v is not None and
                   any(t == h for t in subterms(v))}
            if not ups:
                bad.append((a, b[2][i]))
                continue
            for n in ups:
                p = names.get(n)
                if p is None:
                    continue
                for b2 in nx:
                    if consistent(dict(b2[1]), {p: h}) is None:
                        continue
                    u2 = dict(b2[3]).get(n)
                    freed = any(x[0] == "call" and is_app(x[1], "attr") and x[1][3] == "unlink"
                                and x[1][2] == p for x in flat(b2[2]))
                    if u2 is not None and u2 != p and not freed:
                        bad.append((a, b[2][i]))
    return bad


def claims_free(c, I, name, op, outs, what):
    """no outcome leaves a claim of this process behind"""
    n = 0
    for k, v, s, evs in outs:
        for e in flat(s.events()):
            if e[0] == "loop" and not I.loops[e[1]]["for"]:
                for a, ev in carried_claims(I, e):
                    c.bad(name, "nothing left behind", loc_of(ev),
                          f"a turn of the loop at line {e[4][1]} forgets its claim "
                          f"{show(a)[:70]} without withdrawing it", [e])
        for tr, fx, sub in straighten(I, s.events(), s.facts):
            n += 1
            live = live_claims(tr)
            if live:
                a, h, i = live[0]
                c.bad(name, "nothing left behind", loc_of(tr[i]),
                      f"{what}{' (' + exc_kind(v) + ')' if k == 'raise' else ''} leaves its "
                      f"claim {show(a)[:70]} behind", tr)
            else:
                c.ok(name)
    if not n:
        c.und(name, "no outcome")


@prop("C02", "Typestate of lock claims and lock nesting: every abstract path of entering, leaving and "
             "failing to enter the lock against concurrently changing memory (with interrupts, "
             "errors and timeouts injected at each blocking call and block creation) must end with "
             "no live claim; every path of every index operation, with exceptions injected at each "
             "external call, must leave each lock it entered and never enter one it holds.")
def c02(c):
    c.rule("nothing left behind", "when entering raises, and when leaving returns, every block "
           "exclusively created as a claim has been unlinked")
    c.rule("given back", "every path of an index operation, returning or raising, leaves the lock "
           "as often as it enters it")
    c.rule("no self-wait", "no operation enters a lock it already holds; the entering process does "
           "not wait for its own slot")
    for dbg in (FALSE, TRUE):
        with c.group("lock" + (" (debug)" if dbg == TRUE else "")):
            I = lock_interp(c, wait_raises if dbg == FALSE else debug_raises)
            ob, s = new_lock(c, I, max_spins=S("max_spins"), debug=dbg)
            outs = lock_call(c, I, ob, "__enter__", [], s)
            failed = [o for o in outs if o[0] == "raise"]
            if failed:
                claims_free(c, I, "failed attempt", "__enter__", failed, "failing to take the lock")
            I.raises = lambda k, f: ("OSError",) if k == "io" else ()
            entered = [o for o in outs if o[0] == "return"]
            if not entered:
                raise Undecided("lock", "never entered")
            for o in entered:
                for exc in ([NONE] * 3, [A("x", "ValueError"), S("exc"), S("tb")]):
                    claims_free(c, I, "release", "__exit__",
                                lock_call(c, I, ob, "__exit__", exc, o[2].fork()),
                                "leaving the lock")
            for o in entered:
                own_slot(c, I, o)
    for cls in INDEXES:
        for op, present, args, kws in index_calls(cls):
            with c.group(f"{cls}: {op} of {'a present' if present else 'an absent'} key"
                         + (", no metadata" if len(args) < len(index_args(cls, op)) else "")
                         + (", exists_ok=False" if kws else "")):
                w = World(c, cls)
                w.key_present = present
                I = w.interp(raises=op_raises)
                I.raises = lambda k, f: ()
                ob, s = w.obj(I)
                I.raises = op_raises
                balanced(c, w, I, op, w.call(I, ob, op, args, kws, s))
    for cls in PADS:
        for op, present in (("__setitem__", False), ("__setitem__", True), ("__delitem__", True)):
            with c.group(f"{cls}: {op} of {'a present' if present else 'an absent'} key"):
                w = World(c, cls)
                w.key_present = present
                if cls == "GridPaper":
                    w.meta_state = "always"
                I = w.interp()
                ob, s = w.obj(I)
                I.raises = lambda k, f: ("KeyboardInterrupt", "E") if k in ("encode", "shmcreate") else ()
                balanced(c, w, I, op, w.call(
                    I, ob, op, [K, V] if op == "__setitem__" else [K], [], s))


def own_slot(c, I, o):
    """does the scan before entering include the process's own claim"""
    k, v, s, evs = o
    for tr, fx, sub in straighten(I, evs, s.facts):
        mine = [(a, i) for a, h, i in live_claims(tr)]
        for e in tr:
            if e[0] != "forall":
                continue
            r = scan_range(e[2])
            if r is None:
                continue
            lo, hi, step = r
            for a, i in mine:
                fam, x = family(a)
                if fam is None:
                    continue
                for b in e[3]:
                    st_, pa = last_probe(b[2])
                    f2, y = family(pa) if pa is not None else (None, None)
                    if f2 == fam and is_app(y, "elem"):
                        d = add(hi, x, -1)
                        if is_c(d) and cval(d) > 0 and not skips(b, y, x):
                            c.bad("own slot", "no self-wait", e[4],
                                  "the process waits for its own slot to be released", tr)
                        elif is_c(d):
                            c.ok("own slot")


def skips(b, y, x):
    return decide(cmp_eq(y, x), dict(b[1])) is False


def scan_range(src):
    """(lo, hi, step) of the numbers a scan visits, in any order"""
    while is_app(src) and src[1] in ("reversed", "sorted", "list", "tuple") and len(src) > 2 \
            and isinstance(src[2], tuple):
        if src[1] in ("list", "tuple"):
            ps = parts(src)
            if ps is not None and len(ps) == 1 and ps[0][0] == "*":
                src = ps[0][1]
                continue
        src = src[2]
    if is_app(src, "range") and len(src) >= 5:
        lo, hi, step = src[2:5]
        if is_c(step) and cval(step) == -1:
            return add(hi, C(1)), add(lo, C(1)), C(1)
        return lo, hi, step
    return None


def family(addr):
    """(address with its slot number removed, that number)"""
    ps = norm_addr(addr)
    nums = [i for i, p in enumerate(ps) if i and p != LNAME and not (is_c(p) and p[1] == "str")]
    if len(nums) != 1:
        return None, None
    i = nums[0]
    return tuple(ps[:i]) + (S("#"),) + tuple(ps[i + 1:]), ps[i]


def beside(x, mine):
    """a slot at a fixed distance from the claimed one"""
    own = lambda t: t == mine or is_app(t, "phi") and t[3] == "obj.number"
    d = add(x, mine, -1)
    return own(x) or is_c(d) or is_app(x, "lin") and len(x[3]) == 1 and x[3][0][1] == 1 and own(x[3][0][0])


def while_scans(traces):
    """while loops, after a claim, whose turns look for slots other than the claimed one"""
    out = []
    for tr in traces:
        mine = None
        for e in tr:
            if e[0] == "shm" and e[1] == "create":
                mine = family(e[2])[1] or mine
            elif mine is not None and e[0] in ("earlier", "forall") and is_app(e[2], "while"):
                for b in e[3]:
                    p = last_probe(b[2])
                    x = family(p[1])[1] if p and p[1] is not None else None
                    if x is not None and x != mine and not is_app(x, "elem") and not beside(x, mine):
                        out.append(e)
    return out


def balanced(c, w, I, op, outs):
    if lock_inlined(c, I):
        raise Undecided("lock", "used otherwise than by entering and leaving it")
    n = 0
    for k, v, s, evs in outs:
        tr, held = locked_trace(evs)
        n += any(e[0] == "lock" for e, _ in tr)
        for e, h in tr:
            if e[0] == "lock" and e[1] == "enter":
                c.must(e[2] not in h, "no self-wait", "no self-wait", loc_of(e),
                       f"{op} enters the index's lock while it already holds it", evs)
        enters = [e for e, _ in tr if e[0] == "lock" and e[1] == "enter"]
        c.must(not held, "given back", "given back", loc_of(enters[-1]) if enters else w.loc(op),
               f"{op} {'raises ' + exc_kind(v) if k == 'raise' else 'returns'} without leaving "
               "the lock it entered", evs)
    if not n:
        c.und("lock", "never entered")


# ------------------------------------------------------------------ C03
@prop("C03", "Protocol analysis of the sliding lock: every abstract path through entering (last loop "
             "turns substituted in) against memory other processes may change between any two "
             "accesses; obligations on the order and values of claims, floor reads, scans, floor "
             "publication and withdrawals.")
def c03(c):
    c.rule("claimed", "entering returns only while holding a slot block this process created "
           "exclusively; after creating it the floor was read again and found below the slot")
    c.rule("scanned", "before entering, a completed scan found no claim on any slot from the "
           "floor to its own")
    c.rule("published", "leaving writes the own slot number to the floor before unlinking any claim")
    c.rule("withdrawn in order", "the second claim is unlinked before the slot claim")
    c.rule("not published", "a process that never got in writes no floor")
    entered, infeasible = [], []
    with c.group("enter"):
        I = lock_interp(c)
        ob, s = new_lock(c, I)
        outs = [o for o in lock_call(c, I, ob, "__enter__", [], s)]
        entered = [o for o in outs if o[0] == "return"]
        if not entered:
            raise Undecided("lock", "never entered")
        slot = None
        infeasible = []
        paths = [(tr, fx) for o in entered for tr, fx, sub in straighten(I, o[3], o[2].facts)]
        whiles = while_scans(tr for tr, _ in paths)
        if paths:
            for tr, fx in paths:
                r = entry(c, I, tr, fx, whiles)
                if r == "already":
                    infeasible.append(tr)
    with c.group("enter with a limit on waiting"):
        I1 = lock_interp(c)
        ob1, s1 = new_lock(c, I1, max_spins=S("max_spins"))
        paths = [(tr, fx) for o in lock_call(c, I1, ob1, "__enter__", [], s1) if o[0] == "return"
                 for tr, fx, sub in straighten(I1, o[3], o[2].facts)]
        if not paths:
            c.und("enter with a limit on waiting", "never entered")
        whiles = while_scans(tr for tr, _ in paths)
        for tr, fx in paths:
            entry(c, I1, tr, fx, whiles)
    with c.group("leave"):
        for o in entered:
            for k, v, s2, _ in lock_call(c, I, ob, "__exit__", [NONE] * 3, o[2].fork()):
                if k != "return":
                    c.bad("leave", "published", lock_loc(c, "__exit__"),
                          f"leaving the lock raises {exc_kind(v)}")
                    continue
                for tr, fx, sub in straighten(I, s2.events(), s2.facts):
                    leaving(c, tr, infeasible)
    with c.group("failed attempt"):
        I = lock_interp(c, wait_raises)
        ob, s = new_lock(c, I, max_spins=S("max_spins"))
        failed = [o for o in lock_call(c, I, ob, "__enter__", [], s) if o[0] == "raise"]
        for k, v, s2, evs in failed:
            for tr, fx, sub in straighten(I, evs, s2.facts):
                wr = [e for e in tr if e[0] == "shm" and e[1] in ("write", "stalewrite")]
                c.must(not wr, "not published", "not published",
                       loc_of(wr[0]) if wr else lock_loc(c, "__enter__"),
                       f"a process that never got in ({exc_kind(v)}) writes {show(wr[0][2])[:60] if wr else ''}",
                       tr)
                if infeasible:
                    order(c, tr)
        if not failed:
            c.und("failed attempt", "entering never fails")
    with c.group("next floor"):
        # what leaving publishes is what the next process starts above
        kk = S("slot")
        I = lock_interp(c)
        ob, s = new_lock(c, I)
        pub = set()
        for o in [o for o in lock_call(c, I, ob, "__enter__", [], s) if o[0] == "return"]:
            for k, v, s2, _ in lock_call(c, I, ob, "__exit__", [NONE] * 3, o[2].fork()):
                for tr, fx, sub in straighten(I, s2.events(), s2.facts):
                    mine = claim_numbers(tr)
                    for e in tr:
                        if e[0] == "shm" and e[1] == "write" and mine:
                            pub.add((e[2], replace(e[3], {mine[0]: kk})))
        if len(pub) != 1:
            raise Undecided("publication", f"{len(pub)} forms")
        (addr, content), = pub
        I2 = c.interp(kinds={LNAME: "str", kk: "int"}, shm_init=lambda I, a, s: [
            (Seg(a == addr, M.blen(content) if a == addr else None, content, 0) if a == addr
             else Seg(False), s)])
        outs = [o for o in c.runv(I2, ("cls", c.repo.cls(LOCK).qual), [LNAME], [], St())
                if o[0] == "return"]
        for _, ob2, s2 in outs[:1]:
            good = 0
            for k, v, s3, evs in lock_call(c, I2, ob2, "__enter__", [], s2.fork()):
                for tr, fx, sub in straighten(I2, evs, s3.facts):
                    for e in tr:
                        if e[0] == "shm" and e[1] == "create":
                            fam, x = family(e[2])
                            if fam is None:
                                continue
                            x = resolve_start(I2, x)
                            d = add(x, kk, -1)
                            if is_c(d):
                                good += 1
                                c.must(cval(d) >= 1, "next slot", "claimed", loc_of(e),
                                       "the next process may claim a slot that is not above the "
                                       "last released one", tr)
                            elif is_app(x, "phi") or opaque_parts(x):
                                continue
                            else:
                                good += 1
                                c.bad("next slot", "claimed", loc_of(e), "the first slot claimed "
                                      f"after slot n was released is {show(x)[:60]}", tr)
                            break
            if not good:
                c.und("next slot", "start not recognised")
    with c.group("first use"):
        I3 = c.interp(kinds={LNAME: "str"}, shm_init=lambda I, a, s: [(Seg(False), s)])
        outs = c.runv(I3, ("cls", c.repo.cls(LOCK).qual), [LNAME], [], St())
        for k, ob3, s3 in outs:
            if k != "return":
                c.bad("first use", "claimed", lock_loc(c, "__init__"), f"construction raises {exc_kind(ob3)}")
                continue
            for k, v, s4, evs in lock_call(c, I3, ob3, "__enter__", [], s3):
                if k != "return":
                    c.und("first use", f"raises {exc_kind(v)}")
                    continue
                for k, v, s5, evs in lock_call(c, I3, ob3, "__exit__", [NONE] * 3, s4):
                    clash = [e for e in flat(evs) if e[0] == "shm" and e[1] in ("clash", "partial")]
                    c.must(k == "return" and not clash, "first use", "published",
                           loc_of(clash[0]) if clash else lock_loc(c, "__exit__"),
                           "the released slot number does not fit the floor block", evs)


def resolve_start(I, x):
    for lid, info in I.loops.items():
        for t, d in info["phi"].items():
            if t == x and d["init"] is not None:
                return d["init"]
    return x


def claim_numbers(tr):
    out = []
    for a, h in [(e[2], e[5]) for e in tr if e[0] == "shm" and e[1] == "create"]:
        fam, x = family(a)
        if fam is not None:
            out.append(x)
    return out


def floor_value(I, x, depth=0):
    """True when x is a value read from the floor block (or one above it), False
    when it is something else, None if unknown"""
    if depth > 4:
        return None
    if is_c(x):
        return cval(x) <= 1
    if is_app(x, "lin"):
        if len(x[3]) == 1 and x[3][0][1] == 1 and x[2] <= 1:
            return floor_value(I, x[3][0][0], depth + 1)
        return False if all(floor_value(I, t, depth + 1) is not None for t, _ in x[3]) else None
    if is_app(x, "frombytes"):
        return True if any(is_app(t, "vread") for t in subterms(x)) else None
    if is_app(x) and x[1] in ("max", "min") and all(isinstance(t, tuple) for t in x[2:]):
        r = [floor_value(I, t, depth + 1) for t in (x[2] if isinstance(x[2], tuple) and x[2] and
                                                    isinstance(x[2][0], tuple) else x[2:])]
        return True if r and all(r) else None
    for lid, info in I.loops.items():
        if x in info["phi"]:
            vals = [info["phi"][x]["init"]] + [
                dict(b[3]).get(x[3]) for b in loop_bodies(I, lid)
                if b[0] in ("next", "continue")]
            if any(v is not None and is_c(add(v, x, -1)) and cval(add(v, x, -1)) > 0 for v in vals):
                return False
            rs = [floor_value(I, v, depth + 1) for v in vals if v is not None and v != x]
            if all(r is True for r in rs) and rs:
                return True
            if any(r is False for r in rs):
                return False
            return None
    return None


def loop_bodies(I, lid):
    return I.bodies_of.get(lid, ()) if hasattr(I, "bodies_of") else ()


def entry(c, I, tr, fx, whiles=()):
    """obligations of one path that got in"""
    name = "entering path"
    l = lock_loc(c, "__enter__")
    I.bodies_of = getattr(I, "bodies_of", {})
    for e in tr:
        if e[0] in ("earlier", "forall"):
            I.bodies_of[e[1]] = e[3]
    claims = [(a, i) for a, h, i in live_claims(tr)]
    fams = [(family(a), i) for a, i in claims]
    fams = [(f, x, i) for (f, x), i in fams if f is not None]
    if not claims:
        c.bad(name, "claimed", l, "a process enters without having claimed a slot", tr)
        return
    if not fams:
        c.und(name, "no numbered slot recognised")
        return
    # claims a later creation attempt found already there
    for e in tr:
        if e[0] == "shm" and e[1] == "exists":
            f, x = family(e[2])
            if f is not None and f not in [g for g, _, _ in fams] and any(x == y for _, y, _ in fams):
                scans = [q for q in tr if q[0] == "forall"]
                if not scans:
                    # only possible if another process still holds the second claim of a
                    # slot it no longer claims: excluded by the order of withdrawal
                    c.ok("already claimed", "excluded by the order of withdrawal")
                    return "already"
    scan = None
    for e in tr:
        if e[0] != "forall":
            continue
        r = scan_range(e[2])
        if r is None:
            continue
        probes = [last_probe(b[2]) for b in e[3]]
        if probes and all(p[0] == "absent" for p in probes):
            scan = (e, r, probes)
    if scan is None:
        if any(e[0] == "forall" or e[0] == "loop" for e in tr) and not any(
                e[0] == "forall" and scan_range(e[2]) is not None for e in tr):
            c.und(name, "no scan of lower slots recognised")
            return
        if whiles:
            c.und(name, "a scan that is not a loop over a range of numbers")
            return
        partial = [e for e in tr if e[0] == "forall"]
        c.bad(name, "scanned", loc_of(tr[claims[-1][1]]) if not partial else partial[0][4],
              "a process enters without having found every lower slot unclaimed", tr)
        return
    e, (lo, hi, step), probes = scan
    pos = tr.index(e)
    pf, px = family(probes[0][1])
    mine = [(f, x, i) for f, x, i in fams if f == pf]
    if pf is None:
        c.und(name, "the scanned addresses were not recognised")
        return
    if not mine:
        c.bad(name, "scanned", e[4], "the scan looks for blocks no process creates before it is "
              f"inside ({show(probes[0][1])[:70]})", tr)
        return
    f, k, i = mine[0]
    good = True
    if i > pos:
        good = False
        c.bad(name, "claimed", loc_of(tr[i]), "the slot is claimed only after the scan of lower slots", tr)
    if not is_app(px, "elem"):
        c.und(name, "scan element")
        good = False
    d = add(hi, k, -1)
    if not (is_c(d) and cval(d) >= 0):
        if is_c(d) or not opaque_parts(d):
            good = False
            c.bad(name, "scanned", e[4], f"the scan stops at {show(hi)[:50]}, before the process's "
                  f"own slot {show(k)[:50]}", tr)
        elif floor_value(I, d) is not None or strip_ids(hi) != strip_ids(k):
            good = False
            c.und(name, f"upper end of the scan {show(hi)[:60]}")
    if step != C(1):
        good = False
        c.bad(name, "scanned", e[4], "the scan skips slots", tr)
    fl = floor_value(I, lo)
    if fl is False:
        good = False
        c.bad(name, "scanned", e[4], f"the scan starts at {show(lo)[:60]}, which may be above a "
              "slot not released yet", tr)
    elif fl is None:
        good = False
        c.und(name, f"start of the scan {show(lo)[:60]}")
    # the floor was read again after the claim and is below the slot
    again = [q for j, q in enumerate(tr) if i < j < pos and q[0] == "shm" and q[1] == "read"]
    below = False
    for q in again:
        for a, val in fx.items():
            if mentions(a, q[3]) and mentions(a, k):
                if decide(cmp_lt(A("frombytes", q[3]), k), fx) is True or val_below(a, val, q[3], k):
                    below = True
    if not again:
        good = False
        c.bad(name, "claimed", loc_of(tr[i]), "after claiming its slot the process does not look "
              "at the floor again: the slot may have been used and released since", tr)
    elif not below:
        good = False
        weak = [a for q in again for a, val in fx.items()
                if mentions(a, q[3]) and mentions(a, k) and too_weak(a, val, q[3], k)]
        if weak:
            c.bad(name, "claimed", loc_of(tr[i]), "after claiming its slot the process accepts a "
                  "floor that is not below it: the slot may have been used and released", tr)
        elif any(mentions(a, q[3]) for q in again for a in fx):
            c.und(name, "comparison of the floor with the slot not recognised")
        else:
            c.bad(name, "claimed", loc_of(tr[i]), "after claiming its slot the process reads the "
                  "floor but does not compare it with the slot", tr)
    if good:
        c.ok(name)


def val_below(atom, val, read, k):
    """does the fact say that the floor read is below k"""
    if not is_app(atom, "lt0"):
        return False
    t = atom[2]
    if not is_app(t, "lin"):
        return False
    co = dict(t[3])
    fb = [x for x in co if is_app(x, "frombytes") and mentions(x, read)]
    if len(fb) != 1 or k not in co or len(co) != 2:
        return False
    a, b, c0 = co[fb[0]], co[k], t[2]
    if val and (a, b) == (1, -1):
        return c0 >= 0
    if not val and (a, b) == (-1, 1):
        return c0 <= -1
    return False


def too_weak(atom, val, read, k):
    """the fact compares the floor with the slot number only, and allows equality"""
    if not is_app(atom, "lt0") or not is_app(atom[2], "lin"):
        return is_app(atom, "lt") and {atom[2], atom[3]} == {A("frombytes", read), k} and not (
            val and atom[2] != k)
    co = dict(atom[2][3])
    fb = [x for x in co if is_app(x, "frombytes") and mentions(x, read)]
    return len(fb) == 1 and k in co and len(co) == 2 and not val_below(atom, val, read, k)


def leaving(c, tr, ordered=True):
    hs = handles_of(tr)
    ul = unlinks(tr, hs)
    made = [e[2] for e in tr if e[0] == "shm" and e[1] == "create"]
    live = live_claims(tr)
    # events after the entering part: claims that survived until leaving
    mine = claim_numbers(tr)
    wr = [(i, e) for i, e in enumerate(tr) if e[0] == "shm" and e[1] in ("write", "stalewrite")]
    if not mine:
        c.und("leave", "no numbered slot")
        return
    if not wr:
        c.bad("leave", "published", lock_loc(c, "__exit__"),
              "leaving the lock does not publish the released slot", tr)
        return
    i, e = wr[-1]
    good = True
    x = e[3]
    if is_app(x, "tobytes"):
        if x[2] not in mine:
            if opaque_parts(x[2]) and not is_app(x[2], "lin") or is_app(x[2], "phi"):
                c.und("leave", f"published value {show(x[2])[:60]}")
            else:
                c.bad("leave", "published", loc_of(e), f"leaving publishes {show(x[2])[:60]} "
                      f"instead of the own slot {show(mine[0])[:60]}", tr)
            good = False
    else:
        c.und("leave", f"published value {show(x)[:60]}")
        good = False
    if e[1] == "stalewrite":
        good = False
        c.bad("leave", "published", loc_of(e), "the floor is written to a block that is gone", tr)
    final = [u for u in ul if u[1] < i and u[0] in [made_ for made_ in made] and
             not any(q[0] == "shm" and q[1] == "create" and q[2] == u[0] and j > u[1]
                     for j, q in enumerate(tr))]
    if final:
        good = False
        c.bad("leave", "published", loc_of(final[0][2]), "a claim is withdrawn before the released "
              "slot is published", tr)
    if good:
        c.ok("leave")
    if ordered:
        order(c, tr)


def order(c, tr):
    """the claim other processes scan for goes last"""
    hs = handles_of(tr)
    ul = unlinks(tr, hs)
    crt = [e[2] for e in tr if e[0] == "shm" and e[1] == "create"]
    surviving = []
    for a in crt:
        if a not in surviving:
            surviving.append(a)
    if len(surviving) < 2:
        return
    first, second = surviving[0], surviving[1]
    pos = {a: i for a, i, _ in ul}
    if first in pos and second in pos:
        c.must(pos[second] < pos[first], "order of withdrawal", "withdrawn in order",
               loc_of(tr[pos[first]]), "the slot claim is withdrawn while the lock claim of the "
               "same slot still exists: a process that takes the slot would enter without "
               "looking at lower ones", tr)


# ---------------------------------------------------- stores and reads
def pad_world(c, cls, present, ctor=None, **kw):
    w = World(c, cls, **(ctor or {}))
    w.key_present = present
    if cls == "GridPaper":
        w.meta_state = "always"
    for a, b in kw.items():
        setattr(w, a, b)
    I = w.interp()
    ob, s = w.obj(I)
    return w, I, ob, s


def extras(w, I, op, skip=("key", "value", "exists_ok")):
    """keyword variants of one operation: every further parameter, switched on"""
    f = I.find_method(w.qual, op)
    f = w.c.repo.funcs.get(getattr(f, "qual", f))
    if f is None:
        return [[]]
    a = f.node.args
    named = a.args[1:] + a.kwonlyargs
    defaults = dict(zip([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    out = [[]]
    for x in named:
        d = defaults.get(x.arg)
        if x.arg in skip or d is None:
            continue
        flag = isinstance(d, ast.Constant) and isinstance(d.value, bool)
        out.append([(x.arg, (FALSE if d.value else TRUE) if flag else META)])
    return out


def refused(k, v, evs):
    """a key the pad does not accept at all (reserved), refused up front"""
    return k == "raise" and exc_kind(v) == "KeyError" and not any(
        e[0] == "shm" for e in flat(evs))


CODECS = ("json_codec_factory", "ast_codec_factory", "pickle_codec_factory")


def pad_variants(c):
    """(label, class, constructor arguments)"""
    mem = c.interp()
    mod = c.repo.func("codex.codecs.json_codec_factory").mod
    out = [("Notepad", "Notepad", {}), ("GridPaper", "GridPaper", {})]
    for f in CODECS:
        try:
            out.append((f"Notepad({f})", "Notepad", {"codec_factory": mem.modglobal(mod, f)}))
        except Exception:
            pass
    return out


def injective(t, x):
    """do different values of x give different t: True, False, None unknown"""
    t = strip_ids(t)
    if t == x:
        return True
    if not mentions(t, x):
        return False
    if is_app(t, "cat"):
        hit = [p for p in t[2] if mentions(p, x)]
        return injective(hit[0], x) if len(hit) == 1 else None
    if is_app(t) and t[1] in ("str", "enc", "repr"):
        return injective(t[2], x)
    if is_app(t, "call"):
        f = t[2]
        if is_app(f, "attr") and f[3] in ("hexdigest", "digest") and not t[3]:
            return injective(f[2], x)
        if f[0] == "x" and f[1].startswith("hashlib.") and t[3]:
            return injective(t[3][0], x)
        if is_app(f, "attr") and f[3] in LOSSY:
            return False
        if f[0] == "x" and f[1] in ("hash", "len", "zlib.crc32", "zlib.adler32", "id"):
            return False
        return None
    if is_app(t) and t[1] in ("item", "slice", "len", "lower", "upper", "strip", "replace", "hash",
                              "mod", "rstrip", "lstrip", "title", "casefold", "split"):
        return False
    return None


LOSSY = ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "capitalize",
         "replace", "split", "partition", "rpartition", "swapcase", "translate")


def distinct(c, w, kind):
    a, hole, _ = w.templates[kind]
    r = injective(a, hole)
    if r is None:
        c.und(f"{NAMES[kind]} address", f"{show(a)[:80]} is not known to tell keys apart")
    else:
        c.must(r, f"{NAMES[kind]} address", "one place per key", w.loc("__setitem__" if w.pad else "add"),
               f"different keys can share the {NAMES[kind]} address {show(a)[:80]}")


def reads_back(c, w, I, what, outs, want, rule, l):
    n = 0
    for k, v, s, evs in outs:
        n += 1
        if k != "return":
            if opaque_exc(v):
                c.und(what, f"raises {exc_kind(v)}")
            else:
                c.bad(what, rule, last_loc(evs, l), f"{what} raises {exc_kind(v)}", evs)
            continue
        v = array_value(c, I, v, s)
        if strip_ids(v) == strip_ids(want):
            c.ok(what)
        elif opaque_parts(v) or not known_value(v):
            c.und(what, show(v)[:100])
        else:
            c.bad(what, rule, l, f"{what} yields {show(v)[:90]} instead of what was stored", evs)
    if not n:
        c.und(what, "no outcome")


def array_value(c, I, v, s):
    """contents of a view onto shared memory, as copying it would give"""
    if v[0] == "o" and s.obj(v) is not None and s.obj(v).kind not in ("list", "dict", "set"):
        try:
            f = I.get_attr(v, "copy", s.fork(), None, None)
            if len(f) == 1:
                outs = c.runv(I, f[0][0], [], [], f[0][1])
                if len(outs) == 1 and outs[0][0] == "return":
                    return I.freeze(outs[0][1], outs[0][2])
        except Unsupported:
            pass
    return I.freeze(v, s)


def opaque_exc(v):
    return is_app(v, "uexc")


def known_value(v):
    """is the value one this model's account of bytes and codecs explains"""
    for t in subterms(v):
        if t and t[0] == "o":
            return False
        if is_app(t, "call") and not (t[2][0] == "x" or is_app(t[2], "attr")):
            return False
    return True


@prop("C06", "Round-trip analysis over abstract shared memory and codecs: store through one object and "
             "read through the same, a new and a long-lived object (keys new or present, every codec, "
             "every reading method); the value read must be the stored term itself, obtained only "
             "through inverse encodings and the recorded shape and type.")
def c06(c):
    c.rule("round trip", "what __getitem__, get, iteration and Sticky.read decode is exactly what "
           "the last store through any object encoded")
    c.rule("unfetched", "asked not to fetch, reading gives the block at the key's own address")
    c.rule("codec", "decode(encode(x)) reduces to x for each codec factory's pair")
    c.rule("one place per key", "different keys never share a value's address")
    c.rule("only this entry", "storing a key changes no other entry's cells")
    for f in CODECS:
        with c.group(f):
            I = c.interp(kinds={V: "object"})
            for k, v, s in c.run(I, f"codex.codecs.{f}", []):
                if k != "return" or v[0] != "t" or len(v[1]) != 2:
                    c.und("pair", f"{k} {show(v)[:60]}")
                    continue
                enc_, dec_ = v[1]
                for k2, e, s2 in c.runv(I, enc_, [V], [], s.fork()):
                    if k2 != "return":
                        c.bad("encode", "codec", fn_loc(c.repo, f"codex.codecs.{f}"),
                              f"encoding raises {exc_kind(e)}", s2.events())
                        continue
                    reads_back(c, None, I, "decoding", [
                        (a, b, d, d.events()) for a, b, d in c.runv(I, dec_, [e], [], s2.fork())],
                        V, "codec", fn_loc(c.repo, f"codex.codecs.{f}"))
    for label, cls, ctor in pad_variants(c):
        for present in (False, True):
            with c.group(f"{label}: {'replacing' if present else 'new'} key"):
                w, I, ob, s = pad_world(c, cls, present, ctor)
                if not present:
                    distinct(c, w, "data")
                setters = ["__setitem__"] + (["set"] if label in PADS else [])
                for st_ in setters:
                    stored = 0
                    for k, v, s2, evs in w.call(I, ob, st_, [K, V], [], s.fork()):
                        if refused(k, v, evs):
                            continue
                        if k != "return":
                            c.bad("store", "round trip", last_loc(evs, w.loc(st_)),
                                  f"storing raises {exc_kind(v)}", evs)
                            continue
                        stored += 1
                        own_cells(c, w, I, st_, s2, evs, present)
                        o3, s3 = w.make(I, s2.fork())
                        for who, o, sx in (("the same object", ob, s2), ("a new object", o3, s3)):
                            for m, args, kws in READS[cls]:
                                if label not in PADS and m != "__getitem__":
                                    continue
                                got = w.call(I, o, m, args, kws, sx.fork())
                                reads_back(c, w, I, f"{m}{'(' + ', '.join(a for a, _ in kws) + ')' if kws else ''} "
                                           f"through {who}", got, V, "round trip", w.loc(m))
                                if cls == "GridPaper" and (kws == [("copy", TRUE)] or
                                                           not kws and m == "__getitem__"):
                                    for k5, v5, s5, ev5 in got:
                                        ob5 = s5.obj(v5) if k5 == "return" else None
                                        c.must(ob5 is None or ob5.kind != "nd", "a copy", "round trip",
                                               w.loc(m), f"{m} returns a view of the stored block, "
                                               "so changing the result changes what is stored", ev5)
                                if cls == "GridPaper" and kws == [("copy", FALSE)]:
                                    for k5, v5, s5, ev5 in got:
                                        ob5 = s5.obj(v5) if k5 == "return" else None
                                        if k5 != "return" or ob5 is not None and ob5.kind == "nd":
                                            continue
                                        if strip_ids(I.freeze(v5, s5)) != strip_ids(V):
                                            raise Undecided("a view", show(v5)[:80])
                                        c.bad("a view", "round trip", w.loc(m), f"{m} copies although a view "
                                              "was asked for", ev5)
                            for m in ("__getitem__", "get") if label in PADS else ():
                                for k5, v5, s5, ev5 in w.call(I, o, m, [K], [("fetch", FALSE)], sx.fork()):
                                    if k5 != "return":
                                        c.bad("the block", "unfetched", last_loc(ev5, w.loc(m)),
                                              f"{m}(fetch=False) raises {exc_kind(v5)}", ev5)
                                        continue
                                    ob5 = s5.obj(v5)
                                    if (ob5 is None or ob5.kind != "shm") and (
                                            opaque_parts(v5) or v5[0] == "o" and (ob5 is None or ob5.kind not in (
                                                "nd", "list", "dict", "set"))):
                                        raise Undecided("the block", show(v5)[:80])
                                    c.must(ob5 is not None and ob5.kind == "shm" and ob5.x[0] == w.addr("data", K),
                                           "the block", "unfetched", w.loc(m), f"{m}(fetch=False) gives "
                                           + (f"the block at {show(ob5.x[0])[:60]}" if ob5 is not None and
                                              ob5.kind == "shm" else show(v5)[:60]) + " instead of the key's block", ev5)
                    if not stored:
                        c.bad("store", "round trip", w.loc(st_), "no key can be stored")
    for cls in PADS:
        with c.group(f"{cls}: iteration"):
            w, I, ob, s = pad_world(c, cls, None)
            for m in ("itervalues", "iteritems"):
                for k, v, s2, evs in w.c.runv(I, w.method(I, ob, m), [], [], s.fork(), consume=True) and [
                        (k, v, s2, s2.events()) for k, v, s2 in w.c.runv(
                            I, w.method(I, ob, m), [], [], s.fork(), consume=True)]:
                    if k != "return":
                        c.bad(m, "round trip", last_loc(evs, w.loc(m)), f"{m} raises {exc_kind(v)}", evs)
                        continue
                    ps = parts(I.freeze(v, s2))
                    if ps is None or len(ps) != 1 or src_of(ps[0]) is None:
                        c.und(m, show(I.freeze(v, s2))[:100])
                        continue
                    e = A("elem", src_of(ps[0]))
                    kk = w.keyat(e)
                    val = w.stored(kk[2])
                    good = True
                    for cond, items in variants(ps[0]):
                        want = ("1", T(kk, val) if m == "iteritems" else val)
                        if len(items) != 1 or strip_ids(items[0]) != strip_ids(want):
                            if len(items) == 1 and (opaque_parts(items[0][1]) or not known_value(items[0][1])):
                                raise Undecided(m, show(items[0][1])[:80])
                            good = False
                            c.bad(m, "round trip", w.loc(m), f"{m} yields "
                                  f"{show(items[0][1])[:80] if items else 'nothing'} for a listed key", evs)
                    if good:
                        c.ok(m)
    sticky_round(c)


READS = {"Notepad": (("__getitem__", [K], []), ("get", [K], []), ("get", [K, S("default")], [])),
         "GridPaper": (("__getitem__", [K], []), ("__getitem__", [K], [("copy", FALSE)]),
                       ("get", [K], []), ("get", [K], [("copy", TRUE)]),
                       ("get", [K, S("default")], []))}


def own_cells(c, w, I, op, s, evs, present):
    allowed = [("data", K), ("rev", A("str", K)), ("key", w.n0 if not present else w.p),
               ("len", None)]
    if w.meta:
        allowed.append(("val", w.n0 if not present else w.p))
    for e, a in untouched(w, I, s, evs, allowed):
        c.bad("only this entry", "only this entry", loc_of(e),
              f"{op} changes {show(a)[:80]}, which belongs to another entry", evs)


AD = S("address")


def sticky(c, I, st=None, args=(AD,), **kw):
    q = c.repo.cls(f"{IMPL}.Sticky").qual
    outs = [o for o in c.runv(I, ("cls", q), list(args), list(kw.items()), st or St())
            if o[0] == "return"]
    if len(outs) != 1:
        raise Undecided("sticky", f"{len(outs)} constructions")
    return outs[0][1], outs[0][2]


def sticky_call(c, I, ob, name, args, kws, s):
    q = f"{c.repo.cls(IMPL + '.Sticky').qual}.{name}"
    n = len(s.events())
    return [(k, v, s2, s2.events()[n:]) for k, v, s2 in c.runv(
        I, ("bm", I.fnterm(q), ob), args, kws, s)]


def sticky_round(c):
    l = fn_loc(c.repo, f"{IMPL}.Sticky.read")
    V2 = S("newer_value")
    kinds = {AD: "str", V: "object", V2: "object"}
    with c.group("Sticky: stick"):
        I = c.interp(kinds=kinds)
        ob, s = sticky(c, I)
        for k, v, s2, evs in sticky_call(c, I, ob, "stick", [V], [], s):
            if k != "return":
                c.bad("stick", "round trip", last_loc(evs, l), f"sticking raises {exc_kind(v)}", evs)
                continue
            o3, s3 = sticky(c, I, s2.fork())
            reads_back(c, None, I, "reading through another sticky",
                       sticky_call(c, I, o3, "read", [], [], s3), V, "round trip", l)
            reads_back(c, None, I, "reading again", sticky_call(
                c, I, ob, "read", [], [("reread", TRUE)], s2.fork()), V, "round trip", l)
            # a newer value through another object
            for k4, v4, s4, ev4 in sticky_call(c, I, o3, "stick", [V2], [], s3.fork()):
                if k4 != "return":
                    c.bad("stick again", "round trip", last_loc(ev4, l),
                          f"sticking a new value raises {exc_kind(v4)}", ev4)
                    continue
                reads_back(c, None, I, "rereading after another object stuck a new value",
                           sticky_call(c, I, ob, "read", [], [("reread", TRUE)], s4.fork()), V2,
                           "round trip", l)
                reads_back(c, None, I, "reading the new value", sticky_call(
                    c, I, o3, "read", [], [], s4.fork()), V2, "round trip", l)
    with c.group("Sticky: note"):
        I = c.interp(kinds=kinds)
        q = c.repo.cls(f"{IMPL}.Sticky").qual
        outs = c.runv(I, I.get_attr(("cls", q), "note", St(), None, None)[0][0], [V, AD], [], St())
        for k, v, s2 in outs:
            if k != "return":
                c.bad("note", "round trip", fn_loc(c.repo, f"{IMPL}.Sticky.note"),
                      f"note raises {exc_kind(v)}", s2.events())
                continue
            o3, s3 = sticky(c, I, s2.fork())
            reads_back(c, None, I, "reading a note through another sticky",
                       sticky_call(c, I, o3, "read", [], [], s3), V, "round trip", l)
            reads_back(c, None, I, "reading a note through its own sticky", sticky_call(
                c, I, v, "read", [], [("reread", TRUE)], s2.fork()), V, "round trip", l)


# ------------------------------------------------------------------ C07
@prop("C07", "Size analysis over abstract shared memory: every store and index update, over blocks "
             "that may already exist with any size; no write may be shorter or longer than its "
             "block, and the final size of each written block is the size of its content.")
def c07(c):
    c.rule("exact size", "each buffer is written whole by data of exactly its size, whatever was at "
           "the address before; nothing is written to a block that was unlinked")
    for label, cls, ctor in pad_variants(c):
        for present, data in ((False, "any"), (True, "any"), (True, "consistent")):
            with c.group(f"{label}: store over {data} data, key {'present' if present else 'new'}"):
                w, I, ob, s = pad_world(c, cls, present, ctor, data_state=data)
                fits(c, w, I, "__setitem__", w.call(I, ob, "__setitem__", [K, V], [], s))
    for cls in INDEXES:
        for op, present in (("add", False), ("add", True), ("__delitem__", True)):
            with c.group(f"{cls}: {op} of {'a present' if present else 'an absent'} key"):
                w, I, ob, s = index_world(c, cls, present)
                fits(c, w, I, op, w.call(I, ob, op, index_args(cls, op), [], s))
        with c.group(f"{cls}: add into a slot with left-over blocks"):
            w, I, ob, s = index_world(c, cls, False)
            w.free_state = "any"
            outs = w.call(I, ob, "add", index_args(cls, "add"), [], s)
            fits(c, w, I, "add", outs)
            for k, v, s2, evs in outs:
                if k != "return":
                    continue
                for kind in ("key",) + (("val",) if w.meta else ()):
                    for key, seg, s3 in M.cell(I, w.addr(kind, w.n0), s2.fork()):
                        c.must(not (seg.exists and is_app(seg.size, "stale_size")), "nothing stale",
                               "exact size", w.loc("add"), f"after add the slot's {kind} block "
                               "keeps the size of what was left there before", evs)
    with c.group("Sticky"):
        I = c.interp(kinds={AD: "str", V: "object"})
        ob, s = sticky(c, I)
        fits(c, None, I, "stick", sticky_call(c, I, ob, "stick", [V], [], s),
             fn_loc(c.repo, f"{IMPL}.Sticky.stick"))
    with c.group("mnemonics"):
        I = c.interp(kinds={AD: "str", V: "object"})
        for k, v, s in c.run(I, "codex.codecs.generic_mnemonic_factory", []):
            if k != "return" or v[0] != "t":
                raise Undecided("factory", show(v)[:60])
            ENC = S("encode")
            outs = [(a, b, d, d.events()) for a, b, d in c.runv(
                I, v[1][0], [V, AD, TRUE, ENC], [], s)]
            fits(c, None, I, "memorize", outs, fn_loc(c.repo, "codex.codecs.generic_mnemonic_factory"))
    with c.group("open_block"):
        I = c.interp(kinds={AD: "str", S("size"): "int"})
        for k, v, s in c.run(I, "codex.memutilz.open_block", [AD, S("size"), TRUE, TRUE]):
            l = fn_loc(c.repo, "codex.memutilz.open_block")
            if k != "return":
                c.bad("overwriting", "exact size", last_loc(s.events(), l),
                      f"open_block raises {exc_kind(v)}", s.events())
                continue
            for key, seg, s2 in M.cell(I, AD, s.fork()):
                c.must(seg.exists and seg.size == S("size"), "overwriting", "exact size", l,
                       "open_block(overwrite=True) does not return a block of the requested size",
                       s.events())


def fits(c, w, I, op, outs, l=None):
    l = l or w.loc(op)
    n = 0
    for k, v, s, evs in outs:
        if refused(k, v, evs):
            continue
        wrong = [e for e in flat(evs) if e[0] == "shm" and e[1] in ("clash", "partial", "stalewrite")]
        for e in wrong:
            why = {"clash": f"{op} writes data of another size than the block at {show(e[2])[:60]}",
                   "partial": f"{op} fills only part of the block at {show(e[2])[:60]}",
                   "stalewrite": f"{op} writes to the removed block {show(e[2])[:60]}"}[e[1]]
            c.bad("exact size", "exact size", loc_of(e), why, evs)
        if k == "raise" and exc_kind(v) == "ValueError" and not wrong:
            c.bad("exact size", "exact size", last_loc(evs, l), f"{op} raises ValueError", evs)
            continue
        if wrong:
            n += 1
            continue
        for a in {e[2] for e in flat(evs) if e[0] == "shm" and e[1] == "write"}:
            for key, seg, s2 in M.cell(I, a, s.fork()):
                if not seg.exists:
                    continue
                n += 1
                c.sites += 1
                if same_size(I, s2, seg.size, M.blen(seg.content)) or is_app(seg.content, "zeros"):
                    c.ok("exact size")
                elif is_app(seg.size, "size0") and not mentions(seg.content, S("length_bytes")):
                    c.bad("exact size", "exact size", last_write(evs, l),
                          f"after {op} the block {show(a)[:60]} keeps the size it had before", evs)
                elif known_size(seg.size) and known_size(M.blen(seg.content)):
                    c.bad("exact size", "exact size", last_write(evs, l), f"after {op} the block "
                          f"{show(a)[:50]} has size {show(seg.size)[:50]}, its content "
                          f"{show(M.blen(seg.content))[:50]}", evs)
                else:
                    c.und("exact size", f"{show(seg.size)[:60]} vs {show(M.blen(seg.content))[:60]}")
    if not n and outs:
        c.ok("exact size", "writes nothing")


def known_size(t):
    return not opaque_parts(t) and not any(is_app(x, "call") for x in subterms(t))


# ------------------------------------------------------------------ C08
@prop("C08", "Pre/post analysis of stores with exists_ok off and on, key present and absent, through "
             "pads, indexes and mnemonics, over abstract shared memory.")
def c08(c):
    c.rule("never overwrite", "with exists_ok=False and a value present: KeyError (FileExistsError "
           "from an index or mnemonic), every cell as before; absent: stored")
    c.rule("always replace", "with exists_ok=True the new value replaces the old one")
    off, on = [("exists_ok", FALSE)], [("exists_ok", TRUE)]
    for cls in PADS:
        for op in ("__setitem__", "set"):
            with c.group(f"{cls}.{op}: exists_ok=False, present"):
                w, I, ob, s = pad_world(c, cls, True)
                for more in extras(w, I, op):
                    if more and more[0][1] == META:      # not every index takes metadata
                        continue
                    post(w, c, I, "store over a present key",
                         w.call(I, ob, op, [K, V], off + more, s.fork()), [],
                         "never overwrite", op, ("KeyError",))
            for flag, present in ((off, False), (on, True), (on, False)):
                with c.group(f"{cls}.{op}: exists_ok={flag == on}, "
                             f"{'present' if present else 'absent'}"):
                    w, I, ob, s = pad_world(c, cls, present)
                    n = 0
                    for k, v, s2, evs in w.call(I, ob, op, [K, V], flag, s):
                        if refused(k, v, evs):
                            continue
                        n += 1
                        rule = "always replace" if flag == on else "never overwrite"
                        if k != "return":
                            c.bad("store", rule, last_loc(evs, w.loc(op)),
                                  f"the store raises {exc_kind(v)}", evs)
                            continue
                        for ok_, why, s3 in cell_is(w, I, s2, "data", K,
                                                    w.content("data", None, V)):
                            c.must(ok_, "store", rule, last_write(evs, w.loc(op)),
                                   f"after the store the stored value {why}", evs)
                    if not n:
                        c.bad("store", "never overwrite", w.loc(op), "no key can be stored")
        with c.group(f"{cls}: keys that merely contain the reserved prefix"):
            for key in (C("my_index"), C("x")):
                w, I, ob, s = pad_world(c, cls, False)
                outs = w.call(I, ob, "__setitem__", [key, V], [], s)
                c.must(any(o[0] == "return" for o in outs), "accepted", "never overwrite",
                       w.loc("__setitem__"), f"the key {cval(key)!r} cannot be stored")
    for cls in INDEXES:
        with c.group(f"{cls}.add: exists_ok=False, present"):
            w, I, ob, s = index_world(c, cls, True)
            post(w, c, I, "add of a present key", w.call(I, ob, "add", index_args(cls, "add"), off, s),
                 [], "never overwrite", "add", ("FileExistsError",))
        with c.group(f"{cls}.add: exists_ok=False, absent"):
            w, I, ob, s = index_world(c, cls, False)
            post(w, c, I, "add of an absent key", w.call(I, ob, "add", [K], off, s),
                 [("len", None, (w.len_size, w.len_content(add(w.n0, C(1))))),
                  ("key", w.n0, w.content("key", K)), ("rev", A("str", K), w.content("rev", w.n0))],
                 "never overwrite", "add")
    for fac, extra in (("generic_mnemonic_factory", [S("encode")]), ("numpy_mnemonic_factory", [FALSE])):
        with c.group(fac):
            l = fn_loc(c.repo, f"codex.codecs.{fac}")
            for there in (True, False):
                I = c.interp(kinds={AD: "str", V: "object"}, shm_init=lambda I, a, s: [
                    (Seg(True, S("old_size"), S("old_bytes"), 0) if there else Seg(False), s)])
                for k, v, s in c.run(I, f"codex.codecs.{fac}", []):
                    if k != "return" or v[0] != "t":
                        raise Undecided("factory", show(v)[:60])
                    for k2, v2, s2 in c.runv(I, v[1][0], [V, AD, FALSE] + extra, [], s):
                        evs = s2.events()
                        segs_ = [g for _, g, _ in M.cell(I, AD, s2.fork())]
                        if there:
                            c.must(k2 == "raise" and exc_kind(v2) == "FileExistsError", "memorize over "
                                   "a block", "never overwrite", l, "memorize with exists_ok=False "
                                   f"{'returns' if k2 == 'return' else 'raises ' + exc_kind(v2)} over a "
                                   "present block", evs)
                            c.must(all(g.exists and g.content == S("old_bytes") for g in segs_),
                                   "block kept", "never overwrite", last_write(evs, l),
                                   "memorize with exists_ok=False changes a present block", evs)
                        else:
                            c.must(k2 == "return", "memorize a new block", "never overwrite", l,
                                   "memorize with exists_ok=False fails although no block exists", evs)


# ------------------------------------------------------------------ C09
@prop("C09", "Outcome analysis of reads and deletions in every world where the entry's value is "
             "absent (key listed or not): only KeyError, the caller's default or None may come out; "
             "and of reads of present values, None included.")
def c09(c):
    c.rule("missing", "reading or deleting a key without a stored value raises KeyError, get returns "
           "the default, a missing sticky reads as None; nothing else escapes")
    c.rule("present", "a stored value, None included, is never taken for missing")
    D = S("default")
    for cls in PADS:
        for present in (False, True):
            what = f"{cls}: value absent, key {'listed' if present else 'not listed'}"
            with c.group(what):
                for op, args in (("__getitem__", [K]), ("__delitem__", [K])):
                    w, I, ob, s = pad_world(c, cls, present, data_state="absent")
                    n = 0
                    for k, v, s2, evs in w.call(I, ob, op, args, [], s):
                        n += 1
                        c.must(k == "raise" and exc_kind(v) == "KeyError", op, "missing",
                               last_loc(evs, w.loc(op)),
                               f"{op} of a missing entry " + (f"returns {show(v)[:50]}" if k == "return"
                                                              else f"raises {exc_kind(v)}"), evs)
                    if not n:
                        c.und(op, "no outcome")
                for args, kws, want in (([K], [], NONE), ([K, D], [], D), ([K], [("default", D)], D),
                                        ([K, D], [("fetch", FALSE)], D)):
                    w, I, ob, s = pad_world(c, cls, present, data_state="absent")
                    for k, v, s2, evs in w.call(I, ob, "get", args, kws, s):
                        c.must(k == "return" and v == want, "get", "missing",
                               last_loc(evs, w.loc("get")), "get of a missing entry "
                               + (f"returns {show(v)[:50]} instead of the default" if k == "return"
                                  else f"raises {exc_kind(v)}"), evs)
        with c.group(f"{cls}: present"):
            for op, args, kws in [("get", [K, D], [])] + [("__getitem__", [K], [])]:
                w, I, ob, s = pad_world(c, cls, True)
                reads_back(c, w, I, op, w.call(I, ob, op, args, kws, s), w.stored(), "present",
                           w.loc(op))
            w, I, ob, s = pad_world(c, cls, True)
            for k, v, s2, evs in w.call(I, ob, "get", [K, D], [("fetch", FALSE)], s):
                c.must(k == "return" and v != D, "get without fetching", "present",
                       last_loc(evs, w.loc("get")),
                       "get(fetch=False) of a present entry " + (
                           "returns the default" if k == "return" else f"raises {exc_kind(v)}"), evs)
    with c.group("Notepad: None is a value"):
        w, I, ob, s = pad_world(c, "Notepad", False)
        for k, v, s2, evs in w.call(I, ob, "__setitem__", [K, NONE], [], s):
            if refused(k, v, evs):
                continue
            if k != "return":
                c.bad("store None", "present", last_loc(evs, w.loc("__setitem__")),
                      f"storing None raises {exc_kind(v)}", evs)
                continue
            for op, args in (("__getitem__", [K]), ("get", [K, D])):
                reads_back(c, w, I, op, w.call(I, ob, op, args, [], s2.fork()), NONE, "present",
                           w.loc(op))
    for cls in INDEXES:
        with c.group(f"{cls}: deleting a missing key"):
            for op in ("__delitem__", "remove"):
                w, I, ob, s = index_world(c, cls, False)
                for k, v, s2, evs in w.call(I, ob, op, [K], [], s):
                    c.must(k == "raise" and exc_kind(v) == "KeyError", op, "missing",
                           last_loc(evs, w.loc(op)), f"{op} of a missing key " + (
                               "returns" if k == "return" else f"raises {exc_kind(v)}"), evs)
    with c.group("Sticky"):
        I = c.interp(kinds={AD: "str"}, shm_init=lambda I, a, s: [(Seg(False), s)])
        ob, s = sticky(c, I)
        l = fn_loc(c.repo, f"{IMPL}.Sticky.read")
        for kws in ([], [("reread", TRUE)]):
            for k, v, s2, evs in sticky_call(c, I, ob, "read", [], kws, s.fork()):
                c.must(k == "return" and v == NONE, "read", "missing", last_loc(evs, l),
                       "reading where no sticky exists " + (
                           f"returns {show(v)[:40]}" if k == "return" else f"raises {exc_kind(v)}"), evs)
        for there in (True, False):
            I = c.interp(kinds={AD: "str"}, shm_init=lambda I, a, s: [
                (Seg(there, S("old_size"), S("old_bytes"), 0) if there else Seg(False), s)])
            for k, v, s2 in c.run(I, "codex.memutilz.exists_block", [AD]):
                c.must(k == "return" and v == C(there), "exists_block", "missing",
                       fn_loc(c.repo, "codex.memutilz.exists_block"),
                       f"exists_block {'returns ' + show(v)[:40] if k == 'return' else 'raises ' + exc_kind(v)}"
                       f" for {'a present' if there else 'an absent'} block")


# ------------------------------------------------------------------ C10
@prop("C10", "Effect analysis of storing and deleting under every key of the form 'index' + anything, "
             "on notepad and grid paper: each path must raise KeyError with no shared memory event.")
def c10(c):
    c.rule("reserved", "set, item assignment and item deletion of a string key that begins with the "
           "index prefix raise KeyError before the first shared memory access")
    rest = S("rest")
    for cls in PADS:
        w = None
        for key, label in ((cat((C("index"), rest)), "index..."), (C("index"), "index"),
                           (C("index_count"), "index_count"), (C("index_key_0"), "index_key_0"),
                           (cat((C("index_name_"), rest)), "index_name_...")):
            with c.group(f"{cls}: {label}"):
                w = World(c, cls)
                if not on_reserved(w):
                    raise Undecided("prefix", "the index's own storage is elsewhere")
                for op, args in (("__setitem__", [key, V]), ("set", [key, V]), ("__delitem__", [key])):
                    I = w.interp(kinds={rest: "str"})
                    ob, s = w.obj(I)
                    n = 0
                    for k, v, s2, evs in [o for more in extras(w, I, op, ("key", "value"))
                                          for o in w.call(I, ob, op, args, more, s.fork())]:
                        n += 1
                        hit = [e for e in flat(evs) if e[0] in ("shm", "lock")]
                        if hit:
                            c.bad(op, "reserved", loc_of(hit[0]),
                                  f"{op} under a reserved key touches {show(hit[0][2])[:60]}", evs)
                        elif k != "raise" or exc_kind(v) != "KeyError":
                            c.bad(op, "reserved", last_loc(evs, w.loc(op)), f"{op} under a reserved key "
                                  + ("returns" if k == "return" else f"raises {exc_kind(v)}"), evs)
                        else:
                            c.ok(op)
                    if not n:
                        c.und(op, "no outcome")


def on_reserved(w):
    """do the index's cells live where keys beginning with 'index' would"""
    a, hole, _ = w.templates["data"]
    pre = replace(a, {A("str", K): C("index"), K: C("index")})

    def flat_text(t):
        return "".join(cval(p) if is_c(p) and p[1] == "str" else f"<{show(p)}>"
                       for p in norm_addr(t))
    return flat_text(w.len_addr).startswith(flat_text(pre))


# ------------------------------------------------------------------ C11
@prop("C11", "Failure-injection over abstract paths: storing a new key while its encoding, or the "
             "creation of its block, raises; the same exception must come out and the index's cells "
             "must be those before the store.")
def c11(c):
    c.rule("no listing without value", "when the store of a new key fails, the exception that caused "
           "it reaches the caller and every cell of the index is as before")
    for label, cls, ctor in pad_variants(c):
        if label not in PADS and "json" not in label:
            continue
        for where in ("encode", "shmcreate", "attr"):
            if (where == "attr") != (cls == "GridPaper") and where != "shmcreate":
                continue
            for exc in {"encode": ("TypeError", "KeyboardInterrupt"), "attr": ("AttributeError",),
                        "shmcreate": ("OSError", "KeyboardInterrupt")}[where]:
                with c.group(f"{label}: {exc} at {where}"):
                    w = World(c, cls, **ctor)
                    w.key_present = False
                    if cls == "GridPaper":
                        w.meta_state = "always"
                    I = w.interp()
                    ob, s = w.obj(I)

                    def inj(kind, fv, w=w, where=where, exc=exc):
                        if kind != where:
                            return ()
                        if kind == "shmcreate" and unify(*w.templates["data"][:2], fv) is None:
                            return ()
                        if kind in ("encode", "attr") and not mentions(fv, V):
                            return ()
                        return (exc,)
                    I.raises = inj
                    outs = w.call(I, ob, "__setitem__", [K, V], [], s)
                    for k, v, s2, evs in outs:
                        if k == "return" and any(e[0] == "raise" and is_app(e[1], "uexc")
                                                 for e in flat(evs)):
                            if all(r[0] for r in cell_is(w, I, s2, "data", K, None)):
                                c.bad("the error reaches the caller", "no listing without value",
                                      last_loc(evs, w.loc("__setitem__")),
                                      "a store that failed and stored nothing returns", evs)
                    fails = [o for o in outs
                             if o[0] == "raise" and not refused(o[0], o[1], o[3])]
                    hit = [o for o in fails if any(e[0] == "raise" and is_app(e[1], "uexc")
                                                   for e in flat(o[3]))]
                    if not hit:
                        if where in ("encode", "attr"):
                            c.ok("not encoded here")
                        else:
                            c.und("failure", "the block's creation was not recognised")
                        continue
                    for k, v, s2, evs in hit:
                        c.must(is_app(v, "uexc"), "the error reaches the caller",
                               "no listing without value", last_loc(evs, w.loc("__setitem__")),
                               f"the failure becomes {exc_kind(v)}", evs)
                    post(w, c, I, "failed store", hit, [
                        ("data", K, None), ("rev", A("str", K), None),
                        ("len", None, (w.len_size, w.len_content(w.n0)))],
                        "no listing without value", "__setitem__", ("user:" + exc,))
                with c.group(f"{label}: {exc} at {where}, replacing"):
                    w = World(c, cls, **ctor)
                    w.key_present = True
                    if cls == "GridPaper":
                        w.meta_state = "always"
                    I = w.interp()
                    ob, s = w.obj(I)
                    I.raises = lambda kind, fv, w=w, inj=inj: inj(kind, fv, w)
                    for k, v, s2, evs in w.call(I, ob, "__setitem__", [K, V], [], s):
                        if k != "raise" or not is_app(v, "uexc"):
                            continue
                        if not all(seg.exists for seg, _ in w.look(I, s2, "data", K)):
                            c.ok("failed replacement", "the value is gone too")
                            continue
                        for kind, x, want in (("rev", A("str", K), w.content("rev", w.p)),
                                              ("key", w.p, w.content("key", K)),
                                              ("len", None, (w.len_size, w.len_content(w.n0)))):
                            for ok_, why, s3 in cell_is(w, I, s2, kind, x, want):
                                c.must(ok_, "failed replacement", "no listing without value",
                                       last_write(evs, w.loc("__setitem__")), "after a failed store over "
                                       f"an existing key, whose value is still there, the {NAMES[kind]} {why}",
                                       evs)


# ------------------------------------------------------------------ C12
def removal_hooks(c, I, w):
    """deleting an entry is one event; its own effect is decided separately"""
    def hk(tag):
        def h(I, fv, args, kws, st, n, fid):
            vals = list(args) + [v for _, v in kws]
            st.ev("hook", tag, I.freeze(vals[1], st) if len(vals) > 1 else NONE, I.loc(n, fid))
            return [(NONE, st)]
        return h
    for cls in INDEXES:
        for m in ("__delitem__", "remove"):
            q = I.find_method(c.repo.cls(f"{IMPL}.{cls}").qual, m)
            I.hooks[getattr(q, "qual", q)] = hk("entry")
    if w.pad:
        q = I.find_method(w.qual, "__delitem__")
        I.hooks[getattr(q, "qual", q)] = hk("item")
        q = I.find_method(w.qual, "dump")
        I.hooks[getattr(q, "qual", q)] = hk("dump")


def listing_loops(w, evs):
    """loops that go once over every listed key: [(loop event, key term)]"""
    out = []
    rng = A("range", C(0), w.n0, C(1))
    for e in evs:
        if e[0] == "loop" and any(x == rng for x in subterms(e[2])):
            out.append((e, elem_of(e[2])))
    return out


def gone(w, seg, x, pad):
    """what a turn over slot x removes"""
    k = w.keyat(x)
    got = set()
    for e in flat(seg):
        if e[0] == "hook" and e[1] in ("item", "entry") and keyish(e[2]) == keyish(k):
            got |= {"entry", "data"} if e[1] == "item" else {"entry"}
        if e[0] == "shm" and e[1] == "unlink" and w.pad:
            y = unify(*w.templates["data"][:2], e[2])
            if y is not None and keyish(y) == keyish(k):
                got.add("data")
        if e[0] == "shm" and e[1] == "unlink":
            y = unify(*w.templates["key"][:2], e[2])
            if y == x:
                got.add("key")
            y = unify(*w.templates["rev"][:2], e[2])
            if y is not None and keyish(y) == keyish(k):
                got.add("rev")
            if "val" in w.templates and unify(*w.templates["val"][:2], e[2]) == x:
                got.add("val")
        if e[0] == "shm" and e[1] == "absent" and "val" in w.templates and \
                unify(*w.templates["val"][:2], e[2]) == x:
            got.add("val")
    if {"key", "rev"} <= got and ("val" in got or "val" not in w.templates):
        got.add("entry")
    return got


def keyish(t):
    while is_app(t, "enc") or is_app(t, "str"):
        t = t[2]
    return t


@prop("C12", "Effect analysis of close, clear and pull over abstract shared memory: a completed loop over "
             "the whole listing must remove each key's value and entry (dumping it first when asked), "
             "then the index's own blocks go (close) or stay (clear); the removal of one entry is "
             "itself decided by pre/post comparison of cells.")
def c12(c):
    c.rule("every entry", "close and clear remove the value and the index entry of every listed key")
    c.rule("dump first", "close(dump=True) dumps each key before removing it; close() dumps none")
    c.rule("own blocks", "close then removes the length block and the lock counter; clear keeps them")
    c.rule("stable listing", "the listing being walked is not changed by removing entries")
    shared_mutated = {}
    for cls in INDEXES:
        with c.group(f"{cls}: removal and the listing"):
            w, I, ob, s = index_world(c, cls, True)
            hit = False
            for k, v, s2, evs in w.call(I, ob, "update", [], [], s.fork()):
                if k != "return" or v[0] != "o":
                    continue
                for k3, v3, s3, ev3 in w.call(I, ob, "__delitem__", [K], [], s2.fork()):
                    if s3.obj(v) is not None and s3.obj(v).parts != s2.obj(v).parts:
                        hit = True
            shared_mutated[cls] = hit
            c.ok("removal and the listing", "changes it" if hit else "leaves it alone")
    for cls in INDEXES + PADS:
        for op, kws in [("close", [])] + ([("close", [("dump", TRUE)]), ("clear", [])]
                                          if cls in PADS else []):
            with c.group(f"{cls}.{op}({'dump' if kws else ''})"):
                w = World(c, cls)
                if cls == "GridPaper":
                    w.meta_state = "always"
                for cs in ("exists", "absent"):
                    w.count_state = cs
                    I = w.interp()
                    I.watch_iter = True
                    ob, s = w.obj(I)
                    removal_hooks(c, I, w)
                    for o in w.call(I, ob, op, [], kws, s.fork()):
                        closing(c, w, I, op, kws, o, shared_mutated, cs)
    for cls in PADS:
        with c.group(f"{cls}: deletion of one key"):
            w, I, ob, s = pad_world(c, cls, True)
            outs = [o for o in w.call(I, ob, "__delitem__", [K], [], s)
                    if not refused(o[0], o[1], o[3])]
            for k, v, s2, evs in outs:
                if k != "return":
                    c.bad("deletion", "every entry", last_loc(evs, w.loc("__delitem__")),
                          f"deletion of a present key raises {exc_kind(v)}", evs)
                    continue
                for kind, x in (("data", K), ("rev", A("str", K))):
                    for ok_, why, s3 in cell_is(w, I, s2, kind, x, None):
                        c.must(ok_, "deletion", "every entry", w.loc("__delitem__"),
                               f"after deletion the {NAMES[kind]} {why}", evs)
                for ok_, why, s3 in cell_is(w, I, s2, "len", None,
                                            (w.len_size, w.len_content(last_of(w)))):
                    c.must(ok_, "deletion", "every entry", w.loc("__delitem__"),
                           f"after deletion the recorded length {why}", evs)
            if not outs:
                c.und("deletion", "no outcome")
    with c.group("Sticky.pull"):
        for op in ("pull", "close"):
            I = c.interp(kinds={AD: "str"}, shm_init=lambda I, a, s: [
                (Seg(True, S("old_size"), S("old_bytes"), 0), s)])
            ob, s = sticky(c, I)
            l = fn_loc(c.repo, f"{IMPL}.Sticky.{op}")
            for k, v, s2, evs in sticky_call(c, I, ob, op, [], [], s):
                left = [g for _, g, _ in M.cell(I, A("str", AD), s2.fork()) if g.exists]
                left = left and [g for _, g, _ in M.cell(I, AD, s2.fork()) if g.exists]
                c.must(k == "return" and not left, op, "own blocks", l, f"{op} " + (
                    f"raises {exc_kind(v)}" if k == "raise" else "leaves the sticky's block behind"), evs)


def closing(c, w, I, op, kws, o, shared_mutated, cs):
    k, v, s, evs = o
    l = w.loc(op)
    cls = w.cls.rsplit(".", 1)[-1]
    if k != "return":
        c.bad(op, "every entry", last_loc(evs, l), f"{op} raises {exc_kind(v)}", evs)
        return
    loops = listing_loops(w, evs)
    want = {"entry", "data"} if w.pad else {"entry"}
    best, where = set(), None
    dumped_all, good_dump = False, True
    ndump = 0
    dumped_first = False
    loose = sum(e[0] == "hook" and e[1] == "dump" for e in flat(evs))
    for e, x in loops:
        vs = [b for b in e[3] if b[0] in ("next", "continue")]
        if not vs or any(b[0] in ("break", "return") for b in e[3]):
            continue
        sure = None
        for b in vs:
            g = gone(w, b[2], x, w.pad)
            sure = g if sure is None else sure & g
            if "val" in g and "key" in g and "rev" in g:
                pass
        removes = bool(sure)
        if removes and not best >= want:
            best = best | sure
            where = e
        if kws and not removes and where is None and all(any(
                q[0] == "hook" and q[1] == "dump" and keyish(q[2]) == keyish(w.keyat(x))
                for q in flat(b[2])) for b in vs):
            dumped_all = dumped_first = True
        for b in vs:
            order = [q for q in flat(b[2]) if q[0] == "hook" and q[1] in ("dump", "item", "entry")]
            ndump += sum(q[1] == "dump" for q in order)
            rm = [i for i, q in enumerate(order) if q[1] in ("item", "entry")]
            dp = [i for i, q in enumerate(order) if q[1] == "dump" and keyish(q[2]) == keyish(w.keyat(x))]
            if kws and removes and where is e and "data" in (sure or ()):
                if not dp and dumped_first:
                    pass
                elif not dp:
                    good_dump = False
                elif rm and min(rm) < min(dp):
                    good_dump = False
                    c.bad("dump", "dump first", loc_of(order[min(rm)]),
                          "an entry is removed before it is dumped", evs)
                else:
                    dumped_all = True
        if where is e:
            over = [q for q in evs[:evs.index(e)] if q[0] == "over"]
            if over and over[-1][2] and any(
                    shared_mutated.get(x) for x in INDEXES) and cls_mutates(cls, shared_mutated):
                c.bad("stable listing", "stable listing", loc_of(over[-1]),
                      f"{op} walks the index's own listing while removing entries changes it: "
                      "every second key is skipped", evs)
            else:
                c.ok("stable listing")
    opaque = any(e[0] == "loop" and not I.loops[e[1]]["for"] for e in evs)
    if want <= best:
        c.ok(f"{op}: every entry")
    else:
        missing = sorted(want - best)
        if opaque:
            c.und(f"{op}: every entry", "removal in a loop of another form")
        else:
            c.bad(f"{op}: every entry", "every entry", l, f"{op} does not remove the "
                  + " and the ".join({"entry": "index entry", "data": "stored value"}[m] for m in missing)
                  + " of every listed key", evs)
    if w.pad and op == "close":
        if kws and not (want <= best) and (loose or opaque):
            c.und("dump", "dumping in a loop of another form")
        elif kws:
            c.must(dumped_all and good_dump, "dump", "dump first", l,
                   "close(dump=True) does not dump every key before removing it", evs)
        else:
            c.must(loose == 0, "dump", "dump first", l, "close() dumps although it was not asked to", evs)
    seg = w.look(I, s, "len")
    own = [g for g, _ in seg]
    if op == "close":
        c.must(all(not g.exists for g in own), "length block", "own blocks", l,
               "close leaves the index's length block behind", evs)
        cnt = count_addr(c, w)
        if cnt is not None and cs == "exists":
            g2 = [g for _, g, _ in M.cell(I, cnt, s.fork())]
            c.must(all(not g.exists for g in g2), "lock counter", "own blocks", l,
                   "close leaves the lock counter behind", evs)
    else:
        c.must(all(g.exists for g in own), "length block", "own blocks", l,
               "clear removes the index itself", evs)


def cls_mutates(cls, shared):
    return shared["TagIndex" if cls in ("TagIndex", "Notepad") else "MetaTagIndex"]


def count_addr(c, w):
    """address of the lock counter of this index, as the lock itself makes it"""
    I = lock_interp(c)
    ob, s = new_lock(c, I)
    for o in lock_call(c, I, ob, "__enter__", [], s):
        for e in flat(o[3]):
            if e[0] == "shm" and e[1] == "read":
                a = e[2]
                ps = norm_addr(a)
                base = w.len_addr
                return M_cat(T(*[base if p == LNAME else p for p in ps]))
    return None


# ------------------------------------------------------------------ C13
@prop("C13", "Typestate of exit-time registrations: each constructor with cleanup_on_exit on and off, and "
             "each close, on every path.")
def c13(c):
    c.rule("iff requested", "constructing registers the object's own close at exit iff "
           "cleanup_on_exit was given")
    c.rule("withdrawn", "an explicit close withdraws the object's registration")
    targets = [(x, {}) for x in INDEXES] + [(x, {}) for x in PADS]
    for cls, _ in targets:
        for flag in (TRUE, FALSE, None):
            with c.group(f"{cls}: cleanup_on_exit={'default' if flag is None else cval(flag)}"):
                w = World(c, cls)
                if cls == "GridPaper":
                    w.meta_state = "always"
                I = w.interp()
                kw = {} if flag is None else {"cleanup_on_exit": flag}
                ob, s = w.make(I, w.enter_state(I, St()), **kw)
                exits(c, I, ob, s, flag == TRUE, w.loc("__init__"), cls)
                if w.pad:
                    ix = I.get_attr(ob, "index", s.fork(), None, None)
                    if len(ix) == 1:
                        exits(c, I, ix[0][0], s, flag == TRUE, w.loc("__init__"), "the index of a " + cls)
                for more in extras(w, I, "__init__", ("cleanup_on_exit", "create", "prefix", "name")):
                    if not more or more[0][1] == META:
                        continue
                    o4, s4 = w.make(I, w.enter_state(I, St()), **kw, **dict(more))
                    exits(c, I, o4, s4, flag == TRUE, w.loc("__init__"), f"{cls} with {more[0][0]}")
                removal_hooks(c, I, w)
                for k, v, s2, evs in [o for more in extras(w, I, "close")
                                      for o in w.call(I, ob, "close", [], more, s.fork())]:
                    if k == "return":
                        withdrawn(c, I, ob, s, s2, evs, w.loc("close"), cls)
                        if w.pad and len(ix) == 1:
                            withdrawn(c, I, ix[0][0], s, s2, evs, w.loc("close"), "index of the " + cls)
    for flag in (TRUE, FALSE, None):
        with c.group(f"Sticky: cleanup_on_exit={'default' if flag is None else cval(flag)}"):
            there = lambda I, a, s: [(Seg(True, S("old_size"), S("old_bytes"), 0), s)]
            kw = {} if flag is None else {"cleanup_on_exit": flag}
            I = c.interp(kinds={AD: "str", V: "object"}, shm_init=there)
            l = fn_loc(c.repo, f"{IMPL}.Sticky.__init__")
            ob, s = sticky(c, I, **kw)
            exits(c, I, ob, s, flag == TRUE, l, "Sticky")
            for op in ("close", "pull"):
                for k, v, s2, evs in sticky_call(c, I, ob, op, [], [], s.fork()):
                    if k == "return":
                        withdrawn(c, I, ob, s, s2, evs, fn_loc(c.repo, f"{IMPL}.Sticky.{op}"), "Sticky")
            q = c.repo.cls(f"{IMPL}.Sticky").qual
            note = I.get_attr(("cls", q), "note", St(), None, None)[0][0]
            for k, v, s2 in c.runv(I, note, [V, AD], list(kw.items()), St()):
                if k == "return":
                    exits(c, I, v, s2, flag == TRUE, fn_loc(c.repo, f"{IMPL}.Sticky.note"), "a note")
            for k, v, s2 in c.runv(I, note, [V], list(kw.items()), St()):
                if k == "return":
                    exits(c, I, v, s2, flag == TRUE, fn_loc(c.repo, f"{IMPL}.Sticky.note"),
                          "a note with no address of its own")


def own_close(I, ob, s, fn):
    """is the registered callable this object's close"""
    if fn[0] == "bm" and fn[2] == ob:
        return fn[1][-1].endswith(".close") if isinstance(fn[1][-1], str) else "close" in show(fn)
    return None


def regs(I, s, evs, op, ob):
    return [e for e in flat(evs) if e[0] == "atexit" and e[1] == op]


def exits(c, I, ob, s, want, l, what):
    evs = s.events()
    rs = regs(I, s, evs, "register", ob)
    mine = [e for e in rs if is_close_of(I, ob, e[2])]
    other = [e for e in rs if not is_close_of(I, ob, e[2]) and not any_close(e[2])]
    if want:
        if len(mine) == 1:
            c.ok("registered")
        elif len(mine) > 1:
            c.ok("registered", "more than once")
        elif other:
            c.und("registered", f"as {show(other[0][2])[:60]}")
        else:
            c.bad("registered", "iff requested", l,
                  f"{what} does not register its close although cleanup_on_exit was requested", evs)
    else:
        c.must(not mine and not other, "not registered", "iff requested",
               loc_of((mine + other)[0]) if mine + other else l,
               f"{what} registers its close although cleanup_on_exit was not requested", evs)


def is_close_of(I, ob, fn):
    s = show(fn)
    return fn[0] == "bm" and fn[2] == ob and s.endswith("close")


def runs_close(c, I, ob, s, fn):
    """does calling fn run this object's close method"""
    o = s.heap.get(ob[1]) if ob[0] == "o" else None
    q = I.find_method(o.cls, "close") if o is not None and o.cls else None
    q = getattr(q, "qual", q)
    before = set(I.inlined)
    I.inlined.discard(q) if isinstance(I.inlined, set) else None
    try:
        c.runv(I, fn, [], [], s.fork())
    except Undecided:
        return False
    finally:
        hit = q in I.inlined
        if isinstance(I.inlined, set):
            I.inlined |= before
    return hit


def any_close(fn):
    return fn[0] == "bm"


def withdrawn(c, I, ob, s0, s, evs, l, what):
    un = [e for e in flat(evs) if e[0] == "atexit" and e[1] == "unregister"]
    rs = [e[2] for e in regs(I, s0, s0.events(), "register", ob)]
    had = [f for f in rs if is_close_of(I, ob, f)]
    wraps = [f for f in rs if f not in had and not any_close(f) and runs_close(c, I, ob, s0, f)]
    gone = [e[2] for e in un]
    if wraps and not any(f in gone for f in wraps):
        if all(any_close(g) or g[0] in ("clos", "fn") for g in gone):
            c.bad("withdrawn", "withdrawn", l,
                  f"closing the {what} leaves its exit-time close registered", evs)
            return
        c.und("withdrawn", "what is withdrawn")
    hit = [e for e in un if is_close_of(I, ob, e[2])]
    if hit:
        c.ok("withdrawn")
    elif not had:
        c.ok("nothing to withdraw")
    else:
        c.bad("withdrawn", "withdrawn", l,
              f"closing the {what} leaves its exit-time close registered", evs)


# ------------------------------------------------------------------ C14
@prop("C14", "Value-flow of the replaced tracker functions: what deactivation assigns to the resource "
             "tracker's register and unregister is analysed on a shared memory resource and on a "
             "resource of any other type.")
def c14(c):
    c.rule("shared memory ignored", "registering or unregistering a shared_memory resource calls nothing")
    c.rule("others untouched", "any other resource type is passed, once and unchanged, to the tracker's "
           "own function of the same name")
    fn = "codex.memutilz.deactivate_shared_memory_resource_tracker"
    l = fn_loc(c.repo, fn)
    I = c.interp()
    NM, RT = S("resource"), S("rtype")
    n = 0
    for k, v, s in c.run(I, fn, []):
        evs = s.events()
        sets = {e[2]: e for e in evs if e[0] == "setattr" and "resource_tracker" in show(e[1])
                and e[2] in ("register", "unregister")}
        posix = not any(b for a, b in s.facts.items() if mentions_platform(a))
        with c.group("deactivation"):
            if k != "return":
                c.bad("deactivation", "others untouched", l, f"deactivation raises {exc_kind(v)}", evs)
                continue
            if not posix:
                c.ok("not on this platform")
                continue
            for name in ("register", "unregister"):
                c.must(name in sets, name, "shared memory ignored", l,
                       f"{name} of shared memory is not disabled", evs)
        for e in [x for x in evs if x[0] == "mut" and "CLEANUP_FUNCS" in show(x[1])]:
            with c.group("cleanup table"):
                c.must(e[2] in ("delitem", "pop") and mentions(T(e[3] if isinstance(e[3], tuple) else NONE),
                                                             C("shared_memory")),
                       "cleanup table", "others untouched", loc_of(e),
                       "deactivation changes the cleanup of other resource types", evs)
        for x in [x for x in flat(evs) if x[0] == "call" and "CLEANUP_FUNCS" in show(x[1])]:
            what = show(x[1]).rsplit(".", 1)[-1].rsplit("'", 1)[-1]
            if what in ("clear", "popitem", "update"):
                with c.group("cleanup table"):
                    c.bad("cleanup table", "others untouched", loc_of(x),
                          "deactivation changes the cleanup of other resource types", evs)
        for name, e in sets.items():
            n += 1
            with c.group(name):
                tracker(c, I, s, name, e, NM, RT)
    if not n:
        with c.group("deactivation"):
            c.bad("deactivation", "shared memory ignored", l, "nothing is disabled on any platform")


def mentions_platform(a):
    return any(t[0] == "x" and t[1] == "sys.platform" for t in subterms(a) if t and len(t) > 1)


def tracker(c, I, s, name, e, NM, RT):
    for rt, shm in ((C("shared_memory"), True), (C("semaphore"), False), (C("noop"), False), (C("dummy"), False),
                    (C("folder"), False), (C("shared"), False), (C("shared_memory_view"), False), (RT, None)):
        for k, v, s2 in c.runv(I, e[3], [NM, rt], [], s.fork()):
            new = [x for x in flat(s2.events()[len(s.events()):]) if x[0] == "call"]
            is_shm = shm
            if is_shm is None:
                d = decide(cmp_eq(RT, C("shared_memory")), s2.facts)
                if d is None and not any(mentions(a, RT) for a in s2.facts):
                    is_shm = None
                else:
                    is_shm = d
            l = loc_of(e)
            if k != "return":
                c.bad(name, "others untouched", l, f"{name} raises {exc_kind(v)}")
            elif is_shm:
                c.must(not new, name, "shared memory ignored", loc_of(new[0]) if new else l,
                       f"{name} of shared memory still calls {show(new[0][1])[:60] if new else ''}", new)
            elif is_shm is None:
                c.ok(name, "covered by the concrete types")
            else:
                good = [x for x in new if is_app(x[1], "attr") and x[1][3] == name or
                        x[1][0] == "x" and x[1][1].rsplit(".", 1)[-1] == name]
                if len(new) == 1 and len(good) == 1:
                    x = good[0]
                    got = list(x[2]) + [b for _, b in x[3]] if isinstance(x[2], tuple) else []
                    got = [g for g in got]
                    full = show(x[1])
                    if full == "multiprocessing.resource_tracker." + name:
                        c.und(name, "calls the replaced name")
                    else:
                        c.must(got == [NM, rt], name, "others untouched", loc_of(x),
                               f"{name} passes {', '.join(show(g) for g in got)[:60]} on", new)
                elif not new:
                    c.bad(name, "others untouched", l, f"{name} ignores resources of other types")
                elif len(good) > 1:
                    c.bad(name, "others untouched", loc_of(good[1]), f"{name} is passed on twice", new)
                elif any((x[1][3] if is_app(x[1], "attr") else str(x[1][1]).rsplit(".", 1)[-1]
                          if x[1][0] == "x" else "") in ("register", "unregister") for x in new):
                    c.bad(name, "others untouched", loc_of(new[0]),
                          f"{name} of another type calls {show(new[0][1])[:70]}", new)
                else:
                    c.und(name, f"calls {show(new[0][1])[:60]}")


# ------------------------------------------------------------------ C15
def lock_debug_hooks(c, seen):
    q = c.repo.cls(f"{IMPL}.SlidingLock").qual

    def enter(I, fv, args, kws, st, n, fid):
        st.ev("lock", "enter", lock_id(I, args[0], st), I.loc(n, fid))
        st.ev("lockdebug", peek(I, args[0], st, "debug"), I.loc(n, fid))
        return [(args[0], st)]
    return {q + ".__enter__": enter}


@prop("C15", "Value flow of constructor options over abstract memory: for each class and each option alone, "
             "the observable effect on the first operation (locks entered, their debug setting, log "
             "file opened, exit-time registration, index created or FileNotFoundError).")
def c15(c):
    c.rule("locking", "no lock is entered iff no_lockout was given")
    c.rule("debugging", "the log file is opened, and locks log, only with debug")
    c.rule("creation", "an index block is created only with create; attaching without create to an "
           "absent index raises FileNotFoundError and creates nothing; creating never changes an "
           "index that is already there")
    c.rule("cleanup", "cleanup_on_exit reaches the object's index")
    opts = {"none": {}, "no_lockout": {"no_lockout": TRUE}, "debug": {"debug": TRUE},
            "cleanup_on_exit": {"cleanup_on_exit": TRUE}, "locking on": {"no_lockout": FALSE},
            "debug off": {"debug": FALSE}}
    names = ("no_lockout", "debug", "cleanup_on_exit")
    for cls in INDEXES + PADS:
        more = {}
        sw = names + (("update_on_init",) if cls in PADS else ())
        for r in (1, 2, 3, 4):
            for on in itertools.combinations(sw, r):
                if r > 1 or on == ("update_on_init",):
                    more[" and ".join(on)] = {o: TRUE for o in on}
        for name, kw in {**opts, **more}.items():
            given = {o for o in kw if kw[o] == TRUE}
            with c.group(f"{cls}: {name}"):
                w = World(c, cls)
                w.key_present = False
                if cls == "GridPaper":
                    w.meta_state = "always"
                I = w.interp(hooks=lock_debug_hooks(c, None))
                ob, s = w.make(I, w.enter_state(I, St()), **kw)
                init_evs = s.events()
                op = "__setitem__" if w.pad else "add"
                outs = w.call(I, ob, op, [K, V] if w.pad else [K], [], s)
                outs = [o for o in outs if o[0] == "return"]
                if not outs:
                    c.und("operation", "never succeeds")
                want_lock = "no_lockout" not in given
                for k, v, s2, evs in outs:
                    locks = [e for e in flat(evs) if e[0] == "lock" and e[1] == "enter"]
                    c.must(bool(locks) == want_lock, "locking", "locking", w.loc("__init__"),
                           "locking is " + ("off although no_lockout was not given" if want_lock else
                                            "on although no_lockout was given"), evs)
                    dbg = [e for e in flat(evs) if e[0] == "lockdebug"]
                    for e in dbg:
                        if not is_c(e[1]):
                            c.und("lock debugging", show(e[1])[:50])
                            continue
                        c.must(bool(cval(e[1])) == ("debug" in given), "lock debugging", "debugging",
                               loc_of(e), f"the lock's debugging is {cval(e[1])!r} "
                               f"{'in spite of' if 'debug' in given else 'without'} debug", evs)
                    logs = [e for e in flat(init_evs + evs) if e[0] == "file" and e[1] == "open"]
                    c.must(bool(logs) == ("debug" in given), "log", "debugging",
                           loc_of(logs[0]) if logs else w.loc("__init__"),
                           "the debug log is " + ("written without debug" if logs else
                                                  "not written although debug was given"), evs)
                if w.pad:
                    ix = I.get_attr(ob, "index", s.fork(), None, None)
                    if len(ix) == 1 and ix[0][0][0] == "o":
                        reg = [e for e in flat(init_evs) if e[0] == "atexit" and e[1] == "register"
                               and is_close_of(I, ix[0][0], e[2])]
                        c.must(bool(reg) == ("cleanup_on_exit" in given), "index cleanup", "cleanup",
                               w.loc("__init__"), "the index's exit-time cleanup is "
                               + ("on without" if reg else "off in spite of") + " cleanup_on_exit", init_evs)
        with c.group(f"{cls}: create"):
            w = World(c, cls)
            made(c, w, cls)
            for o in sw:
                made(c, World(c, cls), cls, [(o, TRUE)])
    c.rule("codec", "a notepad encodes with the codec its codec_factory makes")
    for f in CODECS:
        with c.group(f"Notepad: {f}"):
            I = c.interp(kinds={V: "object"})
            want = [e for k, v, s in c.run(I, f"codex.codecs.{f}", []) if k == "return" and v[0] == "t"
                    for k2, e, s2 in c.runv(I, v[1][0], [V], [], s) if k2 == "return"]
            w = World(c, "Notepad", codec_factory=I.fnterm(c.repo.func(f"codex.codecs.{f}").qual))
            w.key_present = False
            I = w.interp()
            ob, s = w.obj(I)
            for k, v, s2, evs in w.call(I, ob, "__setitem__", [K, V], [], s):
                if k != "return":
                    continue
                for seg, s3 in w.look(I, s2, "data", K):
                    got = strip_ids(seg.content) if seg.exists else None
                    if len(want) != 1 or got is None or opaque_parts(got):
                        c.und("codec", show(got)[:80] if got else "nothing stored")
                        continue
                    c.must(got == strip_ids(want[0]), "codec", "codec", w.loc("__init__"),
                           f"a notepad made with {f} stores {show(got)[:80]}", evs)


def made(c, w, cls, opts=()):
    opts = list(opts)
    nothing = lambda I, a, s: [(Seg(False), s)]
    key = "prefix" if w.pad else "name"
    l = w.loc("__init__")
    for create in (FALSE, TRUE):
        I = w.interp(init=nothing)
        outs = c.runv(I, ("cls", w.qual), [], [(key, PREFIX), ("create", create)] + opts, St())
        for k, v, s in outs:
            evs = s.events()
            cr = [e for e in flat(evs) if e[0] == "shm" and e[1] == "create"]
            if create == FALSE:
                c.must(k == "raise" and exc_kind(v) == "FileNotFoundError" and not cr, "attach to nothing",
                       "creation", last_loc(evs, l), "attaching without create to an absent index "
                       + ("creates one" if cr else "returns" if k == "return" else
                          f"raises {exc_kind(v)}"), evs)
            else:
                if k != "return":
                    c.bad("create", "creation", last_loc(evs, l), f"creating raises {exc_kind(v)}", evs)
                    continue
                for seg, s2 in w.look(I, s, "len"):
                    c.must(seg.exists and same_size(I, s2, seg.size, w.len_size), "create", "creation", l,
                           "create=True leaves no usable length block", evs)
    w.key_present = None
    I = w.interp()
    for k, v, s in c.runv(I, ("cls", w.qual), [], [(key, PREFIX), ("create", TRUE)] + opts, St()):
        for seg, s2 in w.look(I, s, "len"):
            c.must(seg.exists and seg.content == w.len_content(w.n0), "create over an index", "creation", l,
                   "create=True changes an index that is already there", s.events())
    for k, v, s in c.runv(I, ("cls", w.qual), [], [(key, PREFIX), ("create", FALSE)] + opts, St()):
        c.must(k == "return", "attach", "creation", l, "attaching to an existing index "
               + (f"raises {exc_kind(v)}" if k == "raise" else ""), s.events())


# ------------------------------------------------------------------ dumps
FN = S("fn")
TRUNC = {"wb", "bw", "wb+", "w+b", "bw+", "xb", "bx", "xb+", "x+b"}


def sinks(I, evs):
    """[(target, mode, contents, location, complete)] of everything a path sends to files, in order"""
    out, by = [], {}
    for e in flat(evs):
        if e[0] == "file":
            if e[1] == "open":
                a = e[3]
                mode = a[1] if len(a) > 1 else C("r")
                by[e[2]] = s = [a[0] if a else None, mode, [], e[4], True]
                out.append(s)
            elif e[2] in by:
                s = by[e[2]]
                if e[1] == "write" and len(e[3]) == 1:
                    s[2].append(e[3][0])
                elif e[1] not in ("close", "enter", "exit", "flush", "fileno", "tell"):
                    s[4] = False
            elif e[1] in ("write_bytes", "write_text"):
                out.append([e[2], C("wb" if e[1] == "write_bytes" else "w"), list(e[3][:1]), e[4], True])
        elif e[0] == "call" and is_app(e[1], "attr"):
            f = e[1]
            if f[3] == "tofile" and len(e) > 3:
                kw = dict(x for x in e[3] if isinstance(x, tuple) and len(x) == 2) if e[3] else {}
                a = e[2]
                sep = a[1] if len(a) > 1 else kw.get("sep", C(""))
                if a and a[0] in by and sep == C(""):
                    by[a[0]][2].append(A("arrbytes", f[2]))
                    continue
                out.append([a[0] if a else kw.get("fid"), C("wb"),
                            [A("arrbytes", f[2])] if sep == C("") else [A("text", f[2], sep)],
                            loc_of(e), True])
            elif f[3] in ("write_bytes", "write_text"):
                out.append([f[2], C("wb" if f[3] == "write_bytes" else "w"), list(e[2][:1]), loc_of(e), True])
    return out


def same_file(t, fn):
    """is the target the path fn itself (True), something else (False) or unknown (None)?"""
    if t is None:
        return None
    while t[0] == "a" and t[1] == "call" and t[2] in (X("pathlib.Path"), X("os.fspath")) and len(t) > 3 and t[3]:
        t = t[3][0]
    while t[0] == "a" and t[1] in ("Path", "str", "fspath") and len(t) > 2:
        t = t[2]
    if t == fn:
        return True
    return None if opaque_parts(t) else False


@prop("C16", "Effect analysis of dump and get_raw over an abstract shared memory and abstract files: on every path, "
             "for every codec, an explicit and the default file name, and keys present and absent, the files opened, "
             "the modes, and the contents written are compared with the cell of the key's own value.")
def c16(c):
    c.rule("raw", "get_raw returns exactly the bytes stored under the key's own address")
    c.rule("dump", "dump writes exactly those bytes, replacing what the file held, to the given file or to one "
           "named after the prefix and the key with dots replaced, and to no other file")
    c.rule("missing", "dumping an entry that is not there raises, and leaves the file as it was")
    c.rule("only a copy", "dumping and reading raw bytes change nothing that is stored")
    for label, cls, ctor in pad_variants(c):
        with c.group(f"{label}: get_raw"):
            w, I, ob, s = pad_world(c, cls, True, ctor)
            want = [strip_ids(I.freeze(seg.content, s2)) for seg, s2 in w.look(I, s, "data", K) if seg.exists]
            for k, v, s2, evs in w.call(I, ob, "get_raw", [K], [], s.fork()):
                same_cells(c, w, evs, "get_raw")
                if k != "return":
                    c.bad("get_raw", "raw", last_loc(evs, w.loc("get_raw")), f"get_raw raises {exc_kind(v)}", evs)
                    continue
                raw_is(c, I, "get_raw", "raw", I.freeze(v, s2), want, w.loc("get_raw"), "get_raw returns", evs)
        for args, what in (([K], "default name"), ([K, FN], "given name")):
            with c.group(f"{label}: dump, {what}"):
                w, I, ob, s = pad_world(c, cls, True, ctor)
                want = [strip_ids(I.freeze(seg.content, s2)) for seg, s2 in w.look(I, s, "data", K) if seg.exists]
                l = w.loc("dump")
                s.facts[A("is", FN, NONE)] = False
                s.facts[A("truthy", FN)] = True
                for k, v, s2, evs in w.call(I, ob, "dump", args, [], s.fork()):
                    if len(args) > 1 and s2.facts.get(A("is", FN, NONE)):
                        continue
                    same_cells(c, w, evs, "dump")
                    if k != "return":
                        c.bad("dump", "dump", last_loc(evs, l), f"dump raises {exc_kind(v)} for a stored entry", evs)
                        continue
                    dumped(c, w, I, s2, evs, want, FN if len(args) > 1 else None, l)
            with c.group(f"{label}: dump of a missing entry, {what}"):
                w, I, ob, s = pad_world(c, cls, False, ctor)
                l = w.loc("dump")
                for k, v, s2, evs in w.call(I, ob, "dump", args, [], s.fork()):
                    hit = [q for q in sinks(I, evs) if q[1][0] == "c" and "w" in str(q[1][2])]
                    c.must(k == "raise", "missing entry", "missing", l, "dumping a missing entry returns normally", evs)
                    c.must(not hit, "missing entry", "missing", hit[0][3] if hit else l,
                           "the file is emptied before it is known that the entry exists", evs)


def same_cells(c, w, evs, op):
    hit = w.touched(evs)
    c.must(not hit, op, "only a copy", last_loc(evs, w.loc(op)), f"{op} changes what is stored", evs)


def raw_is(c, I, name, rule, got, want, l, what, evs):
    got = strip_ids(got)
    if len(want) != 1:
        raise Undecided(name, f"{len(want)} stored contents")
    ok = got == want[0] or got == A("tobytes", want[0]) or got == A("bytes", want[0])
    if not ok and opaque_parts(got):
        raise Undecided(name, show(got)[:80])
    c.must(ok, name, rule, l, f"{what} {show(got)[:80]} instead of the bytes stored", evs)


def dumped(c, w, I, s, evs, want, fn, l):
    sk = [q for q in sinks(I, evs) if not (q[1][0] == "c" and q[1][2] in ("r", "rb"))]
    if not sk:
        took = [e for e in flat(evs) if e[0] == "call" and any(
            isinstance(x, tuple) and any(y == K or is_app(y, "stored") for y in subterms(x)) for x in e[1:]
            if isinstance(x, tuple)) and not any(h in show(e[1]) for h in ("sha", "hexdigest", "log"))]
        saved = [e for e in took if "numpy.save" in show(e[1])]
        if saved:
            c.bad("dump", "dump", loc_of(saved[0]), "the file gets more than the stored bytes", evs)
        elif took:
            c.und("dump", f"the file is written by {show(took[-1][1])[:60]}")
        else:
            c.bad("dump", "dump", l, "dump writes no file", evs)
        return
    if len(sk) > 1:
        c.und("dump", f"{len(sk)} files are opened")
        return
    target, mode, contents, loc, complete = sk[0]
    if fn is not None:
        c.must(same_file(target, fn), "file", "dump", loc, f"the entry goes to {show(target)[:80]} although a file was named", evs)
    else:
        inside = list(subterms(target))
        dark = bool(opaque_parts(target))
        pre = w.prefix if hasattr(w, "prefix") else PREFIX
        c.must(K in inside or (None if dark else False), "default name", "dump", loc,
               "the default file name does not name the entry, so entries overwrite each other's files", evs)
        c.must(pre in inside or (None if dark else False), "default name", "dump", loc,
               "the default file name does not name the notepad", evs)
        cut = [x for x in inside if isinstance(x, tuple) and x and x[0] == "a" and x[1] == "item"
               and any(y == K for y in subterms(x[2]))
               and any(y[0] == "a" and y[1] == "attr" and len(y) > 3
                       and y[3] in ("split", "rsplit", "partition", "rpartition")
                       for y in subterms(x[2]) if isinstance(y, tuple) and y)]
        if cut:
            c.bad("default name", "dump", loc, "the default file name holds only a part of the key, so different "
                  "entries share a file", evs)
        plain = all(not is_app(x) or x[1] in ("cat", "str", "fstr", "add", "join", "tuple", "list") for x in inside
                    if isinstance(x, tuple) and x)
        c.must(False if plain else True, "dots", "dump", loc, "dots stay in the default file name", evs)
    if not mode[0] == "c":
        c.und("mode", show(mode)[:40])
    else:
        c.must(mode[2] in TRUNC, "mode", "dump", loc, f"the file is opened with mode {mode[2]!r}, so it does not "
               "come to hold exactly the stored bytes", evs)
    if not complete:
        c.und("contents", "written in another way")
        return
    if len(contents) == 1:
        raw_is(c, I, "contents", "dump", contents[0], want, loc, "dump writes", evs)
    elif not contents:
        c.bad("contents", "dump", loc, "the file is opened but nothing is written", evs)
    else:
        c.und("contents", f"{len(contents)} writes")
