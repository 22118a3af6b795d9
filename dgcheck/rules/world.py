"""Abstract shared memory holding a consistent index (and the values behind it).

The address layout is not assumed: it is read off what the code itself writes
when it adds one key to an empty index and to an index of unknown length.
"""
from .lib import *
from ..state import Seg
from .. import models as M
from .turns import relin

IMPL = "codex.implements"
K, K2, V, META = S("key"), S("other_key"), S("value"), S("key_meta")
N0 = A("frombytes", S("length_bytes"))
P = A("frombytes", S("position_bytes"))
PREFIX = S("prefix")
KINDS = {PREFIX: "str", K: "str", K2: "str", V: "object", META: "dict"}


def norm_addr(a):
    """parts of an address with numbers at the end of literals split off"""
    out = []
    for p in (a[2] if is_app(a, "cat") else (a,)):
        if is_c(p) and p[1] == "str":
            s = cval(p)
            d = len(s) - len(s.rstrip("0123456789"))
            if d and s[:-d] and s[-d - 1] != "-":
                out += [C(s[:-d]), C(int(s[-d:]))]
                continue
        out.append(p[2] if is_app(p, "str") else p)
    return out


def unify(template, hole, addr):
    """what stands at the hole when addr has the template's shape, else None"""
    ta, aa = norm_addr(template), norm_addr(addr)
    if len(ta) != len(aa):
        return None
    got = None
    for x, y in zip(ta, aa):
        if x == y:
            continue
        if x == hole:
            got = y
        elif mentions(x, hole):
            y = strip_ids(y)
            g = unify_term(strip_ids(x), hole, y)
            if g is None:
                return None
            got = g
        else:
            return None
    if got is None and ta == aa:
        got = hole
    return got


def unify_term(x, hole, y):
    if x == hole:
        return y
    if not isinstance(x, tuple) or not isinstance(y, tuple) or len(x) != len(y):
        return None
    got = None
    for a, b in zip(x, y):
        if a == b:
            continue
        g = unify_term(a, hole, b)
        if g is None or got is not None and g != got:
            return None
        got = g
    return got


def lock_hooks(c):
    """entering and leaving the lock are events; its own protocol is C02/C03's"""
    q = c.repo.cls(f"{IMPL}.SlidingLock").qual

    def enter(I, fv, args, kws, st, n, fid):
        st.ev("lock", "enter", lock_id(I, args[0], st), I.loc(n, fid))
        return [(args[0], st)]

    def leave(I, fv, args, kws, st, n, fid):
        st.ev("lock", "exit", lock_id(I, args[0], st), I.loc(n, fid))
        return [(NONE, st)]
    return {q + ".__enter__": enter, q + ".__exit__": leave}


def lock_id(I, ob, st):
    return peek(I, ob, st, "name")


class World:
    """an index or notepad class with its discovered layout"""

    def __init__(self, c, cls, value=V, **ctor):
        self.c, self.cls = c, f"{IMPL}.{cls}"
        self.qual = c.repo.cls(self.cls).qual
        self.pad = cls in ("Notepad", "GridPaper")
        self.meta = cls in ("MetaTagIndex", "GridPaper")
        self.ctor = ctor
        self.value = value
        self.key_present = None       # None: not modelled; True / False
        self.data_state = "consistent"
        self.count_state = "exists"
        self.meta_state = "any"
        self.key_state = "always"     # "any": a slot's key block may be missing
        self.free_state = "absent"    # "any": a free slot may have left-over blocks
        self.templates = {}
        self.fixed = None             # a known number of slots
        self.epoch = ""               # which history of the memory is in force
        self.discover()

    # the unknowns of the memory's current contents
    @property
    def n0(self):
        if self.fixed is not None:
            return C(self.fixed)
        return A("frombytes", S("length_bytes" + self.epoch))

    @property
    def p(self):
        return A("frombytes", S("position_bytes" + self.epoch))

    def keyat(self, ix):
        return A("str", A("keyat" + self.epoch, ix))

    def metaat(self, ix):
        return A("metaat" + self.epoch, ix)

    def hasmeta(self, ix):
        return A("truthy", A("hasmeta" + self.epoch, ix))

    def haskey(self, ix):
        return A("haskey", ix)

    def stored(self, k=K):
        return A("stored" + self.epoch, k)

    # ---------------------------------------------------------- running
    def interp(self, init=None, hooks=(), **kw):
        kinds = dict(KINDS)
        kinds.update(kw.pop("kinds", {}))
        return self.c.interp(hooks={**lock_hooks(self.c), **dict(hooks)},
                             shm_init=init or self.init, kinds=kinds, **kw)

    def make(self, I, st=None, create=FALSE, **kw):
        kws = {"prefix" if self.pad else "name": PREFIX, "create": create, **self.ctor, **kw}
        outs = self.c.runv(I, ("cls", self.qual), [], list(kws.items()), st or St())
        good = [(v, s) for k, v, s in outs if k == "return"]
        if len(good) != 1:
            raise Undecided("constructor", f"{len(good)} outcomes")
        return good[0]

    def method(self, I, ob, name):
        q = I.find_method(self.qual, name)
        if q is None:
            raise Undecided("method", name)
        q = getattr(q, "qual", q)
        self.c.functions.add(q)
        return ("bm", I.fnterm(q), ob)

    def loc(self, name):
        I = self.c.interps[-1] if self.c.interps else self.c.interp()
        q = I.find_method(self.qual, name)
        q = getattr(q, "qual", q)
        f = self.c.repo.funcs.get(q) if q else None
        if f is None:
            return (self.qual.replace(".", "/"), 0, self.qual)
        return (f.mod.name.replace(".", "/") + ".py", f.node.lineno, f.qual)

    def call(self, I, ob, name, args, kws, st):
        """[(kind, value, state, new events)]"""
        n = len(st.events())
        return [(k, v, s, s.events()[n:]) for k, v, s in self.c.runv(
            I, self.method(I, ob, name), list(args), list(kws), st)]

    # -------------------------------------------------------- discovery
    def add_call(self, I, ob, s, key=K):
        if self.pad:
            return self.call(I, ob, "__setitem__", [key, self.value], [], s)
        return self.call(I, ob, "add", [key] + ([META] if self.meta else []), [], s)

    def discover(self):
        c = self.c
        # an empty world: everything absent
        I = self.interp(init=lambda I, a, s: [(Seg(False), s)])
        ob, s = self.make(I, create=TRUE)
        outs = [o for o in self.add_call(I, ob, s) if o[0] == "return"]
        if not outs:
            raise Undecided("layout", "adding one key to a new object never succeeds")
        best = max(outs, key=lambda o: sum(1 for x in o[2].shm.values() if x.exists))
        one = [(a, g) for a, g in best[2].shm.items() if g.exists and is_app(g.content, "tobytes")
               and g.content[2] == C(1)]
        if len(one) > 1:
            one = [x for x in one if not mentions(x[0], K)]
        if len(one) != 1:
            raise Undecided("layout", f"{len(one)} cells hold the length after one addition")
        self.len_addr, self.len_size = one[0][0], one[0][1].size
        enc_ = one[0][1].content
        self.len_content = lambda n: ("a", "tobytes", n) + enc_[3:]
        # unknown length
        start = Seg(True, self.len_size, self.len_content(N0), 0)
        I = self.interp(init=lambda I, a, s: [(start if a == self.len_addr else Seg(False), s)])
        ob, s = self.make(I)
        outs = [o for o in self.add_call(I, ob, s) if o[0] == "return"]
        if not outs:
            raise Undecided("layout", "adding a key never succeeds")
        best = max(outs, key=lambda o: sum(1 for x in o[2].shm.values() if x.exists))
        for a, g in best[2].shm.items():
            if not g.exists or a == self.len_addr:
                continue
            ct = g.content
            if ct == A("enc", A("str", K)):
                self.slot("key", a, N0, g)
            elif is_app(ct, "tobytes") and mentions(a, K) and is_c(add(ct[2], N0, -1)):
                self.slot("rev", a, K, g)
            elif mentions(ct, self.value) and self.pad:
                if mentions(a, K) and not is_app(ct, "enc"):
                    self.slot("data", a, K, g)
                elif mentions(a, N0):
                    self.slot("val", a, N0, g)
                elif mentions(a, K):
                    self.slot("data", a, K, g)
            elif self.meta and mentions(a, N0):
                self.slot("val", a, N0, g)
            else:
                self.templates.setdefault("other", []).append(a)
        for k in ("key", "rev") + (("val",) if self.meta else ()) + (("data",) if self.pad else ()):
            if k not in self.templates:
                raise Undecided("layout", f"no {k} cell recognised")

    def slot(self, kind, addr, hole, seg):
        if kind in self.templates:
            raise Undecided("layout", f"two {kind} cells")
        self.templates[kind] = (addr, hole, seg)

    def addr(self, kind, x):
        a, hole, _ = self.templates[kind]
        if kind == "rev" or kind == "data":
            return replace(a, {A("str", hole): x if is_str(x) else A("str", x), hole: x})
        return M_cat(replace(norm_parts(a), {hole: x}))

    def content(self, kind, x, payload=None):
        """(size, content) of a cell in a consistent state"""
        a, hole, seg = self.templates[kind]
        if kind == "key":
            t = A("enc", x if is_str(x) else A("str", x))
            return A("len", t), t
        if kind == "rev":
            t = replace(seg.content, {N0: x})
            return seg.size, t[:2] + (relin(t[2]),) + t[3:]
        if kind == "val" and self.pad:
            k = self.keyat(x)
            if self.key_present and x == self.p:
                k = A("str", K)
            m = {self.value: self.stored(k[2]), A("str", K): k, K: k[2]}
            return replace(seg.size, m), replace(seg.content, m)
        if kind == "val":
            t = A("enc", A("dumps", "json", payload))
            if seg.content[:2] == ("a", "enc") and is_app(seg.content[2], "dumps"):
                t = A("enc", seg.content[2][:3] + (payload,))
            return A("len", t), t
        t = replace(seg.content, {self.value: payload})
        return replace(seg.size, {self.value: payload}), t

    # ------------------------------------------------- consistent state
    def in_range(self, I, ix, st):
        if is_app(ix, "elem") and is_app(ix[2], "range") and ix[2][2:4] == (C(0), self.n0):
            return [(True, st)]
        out = []
        for neg_, s in I.branch(cmp_lt(ix, C(0)), st):
            if neg_:
                out.append((False, s))
                continue
            for inr, s2 in I.branch(cmp_lt(ix, self.n0), s):
                out.append((inr, s2))
        return out

    def key_in(self, I, ix, st):
        """[(key term, state)] of the key in occupied slot ix"""
        k = self.keyat(ix)
        if self.key_present:
            out = []
            for same, s in I.branch(cmp_eq(ix, self.p), st):
                if same:
                    out.append((A("str", K), s))
                else:
                    I.assume(cmp_eq(K, k[2]), False, s)
                    out.append((k, s))
            return out
        if self.key_present is False:
            I.assume(cmp_eq(K, k[2]), False, st)
        return [(k, st)]

    def init(self, I, addr, st):
        if addr == self.len_addr:
            return [(Seg(True, self.len_size, self.len_content(self.n0), 0), st)]
        for kind in ("key", "val", "rev", "data"):
            if kind not in self.templates:
                continue
            a, hole, _ = self.templates[kind]
            x = unify(a, hole, addr)
            if x is None:
                continue
            return getattr(self, "init_" + kind)(I, x, st)
        if self.count_state == "exists":
            return [(Seg(True, A("size0", addr), A("mem0", addr), 0), st)]
        if self.count_state == "absent":
            return [(Seg(False), st)]
        return None

    def init_key(self, I, ix, st):
        out = []
        for inr, s in self.in_range(I, ix, st):
            if not inr:
                out += self.left_over(I, "key", ix, s)
                continue
            for k, s2 in self.key_in(I, ix, s):
                z, t = self.content("key", k)
                for h, s3 in ([(True, s2)] if self.key_state == "always" else
                              I.branch(self.haskey(ix), s2)):
                    out.append((Seg(True, z, t, 0) if h else Seg(False), s3))
        return out

    def left_over(self, I, kind, ix, st):
        if self.free_state == "absent":
            return [(Seg(False), st)]
        return [(Seg(True, A("stale_size", C(kind), ix), A("stale", C(kind), ix), 0) if h
                 else Seg(False), s)
                for h, s in I.branch(A("left_over", C(kind), ix), st)]

    def init_val(self, I, ix, st):
        out = []
        for inr, s in self.in_range(I, ix, st):
            if not inr:
                out += self.left_over(I, "val", ix, s)
                continue
            if self.meta_state == "always":
                has = [(True, s)]
            else:
                has = I.branch(self.hasmeta(ix), s)
            for h, s2 in has:
                if not h:
                    out.append((Seg(False), s2))
                    continue
                z, t = self.content("val", ix, self.metaat(ix))
                out.append((Seg(True, z, t, 0), s2))
        return out

    def key_of_term(self, x):
        """('K',) the key under study, ('slot', ix) the key of a slot, ('other', x)"""
        while is_app(x, "enc") or is_app(x, "str"):
            x = x[2]
        if is_app(x, "keyat" + self.epoch):
            return "slot", x[2]
        return ("K", None) if x == K else ("other", x)

    def init_rev(self, I, x, st):
        w, ix = self.key_of_term(x)
        if w == "K":
            if not self.key_present:
                return [(Seg(False), st)]
            z, t = self.content("rev", self.p)
            return [(Seg(True, z, t, 0), st)]
        if w == "slot":
            z, t = self.content("rev", ix)
            return [(Seg(True, z, t, 0), st)]
        return None

    def init_data(self, I, x, st):
        w, ix = self.key_of_term(x)
        if self.data_state == "any":
            return None
        if self.data_state == "absent":
            return [(Seg(False), st)]
        if w == "K" and not self.key_present and self.data_state == "consistent":
            return [(Seg(False), st)]
        if w == "other":
            return None
        z, t = self.content("data", None, self.stored(K if w == "K" else self.keyat(ix)[2]))
        return [(Seg(True, z, t, 0), st)]

    def enter_state(self, I, st):
        """what holds of the unknowns from now on"""
        if self.key_present:
            I.assume(cmp_lt(self.p, self.n0), True, st)
            I.assume(cmp_lt(self.n0, C(1)), False, st)
        return st

    def obj(self, I, history=True, **kw):
        """an object attached to the memory, with a past: it has seen, listed
        and changed an earlier state of the same memory"""
        if not history:
            st = self.enter_state(I, St())
            return self.make(I, st, **kw)
        want = self.key_present
        self.epoch, self.key_present = "_before", True
        ms, self.meta_state = self.meta_state, "always" if self.fixed is not None else self.meta_state
        ob, s = self.make(I, self.enter_state(I, St()), **kw)
        steps = [("keys", []), ("__getitem__", [K])] if self.pad else [
            ("update", []), ("add", [K])]
        if self.fixed is not None and self.meta and not self.pad:
            steps = [("keys", []), ("values", []), ("items", [])] + steps
        for name, args in steps:
            outs = [o for o in self.call(I, ob, name, args, [], s) if o[0] == "return"]
            if not outs:
                continue
            s = max(outs, key=lambda o: len(o[3]))[2]
        self.epoch, self.key_present, self.meta_state = "", want, ms
        s = s.fork()
        # the length block is updated in place; every other block is replaced
        s.shm = {self.len_addr: Seg(True, self.len_size, self.len_content(self.n0), 0)}
        s.trace = None
        return ob, self.enter_state(I, s)

    # ---------------------------------------------------------- reading
    def look(self, I, s, kind, x=None):
        """[(Seg, state)] of a cell in a final state"""
        a = self.len_addr if kind == "len" else self.addr(kind, x)
        return [(seg, s2) for _, seg, s2 in M.cell(I, a, s.fork())]

    def touched(self, evs, ops=("write", "create", "unlink")):
        return [e for e in flat(evs) if e[0] == "shm" and e[1] in ops]

    def is_index(self, addr):
        """does the address belong to the index's own storage"""
        if addr == self.len_addr:
            return True
        return any(k in self.templates and unify(*self.templates[k][:2], addr) is not None
                   for k in ("key", "val", "rev"))


def norm_parts(a):
    return ("t", tuple(norm_addr(a)))


def M_cat(t):
    from ..terms import cat
    return cat(t[1])
