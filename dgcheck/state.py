"""Abstract states of the interpreter: heap, frames, shared memory, facts, trace."""
from .terms import *


class Obj:
    """abstract heap object; never modified in place (states share it)"""
    __slots__ = ("kind", "cls", "attrs", "parts", "x")

    def __init__(self, kind, cls=None, attrs=None, parts=(), x=None):
        self.kind, self.cls, self.x = kind, cls, x
        self.attrs = attrs if attrs is not None else {}
        self.parts = parts

    def but(self, **kw):
        return Obj(kw.get("kind", self.kind), kw.get("cls", self.cls),
                   kw.get("attrs", self.attrs), kw.get("parts", self.parts),
                   kw.get("x", self.x))

    def key(self):
        return (self.kind, self.cls, tuple(sorted(self.attrs.items(), key=lambda i: i[0])),
                self.parts, self.x)

    def __eq__(self, other):
        return isinstance(other, Obj) and self.key() == other.key()

    def __hash__(self):
        return hash(self.kind)


class Seg:
    """one shared memory cell"""
    __slots__ = ("exists", "size", "content", "gen", "mine")

    def __init__(self, exists, size=None, content=None, gen=0, mine=False):
        self.exists, self.size, self.content, self.gen, self.mine = \
            exists, size, content, gen, mine

    def but(self, **kw):
        return Seg(kw.get("exists", self.exists), kw.get("size", self.size),
                   kw.get("content", self.content), kw.get("gen", self.gen),
                   kw.get("mine", self.mine))

    def key(self):
        return (self.exists, self.size, self.content, self.mine)

    def __eq__(self, o):
        return isinstance(o, Seg) and self.key() == o.key()

    def __hash__(self):
        return hash(self.exists)


class St:
    __slots__ = ("heap", "frames", "shm", "facts", "over", "trace", "flags")

    def __init__(self):
        self.heap, self.frames, self.shm = {}, {}, {}
        self.facts, self.over, self.trace, self.flags = {}, {}, None, {}

    def fork(self):
        n = St.__new__(St)
        n.heap, n.frames, n.shm = dict(self.heap), dict(self.frames), dict(self.shm)
        n.facts, n.over = dict(self.facts), dict(self.over)
        n.trace, n.flags = self.trace, dict(self.flags)
        return n

    def ev(self, *event):
        self.trace = (self.trace, event)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            t, e = t
            out.append(e)
        out.reverse()
        return out

    def var(self, fid, name):
        return self.frames[fid].get(name)

    def setvar(self, fid, name, val):
        f = dict(self.frames[fid])
        f[name] = val
        self.frames[fid] = f

    def delvar(self, fid, name):
        f = dict(self.frames[fid])
        f.pop(name, None)
        self.frames[fid] = f

    def obj(self, t):
        return self.heap.get(t[1]) if t[0] == "o" else None

    def setattr_(self, t, name, val):
        o = self.heap[t[1]]
        a = dict(o.attrs)
        a[name] = val
        self.heap[t[1]] = o.but(attrs=a)


# -------------------------------------------------------------- intervals
def canon_lin(const, coefs):
    """canonical (linear form key, const, sign): value = sign*form + const"""
    items = tuple(sorted(coefs.items(), key=repr))
    if items and items[0][1] < 0:
        return tuple((t, -v) for t, v in items), const, -1
    return items, const, 1


NONNEG = ("len", "frombytes", "idx", "size0")


def interval(form, facts):
    """integer bounds on a canonical linear form implied by recorded facts"""
    lo, hi, holes = None, None, set()
    if all(v > 0 for _, v in form) and all(
            is_app(t) and (t[1] in NONNEG or (t[1] == "elem" and is_app(t[2], "range")
                           and is_c(t[2][2]) and cval(t[2][2]) >= 0)) for t, _ in form):
        lo = 0
    for atom, val in facts.items():
        if not is_app(atom) or atom[1] not in ("eq0", "lt0", "eq", "lt"):
            continue
        if atom[1] in ("eq0", "lt0"):
            p = lin_parts(atom[2])
        else:
            pa, pb = lin_parts(atom[2]), lin_parts(atom[3])
            if pa is None or pb is None:
                continue
            co = dict(pa[1])
            for k, v in pb[1].items():
                co[k] = co.get(k, 0) - v
            p = pa[0] - pb[0], {k: v for k, v in co.items() if v}
        if p is None or not p[1]:
            continue
        f, c, sg = canon_lin(*p)
        if f != form:
            continue
        op = "eq0" if atom[1] in ("eq", "eq0") else "lt0"
        if op == "eq0":
            v = -c * sg
            if val:
                lo = v if lo is None else max(lo, v)
                hi = v if hi is None else min(hi, v)
            else:
                holes.add(v)
        elif sg == 1:          # F + c < 0
            if val:
                hi = -c - 1 if hi is None else min(hi, -c - 1)
            else:
                lo = -c if lo is None else max(lo, -c)
        else:                  # -F + c < 0  <=> F > c
            if val:
                lo = c + 1 if lo is None else max(lo, c + 1)
            else:
                hi = c if hi is None else min(hi, c)
    for t, v in form:
        # elements of range(a, b): a <= e < b
        if len(form) == 1 and v == 1 and is_app(t, "elem") and is_app(t[2], "range"):
            a, b = t[2][2], t[2][3]
            if is_c(a):
                lo = cval(a) if lo is None else max(lo, cval(a))
            if is_c(b):
                hi = cval(b) - 1 if hi is None else min(hi, cval(b) - 1)
    changed = True
    while changed:
        changed = False
        if lo is not None and lo in holes:
            lo, changed = lo + 1, True
        if hi is not None and hi in holes:
            hi, changed = hi - 1, True
    return lo, hi, holes


TYPE_DISJOINT = [
    {"str", "int", "bool", "float", "list", "dict", "tuple", "set", "bytes", "NoneType",
     "FunctionType", "MethodType", "type"},
]


def type_rel(a, b):
    """'sub' if a value of type a is always a b, 'dis' if never, else None"""
    import builtins
    an, bn = a.split(".")[-1], b.split(".")[-1]
    if a == b or an == bn:
        return "sub"
    if bn == "object":
        return "sub"
    abc = {"Mapping": {"dict", "OrderedDict", "defaultdict", "NestingDict"},
           "MutableMapping": {"dict", "OrderedDict", "defaultdict", "NestingDict"},
           "Sequence": {"list", "tuple", "str", "bytes", "range"},
           "MutableSequence": {"list"},
           "Collection": {"list", "tuple", "str", "bytes", "dict", "set", "range"},
           "Iterable": {"list", "tuple", "str", "bytes", "dict", "set", "range"},
           "Hashable": {"str", "int", "bool", "float", "bytes", "NoneType"},
           "Callable": {"FunctionType", "MethodType", "type"}}
    if bn in abc:
        if an in abc[bn]:
            return "sub"
        if an in TYPE_DISJOINT[0] and an not in ("type",):
            return "dis"
        return None
    if an in ("NestingDict", "OrderedDict", "defaultdict") and bn == "dict":
        return "sub"
    if bn in ("NestingDict", "OrderedDict", "defaultdict", "Counter"):
        return "dis" if an in TYPE_DISJOINT[0] and an not in ("dict", "type") else None
    ca, cb = getattr(builtins, an, None), getattr(builtins, bn, None)
    if isinstance(ca, type) and isinstance(cb, type):
        if issubclass(ca, cb):
            return "sub"
        if issubclass(cb, ca):
            return None
        if an in TYPE_DISJOINT[0] and bn in TYPE_DISJOINT[0]:
            return "dis"
        if issubclass(ca, BaseException) != issubclass(cb, BaseException) and (
                an in TYPE_DISJOINT[0] or bn in TYPE_DISJOINT[0]):
            return "dis"
        return None
    if an in TYPE_DISJOINT[0] and bn in TYPE_DISJOINT[0]:
        return "dis"
    return None


def const_of(x, facts):
    """constant term x is known to equal, or None"""
    if is_c(x):
        return x
    for a, v in facts.items():
        if v and is_app(a) and a[1] in ("eq", "is"):
            if a[2] == x and is_c(a[3]):
                return a[3]
            if a[3] == x and is_c(a[2]):
                return a[2]
        elif v and is_app(a, "eq0"):
            p = lin_parts(a[2])
            if p and len(p[1]) == 1:
                (t, k), = p[1].items()
                if t == x and k in (1, -1):
                    return C(-p[0] * k)
    return None


NEVERNONE = {"seqof", "setof", "sorted", "list", "dict", "set", "tuple", "tcat", "len", "range",
             "rest", "keys", "values", "items", "iter", "count", "isinst", "in", "not", "fmt"}


def decide(atom, facts):
    """truth of a normalised atom under facts: True, False or None"""
    if is_c(atom):
        return bool(cval(atom))
    if atom in facts:
        return facts[atom]
    if is_app(atom, "not"):
        r = decide(atom[2], facts)
        return None if r is None else not r
    if not is_app(atom):
        return None
    op = atom[1]
    if op in ("eq0", "lt0"):
        p = lin_parts(atom[2])
        return dec_lin(op, p, facts)
    if op in ("eq", "lt"):
        a, b = atom[2], atom[3]
        if op == "eq" and a[0] == "t" and b[0] == "t":
            sub = [decide(cmp_eq(x, y), facts) for x, y in zip(a[1], b[1])]
            return False if False in sub else True if all(sub) else None
        if op == "eq":
            if NONE in (a, b):
                r = facts.get(cmp_is(a, b))
                if r is False:
                    return False
            ca, cb = const_of(a, facts), const_of(b, facts)
            if ca is not None and cb is not None and (ca != a or cb != b):
                return cval(ca) == cval(cb)
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    # x is known (not) to be None / truthy
                    t = facts.get(A("truthy", x))
                    if t is not None and not is_app(x, "len"):
                        if cval(y) is None or cval(y) is False or cval(y) == 0 \
                                or cval(y) == "":
                            if t:
                                return False
                        elif not t:
                            return False
            r = facts.get(A("is", a, b), facts.get(A("is", b, a)))
            if r:
                return True
        pa, pb = lin_parts(a), lin_parts(b)
        if pa is not None and pb is not None:
            co = dict(pa[1])
            for k, v in pb[1].items():
                co[k] = co.get(k, 0) - v
            co = {k: v for k, v in co.items() if v}
            if co and (op == "lt" or any(is_num(t) for t in co)):
                return dec_lin("eq0" if op == "eq" else "lt0", (pa[0] - pb[0], co), facts)
        return None
    if op == "is":
        for x, y in ((atom[2], atom[3]), (atom[3], atom[2])):
            if is_c(y):
                c = const_of(x, facts)
                if c is not None:
                    return c == y
                t = facts.get(A("truthy", x))
                if t is True and not cval(y):
                    return False
                if t is False and cval(y):
                    return False
                if y == NONE:
                    if is_app(x) and x[1] in NEVERNONE or x[0] == "t":
                        return False
                    for a, v in facts.items():
                        if v and is_app(a, "isinst") and a[2] == x and a[3] != C("NoneType"):
                            return False
                    # attribute/method present facts do not matter
        return None
    if op == "truthy":
        x = atom[2]
        c = const_of(x, facts)
        if c is not None:
            return bool(cval(c))
        if is_app(x, "len"):
            return decide(A("truthy", x[2]), facts)
        return None
    if op == "isinst":
        x, tn = atom[2], atom[3]
        if is_c(tn):
            tn = cval(tn)
            c = const_of(x, facts)
            if c is not None:
                r = type_rel(c[1], tn)
                return True if r == "sub" else (False if r == "dis" else None)
            for a, v in facts.items():
                if is_app(a, "isinst") and a[2] == x and is_c(a[3]):
                    r = type_rel(cval(a[3]), tn)
                    if v and r == "sub":
                        return True
                    if v and r == "dis":
                        return False
                    if not v and type_rel(tn, cval(a[3])) == "sub":
                        return False
        return None
    if op == "in":
        k, m = atom[2], atom[3]
        if is_app(k, "elem") and k[2] == m:
            return True
        return None
    return None


def dec_lin(op, p, facts):
    if p is None or not p[1]:
        return None
    form, c, sg = canon_lin(*p)
    lo, hi, holes = interval(form, facts)
    if op == "eq0":
        v = -c * sg
        if v in holes or (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
        if lo is not None and lo == hi == v:
            return True
        return None
    if sg == 1:                      # F < -c
        if hi is not None and hi < -c:
            return True
        if lo is not None and lo >= -c:
            return False
    else:                            # F > c
        if lo is not None and lo > c:
            return True
        if hi is not None and hi <= c:
            return False
    return None


def const_set(t):
    """constant members of a set-like term in order, or None"""
    if is_app(t, "dkeys") and is_app(t[2], "dict"):
        out = []
        for p in t[2][2]:
            if p[0] != "kv" or not is_c(p[1]):
                return None
            if p[1] not in out:
                out.append(p[1])
        return out
    if is_app(t, "set") and all(p[0] == "1" and is_c(p[1]) for p in t[2]):
        return [p[1] for p in t[2]]
    return None
