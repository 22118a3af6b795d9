"""V01 downcasting, V02 duplicate columns, V03 downcasting dataframes."""
import re
from . import prop
from .lib import *

# ------------------------------------------------------------- V01
REDUCE = {"min": "min", "max": "max", "nanmin": "min", "nanmax": "max", "amin": "min", "amax": "max"}
OTHER = {"mean", "nanmean", "median", "nanmedian", "average", "percentile", "quantile", "std", "nanstd"}
ABS = {"numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs"}
ARRF = {"numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.copy", "numpy.ravel",
        "numpy.atleast_1d", "numpy.ascontiguousarray"}


class Data:
    """classifies terms about the array handed to downcast"""

    def __init__(self, root):
        self.root = root

    def base(self, t):
        """the whole input as an array"""
        while True:
            if t == self.root:
                return True
            if is_app(t, "copyof"):
                t = t[2]
            elif is_app(t, "attr") and t[3] in ("values", "array"):
                t = t[2]
            elif is_app(t, "call") and t[2][0] == "x" and t[2][1] in ARRF and len(t[3]) == 1:
                t = t[3][0]
            elif is_app(t, "call") and is_app(t[2], "attr") and not t[3] and \
                    t[2][3] in ("to_numpy", "copy", "ravel", "flatten"):
                t = t[2][2]
            else:
                return False

    def kind(self, t):
        """'all', 'finite' or 'nonzero' part of the input, else None"""
        if self.base(t):
            return "all"
        if is_app(t, "copyof"):
            return self.kind(t[2])
        if is_app(t, "item"):
            src, m = self.kind(t[2]), self.mask(t[3])
            if src is None or m is None:
                return None
            order = ("all", "finite", "nonzero")
            ks = {src} | m[0]
            if m[1] is not None and m[1] != src and src != "all":
                return None
            if "nonzero" in ks and not ks & {"finite"} and not self.finite_src(t[2]):
                return "nonzero?"
            return max((k for k in ks if k in order), key=order.index)
        return None

    def finite_src(self, t):
        return self.kind(t) in ("finite", "nonzero")

    def mask(self, m):
        """({restrictions}, part of the input the mask is over)"""
        if is_app(m, "and") or is_app(m, "bitand"):
            a, b = self.mask(m[2]), self.mask(m[3])
            return (a[0] | b[0], a[1]) if a and b and a[1] == b[1] else None
        if is_app(m, "call") and m[2] == X("numpy.isfinite") and len(m[3]) == 1:
            k = self.kind(m[3][0])
            return ({"finite"}, k) if k else None
        if is_app(m, "call") and m[2] == X("numpy.logical_and") and len(m[3]) == 2:
            a, b = self.mask(m[3][0]), self.mask(m[3][1])
            return (a[0] | b[0], a[1]) if a and b and a[1] == b[1] else None
        if is_app(m, "not"):
            n = m[2]
            if is_app(n, "eq") and (C(0) in n[2:] or C(0.0) in n[2:]):
                k = self.kind(next(x for x in n[2:] if not is_c(x)))
                return ({"nonzero"}, k) if k else None
            if is_app(n, "eq0"):
                k = self.kind(n[2])
                return ({"nonzero"}, k) if k else None
        if is_app(m, "call") and is_app(m[2], "attr") and m[2][3] == "astype" and m[3] == (X("builtins.bool"),):
            k = self.kind(m[2][2])
            return ({"nonzero"}, k) if k else None
        if is_app(m, "call") and m[2] in (X("numpy.nonzero"), X("numpy.flatnonzero")) and len(m[3]) == 1:
            k = self.kind(m[3][0])
            return ({"nonzero"}, k) if k else None
        if is_app(m, "call") and is_app(m[2], "attr") and m[2][3] == "nonzero" and not m[3]:
            k = self.kind(m[2][2])
            return ({"nonzero"}, k) if k else None
        return None

    def partial(self, t):
        """is this the extreme of the data's magnitudes, or another summary of them?"""
        r = self.reduced(t)
        if r is None or r[0] not in set(REDUCE) | OTHER:
            return False
        x = r[1]
        while is_app(x, "call") and x[2][0] == "x" and x[2][1] in ABS and len(x[3]) == 1:
            x = x[3][0]
        return self.kind(x) is not None

    def reduced(self, t):
        """(reduction name, its argument) of a term, else None"""
        if not is_app(t, "call"):
            return None
        f = t[2]
        if f[0] == "x" and f[1].startswith(("numpy.", "builtins.")) and len(t[3]) == 1:
            return f[1].split(".")[-1], t[3][0]
        if is_app(f, "attr") and not t[3]:
            return f[3], f[2]
        return None

    def extreme(self, t):
        """'min'/'max' over (at least) every nonzero finite value"""
        r = self.reduced(t)
        if r and r[0] in REDUCE and self.kind(r[1]) in ("all", "finite", "nonzero"):
            return REDUCE[r[0]]
        return None

    def cast(self, t):
        """(part, type term) of a converted part of the input"""
        if is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "astype" and t[3]:
            k = self.kind(t[2][2])
            return (k, t[3][0]) if k else None
        if is_app(t, "call") and t[2][0] == "x" and t[2][1] in ARRF and len(t[3]) == 2 and self.kind(t[3][0]):
            return self.kind(t[3][0]), t[3][1]
        return None

    def diff(self, t):
        """(part, type) when t is data - cast(data) either way round"""
        if is_app(t, "sub"):
            a, b = t[2], t[3]
        elif is_app(t, "call") and t[2] == X("numpy.subtract") and len(t[3]) == 2:
            a, b = t[3]
        else:
            return None
        for x, y in ((a, b), (b, a)):
            c, k = self.cast(y), self.kind(x)
            if c and k:
                return (k, c[1]) if c[0] == k else ("mixed", c[1])
        return None

    def error(self, t):
        """('abs'|'rel'|'weak', type, why) describing an error measure, else None"""
        if is_app(t, "div"):
            e, r = self.error(t[2]), self.reduced(t[3])
            if e is None or e[0] == "rel" or r is None:
                return None
            x = r[1]
            while is_app(x, "call") and x[2][0] == "x" and x[2][1] in ABS and len(x[3]) == 1:
                x = x[3][0]
            if self.kind(x) is None or r[0] not in set(REDUCE) | OTHER and r[0] not in ABS_NAMES:
                return None
            if r[0] in ABS_NAMES:
                r = self.reduced(r[1])
                if r is None:
                    return None
            elif e[0] == "abs" and REDUCE.get(r[0]) == "min" and x != r[1] and self.kind(x) == "nonzero":
                return "rel", e[1], ""
            return "weak", e[1], f"the error is held against the {r[0]} of the data, not against each value"
        r = self.reduced(t)
        if r is None:
            return None
        name, x = r
        strict = name in REDUCE and REDUCE[name] == "max"
        outer = 0
        while is_app(x, "call") and x[2][0] == "x" and x[2][1] in ABS and len(x[3]) == 1:
            x, outer = x[3][0], outer + 1
        num, den = x, None
        if is_app(x, "div"):
            num, den = x[2], x[3]
        elif is_app(x, "call") and x[2][0] == "x" and x[2][1] in ("numpy.divide", "numpy.true_divide") \
                and len(x[3]) == 2:
            num, den = x[3]
        nabs = dabs = 0
        while is_app(num, "call") and num[2][0] == "x" and num[2][1] in ABS and len(num[3]) == 1:
            num, nabs = num[3][0], nabs + 1
        if den is not None:
            while is_app(den, "call") and den[2][0] == "x" and den[2][1] in ABS and len(den[3]) == 1:
                den, dabs = den[3][0], dabs + 1
        d = self.diff(num)
        if d is None:
            return None
        which = "abs" if den is None else "rel"
        if not strict:
            if name in OTHER or REDUCE.get(name) == "min":
                return "weak", d[1], f"the {name} of the errors, not the largest, is compared"
            return None
        if d[0] == "mixed":
            return None
        if d[0] not in ("nonzero", "finite", "all"):
            return None
        if den is None and not outer and not nabs:
            return "weak", d[1], "errors are compared with their sign"
        if den is not None:
            if not outer and not (nabs and dabs):
                return "weak", d[1], "relative errors are compared with their sign"
            if self.kind(den) is None and self.cast(den) is None:
                return None
        return which, d[1], ""


def limits(dt):
    """(lo, hi) constants, or None"""
    k = M.known_dtype(dt)
    if k is None:
        return None
    if k[0] == "u":
        return 0, 2 ** k[1] - 1
    if k[0] == "i":
        return -2 ** (k[1] - 1), 2 ** (k[1] - 1) - 1
    if k == ("f", 16):
        return -65504, 65504
    if k == ("f", 32):
        return -3.4028234663852886e38, 3.4028234663852886e38
    if k == ("f", 64):
        return -1.7976931348623157e308, 1.7976931348623157e308
    return None


def within(x, dt, side):
    """is limit term x inside the type's own limit on that side? True/False/None"""
    d = M.known_dtype(dt)
    if is_c(x) and not isinstance(cval(x), (str, bytes, type(None))):
        l = limits(dt)
        if l is None:
            return None
        return cval(x) >= l[0] if side == "min" else cval(x) <= l[1]
    if is_app(x, "attr") and x[3] in ("min", "max", "smallest_normal", "tiny") and is_app(x[2], "call") \
            and x[2][2] in (X("numpy.finfo"), X("numpy.iinfo")):
        e = M.known_dtype(x[2][3][0])
        if x[2][3][0] == dt or e is not None and e == d:
            return x[3] == side
        if e is not None and d is not None and e[0] == d[0] == "f":
            return x[3] == side and e[1] <= d[1]
    return None


def facts_list(s):
    out = []
    for a, v in s.facts.items():
        while is_app(a, "not"):
            a, v = a[2], not v
        if is_app(a, "lt0") and is_app(a[2], "lin"):
            continue
        out.append((a, v))
    return out


def bounded(D, facts, dt, side):
    """do the facts bound the data by the type's limit? True/False (recognised, wrong)/None"""
    wrong = None
    for a, v in facts:
        if not is_app(a, "lt"):
            continue
        l, r = a[2], a[3]
        # value on the data side and the limit it is held against
        for x, y, rel in ((l, r, "lt"), (r, l, "gt")):
            e = D.extreme(x)
            if e is None:
                continue
            # facts: x < y (True) / x >= y (False) when rel is lt
            upper = (rel == "lt") == v            # x < y or x <= y
            if side == "min" and not upper and e == "min":
                w = within(y, dt, "min")
                if w:
                    return True
                wrong = False if w is False else wrong
            if side == "max" and upper and e == "max":
                w = within(y, dt, "max")
                if w:
                    return True
                wrong = False if w is False else wrong
            # the smallest value above the type's minimum bounds the largest from neither side
    return wrong


def special(D, a):
    """('nan'|'inf', sense) when the fact says that some value of the whole input is of that kind"""
    sense = True
    if is_app(a, "eq0"):
        t, sense = a[2], False
    elif is_app(a, "eq") and C(0) in a[2:]:
        t, sense = a[3] if a[2] == C(0) else a[2], False
    elif is_app(a, "lt") and a[2] == C(0):
        t = a[3]
    elif is_app(a, "truthy"):
        t = a[2]
    else:
        return None
    r = D.reduced(t)
    if r is None or r[0] not in ("any", "sum", "count_nonzero", "max"):
        return None
    m = r[1]
    if is_app(m, "call") and m[2][0] == "x" and len(m[3]) == 1 and D.kind(m[3][0]) == "all":
        k = {"numpy.isnan": "nan", "pandas.isna": "nan", "pandas.isnull": "nan", "numpy.isinf": "inf"}.get(m[2][1])
        return (k, sense) if k else None
    return None


def single(D, a):
    """a test of one element only"""
    xs = [x for x in subterms(a) if is_app(x, "item") and is_c(x[3]) and isinstance(cval(x[3]), int) and
          (D.kind(x[2]) or is_app(x[2], "attr") and x[2][3] == "flat" and D.kind(x[2][2]))]
    if not xs or a[1] not in ("lt", "lt0", "eq", "eq0", "truthy"):
        return False

    def rest(t):
        if t in xs:
            return S("element")
        return tuple(rest(x) for x in t) if isinstance(t, tuple) else t
    return not any(D.base(x) for x in subterms(rest(a)))


def close_call(D, a):
    """(type, rtol, atol) of a fact that says numpy.allclose of the data and their conversion"""
    if not (is_app(a, "truthy") and is_app(a[2], "call") and a[2][2] == X("numpy.allclose")):
        return None
    kw = dict(a[2][4])
    kw.update(zip(("a", "b", "rtol", "atol"), a[2][3]))
    x, y = kw.get("a"), kw.get("b")
    if x is None or y is None:
        return None
    for u, w in ((x, y), (y, x)):
        k, t = D.kind(u), D.cast(w)
        if k and t and t[0] == k:
            return t[1], kw.get("rtol", C(1e-5)), kw.get("atol", C(1e-8)), w == x
    return None


def known_atom(D, a):
    """is the meaning of this fact (about the data) understood by this rule?"""
    if is_app(a, "lt"):
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if D.extreme(x) and (is_c(y) or is_app(y, "attr")):
                return True
            if D.error(x) and y in (S("atol"), S("rtol")):
                return True
            if D.partial(x) and (is_c(y) or is_app(y, "attr")):
                return True
        sz = [x for x in a[2:] if is_app(x, "attr") and x[3] == "size" and D.kind(x[2])]
        if len(sz) == 2:
            return True
    if is_app(a, "hasattr"):
        return True
    if special(D, a) or single(D, a) or close_call(D, a):
        return True
    if is_app(a, "truthy") and D.reduced(a[2]):
        r = D.reduced(a[2])
        if r[0] == "any" and is_app(r[1], "call") and r[1][2] in (X("numpy.isnan"), X("numpy.isinf")) \
                and r[1][3] and D.kind(r[1][3][0]) in ("finite", "nonzero"):
            return True                           # never true
    if about_type(D, a):
        return True
    if size_zero(D, a) is not None:
        return True
    return False


def about_type(D, a):
    """facts that only concern the type of the input"""
    rest = [s for s in subterms(a) if D.base(s)]
    if not rest:
        return False

    def strip(t):
        if not isinstance(t, tuple) or not t:
            return t
        if is_app(t, "attr") and t[3] in ("dtype",) and D.base(t[2]):
            return S("dtype")
        return tuple(strip(x) for x in t)
    b = strip(a)
    return not any(D.base(s) or s == D.root for s in subterms(b))


def size_zero(D, a):
    """(part) when the fact says that part of the input is empty"""
    if is_app(a, "eq0") or is_app(a, "eq") and C(0) in a[2:]:
        x = a[2] if is_app(a, "eq0") else next((y for y in a[2:] if y != C(0)), a[2])
        if is_app(x, "lin"):
            return None
        if is_app(x, "attr") and x[3] == "size":
            return D.kind(x[2]), True
        if is_app(x, "len"):
            return D.kind(x[2]), True
    if is_app(a, "truthy"):
        x = a[2]
        if is_app(x, "attr") and x[3] == "size":
            x = x[2]
        k = D.kind(x)
        if k:
            return k, False
    if is_app(a, "lt"):
        x, y = a[2], a[3]
        if is_app(x, "attr") and x[3] == "size" and y == C(1) and D.kind(x[2]):
            return D.kind(x[2]), True
        if is_app(y, "attr") and y[3] == "size" and x == C(0) and D.kind(y[2]):
            return D.kind(y[2]), False
    return None


def sized(D, a):
    """parts of the data whose size this fact is about"""
    for x in subterms(a):
        if is_app(x, "attr") and x[3] in ("size", "shape", "empty") or is_app(x, "len"):
            if D.kind(x[2]):
                yield x[2]
    if is_app(a, "truthy") and D.kind(a[2]):
        yield a[2]


def empties(D, facts):
    out = set()
    for a, v in facts:
        z = size_zero(D, a)
        if z and z[0] and z[1] == v:
            out.add(z[0])
    return out


def all_finite(D, facts):
    """True / False / None: do the facts say that every value is finite?"""
    odd = {}
    for a, v in facts:
        z = special(D, a)
        if z:
            odd[z[0]] = z[1] == v
    if odd.get("nan") is False and odd.get("inf") is False:
        return True
    for a, v in facts:
        if is_app(a, "eq0") and is_app(a[2], "lin") and a[2][2] == 0:
            two = dict(a[2][3])
            if sorted(two.values()) == [-1, 1] and all(is_app(x, "len") for x in two) and \
                    {D.kind(x[2]) for x in two} == {"finite", "all"}:
                return v
        if is_app(a, "lt"):
            l, r = a[2], a[3]
            if all(is_app(x, "attr") and x[3] == "size" for x in (l, r)):
                if (D.kind(l[2]), D.kind(r[2])) == ("finite", "all"):
                    return not v
            lens = [x for x in (l, r) if is_app(x, "len")]
            if len(lens) == 2 and (D.kind(l[2]), D.kind(r[2])) == ("finite", "all"):
                return not v
        if is_app(a, "eq") and all(is_app(x, "attr") and x[3] == "size" or is_app(x, "len") for x in a[2:]):
            if {D.kind(x[2]) for x in a[2:]} == {"finite", "all"}:
                return v
        if is_app(a, "truthy") and is_app(a[2], "call"):
            r = D.reduced(a[2])
            if r and r[0] == "all":
                m = D.mask(r[1])
                if m and m[0] == {"finite"} and m[1] == "all":
                    return v
            if r and r[0] == "any" and is_app(r[1], "not") or r and r[0] == "any" and is_app(r[1], "inv"):
                m = D.mask(r[1][2])
                if m and m[0] == {"finite"} and m[1] == "all":
                    return not v
    return None


def int_input(D, facts):
    """do the facts say whether the input is of an integer type?"""
    for a, v in facts:
        if is_app(a, "in") and is_app(a[2], "attr") and a[2][3] == "kind" and is_app(a[2][2], "attr") \
                and a[2][2][3] == "dtype" and D.base(a[2][2][2]):
            if is_c(a[3]) and set(cval(a[3])) <= set("ui"):
                if v:
                    return True
                if set(cval(a[3])) == set("ui"):
                    return False
            if a[3][0] == "t" and all(is_c(x) and cval(x) in ("u", "i") for x in a[3][1]):
                if v:
                    return True
                if len(a[3][1]) == 2:
                    return False
        if is_app(a, "eq") and v and any(x in (C("u"), C("i")) for x in a[2:]):
            y = next((x for x in a[2:] if not is_c(x)), None)
            if y is not None and is_app(y, "attr") and y[3] == "kind" and about_type(D, y):
                return True
        if is_app(a, "truthy") and is_app(a[2], "call") and a[2][2] == X("numpy.issubdtype") and len(a[2][3]) == 2:
            if a[2][3][1] == X("numpy.integer") and about_type(D, a[2][3][0]):
                return v
    return None


def same_type(D, facts, dt):
    """do the facts say that the target type is the input's own?"""
    for a, v in facts:
        if is_app(a, "eq") and v and dt in a[2:]:
            y = a[3] if a[2] == dt else a[2]
            if is_app(y, "attr") and y[3] == "dtype" and D.base(y[2]):
                return True
    return False


def unwrap(t):
    """the array inside a Series, and the name it was given"""
    if is_app(t, "call") and t[2] == X("pandas.Series") and t[3]:
        return t[3][0], dict(t[4])
    return t, None


@prop("V01", "Path-sensitive value flow through downcast for every library and nullable-integer option, the "
      "candidate types unrolled: on every path that returns data of another type, the path conditions must bound "
      "the data's minimum and maximum by that type's limits and, for inexact input, bound the largest absolute "
      "and relative error of that very conversion by the caller's tolerances.")
def v01(c):
    q = "pivot.downcast"
    f = c.repo.func(q)
    loc = fn_loc(c.repo, q)
    c.rule("range", "a new type is accepted only after both ends of the data were found inside its limits")
    c.rule("tolerance", "for inexact input a new type is accepted only after both errors of that conversion were "
           "found within the caller's tolerances")
    c.rule("nonfinite", "data with nonfinite values never becomes a plain integer type")
    c.rule("empty", "the data's extremes are taken only where there are data")
    c.rule("form", "every successful return has the recast data and its two errors")
    for lib, nil in (("numpy", False), ("pandas", False), ("pandas", True)):
        with c.group(f"{lib}, nullable integers {nil}"):
            I = c.interp(budget=3000000)
            D = Data(S("arr"))
            names = f.params()
            given = {"arr": S("arr"), "atol": S("atol"), "rtol": S("rtol"), "library": C(lib),
                     "use_nillable_int": C(nil)}
            outs = c.run(I, q, [], [(p, given[p]) for p in names if p in given])
            n = 0
            for k, v, s in outs:
                if k != "return":
                    continue
                n += 1
                one(c, I, D, I.freeze(v, s), s, loc, lib, nil)
            if not n:
                raise Undecided("downcast", "no returning path")
    bounds_check(c)


def one(c, I, D, v, s, loc, lib, nil):
    fields = {cval(p[1]): p[2] for p in parts(v) or () if p[0] == "kv" and is_c(p[1])} if is_app(v, "dict") else None
    if fields is None:
        if not (D.base(unwrap(v)[0]) or D.cast(unwrap(v)[0])) and (opaque_parts(v) or is_app(v, "call")):
            raise Undecided("form", show(v)[:80])
        c.bad("form", "form", loc, f"downcast returns {show(v)[:60]}, not the recast data with its errors", s.events())
        return
    miss = [x for x in ("recast", "aerr", "rerr") if x not in fields]
    if not c.must(not miss, "form", "form", loc, f"the result lacks {', '.join(miss)}", s.events()):
        return
    facts = facts_list(s)
    arr, ser = unwrap(fields["recast"])
    if D.base(arr):
        c.ok("unchanged type")
        return
    cast = D.cast(arr)
    if cast is None:
        if D.kind(arr) in ("finite", "nonzero"):
            c.bad("recast", "form", loc, f"the recast data are only the {D.kind(arr)} values", s.events())
            return
        raise Undecided("recast", show(arr)[:100])
    part, dt = cast
    if part != "all":
        c.bad("recast", "form", loc, f"the recast data are only the {part} values", s.events())
        return
    if same_type(D, facts, dt) or is_app(dt, "attr") and dt[3] == "dtype" and D.base(dt[2]):
        c.ok("unchanged type")
        return
    kind = M.known_dtype(dt)
    nullable = is_app(dt, "call") and dt[2][0] == "x" and dt[2][1].startswith("pandas.") or \
        mentions(dt, X("pandas"))
    if kind is None and not nullable:
        raise Undecided("type", show(dt)[:80])
    if nullable and not nil:
        c.bad("nullable", "nonfinite", loc, "a nullable type is chosen although none was asked for", s.events())
        return
    empty = empties(D, facts)
    strange = [a for a, v in facts if any(D.base(x) for x in subterms(a)) and not known_atom(D, a)
               and all_finite(D, [(a, v)]) is None]
    isint = int_input(D, facts)
    nm = show(dt)
    # nonfinite values
    if isint is not True and kind is not None and kind[0] in "uib":
        fin = all_finite(D, facts)
        if fin is None and not strange or fin is False:
            c.bad("nonfinite", "nonfinite", loc, "data that may hold nonfinite values become a plain integer type",
                  s.events())
            return
        if fin is None:
            raise Undecided("nonfinite", show(strange[0])[:80])
        c.ok("nonfinite")
    if empty & {"nonzero", "finite", "all"}:
        if "nonzero" in empty and not empty & {"finite", "all"} or "all" in empty:
            c.ok("only zeros")
            return
        if kind is not None and kind[0] == "f":
            c.ok("no finite values")
            return
    # reductions of empty data fail
    order = ("nonzero", "finite", "all")
    used = {D.kind(D.reduced(x)[1]) for a, v in facts if is_app(a, "lt") for x in a[2:] if D.extreme(x)}
    for part in used:
        sizes = [D.kind(y) for a, v in facts for y in sized(D, a)]
        if part in order and not any(k in order and order.index(k) <= order.index(part) for k in sizes):
            if strange:
                raise Undecided("empty", show(strange[0])[:80])
            c.bad("empty", "empty", loc, f"the extremes of the {part} values are taken without finding that "
                  "there are any", s.events())
            return
    c.ok("empty")
    # range
    for side in ("min", "max"):
        b = bounded(D, facts, dt, side)
        if b is not True:
            if nullable:
                raise Undecided("range", f"limits of {nm}")
            if strange:
                raise Undecided("range", show(strange[0])[:80])
            c.bad("range", "range", loc, f"{nm} is accepted without finding the data's "
                  f"{'smallest' if side == 'min' else 'largest'} value within its limits", s.events())
            return
    c.ok("range")
    # tolerance
    if isint is True and (kind is None or kind[0] in "ui"):
        c.ok("exact conversion")
        return
    if isint is None and strange:
        raise Undecided("tolerance", show(strange[0])[:80])
    for tol, which in (("atol", "abs"), ("rtol", "rel")):
        good, why = False, None
        for a, v in facts:
            cl = close_call(D, a)
            if cl and v and (cl[0] == dt or M.known_dtype(cl[0]) == kind is not None or nullable):
                mine, other = (cl[2], cl[1]) if tol == "atol" else (cl[1], cl[2])
                if mine == S(tol) and other in (C(0), C(0.0)):
                    if tol == "atol" or cl[3]:
                        good = True
                elif mine == S(tol):
                    why = ("bad", "the error is held against the sum of both tolerances")
            if not is_app(a, "lt") or S(tol) not in a[2:]:
                continue
            y = a[3] if a[2] == S(tol) else a[2]
            upper = (a[3] == S(tol)) == v         # y < tol or y <= tol
            e = D.error(y)
            if e is None:
                why = why or ("?", show(y)[:80])
                continue
            if not upper:
                continue
            if e[0] == "weak":
                why = ("bad", e[2])
            elif e[0] != which:
                why = ("bad", f"the {e[0]}. error is held against {tol}")
            elif e[1] != dt and (M.known_dtype(e[1]) != kind or kind is None) and not nullable:
                why = ("bad", f"the error of a conversion to {show(e[1])} is checked")
            else:
                good = True
        if good:
            c.ok(f"{tol}")
            continue
        if why and why[0] == "?":
            raise Undecided(tol, why[1])
        if strange:
            raise Undecided(tol, show(strange[0])[:80])
        c.bad(tol, "tolerance", loc, f"{nm} is accepted although "
              + (why[1] if why else f"no error was found within {tol}"), s.events())
        return
    for key, which in (("aerr", "abs"), ("rerr", "rel")):
        e = D.error(fields[key])
        if e is None and is_c(fields[key]):
            c.bad(key, "form", loc, f"the {key} reported for an inexact conversion is a constant", s.events())
        elif e is not None and e[0] != which:
            c.bad(key, "form", loc, f"the {key} reported is another error", s.events())
        else:
            c.ok(key)


def bounds_check(c):
    """check_in_dtype_bounds says yes only for bounds inside the type's limits"""
    q = "pivot.check_in_dtype_bounds"
    f = c.repo.func(q)
    loc = fn_loc(c.repo, q)
    with c.group("check_in_dtype_bounds"):
        for nm in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32"):
            dt = A("call", X("numpy.dtype"), (C(nm),), ())
            D = Bounds()
            I = c.interp(raises=lambda kind, fv: ())
            for k, v, s in c.run(I, q, [S("amin"), S("amax"), dt]):
                if k != "return":
                    continue
                facts = dict(s.facts)
                if v == FALSE or v == NONE:
                    continue
                if v != TRUE:
                    if v[0] == "c" or opaque_parts(v):
                        raise Undecided(nm, show(v)[:80])
                    facts[v] = True
                fl = []
                for a, t in facts.items():
                    while is_app(a, "not"):
                        a, t = a[2], not t
                    if is_app(a, "and") and t:
                        fl += [(x, True) for x in a[2:] if isinstance(x, tuple)]
                        continue
                    fl.append((a, t))
                fl = [(a[2], not t) if is_app(a, "not") else (a, t) for a, t in fl]
                odd = [a for a, t in fl if any(x in (S("amin"), S("amax")) for x in subterms(a))
                       and not is_app(a, "lt")]
                for side in ("min", "max"):
                    b = bounded(D, fl, dt, side)
                    if b is not True and odd:
                        raise Undecided(nm, show(odd[0])[:80])
                    c.must(b is True, nm, "range", loc,
                           f"values are said to fit a type without finding the "
                           f"{'smallest' if side == 'min' else 'largest'} within its limits", s.events())


class Bounds:
    def extreme(self, t):
        return {S("amin"): "min", S("amax"): "max"}.get(t)


ABS_NAMES = {x.split(".")[-1] for x in ABS}


# ------------------------------------------------------------- V02
AGG = {"sum", "mean", "min", "max", "count", "median", "std", "var", "nunique", "head", "tail", "sample",
       "describe", "first", "last", "prod", "any"}


def every(a, df):
    """all(comparison for each repeated name)"""
    while is_app(a, "truthy"):
        a = a[2]
    if is_app(a, "all"):
        ps = parts(a[2])
        if ps and len(ps) == 1 and ps[0][0] == "many" and about_names(ps[0][1], df):
            rs = set()
            for facts, items in variants(ps[0]):
                rs |= {comparison(norm_col(x[1], df), df) if x[0] == "1" else None for x in items} or {None}
            return rs == {"equal"}
    return False


def norm_col(t, df):
    """df[name] and df.loc[:, name] are the same selection"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(norm_col(x, df) for x in t)
    full = A("slice", NONE, NONE, NONE)
    if is_app(t, "item") and t[2] == df:
        return A("item", A("attr", df, "loc"), T(full, t[3]))
    return t


def operand(t, df, full):
    """'whole' (all same-named columns), 'one' (a constant column), 'each' (columns in turn),
    'part' (not every row), None"""
    if is_app(t, "item") and t[2] == A("attr", df, "loc") and t[3][0] == "t":
        return "whole" if t[3][1][0] == full else "part"
    if is_app(t, "item") and is_app(t[2], "attr") and t[2][3] in ("iloc", "loc"):
        src = operand(t[2][2], df, full)
        k = t[3]
        if src is None:
            return None
        if k[0] != "t":
            return "part"
        if k[1][0] != full:
            return "part"
        if is_c(k[1][1]):
            return "one" if src == "whole" else src
        if is_app(k[1][1], "slice"):
            hi = k[1][1][3] if len(k[1][1]) > 3 else NONE
            if is_c(hi) and isinstance(cval(hi), int) and cval(hi) > 0:
                return "part"    # any further columns of that name are left out
            return "some" if k[1][1] != full else src
        return "each"
    if is_app(t, "call") and is_app(t[2], "attr"):
        src = operand(t[2][2], df, full)
        if src is None:
            return None
        if t[2][3] in AGG:
            return "part"
        if t[2][3] in ("copy", "fillna", "astype", "to_numpy"):
            return src if t[2][3] in ("copy", "to_numpy") else None
        return None
    if is_app(t, "attr") and t[3] in ("values",):
        return operand(t[2], df, full)
    if is_app(t, "attr") and t[3] in ("dtypes", "dtype", "shape", "size", "columns", "index", "name"):
        return "part" if operand(t[2], df, full) else None
    return None


def comparison(t, df, pol=True):
    """'equal': a fact that the same-named columns agree; 'weak'/'self' (why) or None"""
    full = A("slice", NONE, NONE, NONE)
    while True:
        if is_app(t, "truthy"):
            t = t[2]
        elif is_app(t, "not"):
            t, pol = t[2], not pol
        elif is_app(t, "is") or is_app(t, "eq") and (TRUE in t[2:] or FALSE in t[2:]):
            o = [x for x in t[2:] if x not in (TRUE, FALSE)]
            if len(o) != 1:
                break
            pol = pol if TRUE in t[2:] else not pol
            t = o[0]
        elif is_app(t, "call") and t[2] == X("builtins.bool") and len(t[3]) == 1:
            t = t[3][0]
        else:
            break
    quant, filled, strict = [], None, False
    while True:
        if is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "fillna" and len(t[3]) == 1 \
                and t[3][0] in (TRUE, FALSE):
            filled, t = t[3][0] == TRUE, t[2][2]
        elif is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "astype":
            t, strict = t[2][2], True
        elif is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "to_numpy":
            t, strict = t[2][2], True
        elif is_app(t, "call") and is_app(t[2], "attr") and t[2][3] in ("all", "any"):
            quant.append(t[2][3])
            strict = strict or ("skipna", FALSE) in t[4]
            t = t[2][2]
        elif is_app(t, "call") and t[2] in (X("numpy.all"), X("builtins.all"), X("numpy.any"), X("builtins.any")) \
                and t[3]:
            quant.append(t[2][1].split(".")[1])
            strict = strict or t[2][1].startswith("builtins")
            t = t[3][0]
        elif is_app(t, "attr") and t[3] == "values":
            t, strict = t[2], True
        else:
            break
    op = None
    if t == TRUE and quant:
        return "self"
    if is_app(t, "call") and is_app(t[2], "attr") and t[2][3] in ("eq", "equals", "ne") and t[3]:
        op, a, b = t[2][3], t[2][2], t[3][0]
    elif is_app(t, "call") and t[2] == X("numpy.array_equal") and len(t[3]) >= 2:
        op, a, b = "equals", t[3][0], t[3][1]
    elif is_app(t, "eq"):
        op, a, b = "eq", t[2], t[3]
    else:
        return None
    if op == "ne":
        if pol or set(quant) != {"any"}:
            return None
    elif not pol:
        return None
    if a == b:
        return "self"
    oa, ob = operand(a, df, full), operand(b, df, full)
    if oa is None or ob is None:
        return None
    if "any" in quant and op != "ne":
        return "weak: one equal cell is enough"
    if "part" in (oa, ob):
        return "weak: not every value is compared"
    if oa == ob == "one":
        return "weak: only two of the same-named columns are compared"
    if op != "equals" and (filled is not (op == "ne") if filled is not None else not strict):
        return "weak: a value missing from a nullable column counts as equal to any"
    if {oa, ob} & {"whole", "each"}:
        return "equal"
    return None


@prop("V02", "Path-sensitive analysis of check_and_drop_duplicate_columns: every path that drops columns must run a "
      "loop over the repeated names in which each iteration that does not raise has found, as a path condition, "
      "all values of the same-named columns equal to one of them.")
def v02(c):
    q = "pivot.check_and_drop_duplicate_columns"
    loc = fn_loc(c.repo, q)
    c.rule("one of each", "one column of each name stays, and all are looked at when any name is repeated")
    c.rule("compared", "a column is dropped only after its values were compared with a same-named column's")
    with c.group("check_and_drop_duplicate_columns"):
        I = c.interp()
        df = S("dataframe")
        drops = 0
        outs = c.run(I, q, [df])
        for k, v, s in outs:
            if k == "raise":
                if exc_kind(v) != "ValueError":
                    c.bad("error", "compared", loc, f"unequal columns raise {exc_kind(v)}", s.events())
                continue
            v = I.freeze(v, s)
            if v == df or is_app(v, "copyof") and v[2] == df:
                n = next((n for n in (1, 2, 3) if repeats_possible(s.facts, df, n)), None)
                c.must(n is None, "nothing dropped", "one of each", loc,
                       f"nothing is dropped or compared when {n} columns repeat a name", s.events())
                continue
            kept(c, v, df, loc, s.events())
            drops += 1
            loops = [e for e in flat(s.events()) if e[0] == "loop"]
            facts = [norm_col(a, df) if t else neg(norm_col(a, df)) for a, t in s.facts.items()]
            outer = [comparison(a, df) for a in facts]
            if "equal" in outer or any(every(a, df) for a in facts):
                c.ok("compared outside a loop")
                continue
            if not loops:
                if any(mentions(a, A("attr", df, "loc")) or is_app(a, "truthy") and is_app(a[2], "call")
                       and a[2][2] in (X("builtins.all"), X("builtins.any")) for a in facts) or opaque_parts(v):
                    raise Undecided("comparison", "no loop over the repeated names")
                cond = [a for a in facts if not dup_test(a, df)]
                if cond:
                    raise Undecided("comparison", show(cond[0])[:100])
                c.bad("compared", "compared", loc, "columns are dropped on a path that compares no values", s.events())
                continue
            decided = False
            for e in loops:
                if not about_names(e[2], df):
                    continue
                cut = [x for x in subterms(e[2]) if is_app(x, "item") and is_app(x[3], "slice")
                       and mentions(x[2], A("attr", df, "columns")) and all(map(is_c, x[3][2:]))
                       and (x[3][2] not in (NONE, C(0)) or x[3][3] != NONE)]
                if cut:
                    c.bad("compared", "compared", loc, "only some of the repeated names are compared: "
                          + show(cut[0])[-60:], s.events())
                    decided = True
                    continue
                inner = [x for x in loops if x is not e and inside(x, e)]
                for kind, fs, ev, up, val in body_paths(e):
                    if kind not in ("next", "continue", "break"):
                        continue
                    found, odd = None, None
                    for a, t in fs.items():
                        a = norm_col(a, df)
                        r = comparison(a if t else neg(a), df)
                        if r == "equal":
                            found = r
                        elif r:
                            odd = odd or r
                        elif comparison(neg(a) if t else a, df) == "equal":
                            odd = odd or "weak: they were found to differ"
                        elif rows_only(a, df):
                            odd = odd or "weak: only some numbers of rows are compared"
                        elif mentions_values(a, df):
                            odd = odd or "?" + show(a)[:80]
                    if found is None and odd and odd[0] == "?":
                        raise Undecided("comparison", odd[1:])
                    if found is None and inner:
                        raise Undecided("comparison", "nested loop")
                    decided = True
                    if kind == "break" :
                        c.bad("compared", "compared", loc, "the comparison stops before every repeated name was "
                              "compared", s.events())
                    elif found is None and odd is None and dup_only(e[2], fs, df):
                        raise Undecided("comparison", show(e[2])[:80])
                    else:
                        c.must(found == "equal", "compared", "compared", loc,
                               "columns are dropped although their values were not compared"
                               + (f" ({'the data are compared with themselves' if odd == 'self' else odd[6:]})"
                                  if odd else ""), s.events())
            if not decided:
                raise Undecided("comparison", "loop over the repeated names not recognised")
        if not drops:
            raise Undecided("drop", "no path that drops columns")


def dup_names(t, df):
    return any(is_app(s, "call") and is_app(s[2], "attr") and s[2][3] == "duplicated"
               and s[2][2] == A("attr", df, "columns") for s in subterms(t))


def repeats_possible(facts, df, n):
    """are the conditions on the number of repeated names, all of them understood, true of n?"""
    seen = False
    for a, v in facts.items():
        a = strip_ids(a)
        if not mentions(a, A("attr", df, "columns")):
            continue
        if is_app(a, "truthy") and (dup_names(a[2], df)):
            r = n > 0
            if is_app(a[2], "call") and not (is_app(a[2][2], "attr") and a[2][2][3] in ("any", "sum", "duplicated")):
                return False
        elif is_app(a) and a[1] in ("eq", "lt", "le") and any(
                is_app(x, "len") and dup_names(x[2], df) for x in a[2:4]):
            p = [n if is_app(x, "len") else cval(x) if is_c(x) else None for x in a[2:4]]
            if not all(isinstance(x, int) for x in p):
                return False
            r = {"eq": p[0] == p[1], "lt": p[0] < p[1], "le": p[0] <= p[1]}[a[1]]
        elif is_app(a, "eq0") and is_app(a[2], "lin") and len(a[2][3]) == 1 and is_app(a[2][3][0][0], "len") \
                and dup_names(a[2][3][0][0][2], df):
            r = a[2][2] + n * a[2][3][0][1] == 0
        else:
            return False
        if r != v:
            return False
        seen = True
    return seen


def kept(c, v, df, loc, evs):
    """of the columns of one name, one stays and it is one of them"""
    t = v
    while is_app(t, "copyof") or is_app(t, "call") and is_app(t[2], "attr") and t[2][3] == "copy":
        t = t[2] if is_app(t, "copyof") else t[2][2]
    if not is_app(t, "item") or t[2] != A("attr", df, "loc") or t[3][0] != "t" or len(t[3][1]) != 2:
        return
    m, inv = t[3][1][1], False
    while is_app(m, "inv") or is_app(m, "not"):
        m, inv = m[2], not inv
    if not (is_app(m, "call") and is_app(m[2], "attr") and m[2][3] == "duplicated"
            and m[2][2] == A("attr", df, "columns")):
        return
    keep = dict(m[4]).get("keep", m[3][0] if m[3] else C("first"))
    if not is_c(keep):
        return
    c.must(inv and cval(keep) in ("first", "last"), "one of each name is kept", "one of each", loc,
           "the columns kept are the repeated ones" if not inv else
           "every column whose name is repeated is dropped, equal or not", evs)


def inside(x, e):
    return any(x is y for b in e[3] for y in flat(list(b[2])))


def dup_test(a, df):
    """conditions on whether any name is repeated"""
    return mentions(a, A("attr", df, "columns"))


def about_names(src, df):
    return mentions(src, A("attr", df, "columns"))


def dup_only(src, fs, df):
    """a loop over all columns that skips those that are not repeated"""
    return not any(is_app(s, "call") and is_app(s[2], "attr") and s[2][3] == "duplicated" for s in subterms(src)) \
        and bool(fs)


def rows_only(a, df):
    """a condition on the number of rows alone"""
    if not is_app(a, "lt") or not any(is_c(x) for x in a[2:]):
        return False
    x = next(y for y in a[2:] if not is_c(y))
    if is_app(x, "len") or is_app(x, "attr") and x[3] == "size" or is_app(x, "item") and x[3] == C(0) \
            and is_app(x[2], "attr") and x[2][3] == "shape":
        return operand(x[2], df, A("slice", NONE, NONE, NONE)) is not None or x[2] == df
    return False


def mentions_values(a, df):
    return any(s in (A("attr", df, "loc"), A("attr", df, "iloc")) for s in subterms(a))


# ------------------------------------------------------------- V03
@prop("V03", "Value flow through downcast_df with downcast as an opaque function: the list assembled over the "
      "summarised loop of columns is compared, per column and path, with the column itself or its downcast form, "
      "and the row labels given to that form with the column's own.")
def v03(c):
    q = "pivot.downcast_df"
    down = c.repo.func("pivot.downcast")
    f = c.repo.func(q)
    loc = fn_loc(c.repo, q)
    c.rule("columns", "the result has one column per input column, in order")
    c.rule("labels", "every column keeps the row labels of the input")
    c.rule("tolerance", "the caller's tolerances and options reach every column's conversion")
    for reassemble in (True, False):
        with c.group(f"three columns, reassemble={reassemble}"):
            v03_names(c, q, f, down, loc, reassemble)
        for copy_all in (True, False):
            for nil in (True, False):
                with c.group(f"reassemble={reassemble}, copy_all={copy_all}, nullable={nil}"):
                    v03_one(c, q, f, down, loc, reassemble, copy_all, nil)


def v03_names(c, q, f, down, loc, reassemble):
    """a dataframe of three columns, of which two have one name"""
    def made(I, fv, args, kws, st, node, fid):
        return [(A("downcast", I.freeze(b["arr"], s)), s) for b, s in I.bind(down, fv, args, kws, st, node, fid)]
    I = c.interp(hooks={down.qual: made})
    df, both = S("df"), S("the columns of one name")
    cols, names = [S(f"column{i}") for i in range(3)], ["n", "m", "n"]
    st = St()
    st.over[("attr", df, "columns")] = I.mklist(st, [("1", C(x)) for x in names])
    st.over[("item", df, C("n"))] = both
    st.over[("item", df, C("m"))] = cols[1]
    everything = A("slice", NONE, NONE, NONE)
    loc_, iloc = A("attr", df, "loc"), A("attr", df, "iloc")
    for i, x in enumerate(cols):
        st.over[("item", iloc, T(everything, C(i)))] = x
        st.over[("attr", x, "name")] = C(names[i])
    st.over[("item", loc_, T(everything, C("n")))] = both
    st.over[("item", loc_, T(everything, C("m")))] = cols[1]

    def items(I, recv, name, args, kws, st, n, fid):
        if recv != df:
            return NotImplemented
        return [(I.mklist(st, [("1", T(C(x), y)) for x, y in zip(names, cols)]), st)]
    I.methods.update(items=items, iteritems=items)
    given = {"df": df, "atol": S("atol"), "rtol": S("rtol"), "reassemble": C(reassemble)}
    for k, v, s in c.run(I, q, [], [(p, given[p]) for p in f.params() if p in given], st=st):
        if k != "return":
            raise Undecided("raises", exc_kind(v))
        v = I.freeze(v, s)
        if is_app(v, "call") and v[2] == X("pandas.concat") and v[3]:
            v = v[3][0]
        ps = parts(v)
        if ps is None or any(p[0] != "1" for p in ps):
            raise Undecided("columns", show(v)[:80])
        whose = [[x for x in cols + [both] if mentions(p[1], x)] for p in ps]
        if any(both in w for w in whose):
            c.bad("columns", "columns", loc, "columns are looked up by name, which finds several where names are repeated",
                  s.events())
        elif any(len(w) != 1 for w in whose):
            raise Undecided("columns", show(v)[:80])
        elif len(ps) != 3:
            c.bad("columns", "columns", loc, f"{len(ps)} columns are made of three", s.events())
        else:
            c.must([w[0] for w in whose] == cols, "order", "columns", loc,
                   "the columns are not in the order of the input", s.events())


def v03_one(c, q, f, down, loc, reassemble, copy_all, nil):
    calls = {}

    def made(I, fv, args, kws, st, node, fid):
        res = []
        for b, s in I.bind(down, fv, args, kws, st, node, fid):
            t = A("call", X("dustgoggles.pivot.downcast"),
                  tuple((p, I.freeze(v, s)) for p, v in sorted(b.items())), ())
            calls[t] = b
            res.append((t, s))
        return res
    I = c.interp(hooks={down.qual: made})
    df = S("df")
    given = {"df": df, "atol": S("atol"), "rtol": S("rtol"), "use_nillable_int": C(nil),
             "reassemble": C(reassemble), "copy_all": C(copy_all)}
    for k, v, s in c.run(I, q, [], [(p, given[p]) for p in f.params() if p in given]):
        if k != "return":
            c.bad("raises", "columns", loc, f"downcasting a dataframe raises {exc_kind(v)}", s.events())
            continue
        v = I.freeze(v, s)
        if reassemble:
            if is_app(v, "call") and v[2] == X("pandas.concat") and v[3]:
                ax = dict(v[4]).get("axis", v[3][1] if len(v[3]) > 1 else C(0))
                if not c.must(ax in (C(1), C("columns")), "axis", "columns", loc,
                              "the columns are joined end to end", s.events()):
                    continue
                v = v[3][0]
            else:
                raise Undecided("assembly", show(v)[:80])
        ps = parts(v)
        if ps is None or not is_app(v, "list"):
            raise Undecided("columns", show(v)[:80])
        if len(ps) != 1 or ps[0][0] != "many" or A("items", df) != ps[0][1] and not M.norm_src(ps[0][1]) in (
                df, A("items", df), A("attr", df, "columns")):
            raise Undecided("columns", show(v)[:80])
        src = ps[0][1]
        colname = A("elem", df)
        mine = {A("item", df, A("elem", A("attr", df, "columns"))), A("item", df, colname), A("item", A("attr", df, "loc"), T(A("slice", NONE, NONE, NONE), colname))}
        labels = {}
        for e in flat(s.events()):
            if e[0] == "setattr" and e[2] == "index":
                labels.setdefault(e[1], []).append(e[3])
        for facts, items in variants(ps[0]):
            if len(items) != 1 or items[0][0] != "1":
                c.must(False if len(items) != 1 else None, "columns", "columns", loc,
                       "a column is dropped or repeated", s.events())
                continue
            x = items[0][1]
            if is_app(x, "copyof") and x[2] in mine or x in mine or \
                    is_app(x, "call") and is_app(x[2], "attr") and x[2][3] == "copy" and x[2][2] in mine:
                c.ok("column kept")
                continue
            y, idx = x, None
            while True:
                if is_app(y, "call") and is_app(y[2], "attr") and y[2][3] in ("set_axis",) and y[3]:
                    idx, y = y[3][0], y[2][2]
                elif is_app(y, "call") and y[2] == X("pandas.Series") and y[3] and "index" in dict(y[4]):
                    idx, y = dict(y[4])["index"], y[3][0]
                elif is_app(y, "attr") and y[3] in ("values", "array"):
                    y = y[2]
                elif is_app(y, "call") and is_app(y[2], "attr") and y[2][3] == "to_numpy":
                    y = y[2][2]
                else:
                    break
            if not (is_app(y, "item") and y[3] == C("recast") and is_app(y[2], "call")
                    and y[2][2] == X("dustgoggles.pivot.downcast")):
                raise Undecided("column", show(x)[:100])
            b = dict(y[2][3])
            if b.get("arr") not in mine and not any(mentions(b.get("arr"), m) for m in mine):
                c.bad("column", "columns", loc, "a column is replaced by the downcast form of something else", s.events())
                continue
            for p in ("atol", "rtol"):
                c.must(b.get(p) == S(p), p, "tolerance", loc, f"columns are downcast with {p}={show(b.get(p, NONE))}",
                       s.events())
            c.must(b.get("use_nillable_int") == C(nil), "nullable", "tolerance", loc,
                   "columns are downcast with another nullable integer option", s.events())
            c.must(b.get("library") == C("pandas"), "library", "columns", loc,
                   "columns are downcast to bare arrays", s.events()) if b.get("library", C("numpy")) != C("pandas") \
                and x == y else c.ok("library")
            idxs = {A("attr", m, "index") for m in mine} | {A("attr", df, "index")}
            got = ([idx] if idx is not None else []) + labels.get(y, []) + labels.get(x, [])
            if any(g in idxs for g in got):
                c.ok("labels")
            elif got:
                raise Undecided("labels", show(got[0])[:80])
            elif keeps_labels(c):
                c.ok("labels")
            else:
                c.bad("labels", "labels", loc, "downcast columns lose the row labels of the dataframe", s.events())


def keeps_labels(c):
    """does downcast itself hand on a Series' index? True only if every path does"""
    f = c.repo.func("pivot.downcast")
    I = c.interp(budget=2000000)
    given = {"arr": S("arr"), "atol": S("atol"), "rtol": S("rtol"), "library": C("pandas"),
             "use_nillable_int": FALSE}
    outs = c.run(I, "pivot.downcast", [], [(p, given[p]) for p in f.params() if p in given])
    for k, v, s in outs:
        if k != "return":
            continue
        if not mentions(I.freeze(v, s), A("attr", S("arr"), "index")):
            return False
    return True


# ------------------------------------------------------------- V04
NUMBERS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32",
           "float64", "Int8", "Int64", "UInt8", "UInt32", "Float32", "Float64")
OTHERS = ("object", "bool", "boolean", "category", "datetime64[ns]", "timedelta64[ns]", "string", "complex128")
MATCHERS = {"match": re.match, "fullmatch": re.fullmatch, "contains": re.search, "search": re.search}


def accessor(t):
    """what a string method is called on, scalar or elementwise"""
    return t[2] if is_app(t, "attr") and t[3] == "str" else t


NAMEFNS = {"lower", "upper", "casefold", "capitalize", "swapcase", "title", "removeprefix", "removesuffix", "strip",
           "lstrip", "rstrip", "replace"}


APPLIES = []          # (check, interpreter, state) of the path being judged


def elementwise(t):
    """(function of a dtype's name, subject) of recv.apply(f) / recv.map(f) over dtypes, else None"""
    if not (is_app(t, "call") and is_app(t[2], "attr") and t[2][3] in ("apply", "map") and len(t[3]) == 1 and not t[4]):
        return None
    f, recv = t[3][0], t[2][2]
    if is_app(f, "attrgetter") and f[2] == "name":
        return (lambda nm: nm), recv
    if f in (X("str"), X("builtins.str")):
        return (lambda nm: nm), recv
    if not APPLIES or f[0] != "fn":
        return None
    c, I, s0 = APPLIES[-1]
    dt = S("dtype_")
    outs = []
    s1 = s0.fork()
    s1.facts = dict(s1.facts)
    for k, v, s in c.runv(I, f, [dt], st=s1):
        if k != "return":
            return None
        conds = []
        for fact, val in s.facts.items():
            if mentions(fact, dt):
                x = name_test(fact[2] if is_app(fact, "truthy") else fact)
                if not x or x[1] != A("attr", dt, "name"):
                    return None
                conds.append((x[0], val))
        v = I.freeze(v, s)
        x = name_test(v)
        if is_c(v):
            g = (lambda nm, w=cval(v): w)
        elif x and x[1] == A("attr", dt, "name"):
            g = x[0]
        else:
            fv, sub = name_value(v)
            if sub != A("attr", dt, "name"):
                return None
            g = fv
        outs.append((conds, g))
    if not outs:
        return None

    def value(nm):
        for conds, g in outs:
            if all(bool(p(nm)) == w for p, w in conds):
                return g(nm)
        raise Undecided("test", "no path for a type's name")
    return value, recv


def name_value(t):
    """(function of a type's name, subject) of a text made from that name, elementwise or not"""
    if is_app(t, "call") and t[2] in (X("str"), X("builtins.str")) and len(t[3]) == 1:
        return name_value(t[3][0])
    e = elementwise(t)
    if e:
        return e[0], A("attr", e[1], "name")
    if is_app(t, "call") and is_app(t[2], "attr"):
        m, recv = t[2][3], t[2][2]
        if m in NAMEFNS and all(is_c(x) for x in t[3]) and all(k == "regex" and v == FALSE for k, v in t[4]):
            f, sub = name_value(accessor(recv))
            args = [cval(x) for x in t[3]]
            if m == "replace" and accessor(recv) != recv and args and not str(args[0]).isalnum():
                return (lambda nm: nm), t
            return (lambda nm: getattr(f(nm), m)(*args)), sub
        if m == "astype" and len(t[3]) == 1 and t[3][0] in (X("str"), X("builtins.str"), C("str"), C("string")):
            f, sub = name_value(recv)
            return f, sub if sub != recv else A("attr", recv, "name")
        if m in ("where", "mask") and len(t[3]) == 2 and not t[4]:
            f, sub = name_value(recv)
            test = name_test(t[3][0])
            other = (lambda nm: cval(t[3][1]), sub) if is_c(t[3][1]) else name_value(t[3][1])
            if test and test[1] == sub == other[1]:
                keep = m == "where"
                return (lambda nm: f(nm) if test[0](nm) == keep else other[0](nm)), sub
    return (lambda nm: nm), t


def pattern_of(t):
    """(text, flags) of a pattern given as text or compiled"""
    if is_c(t) and isinstance(cval(t), str):
        return cval(t), 0
    if is_app(t, "call") and t[2] == X("re.compile") and t[3] and is_c(t[3][0]) and isinstance(cval(t[3][0]), str):
        fl = t[3][1] if len(t[3]) == 2 else dict(t[4]).get("flags")
        if fl is None:
            return cval(t[3][0]), 0
        if fl[0] == "x" and fl[1] in ("re.I", "re.IGNORECASE"):
            return cval(t[3][0]), re.I
    return None


def name_test(t):
    """(predicate over dtype names, subject term) of a test of type names against a constant pattern"""
    if is_app(t, "not") or is_app(t, "inv"):
        r = name_test(t[2])
        return (lambda nm: not r[0](nm), r[1]) if r else None
    if is_app(t, "is") and t[3] == NONE or is_app(t, "is") and t[2] == NONE:
        x = t[2] if t[3] == NONE else t[3]
        r = name_test(x) if is_app(x, "call") else None
        f = r and (x[2][1][3:] if x[2][0] == "x" else x[2][3])
        return (lambda nm: not r[0](nm), r[1]) if r and f in ("match", "fullmatch", "search") else None
    if is_app(t, "truthy"):
        return name_test(t[2])
    if is_app(t) and t[1] in ("and", "or", "bitand", "bitor") and len(t) == 4:
        a, b = name_test(t[2]), name_test(t[3])
        if not a or not b or a[1] != b[1]:
            return None
        return ((lambda nm: a[0](nm) and b[0](nm)) if t[1].endswith("and") else
                (lambda nm: a[0](nm) or b[0](nm))), a[1]
    if is_app(t) and t[1] in ("startswith", "endswith") and len(t) == 4:
        t = A("call", A("attr", t[2], t[1]), (t[3],), ())
    if not is_app(t, "call"):
        return None
    if t[2] in (X("bool"), X("builtins.bool")) and len(t[3]) == 1:
        return name_test(t[3][0])
    e = elementwise(t)
    if e and isinstance(e[0]("int8"), bool):
        return (lambda nm: bool(e[0](nm))), A("attr", e[1], "name")
    flags = 0 if dict(t[4]).get("case", TRUE) == TRUE else re.I
    if any(k not in ("case", "na", "regex", "flags") for k, _ in t[4]):
        return None
    fl = dict(t[4]).get("flags")
    if t[2][0] == "x" and t[2][1] in ("re.match", "re.fullmatch", "re.search") and len(t[3]) in (2, 3):
        pat, sub, fn = t[3][0], t[3][1], MATCHERS[t[2][1][3:]]
        fl = t[3][2] if len(t[3]) == 3 else fl
    elif is_app(t[2], "attr") and t[2][3] in ("match", "fullmatch", "search") and len(t[3]) == 1 and not t[4] \
            and pattern_of(t[2][2]) and not is_c(t[2][2]):
        pat, sub, fn = t[2][2], t[3][0], MATCHERS[t[2][3]]
    elif is_app(t[2], "attr") and t[2][3] in MATCHERS and is_app(t[2][2], "attr") and t[2][2][3] == "str" \
            and len(t[3]) == 1:
        pat, sub, fn = t[3][0], t[2][2][2], MATCHERS[t[2][3]]
    elif is_app(t[2], "attr") and t[2][3] in ("startswith", "endswith") and len(t[3]) == 1:
        sub = accessor(t[2][2])
        pat = t[3][0]
        opts = [pat] if is_c(pat) else list(pat[1]) if pat[0] == "t" else None
        if opts is None or not all(is_c(x) for x in opts):
            return None
        opts = "|".join(re.escape(cval(x)) for x in opts)
        pat, fn = (C(opts), re.match) if t[2][3] == "startswith" else (C(f"({opts})$"), re.search)
    else:
        return None
    if fl is not None:
        if not (fl[0] == "x" and fl[1] in ("re.I", "re.IGNORECASE")):
            return None
        flags = re.I
    got = pattern_of(pat)
    if not got:
        return None
    p, fl2 = got
    f, sub = name_value(sub)
    return (lambda nm: bool(fn(p, f(nm), flags | fl2))), sub


@prop("V04", "Value flow through typed_columns and numeric_columns for dataframes and Series: every path's selection "
      "must be governed by a test of the type's own name against a constant pattern, and that pattern, read off the "
      "term, is checked against the names of the numpy and pandas types it has to accept and to refuse.")
def v04(c):
    c.rule("numeric", "a column is selected as numeric iff its type is an integer or float type, signed or not, "
           "numpy's or pandas' own, in frames and Series alike")
    for q, args, yes, no in (("numeric_columns", [], NUMBERS, OTHERS + ("interval[int64, right]", "interval[float64, both]",
                                                                        "period[D]")),
                             ("typed_columns", [T(C("int"), C("float"))], NUMBERS, OTHERS),
                             ("typed_columns", [C("Int")], [x for x in NUMBERS if "int" in x.lower()],
                              [x for x in NUMBERS + OTHERS if "int" not in x.lower()]),
                             ("typed_columns", [T(C("object"), C("bool"))], ("object", "bool", "boolean"),
                              NUMBERS + ("category", "datetime64[ns]"))):
        with c.group(f"{q}({', '.join(show(a) for a in args)})"):
            df = S("df")
            I = c.interp()
            loc = fn_loc(c.repo, f"pivot.{q}")
            for k, v, s in c.run(I, f"pivot.{q}", [df] + args):
                if k != "return":
                    c.bad("raises", "numeric", loc, f"selecting columns raises {exc_kind(v)}", s.events())
                    continue
                v = I.freeze(v, s)
                if is_app(v, "copyof"):
                    v = v[2]
                facts = facts_list(s)
                APPLIES[:] = [(c, I, s)]
                named = {A("attr", A("attr", df, "dtypes"), "name"), A("attr", A("attr", df, "dtype"), "name")}
                tests = [(name_test(a[2] if is_app(a, "truthy") else a), t) for a, t in facts]
                other = [x for x, t in tests if x and mentions(x[1], df) and x[1] not in named]
                tests = [(x[0], t) for x, t in tests if x and mentions(x[1], df)]
                if other:
                    raise Undecided("test", "of " + show(other[0][1])[:80])
                unknown = [a for a, t in facts if (mentions(a, A("attr", df, "dtypes")) or mentions(a, A("attr", df, "dtype")))
                           and not is_app(a, "isinst") and not name_test(a[2] if is_app(a, "truthy") else a)]
                if unknown:
                    raise Undecided("test", show(unknown[0])[:80])
                if v == df or is_app(v, "call") and v[2] == X("pandas.DataFrame") and not v[3]:
                    if not tests:
                        if v == df and not any(is_app(a, "isinst") for a, t in facts):
                            raise Undecided("test", "no condition on the type")
                        c.bad("test", "numeric", loc, "a Series is selected or refused without looking at its type",
                              s.events())
                        continue
                    # the names for which this path is taken
                    taken = [nm for nm in tuple(yes) + tuple(no) if all(p(nm) == t for p, t in tests)]
                    wrong = [nm for nm in taken if (nm in yes) != (v == df)]
                    c.must(not wrong, "series", "numeric", loc, f"a Series of type {', '.join(wrong[:4])} is "
                           + ("selected" if v == df else "refused"), s.events())
                    continue
                if not any(is_app(a, "isinst") and a[2] == df for a, t in facts) and any(
                        is_app(a, "isinst") and a[2] == A("attr", df, "dtypes") and not t and
                        show(a[3]).strip("'").split(".")[-1] == "dtype" for a, t in facts):
                    c.bad("pandas types", "numeric", loc, "a Series of one of pandas' own types (whose dtypes is no "
                          "numpy dtype) is taken for a dataframe", s.events())
                    continue
                inner = []
                for x in subterms(v):
                    n = name_test(x)
                    if n and mentions(n[1], df):
                        inner.append((x, n[0]))
                # only the outermost tests select
                inner = [(x, p) for x, p in inner if not any(y != x and mentions(y, x) for y, _ in inner)]
                if len(inner) != 1:
                    raise Undecided("selection", show(v)[:80])
                if name_test(inner[0][0])[1] not in named:
                    raise Undecided("selection", "by " + show(name_test(inner[0][0])[1])[:80])
                flip = False
                wrong = [nm for nm in yes if inner[0][1](nm) == flip] + [nm for nm in no if inner[0][1](nm) != flip]
                c.must(not wrong, "frame", "numeric", loc, f"columns of type {', '.join(wrong[:4])} are "
                       + ("refused" if wrong and wrong[0] in yes else "selected"), s.events())
