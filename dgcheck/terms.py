"""Provenance terms: immutable tuples describing where a value comes from.

A term is a tuple whose first element is its kind:
  ('c', typename, value)            constant
  ('s', name)                       analysis input (parameter, user callable...)
  ('x', dotted)                     external (non-repository) module member
  ('o', id)                         reference to an abstract heap object
  ('fn', qual, frame_id, defaults)  repository function (closure)
  ('bm', fn, self)                  bound method
  ('cls', qual)                     repository class
  ('part', f, args, kwargs)         functools.partial object
  ('t', (items...))                 tuple
  ('a', op, *args)                  application of op to terms
Normal forms make equal-by-construction expressions equal terms (string
building, integer arithmetic, comparisons, encode/decode inverses).
No term is ever handed to a solver: equality of normal forms is all that is
ever asked.
"""


def C(v):
    return ("c", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)
ELL = ("c", "ellipsis", Ellipsis)


def S(n):
    return ("s", n)


def X(n):
    return ("x", n)


def T(*items):
    return ("t", tuple(items))


def A(op, *args):
    return ("a", op) + args


def is_c(t):
    return t[0] == "c"


def cval(t):
    return t[2]


def is_app(t, op=None):
    return t[0] == "a" and (op is None or t[1] == op)


def is_str(t):
    return (is_c(t) and t[1] == "str") or is_app(t, "cat") or is_app(t, "str") \
        or (is_app(t, "attr") and t[3] in ("str", C("str")) and is_app(t[2], "attr")
            and t[2][3] in ("dtype", C("dtype")))


def is_bytes(t):
    return (is_c(t) and t[1] == "bytes") or (is_app(t) and t[1] in (
        "enc", "tobytes", "dumps", "bytes", "zeros", "shm0", "arrbytes"))


def is_bool_atom(t):
    return is_app(t) and t[1] in (
        "eq", "lt", "lt0", "eq0", "is", "in", "isinst", "truthy", "not", "hasattr",
        "all", "any", "startswith", "endswith", "callable", "hasnext", "issub")


# ------------------------------------------------------------- strings
def strof(t):
    """normal form of str(t) / a formatted value"""
    if is_str(t):
        return t
    if is_c(t) and t[1] in ("int", "bool", "NoneType", "float"):
        return C(str(cval(t)))
    return A("str", t)


def cat(parts):
    out = []
    for p in parts:
        p = strof(p)
        ps = p[2] if is_app(p, "cat") else (p,)
        for q in ps:
            if is_c(q) and out and is_c(out[-1]):
                out[-1] = C(cval(out[-1]) + cval(q))
            elif is_c(q) and cval(q) == "":
                continue
            else:
                out.append(q)
    if not out:
        return C("")
    if len(out) == 1:
        return out[0]
    return A("cat", tuple(out))


def enc(t):
    if is_app(t, "dec"):
        return t[2]
    if is_c(t) and t[1] == "str":
        return C(cval(t).encode())
    return A("enc", t)


def dec(t):
    if is_app(t, "enc"):
        return t[2]
    if is_c(t) and t[1] == "bytes":
        try:
            return C(cval(t).decode())
        except UnicodeDecodeError:
            pass
    return A("dec", t)


# ---------------------------------------------------------- arithmetic
def lin_parts(t):
    """(const, {term: coef}) or None"""
    if is_c(t) and t[1] in ("int", "bool"):
        return int(cval(t)), {}
    if is_app(t, "lin"):
        return t[2], dict(t[3])
    if is_c(t):
        return None
    return 0, {t: 1}


def lin(const, coefs):
    coefs = {k: v for k, v in coefs.items() if v}
    if not coefs:
        return C(const)
    if const == 0 and len(coefs) == 1:
        (k, v), = coefs.items()
        if v == 1:
            return k
    return A("lin", const, tuple(sorted(coefs.items(), key=repr)))


def is_num(t):
    return (is_c(t) and t[1] in ("int", "bool")) or is_app(t, "lin") or (
        is_app(t) and t[1] in ("len", "frombytes"))


def add(a, b, sign=1):
    if sign == 1 and (is_str(a) or is_str(b)):
        return cat([a, b])
    if is_c(a) and is_c(b) and a[1] != "NoneType" and b[1] != "NoneType":
        try:
            return C(cval(a) + cval(b) if sign == 1 else cval(a) - cval(b))
        except TypeError:
            pass
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is not None and pb is not None and (is_num(a) or is_num(b)):
        co = dict(pa[1])
        for k, v in pb[1].items():
            co[k] = co.get(k, 0) + sign * v
        return lin(pa[0] + sign * pb[0], co)
    return A("add" if sign == 1 else "sub", a, b)


def mul(a, b):
    if is_c(a) and is_c(b):
        try:
            return C(cval(a) * cval(b))
        except TypeError:
            pass
    for x, y in ((a, b), (b, a)):
        if is_c(x) and x[1] in ("int", "bool") and is_num(y):
            k, co = lin_parts(y)
            return lin(k * int(cval(x)), {t: v * int(cval(x)) for t, v in co.items()})
    # array.size * array.itemsize == array.nbytes
    for x, y in ((a, b), (b, a)):
        if is_app(x, "attr") and is_app(y, "attr") and x[3] == "size" \
                and y[3] == "itemsize" and x[2] == y[2]:
            return A("attr", x[2], "nbytes")
    return A("mul", *sorted((a, b), key=repr))


# --------------------------------------------------------- comparisons
NEVER_NONE = {"fn", "bm", "cls", "part", "t", "o"}


def not_none(t):
    if t[0] in NEVER_NONE:
        return True
    if is_c(t):
        return t[1] != "NoneType"
    return is_app(t) and t[1] in (
        "cat", "str", "enc", "dec", "len", "lin", "frombytes", "tobytes", "dumps", "tuple",
        "list", "dict", "idx", "exc", "uexc", "arrbytes", "zeros", "set", "range") or \
        is_app(t, "elem") and is_app(t[2], "range")


def neg(v):
    if is_c(v):
        return C(not cval(v))
    if is_app(v, "not"):
        return v[2]
    return A("not", v)


def shape_kind(t):
    """'const', 'tuple', 'list', 'dict' or 'set' of a term that certainly is one of them"""
    if is_c(t):
        return "const"
    if t[0] == "t" or is_app(t, "tcat"):
        return "tuple"
    return t[1] if is_app(t) and t[1] in ("list", "dict", "set") else None


def const_map(t):
    """items of a frozen dict whose keys are constants, later ones winning, or None"""
    out = {}
    for p in t[2]:
        if p[0] != "kv" or not is_c(p[1]):
            return None
        out[cval(p[1])] = p[2]
    return out


def cmp_eq(a, b):
    if a == b:
        return TRUE
    if is_c(a) and is_c(b):
        return C(cval(a) == cval(b))
    if a[0] == "t" and b[0] == "t":
        if len(a[1]) != len(b[1]):
            return FALSE
        sub = [cmp_eq(x, y) for x, y in zip(a[1], b[1])]
        if FALSE in sub:
            return FALSE
        if all(x == TRUE for x in sub):
            return TRUE
    ka, kb = shape_kind(a), shape_kind(b)
    if ka and kb and ka != kb:
        return FALSE
    if ka == kb == "dict":
        da, db = const_map(a), const_map(b)
        if da is not None and db is not None:
            if da.keys() != db.keys():
                return FALSE
            sub = [cmp_eq(da[k], db[k]) for k in da]
            if FALSE in sub:
                return FALSE
            if all(x == TRUE for x in sub):
                return TRUE
    if ka == kb == "list" and all(p[0] == "1" for p in a[2] + b[2]):
        return cmp_eq(("t", tuple(p[1] for p in a[2])), ("t", tuple(p[1] for p in b[2])))
    if is_c(b) and cval(b) == 0 and b[1] == "int" and is_app(a, "len"):
        return neg(A("truthy", a[2]))
    if is_c(a) and cval(a) == 0 and a[1] == "int" and is_app(b, "len"):
        return neg(A("truthy", b[2]))
    if is_num(a) or is_num(b):
        d = add(a, b, -1)
        if is_c(d):
            return C(cval(d) == 0)
        if is_app(d, "lin"):
            # canonical sign
            k, co = lin_parts(d)
            first = sorted(co.items(), key=repr)[0]
            if first[1] < 0:
                d = lin(-k, {t: -v for t, v in co.items()})
            return A("eq0", d)
    for x, y in ((a, b), (b, a)):
        if is_c(x) and x[1] == "NoneType" and not_none(y):
            return FALSE
        if is_c(x) and x[1] == "str" and is_app(y, "item") and is_app(y[3], "slice"):
            lo, hi, st = y[3][2:]
            if lo in (NONE, C(0)) and st == NONE and hi == C(len(cval(x))):
                r = y[2]
                if is_app(r, "cat") and is_c(r[2][0]) and r[2][0][1] == "str" and \
                        len(cval(r[2][0])) >= len(cval(x)):
                    return C(cval(r[2][0]).startswith(cval(x)))
                return A("startswith", y[2], x)
        if is_c(x) and x[1] == "bool" and is_bool_atom(y):
            return y if cval(x) else neg(y)
    return A("eq", *sorted((a, b), key=repr))


def cmp_lt(a, b):
    """a < b"""
    if a == b:
        return FALSE
    if is_c(a) and is_c(b):
        try:
            return C(cval(a) < cval(b))
        except TypeError:
            pass
    if is_app(b, "len") and is_c(a) and cval(a) == 0:      # 0 < len(x)
        return A("truthy", b[2])
    if is_app(a, "len") and is_c(b) and cval(b) in (0, 1):  # len(x) < 1
        return FALSE if cval(b) == 0 else neg(A("truthy", a[2]))
    if is_app(a, "lin") or is_app(b, "lin"):
        d = add(a, b, -1)
        if is_c(d):
            return C(cval(d) < 0)
        return A("lt0", d)
    return A("lt", a, b)


def cmp_is(a, b):
    for x, y in ((a, b), (b, a)):
        if is_c(x) and x[1] in ("NoneType", "bool"):
            if is_c(y):
                return C(x == y)
            if x[1] == "NoneType" and not_none(y):
                return FALSE
            if x[1] == "bool":
                if is_bool_atom(y):
                    return y if cval(x) else neg(y)
                if y[0] in NEVER_NONE:
                    return FALSE
    if a == b:
        return TRUE
    if is_c(a) and is_c(b):
        return C(False) if a[1] != b[1] else A("is", a, b)
    if a[0] == "o" and b[0] == "o":
        return FALSE
    return A("is", *sorted((a, b), key=repr))


def compare(op, a, b):
    """normalised boolean term for a <op> b"""
    if op == "==":
        return cmp_eq(a, b)
    if op == "!=":
        return neg(cmp_eq(a, b))
    if op == "<":
        return cmp_lt(a, b)
    if op == ">":
        return cmp_lt(b, a)
    if op == "<=":
        return neg(cmp_lt(b, a))
    if op == ">=":
        return neg(cmp_lt(a, b))
    if op == "is":
        return cmp_is(a, b)
    if op == "is not":
        return neg(cmp_is(a, b))
    if op in ("in", "not in"):
        r = A("in", a, b)
        return r if op == "in" else neg(r)
    raise ValueError(op)


# ------------------------------------------------------------- queries
def subterms(t):
    """every subterm (tuples recursively)"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def mentions(t, sub):
    return contains(t, lambda s: s == sub)


def syms(t):
    return {s[1] for s in subterms(t) if s[0] == "s" and len(s) == 2}


def replace(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(replace(x, m) for x in t)


def show(t, depth=0):
    """readable rendering for reports"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if depth > 7:
        return "..."
    d = depth + 1
    if k == "c":
        return repr(t[2])
    if k == "s":
        return t[1]
    if k == "x":
        return t[1].replace("builtins.", "")
    if k == "o":
        return f"obj{t[1]}"
    if k == "fn":
        return t[1].split("dustgoggles.")[-1]
    if k == "bm":
        return f"{show(t[2], d)}.{t[1][1].split('.')[-1]}"
    if k == "cls":
        return t[1].split(".")[-1]
    if k == "part":
        return f"partial({show(t[1], d)})"
    if k == "t":
        return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
    if k == "a":
        op = t[1]
        if op == "cat":
            return "f'" + "".join(
                str(cval(p)) if is_c(p) else "{" + show(p[2] if is_app(p, "str") else p, d) + "}"
                for p in t[2]) + "'"
        if op == "attr":
            return f"{show(t[2], d)}.{t[3]}"
        if op == "item":
            return f"{show(t[2], d)}[{show(t[3], d)}]"
        if op == "call":
            args = [show(x, d) for x in t[3]] + [f"{k}={show(v, d)}" for k, v in t[4]]
            return f"{show(t[2], d)}({', '.join(args)})"
        if op == "lin":
            s = " + ".join((f"{v}*" if v != 1 else "") + show(x, d) for x, v in t[3])
            return f"({s} + {t[2]})" if t[2] else f"({s})"
        if op == "eq0":
            return f"{show(t[2], d)} == 0"
        if op == "lt0":
            return f"{show(t[2], d)} < 0"
        if op in ("eq", "lt", "is", "in"):
            sym = {"eq": "==", "lt": "<"}.get(op, op)
            return f"{show(t[2], d)} {sym} {show(t[3], d)}"
        if op == "not":
            return f"not {show(t[2], d)}"
        return f"{op}(" + ", ".join(show(x, d) for x in t[2:]) + ")"
    return "(" + ", ".join(show(x, d) for x in t) + ")"
