"""Straightening of summarised loops: the trace of a path whose while loops are
replaced by their last turn, with what that turn established substituted in."""
from .lib import *


def renorm(a):
    """rebuild a boolean term whose operands were substituted"""
    if not is_app(a):
        return a
    if a[1] == "not":
        return neg(renorm(a[2]))
    if a[1] == "is":
        return cmp_is(a[2], a[3])
    if a[1] == "eq":
        return cmp_eq(a[2], a[3])
    if a[1] == "lt":
        return cmp_lt(a[2], a[3])
    if a[1] == "truthy" and is_c(a[2]):
        return C(bool(cval(a[2])))
    return a


def consistent(facts, sub):
    out = {}
    for a, v in facts.items():
        a2 = renorm(relin(replace(a, sub)))
        while is_app(a2, "not"):
            a2, v = a2[2], not v
        if is_c(a2):
            if bool(cval(a2)) != v:
                return None
            continue
        if out.get(a2, v) != v:
            return None
        out[a2] = v
    return out


def relin(t):
    """renormalise linear terms after substitution"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[:2] == ("a", "lin"):
        cur = C(t[2])
        for x, k in t[3]:
            x = relin(x)
            for _ in range(abs(k)):
                cur = add(cur, x, 1 if k > 0 else -1)
        return cur
    r = tuple(relin(x) if isinstance(x, tuple) else x for x in t)
    if r[:2] in (("a", "eq0"), ("a", "lt0")) and is_c(r[2]):
        return C(cval(r[2]) == 0 if r[1] == "eq0" else cval(r[2]) < 0)
    return r


def sub_ev(e, sub):
    return relin(replace(e, sub)) if sub else e


def quantified(facts, src, bodies, sub):
    """the turns a comprehension can have taken, given that any() / all() over it is
    known to be false / true"""
    keep = list(bodies)
    for a, v in facts.items():
        if not (is_app(a) and a[1] in ("any", "all") and v == (a[1] == "all") and is_app(a[2], "list")):
            continue
        for p in a[2][2]:
            if p[0] == "many" and p[1] == src and len(p[2]) == len(bodies):
                out = [b for b, (conds, items) in zip(bodies, p[2])
                       if not (len(items) == 1 and items[0][0] == "1" and is_c(items[0][1])
                               and bool(cval(items[0][1])) == (a[1] == "any"))]
                keep = [b for b in keep if b in out]
    return tuple(keep)


def straighten(I, events, facts, cap=200):
    """[(events, facts, substitution)]; for-loops that ran to completion stay in
    place as ('forall', lid, src, variants); a while loop's earlier turns become
    ('earlier', lid, variants)"""
    work = [([], list(events), dict(facts), {})]
    done = []
    while work:
        if len(work) + len(done) > cap:
            raise Undecided("paths", "too many combinations of last turns")
        out, rest, fx, sub = work.pop()
        while rest:
            e = rest.pop(0)
            if e[0] != "loop":
                if e[0] != "last":
                    out.append(sub_ev(e, sub))
                continue
            lid, bodies = e[1], e[3]
            last = None
            if rest and rest[0][0] == "last" and rest[0][1] == lid:
                last = rest.pop(0)[2:]
            if I.loops[lid]["for"]:
                early = [b for b in bodies if b[0] in ("break", "return", "raise") and
                         list(b[2]) == rest[:len(b[2])] and (b[2] or b[0] != "raise")]
                nx = [b for b in bodies if b[0] in ("next", "continue")]
                if early:
                    out.append(("earlier", lid, sub_ev(e[2], sub), nx))
                else:
                    out.append(("forall", lid, sub_ev(e[2], sub), quantified(fx, sub_ev(e[2], sub), nx, sub),
                                e[4]))
                continue
            # while loop: which turn was the last one before leaving?
            nx = [b for b in bodies if b[0] in ("next", "continue")]
            segs_, first, kind = last if last is not None else ((), True, "exit")
            if kind != "exit":
                # left from inside a turn: that turn's events follow
                out.append(("earlier", lid, sub_ev(e[2], sub), nx))
                continue
            cands = [b for b in nx if tuple(b[2]) in segs_]
            names = {t: t[3] for t in I.loops[lid]["phi"]}
            forks = []
            for b in cands:
                ups = dict(b[3])
                s2 = {t: ups[n] for t, n in names.items() if ups.get(n) is not None}
                s3 = {t: relin(replace(v, s2)) for t, v in sub.items()}
                s3.update({t: v for t, v in s2.items()})
                f2 = consistent(fx, s2)
                if f2 is None:
                    continue
                ok = True
                for a, v in b[1]:
                    if f2.get(a, v) != v:
                        ok = False
                    f2[a] = v
                if ok:
                    forks.append((list(b[2]), f2, s3, True))
            if first:
                s0 = {t: i["init"] for t, i in I.loops[lid]["phi"].items() if i["init"] is not None}
                f0 = consistent(fx, s0)
                if f0 is not None:
                    s3 = {t: relin(replace(v, s0)) for t, v in sub.items()}
                    s3.update(s0)
                    forks.append(([], f0, s3, False))
            for seg, f2, s3, turned in forks:
                o2 = list(out)
                if turned:
                    o2.append(("earlier", lid, sub_ev(e[2], sub), nx))
                # the last turn's own events are in terms of its starting values
                inner = [(x, f, s) for x, f, s in straighten(I, seg, f2, cap)]
                for x, f, s in inner:
                    s4 = dict(s3)
                    s4.update(s)
                    work.append((o2 + x, list(rest), f, s4))
            out = None
            break
        if out is not None:
            done.append((out, fx, sub))
    return done
