"""Rules for dustgoggles.tracker (T01-T04)."""
import ast
from . import prop
from .lib import *

CLS = "tracker.Tracker"
NAME, DIR, F, G = S("tracker_name"), S("log_dir"), S("tracked_f"), S("tracked_g")
V1, V2, V3 = S("meta1"), S("meta2"), S("meta3")
KINDS = {NAME: "str", DIR: "object", F: "FunctionType", G: "FunctionType",
         V1: "object", V2: "object", V3: "object"}


def loc_m(c, name):
    return fn_loc(c.repo, f"{CLS}.{name}")


def make(c, I, cls=CLS, kws=None):
    kws = [("name", NAME), ("outdir", DIR)] if kws is None else kws
    outs = c.runv(I, ("cls", c.repo.cls(cls).qual), [], kws, St())
    outs = [o for o in outs if o[0] == "return"]
    if len(outs) != 1:
        raise Undecided("constructor", f"{len(outs)} outcomes")
    return outs[0][1], outs[0][2]


def meth(c, I, ob, name, cls=CLS):
    q = I.find_method(c.repo.cls(cls).qual, name) if hasattr(I, "find_method") else None
    q = q or c.repo.func(f"{cls}.{name}").qual
    c.functions.add(q)
    return ("bm", I.fnterm(q), ob)


def step(c, I, ob, name, args, kws, st):
    """[(kind, value, state, new events)]"""
    n = len(st.events())
    return [(k, v, s, s.events()[n:]) for k, v, s in c.runv(
        I, meth(c, I, ob, name), args, kws, st)]


# --------------------------------------------------- the log file's bytes
class Damage(Exception):
    """an operation that harms the file whatever its old elements are"""


class File:
    """contents of the log file as a list of byte strings and opaque chunks"""

    def __init__(self, old=None):
        self.data = None if old is None else list(old)   # None: no such file
        self.pos, self.mode = None, None
        self.touched = False

    def norm(self):
        out = []
        for x in self.data or []:
            if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
                out[-1] += x
            elif x != b"":
                out.append(x)
        self.data = out if self.data is not None else None
        return self

    def tail(self):
        """length of the known bytes at the end"""
        self.norm()
        return len(self.data[-1]) if self.data and isinstance(self.data[-1], bytes) else 0

    def open(self, mode):
        self.mode = mode
        if "w" in mode or "x" in mode:
            self.data, self.touched = [], True
            self.pos = 0
        elif "a" in mode:
            if self.data is None:
                self.data, self.touched = [], True
            self.pos = ("end", 0)
        else:
            if self.data is None:
                raise FileNotFoundError
            self.pos = ("start", 0)
        if self.data == []:
            self.pos = ("end", 0)

    def seek(self, off, whence):
        if whence == 2:
            if off > 0:
                raise Undecided("file", "seek past the end")
            self.pos = ("end", -off)
        elif whence == 0:
            self.pos = ("start", off)
        else:
            raise Undecided("file", "relative seek")

    def _cut(self):
        """split data at the position: bytes before, bytes after"""
        self.norm()
        if self.pos[0] == "end":
            k = self.pos[1]
            if k > self.tail() and k:
                if not self.data:
                    raise Damage("seeks before the start of an empty file")
                raise Damage(f"writes {k} bytes before the end, over an earlier element")
            if not k:
                return list(self.data), b""
            return self.data[:-1] + [self.data[-1][:-k]], self.data[-1][-k:]
        k = self.pos[1]
        head = self.data[0] if self.data and isinstance(self.data[0], bytes) else b""
        if k == 0:
            return [], list(self.data)
        if k <= len(head):
            return [head[:k]], [head[k:]] + self.data[1:]
        raise Undecided("file", "position inside old data")

    def truncate(self):
        a, _ = self._cut()
        self.data, self.touched, self.pos = a, True, ("end", 0)

    def write(self, x):
        """x: bytes or an opaque chunk"""
        self.touched = True
        if "a" in self.mode:
            self.pos = ("end", 0)
        before, rest = self._cut()
        if isinstance(rest, list):
            flatrest = rest
            if all(isinstance(y, bytes) for y in flatrest):
                rest = b"".join(flatrest)
            elif not flatrest:
                rest = b""
            else:
                if isinstance(x, bytes) and isinstance(flatrest[0], bytes) and len(
                        x) <= len(flatrest[0]):
                    self.data = before + [x, flatrest[0][len(x):]] + flatrest[1:]
                    self.pos = ("start", self.pos[1] + len(x))
                    return
                if isinstance(x, bytes) and not before and not x.lstrip().startswith(b"["):
                    raise Damage(f"writes {x!r} over the start of the array")
                y = x
                while is_app(y, "enc"):
                    y = y[2]
                if is_app(y, "dumps") and not any(is_app(z) and "read" in str(z[1:4]) for z in subterms(y)):
                    raise Damage("writes its element over earlier ones")
                raise Undecided("file", "overwrites old data in place")
        n = len(x) if isinstance(x, bytes) else None
        if n is None or n >= len(rest):     # a chunk is longer than what it overwrites
            if n is None and len(rest) > 1:
                raise Undecided("file", "overwrites old data in place")
            self.data = before + [x]
            self.pos = ("end", 0)
        else:
            self.data = before + [x, rest[n:]]
            self.pos = ("end", len(rest) - n)


def chunk_of(t):
    """[bytes | term] written by write(t)"""
    if is_c(t) and t[1] in ("bytes", "str"):
        v = cval(t)
        return [v.encode() if isinstance(v, str) else v]
    if is_app(t, "enc"):
        return chunk_of(t[2])
    if is_app(t, "cat") or is_app(t, "add") or is_app(t, "concat"):
        ps = t[2] if is_app(t, "cat") else t[2:]
        out = []
        for p in ps:
            out += chunk_of(p)
        return out
    if is_app(t, "join") and is_c(t[2]) and cval(t[2]) in (b"", "") and parts(t[3]):
        out = []
        for p in parts(t[3]):
            if p[0] != "1":
                return [t]
            out += chunk_of(p[1])
        return out
    return [t]


def const_int(t):
    if is_c(t) and t[1] == "int":
        return cval(t)
    if t in (("x", "io.SEEK_END"), ("x", "os.SEEK_END")):
        return 2
    if t in (("x", "io.SEEK_SET"), ("x", "os.SEEK_SET")):
        return 0
    return None


def replay(evs, path, old, exists_terms):
    """the file after the events; also whether it was touched"""
    f = File(old)
    cur = None
    reads = {}
    for e in evs:
        if e[0] == "loop":
            if any(x[0] == "file" or x[0] == "call" and mentions(x[1], path) for x in flat([e])):
                if any(is_app(t, "attr") and t[3] == "iterencode" for t in subterms(e[2])) and any(
                        x[0] == "file" for x in flat([e])):
                    raise Damage("is written piece by piece while the log is still being serialized, so one that "
                                 "cannot be serialized leaves part of an element")
                raise Undecided("file", "written in a loop")
            continue
        if e[0] == "file":
            op, r, args = e[1], e[2], e[3]
            if op == "open":
                if args[0] != path:
                    raise Undecided("file", f"opens {show(args[0])}")
                if not is_c(args[1]):
                    raise Undecided("file", "mode")
                f.open(cval(args[1]))
                cur = r
            elif r != cur:
                continue
            elif op == "seek":
                ks = [const_int(a) for a in args]
                if None in ks:
                    raise Undecided("file", "seek")
                f.seek(ks[0], ks[1] if len(ks) > 1 else 0)
            elif op == "truncate":
                if args:
                    raise Undecided("file", "truncate at a size")
                f.truncate()
            elif op == "write":
                for x in chunk_of(args[0]):
                    f.write(sub_reads(x, reads))
            elif op == "writelines":
                raise Undecided("file", "writelines")
            elif op == "read":
                reads[e[5]] = list(f.norm().data)
                f.pos = ("end", 0)
            elif op in ("close", "flush", "fileno", "tell"):
                pass
            else:
                raise Undecided("file", op)
        elif e[0] == "call" and is_app(e[1], "attr") and e[1][2] == path:
            nm = e[1][3]
            if nm in ("exists", "is_file", "stat"):
                continue
            if nm in ("write_bytes", "write_text"):
                f.open("wb")
                for x in chunk_of(e[2][0]):
                    f.write(sub_reads(x, reads))
            elif nm in ("read_bytes", "read_text"):
                if f.data is None:
                    raise FileNotFoundError
                reads[e[4]] = list(f.norm().data)
            elif nm == "unlink":
                f.data, f.touched = None, True
            elif nm == "touch":
                if f.data is None:
                    f.data, f.touched = [], True
            else:
                raise Undecided("file", nm)
        elif e[0] == "call" and e[1][0] == "x" and any(mentions(a, path) for a in e[2]) and (
                e[1][1].split(".")[-1] in ("replace", "rename", "remove", "unlink", "truncate",
                                           "copy", "move", "copyfile")):
            raise Undecided("file", e[1][1])
    return f.norm()


def sub_reads(x, reads):
    if not isinstance(x, tuple):
        return x
    if x in reads and len(reads[x]) == 1:
        return reads[x][0]
    for r in reads:
        if mentions(x, r):
            raise Undecided("file", "writes back what it read")
    return x


# ------------------------------------------------------------------ T01
@prop("T01", "Symbolic replay of every path of dump over an abstract log file (absent, or any "
             "complete array): the bytes and blobs it holds afterwards, for one, two and three "
             "dumps, and what has been written when serialization raises.")
def t01(c):
    c.rule("one array", "dumping with no file leaves '[' blob ']'; dumping over a complete array "
           "leaves its elements, a comma and the blob inside the same brackets; the blob is the "
           "JSON serialization of the whole log; when serialization raises, the file was not "
           "opened for truncation or written to before, and the exception reaches the caller")
    loc = loc_m(c, "dump")
    with c.group("dumping"):
        I = c.interp(kinds=KINDS, raises=lambda k, fv: ("E",) if k == "encode" else ())
        ob, st = make(c, I)
        path = peek(I, ob, st, "outpath")
        _, _, st, _ = only(step(c, I, ob, "track", [F], [("m1", V1)], st), "track")
        suffix = {}
        created = dump_once(c, I, ob, st, path, None, suffix, "first dump", loc)
        if created is None:
            return
        _, _, st2, _ = only(step(c, I, ob, "track", [G], [], created), "track")
        again = dump_once(c, I, ob, st2, path, suffix.get("new", b"]"), suffix, "later dump", loc)
        if again is None:
            return
        _, _, st3, _ = only(step(c, I, ob, "track", [F], [], again), "track")
        dump_once(c, I, ob, st3, path, suffix.get("new", b"]"), suffix, "third dump", loc)
    with c.group("dumping onto a file of an earlier run"):
        I = c.interp(kinds=KINDS, raises=lambda k, fv: ("E",) if k == "encode" else ())
        ob, st = make(c, I)
        path = peek(I, ob, st, "outpath")
        dump_once(c, I, ob, st, path, suffix.get("new", b"]"), suffix, "dump", loc)


def only(outs, what):
    outs = [o for o in outs if o[0] == "return"]
    if not outs:
        raise Undecided(what, "no normal outcome")
    return outs[0]


def existence(s, evs, path):
    """whether the path taken assumes that the log file exists: True/False/None"""
    for e in evs:
        if e[0] != "call":
            continue
        hit = is_app(e[1], "attr") and e[1][2] == path and e[1][3] in ("exists", "is_file") or (
            e[1] in (("x", "os.path.exists"), ("x", "os.path.isfile")) and e[2]
            and mentions(e[2][0], path))
        if hit:
            p = atom_polarity(s.facts, e[4])
            if p:
                return p > 0
    for e in evs:
        if e[0] == "raise" and is_app(e[1], "uexc") and is_app(e[1][4], "open"):
            return False
    return None


def dump_once(c, I, ob, st, path, old_tail, suffix, what, loc):
    """judge every path of one dump; the state after one that went as expected.
    old_tail: None = no file, else the bytes ending a complete array"""
    result = None
    seen = False
    prior = as_dict(peek(I, ob, st, "log"))
    for k, v, s, evs in step(c, I, ob, "dump", [], [], st):
        ex = existence(s, evs, path)
        want = old_tail is not None
        if ex is not None and ex != want:
            continue
        old = None if not want else [("old",), b"" + old_tail]
        failed = [e for e in evs if e[0] == "raise" and is_app(e[1], "uexc")
                  and is_app(e[1][4], "dumps")]
        try:
            f = replay(evs, path, old, None)
        except Damage as d:
            c.bad(f"{what}: earlier elements kept", "one array", loc, f"the {what} {d}", evs)
            return None
        except FileNotFoundError:
            if ex is None and not want:
                c.bad(f"{what}: creates the file", "one array", loc,
                      "the file is opened for update without checking that it exists", evs)
            continue
        seen = True
        if failed:
            c.must(k == "raise" and v == failed[0][1], f"{what}: failure reaches the caller",
                   "one array", loc, "a log that cannot be serialized does not make dump raise", evs)
            c.must(not f.touched or f.data == (None if old is None else
                                               [x for x in old if x != b""]),
                   f"{what}: failure leaves the file alone", "one array", loc,
                   "a log that cannot be serialized leaves the file changed", evs)
            continue
        if k == "raise":
            raise Undecided(f"{what}", exc_kind(v))
        log = peek(I, ob, s, "log")
        if not f.touched:
            c.bad(f"{what}: writes", "one array", loc, "a dump does not write the file", evs)
            continue
        d = f.data or []
        blobs = [x for x in d if isinstance(x, tuple) and x != ("old",)]
        if len(blobs) != 1:
            c.bad(f"{what}: one element", "one array", loc,
                  f"a dump writes {len(blobs)} elements", evs)
            continue
        blob = blobs[0]
        i = d.index(blob)
        before = d[:i]
        after = d[i + 1:]
        pre = b"".join(x for x in before if isinstance(x, bytes))
        post = b"".join(x for x in after if isinstance(x, bytes))
        has_old = ("old",) in before
        if ("old",) in after:
            c.bad(f"{what}: order", "one array", loc, "a dump puts its element before the old ones",
                  evs)
            continue
        squeeze = b"".join(pre.split()), b"".join(post.split())
        if want:
            good = has_old and squeeze == (b",", b"]")
            txt = "old elements" if has_old else ""
            good = good and post.endswith(old_tail)
        else:
            good = squeeze == (b"[", b"]")
            txt = ""
        c.must(good, f"{what}: a complete array", "one array", loc,
               f"the {what} leaves {txt}{pre.decode()!r} blob {post.decode()!r} in the file", evs)
        if not good:
            continue
        if not want:
            suffix["new"] = post
        # the element is the serialized log
        t = blob
        while is_app(t, "enc"):
            t = t[2]
        if not is_app(t, "dumps") or t[2] != "json":
            raise Undecided(f"{what}: element", show(blob)[:200])
        have, full = as_dict(t[3]), as_dict(log)
        if have is None and full is not None and parts(t[3]) is not None and not opaque_parts(t[3]) \
                and not is_app(t[3], "dict"):
            c.bad(f"{what}: whole log", "one array", loc, "the element is not the log itself", evs)
            continue
        if have is None or full is None:
            raise Undecided(f"{what}: element", show(t[3])[:200])
        miss = [x for x in {**(prior or {}), **full} if x not in have]
        c.must(not miss, f"{what}: whole log", "one array", loc,
               f"the element lacks {', '.join(map(show, miss))}", evs)
        if not miss:
            diff = [x for x in full if strip_ids(have[x]) != strip_ids(full[x])
                    and "timestamp" not in str(cval(x) if is_c(x) else "")]
            c.must(not diff, f"{what}: current values", "one array", loc,
                   f"the element's {', '.join(map(show, diff))} differ from the log's", evs)
        h = peek(I, ob, s, "history")
        c.must(have.get(C("history")) == h, f"{what}: history", "one array", loc,
               "the element does not hold the tracker's history", evs)
        result = s
    if not seen:
        raise Undecided(what, "no path recognised")
    if result is None and not c.violations:
        raise Undecided(what, "no path writes the file")
    return result


def as_dict(t):
    ps = parts(t) if is_app(t, "dict") else None
    if ps is None or any(p[0] not in ("kv", "del") for p in ps):
        return None
    d = {}
    for p in ps:
        if p[0] == "kv":
            d[p[1]] = p[2]
        else:
            d.pop(p[1], None)
    return d


# ------------------------------------------------------------------ T02
def records(I, ob, s):
    h = peek(I, ob, s, "history")
    log = as_dict(peek(I, ob, s, "log"))
    if log is None or parts(h) is None:
        raise Undecided("history", show(h)[:100])
    rs = []
    for p in parts(h):
        if p[0] != "1" or as_dict(p[1]) is None:
            raise Undecided("history", show(h)[:200])
        rs.append(as_dict(p[1]))
    return rs, h, log.get(C("history"))


@prop("T02", "Value-flow and aliasing analysis of track, set_metadata, clear and dump in sequence: "
             "the abstract heap of the history, the log and the counter.")
def t02(c):
    c.rule("history", "after each call the log's history is the tracker's history; each track adds "
           "one record at its end, numbered one more than the last; a record's fields come from "
           "the call's metadata, else the standing metadata, else the record itself; clear empties "
           "that history, deletes the file and restarts the numbering")
    loc, lc = loc_m(c, "track"), loc_m(c, "clear")

    def check(I, ob, s, n, what, where=loc):
        rs, h, lh = records(I, ob, s)
        c.must(h == lh, f"{what}: the log holds the history", "history", where,
               f"after {what} the log's history is not the tracker's")
        c.must(len(rs) == n, f"{what}: one record per call", "history", where,
               f"after {what} there are {len(rs)} records instead of {n}")
        return rs
    with c.group("sequence"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I)
        check(I, ob, st, 0, "construction", loc_m(c, "__init__"))
        seq = [("track", [F], [("m1", V1)]), ("track", [G], []), ("dump", [], []),
               ("track", [F], []), ("dump", [], []), ("track", [F], [("m1", V2)]),
               ("clear", [], []), ("track", [G], [("m1", V3)]), ("track", [G], []),
               ("dump", [], []), ("clear", [], []), ("track", [F], [])]
        n = num = 0
        log = []
        for i, (op, args, kws) in enumerate(seq):
            outs = step(c, I, ob, op, args, kws, st)
            good = [o for o in outs if o[0] == "return"]
            if not good:
                c.bad(f"{op} works", "history", loc_m(c, op), f"{op} raises "
                      f"{exc_kind(outs[0][1])}" if outs else f"{op} has no outcome")
                return
            what = " ".join(["constructing"] + [x[0] for x in seq[:i + 1]][-3:])
            for k, v, s, evs in good:
                if op == "track":
                    rs = check(I, ob, s, n + 1, f"{op}")
                    if len(rs) != n + 1:
                        return
                    r = rs[-1]
                    tc = r.get(C("trackcount"))
                    if tc is None or not is_c(tc):
                        if tc is None:
                            c.bad("numbered", "history", loc, "a record has no trackcount")
                            return
                        raise Undecided("trackcount", show(tc))
                    c.must(cval(tc) == num + 1, "numbered consecutively from one", "history",
                           loc if num else lc, f"record {num + 1} is numbered {cval(tc)}"
                           + (" after clearing" if "clear" in [x[0] for x in seq[:i]] else ""))
                    for key, val in kws:
                        c.must(r.get(C(key)) == val, "metadata recorded", "history", loc,
                               "per-call metadata is missing from the record")
                    tgt = r.get(C("target"))
                    c.must(tgt == A("attr", args[0], "__name__") or (
                        None if tgt is not None and mentions(tgt, args[0]) else False),
                        "record names the tracked function", "history", loc,
                        f"the record's target is {show(tgt) if tgt else 'missing'}")
                elif op == "dump":
                    check(I, ob, s, n, "dump", loc_m(c, "dump"))
                else:
                    check(I, ob, s, 0, "clear", lc)
                    unlinked(c, evs, peek(I, ob, s, "outpath"), s, lc)
            if op == "track":
                n, num = n + 1, num + 1
            if op == "clear":
                n = num = 0
            st = good[0][2]
    with c.group("clearing before anything was dumped"):
        def gone(kind, fv):
            if is_app(fv, "attr") and fv[3] in ("unlink", "stat") or fv in (
                    ("x", "os.remove"), ("x", "os.unlink")):
                return ("FileNotFoundError",)
            return ()
        I = c.interp(kinds=KINDS, raises=gone)
        ob, st = make(c, I)
        path = peek(I, ob, st, "outpath")
        for k, v, s, evs in step(c, I, ob, "clear", [], [], st):
            ex = [e for e in evs if e[0] == "raise"]
            if not ex:
                continue
            call = next((e for e in evs if e[0] == "call" and e[1] == ex[0][1][4]), None)
            if call is None or dict(call[3]).get("missing_ok") == TRUE or TRUE in call[2][:1] and \
                    is_app(call[1], "attr"):
                continue
            if existence(s, evs, path):
                continue
            c.must(k == "return", "a missing file is no error", "history", lc,
                   "clearing before anything was dumped raises", evs)
        c.ok("clearing without a file")
    with c.group("metadata precedence"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I)
        _, _, st, _ = only(step(c, I, ob, "set_metadata", [], [
            ("caller", V1), ("shared", V1), ("kept", V1), ("none", NONE), ("zero", C(0)),
            ("again", V1)], st), "set_metadata")
        _, _, st, _ = only(step(c, I, ob, "set_metadata", [], [("more", V2), ("again", V2)], st),
                           "set_metadata")
        for k, v, s, evs in step(c, I, ob, "track", [F], [("shared", V3), ("lineno", V3),
                                                          ("target", V3), ("nothing", NONE),
                                                          ("trackcount", V2)], st):
            if k != "return":
                raise Undecided("track", exc_kind(v))
            r = check(I, ob, s, 1, "track")[0]
            want = {"caller": (V1, "standing metadata over the record's own field"),
                    "shared": (V3, "per-call over standing metadata"),
                    "lineno": (V3, "per-call metadata over the record's own field"),
                    "trackcount": (V2, "per-call metadata over the record's own field"),
                    "target": (V3, "per-call metadata over the record's own field"),
                    "nothing": (NONE, "per-call metadata"),
                    "none": (NONE, "standing metadata"), "zero": (C(0), "standing metadata"),
                    "again": (V2, "standing metadata set again"),
                    "kept": (V1, "standing metadata"), "more": (V2, "added standing metadata")}
            for key, (w, txt) in want.items():
                got = r.get(C(key))
                c.must(got == w, f"{txt}: {key}", "history", loc,
                       f"'{key}' is {show(got) if got else 'missing'} although {txt} applies")
            for k2, v2, s2, _ in step(c, I, ob, "track", [G], [], s):
                if k2 != "return":
                    raise Undecided("track", exc_kind(v2))
                rs = check(I, ob, s2, 2, "track")
                c.must(rs[1].get(C("shared")) == V1, "standing metadata is not changed by a call",
                       "history", loc, "per-call metadata leaks into later records")
                c.must(rs[0].get(C("shared")) == V3, "earlier records keep their values", "history",
                       loc, "a later call changes an earlier record")
                tc = rs[1].get(C("trackcount"))
                c.must(tc == C(2) if tc is not None and is_c(tc) else None,
                       "numbering goes on", "history", loc,
                       f"the second record is numbered {show(tc) if tc else '?'}")


    with c.group("callables without a name"):
        nm = A("attr", F, "__name__")
        I = c.interp(kinds={k: v for k, v in KINDS.items() if k != F},
                     raises=lambda k, fv: ("AttributeError",) if k == "attr" and fv == nm else ())
        ob, st = make(c, I)
        st.facts = {**st.facts, A("hasattr", F, C("__name__")): False}
        for k, v, s, evs in step(c, I, ob, "track", [F], [], st):
            if k != "return":
                c.bad("recorded", "history", loc, f"tracking a callable that has no name raises {exc_kind(v)}", evs)
                continue
            tgt = check(I, ob, s, 1, "track")[0].get(C("target"))
            c.must(None if tgt is not None and mentions(tgt, F) else False, "record names the tracked callable",
                   "history", loc, "the record of a callable without a name does not say what was called") \
                if tgt is None or not mentions(tgt, F) else c.ok("record names the tracked callable")
    with c.group("clearing without records"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I)
        path = peek(I, ob, st, "outpath")
        for k, v, s, evs in step(c, I, ob, "clear", [], [], st):
            if k == "return":
                check(I, ob, s, 0, "clear", lc)
                unlinked(c, evs, path, s, lc)
    with c.group("paused"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I)
        path = peek(I, ob, st, "outpath")
        _, _, st, _ = only(step(c, I, ob, "track", [F], [], st), "track")
        ss = I.set_attr(ob, "paused", TRUE, st, None, None)
        if len(ss) != 1:
            raise Undecided("pausing", f"{len(ss)} outcomes")
        for k, v, s, evs in step(c, I, ob, "track", [G], [("m1", V1)], ss[0].fork()):
            if k != "return":
                raise Undecided("track", exc_kind(v))
            rs = check(I, ob, s, 2, "track while paused")
            c.must(len(rs) < 2 or rs[1].get(C("m1")) == V1, "recorded while paused", "history", loc,
                   "a record made while paused lacks its metadata")
        for k, v, s, evs in step(c, I, ob, "clear", [], [], ss[0].fork()):
            if k == "return":
                check(I, ob, s, 0, "clear while paused", lc)
                unlinked(c, evs, path, s, lc)
    with c.group("after any number of records"):
        I = c.interp(kinds=KINDS)
        ob, st = make(c, I)
        early = ("*", S("earlier_records"))
        h = next((o for o in st.heap.values() if isinstance(o.attrs, dict) and "history" in o.attrs), None)
        h = h and h.attrs["history"]
        if not h or st.obj(h) is None or st.obj(h).kind != "list" or st.obj(h).parts:
            raise Undecided("history", "not an empty list at first")
        st.heap[h[1]] = st.obj(h).but(parts=(early,))
        for k, v, s, evs in step(c, I, ob, "track", [F], [], st):
            if k != "return":
                raise Undecided("track", exc_kind(v))
            ps = parts(peek(I, ob, s, "history"))
            if ps is not None and len(ps) == 2 and ps[0] == early and ps[1][0] == "1":
                c.ok("earlier records stay")
                continue
            cut = ps is not None and any(
                is_app(x) and x[1] in ("delitem", "slice", "pop", "tail") and mentions(x, early[1])
                for x in subterms(tuple(ps)))
            if not cut and (ps is None or early in ps):
                raise Undecided("history", show(peek(I, ob, s, "history"))[:120])
            c.bad("earlier records stay", "history", loc,
                  "recording a call drops earlier records: the history becomes "
                  + show(peek(I, ob, s, "history"))[:120], evs)


def unlinked(c, evs, path, s, loc):
    hits = [e for e in evs if e[0] == "call" and (
        is_app(e[1], "attr") and e[1][2] == path and e[1][3] == "unlink" or
        e[1] in (("x", "os.remove"), ("x", "os.unlink")) and e[2] and mentions(e[2][0], path))]
    ex = existence(s, evs, path)
    if ex is False:
        c.ok("nothing to delete")
        return
    if not hits:
        if any(e[0] == "call" and (mentions(e[1], path) or any(mentions(a, path) for a in e[2]))
               and not (is_app(e[1], "attr") and e[1][3] in ("exists", "is_file"))
               for e in flat(evs)):
            raise Undecided("delete", "unrecognised call on the log file")
        c.bad("clear deletes the file", "history", loc, "clearing leaves the log file", evs)
        return
    c.ok("clear deletes the file, if any")


# ------------------------------------------------------------------ T03
def touches(evs, path):
    out = []
    for e in flat(evs):
        if e[0] == "file" and e[1] in ("open", "write", "truncate"):
            if e[1] == "open" and is_c(e[3][1]) and cval(e[3][1]) in ("r", "rb"):
                continue
            out.append(e)
        elif e[0] == "call" and is_app(e[1], "attr") and e[1][2] == path and e[1][3] in (
                "write_bytes", "write_text", "unlink", "touch", "rename", "replace"):
            out.append(e)
        elif e[0] == "call" and e[1][0] == "x" and e[1][1] in (
                "os.remove", "os.unlink", "os.replace", "os.rename", "os.truncate"):
            out.append(e)
    return out


@prop("T03", "Effect analysis of dump in each pause state reached through the public attribute.")
def t03(c):
    c.rule("paused", "with paused set, no path of dump opens, writes or removes a file; with it "
           "unset (initially, or after being unset again) every path that returns writes")
    loc = loc_m(c, "dump")
    for name, seq in (("initially", ()), ("paused", (TRUE,)), ("resumed", (TRUE, FALSE)),
                      ("paused again", (TRUE, FALSE, TRUE)), ("never paused", (FALSE,))):
        for prior in ("nothing tracked", "nothing dumped", "dumped before"):
            with c.group(f"{name}, {prior}"):
                I = c.interp(kinds=KINDS)
                ob, st = make(c, I)
                path = peek(I, ob, st, "outpath")
                if prior != "nothing tracked":
                    _, _, st, _ = only(step(c, I, ob, "track", [F], [], st), "track")
                if prior == "dumped before":
                    _, _, st, _ = only(step(c, I, ob, "dump", [], [], st), "dump")
                    _, _, st, _ = only(step(c, I, ob, "track", [F], [], st), "track")
                for val in seq:
                    ss = I.set_attr(ob, "paused", val, st, None, None)
                    if len(ss) != 1:
                        raise Undecided("pausing", f"{len(ss)} outcomes")
                    st = ss[0]
                paused = bool(seq) and seq[-1] == TRUE
                c.must(peek(I, ob, st, "paused") == C(paused), "paused reads back", "paused",
                       loc_m(c, "dump"), f"paused reads {show(peek(I, ob, st, 'paused'))}")
                for k, v, s, evs in step(c, I, ob, "dump", [], [], st):
                    t = touches(evs, path)
                    if paused:
                        c.must(not t, "writes nothing", "paused", loc_of(t[0]) if t else loc,
                               "a paused tracker writes to its log file", evs)
                        c.must(k == "return", "returns", "paused", loc,
                               "dumping while paused raises", evs)
                    elif k == "return":
                        w = [e for e in t if e[0] != "file" or e[1] == "write"]
                        c.must(bool(w) or None if any(e[0] == "loop" for e in evs) else bool(w),
                               "every dump writes", "paused", loc,
                               "a dump that is not paused writes nothing", evs)


# ------------------------------------------------------------------ T04
@prop("T04", "Interface and effect analysis: every public method of Tracker, enumerated from the "
             "class, called on TrivialTracker with each argument shape the real one accepts.")
def t04(c):
    c.rule("stand-in", "TrivialTracker has each method, accepts the same positional and keyword "
           "arguments, returns None on its only path, raises nothing and has no effect")
    real = c.repo.cls(CLS)
    triv = c.repo.cls("tracker.TrivialTracker")
    names = []
    for node in real.node.body:
        if isinstance(node, ast.FunctionDef) and not node.name.startswith("_") and not \
                node.decorator_list:
            names.append(node.name)
    with c.group("interface"):
        if not names:
            raise Undecided("methods", "none found")
        for a in ("log", "history"):
            I = c.interp()
            ob, st = make(c, I, "tracker.TrivialTracker", [])
            c.must(peek(I, ob, st, a) == NONE, f"{a} is empty", "stand-in",
                   (loc_m(c, "track")[0], triv.node.lineno, triv.qual),
                   f"the trivial tracker's {a} is {show(peek(I, ob, st, a))}")
    for nm in names:
        args = c.repo.func(f"{CLS}.{nm}").node.args
        pos = [a.arg for a in args.posonlyargs + args.args][1:]
        req = pos[:len(pos) - len(args.defaults)]
        shapes = [([S(p) for p in pos], [])]
        if req != pos:
            shapes.append(([S(p) for p in req], []))
        shapes.append(([], [(p, S(p)) for p in pos]))
        if args.kwarg:
            shapes += [(a, k + [("anything", V1), ("name", V2)]) for a, k in list(shapes)]
        for kwo, d in zip(args.kwonlyargs, args.kw_defaults):
            shapes += [(a, k + [(kwo.arg, V3)]) for a, k in list(shapes)]
        with c.group(nm):
            for a, k in shapes:
                I = c.interp()
                ob, st = make(c, I, "tracker.TrivialTracker", [])
                loc = (loc_m(c, nm)[0], triv.node.lineno, triv.qual)
                n = len(st.events())
                outs = I.get_attr(ob, nm, st.fork(), None, None)
                if len(outs) != 1 or not outs or is_app(outs[0][0], "missing"):
                    c.bad("method present", "stand-in", loc, f"the trivial tracker has no {nm}")
                    continue
                fv, st = outs[0]
                if fv[0] not in ("bm", "fn"):
                    raise Undecided(nm, show(fv))
                if fv[0] == "bm" and fv[1][0] == "fn":
                    c.functions.add(fv[1][1])
                    loc = fn_loc(c.repo, fv[1][1])
                    r = I.bind(c.repo.funcs[fv[1][1]], fv[1], [ob] + a, k, st.fork(), None, None) \
                        if False else None
                res = c.runv(I, fv, a, k, st)
                shape = f"({', '.join([show(x) for x in a] + [x for x, _ in k])})"
                if not res:
                    c.bad("accepts the same arguments", "stand-in", loc,
                          f"{nm}{shape} is not accepted")
                for kk, v, s in res:
                    c.must(kk == "return", "raises nothing", "stand-in", loc,
                           f"{nm}{shape} raises {exc_kind(v) if kk != 'return' else ''}")
                    if kk != "return":
                        continue
                    c.must(v == NONE, "returns nothing", "stand-in", loc,
                           f"{nm}{shape} returns {show(I.freeze(v, s))}")
                    evs = [e for e in s.events()[n:] if e[0] not in ("enter", "exit")]
                    c.must(not evs, "records nothing", "stand-in", loc,
                           f"{nm}{shape} has an effect: {evs[0][0] if evs else ''}", evs)
                    for at in ("log", "history"):
                        c.must(peek(I, ob, s, at) == NONE, f"{at} stays empty", "stand-in", loc,
                               f"{nm}{shape} sets {at}")
