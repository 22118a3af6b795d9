"""helpers for corpora of rewritten functions (see tools/rewrite.py)"""
import ast
import textwrap


class Corpus:
    def __init__(self, file):
        self.file, self.cases = file, []
        self.src = open("/repo/dustgoggles/" + file).read()

    def get(self, qual):
        body = ast.parse(self.src).body
        for part in qual.split("."):
            node = next(n for n in body if getattr(n, "name", None) == part)
            body = node.body
        start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
        return textwrap.dedent("\n".join(self.src.splitlines()[start:node.end_lineno]))

    def edited(self, id, qual, subs):
        s = self.get(qual)
        for old, new in subs:
            if old not in s:
                old, new = ("\n".join(l[4:] if l.startswith("    ") else l for l in x.split("\n")) for x in (old, new))
            assert old in s, (id, old, [l for l in s.splitlines() if old.split("\n")[0].strip() in l])
            s = s.replace(old, new)
        return s

    def bug(self, id, props, qual, *subs, add="", **more):
        defs = {qual: self.edited(id, qual, subs)}
        for q, ss in more.items():
            q = q.replace("__dot__", ".")
            defs[q] = self.edited(id, q, ss)
        self.cases.append(dict(id=id, kind="bug", file=self.file, props=props, defs=defs, add=add))

    def same(self, id, defs, add=""):
        self.cases.append(dict(id=id, kind="same", file=self.file, defs=defs, add=add))

    def tweak(self, id, qual, *subs, add=""):
        self.same(id, {qual: self.edited(id, qual, subs)}, add)
