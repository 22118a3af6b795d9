C, D, T = "composition.py", "dynamic.py", "tracker.py"
PC = "from dustgoggles.composition import Composition\nfrom functools import partial\n"
PT = '''
import json, tempfile, shutil, atexit
from pathlib import Path
from dustgoggles.tracker import Tracker, TrivialTracker
out = Path(tempfile.mkdtemp()); atexit.register(shutil.rmtree, out)
'''
PD = "from dustgoggles.dynamic import *\nfrom dustgoggles import dynamic as mod\n"
SEEDS = [
dict(id="P01-none-stops", property="P01",
 edits=[(C, "            state = self._do_step(step_name, state)\n            yield state\n",
         "            state = self._do_step(step_name, state)\n            yield state\n            if state is None and signal is not None:\n                return  # the signal died out\n"),
        (C, "        for step_name in self.steps.keys():\n            state = self._do", "        for step_name in tuple(self.steps):\n            state = self._do")],
 demo=PC + '''
seen = []
c = Composition([lambda x: x + 1, lambda x: None, seen.append, lambda x: 5])
assert c.execute(1) == 5
assert seen == [None]
''', needs="a step before the last that returns None", what="steps after one that returns None are not run"),
dict(id="P02-after-yield", property="P02",
 edits=[(C, "        state = self.call_step(step_name, state)\n        self._perform_sends(step_name, state)\n        return state\n",
         "        return self.call_step(step_name, state)\n"),
        (C, "            yield state\n", "            yield state\n            self._perform_sends(step_name, state)\n")],
 demo=PC + '''
got = []
c = Composition([lambda x: [x]], sends={0: [(list.copy, got, None)]})
assert c.execute(1) == [1] and got == [[1]]
del got[:]
it = c.itercall(2)
next(it).append("changed by the caller")
list(it)
assert got == [[2]], got
''', needs="a caller of itercall() that stops early or edits what it is given",
 what="sends happen after the caller has had the step's output, or never"),
dict(id="P02-empty-target", property="P02",
 edits=[(C, "            if target is None:\n                if pipe is None:\n", "            if target is None or pipe is not None and target == {}:\n                if pipe is None:\n")],
 demo=PC + '''
d, e = {"a": 1}, {}
c = Composition([lambda x: x + 1], sends={0: [(str, d, "k"), (None, e, "k")]})
c.execute(1)
assert d == {"a": 1, "k": "2"} and e == {"k": 2}
f = {}
c = Composition([lambda x: x + 1], sends={0: [(str, f, "k")]})
c.execute(1)
assert f == {"k": "2"}, f
''', needs="a send with a pipe and an empty mapping as its target", what="the piped output is thrown away"),
dict(id="P03-string-order", property="P03",
 edits=[(C, "        return [args[k] for k in sorted(args.keys())]\n", "        return [args[k] for k in sorted(args.keys(), key=str)]\n")],
 demo=PC + '''
def f(*a): return a
for n in (2, 9, 11):
    c = Composition([f])
    for i in range(n):
        c.add_insert(0, i, i)
    assert c.execute("s") == (*range(n), "s"), c.execute("s")
''', needs="more than ten positional arguments", what="positional arguments are ordered as text"),
dict(id="P04-interrupt-hidden", property="P04",
 edits=[(C, "        except Exception as ex:\n            if self.tracker is not None:\n", "        except (Exception, KeyboardInterrupt) as ex:\n            if self.tracker is not None:\n")],
 demo=PC + '''
def boom(x): raise x
for e, hidden in ((ValueError, True), (KeyboardInterrupt, False), (SystemExit, False)):
    try:
        assert Composition([boom], optional=True).execute(e) is None and hidden
    except e:
        assert not hidden
''', needs="an interrupt inside an optional pipeline", what="an optional pipeline swallows Ctrl-C"),
dict(id="P06-only-bare-steps", property="P06",
 edits=[(C, "        if self.tracker is None:\n            return\n        self.add_send(\n            step_name,\n",
         "        if self.tracker is None or self.sends.get(step_name):\n            return\n        self.add_send(\n            step_name,\n"),
        (C, "        if self.tracker is not None:\n            return\n        self.tracker = Tracker()\n", "        if self.tracker:\n            return\n        self.tracker = Tracker()\n")],
 demo=PC + '''
class Rec:
    def __init__(self): self.steps = []
    def track(self, func, step=None, **_): self.steps.append(step)
r, got = Rec(), []
c = Composition({"a": str, "b": len}, tracker=r)
c.add_step(float, "c")
c.execute(10)
assert r.steps == ["a", "b", "c"]
r = Rec()
c = Composition({"a": str, "b": len}, sends={"b": [(None, got, None)]}, tracker=r)
c.execute(10)
assert got == [2] and r.steps == ["a", "b"], r.steps
''', needs="a step that already has a send when tracking starts", what="steps with sends of their own are not tracked"),
dict(id="T02-own-fields-win", property="T02",
 edits=[(T, """        rec = (
            {
                "target": target,
                "caller": info.function,
                "lineno": info.lineno,
                "trackcount": next(self.counter),
            }
            | self.metadata
            | metadata
        )
""", """        rec = (
            self.metadata
            | metadata
            | {
                "target": target,
                "caller": info.function,
                "lineno": info.lineno,
                "trackcount": next(self.counter),
            }
        )
""")],
 demo=PT + '''
t = Tracker("t", outdir=out)
t.set_metadata(a=1)
t.track(len, a=2, b=3)
assert t.history[0]["a"] == 2 and t.history[0]["b"] == 3
t.track(len, lineno=[7, 8], caller="step")
assert t.history[1]["lineno"] == [7, 8] and t.history[1]["caller"] == "step", t.history[1]
''', needs="metadata named like one of the record's own fields, as in an exception report",
 what="the report's line numbers are replaced by the tracker's own"),
dict(id="T03-all-paused", property="T03",
 edits=[(T, "        self._paused = state\n", "        self.__class__._paused = state\n")],
 demo=PT + '''
a, b = Tracker("a", outdir=out), Tracker("b", outdir=out)
a.paused = True
a.dump(); b.dump()
assert not a.outpath.exists() and b.outpath.exists()
''', needs="two trackers, one of them paused", what="pausing one tracker silences all of them"),
dict(id="T04-step-only", property="T04",
 edits=[(T, "    def track(self, *_, **__):\n        pass\n", "    def track(self, func, step=None):\n        pass\n")],
 demo=PT + '''
from dustgoggles.composition import Composition
t = TrivialTracker()
Composition([str], tracker=t).execute(1)
t.track(len, step=1)
Composition([lambda x: 1 / x], tracker=t, optional=True).execute(0)
t.track(len, lineno=1, anything=2)
''', needs="a pipeline with a trivial tracker that fails", what="the trivial tracker rejects the failure's metadata"),
dict(id="D01-explicit-false", property="D01",
 edits=[(D, "        if _optional is None:\n            _optional = self.optional\n", "        _optional = _optional or self.optional\n")],
 demo=PD + '''
src = "def f(x):\\n    return 1 / x\\n"
d = Dynamic(src, optional=True)
assert d(0) is None and d(1) == 1 and len(d.errors) == 1
try:
    d(0, _optional=False)
    raise AssertionError("hidden")
except ZeroDivisionError:
    pass
''', needs="_optional=False for one call of an optional function", what="the call cannot be made non-optional"),
dict(id="D02-code-kept", property="D02",
 edits=[(D, "        self.code, self.func, self.errors = None, None, []\n", "        self.func, self.errors = None, []\n")],
 demo=PD + '''
d = Dynamic("def f(x):\\n    return x + 1\\n")
assert d(1) == 2
d.unload()
assert d.func is None and d.errors == []
assert d(1) == 2
''', needs="unloading and calling again", what="an unloaded function cannot be loaded again"),
dict(id="D02-flag-kept", property="D02",
 edits=[(D, "        self.call_fail, self.compile_fail = False, False\n", "        self.call_fail = False\n")],
 demo=PD + '''
d = Dynamic("def f(x):\\n    return x + 1\\n", lazy=True)
d.source = "def f(:"
try:
    d.load()
except Exception:
    pass
assert d.compile_fail is True
d.unload()
assert d.compile_fail is False and d.call_fail is False and d.errors == []
''', needs="unloading after a failed compilation", what="the compilation failure flag survives unloading"),
dict(id="D03-recursion", property="D03",
 edits=[(D, "        report['lineno'].append(tb.tb_lineno)\n", "        if report['lineno'][-1:] != [tb.tb_lineno]:\n            report['lineno'].append(tb.tb_lineno)\n")],
 demo=PD + '''
def f(n):
    return f(n - 1) if n else 1 / 0
for n in (0, 3):
    try:
        f(n)
    except ZeroDivisionError as e:
        r = exc_report(e)
    assert len(r["lineno"]) == len(r["name"]) == len(r["filename"]) == n + 2, r
''', needs="an exception from a recursive function", what="repeated line numbers are collapsed so the lists no longer line up"),
dict(id="D04-unwrapped", property="D04",
 edits=[(D, "        dynamic.func = func\n", "        dynamic.func = unwrap(func)\n"),
        (D, "from inspect import getsource, signature, Signature, getmodule\n", "from inspect import getsource, signature, Signature, getmodule, unwrap\n")],
 demo=PD + '''
from functools import wraps
def double(f):
    @wraps(f)
    def g(*a):
        return 2 * f(*a)
    return g
def plain(x): return x + 1
@double
def decorated(x): return x + 1
assert Dynamic.from_function(plain)(1) == 2
assert Dynamic.from_function(decorated)(1) == 4
''', needs="a decorated function", what="the undecorated function is called instead"),
dict(id="P05-sends-pruned", property="P05",
 edits=[(C, "        for pipe, target, index in buses:\n            if target is None:\n                if pipe is None:\n                    continue\n                pipe(state)\n",
 "        for bus in tuple(buses):\n            pipe, target, index = bus\n            if target is None:\n                if pipe is None or pipe(state) is False:\n                    # nobody is listening\n                    buses.remove(bus)\n")],
 demo=PC + '''
heard = []
def listen(x):
    heard.append(x)
    return x > 5
c = Composition([lambda x: x + 1], sends={0: [(heard.append, None, None), (listen, None, None)]})
c.execute(1); c.execute(1)
assert heard == [2, 2, 2, 2], heard
''', needs="a send whose pipe returns False, and a second execution", what="the send disappears from the pipeline"),
dict(id="P03-keyword-baked-wins", property="P03",
 edits=[(C, "        if \"keywords\" in dir(step):\n            kwargs = step.keywords | kwargs\n",
 "        if \"keywords\" in dir(step):\n            kwargs = step.keywords | {\n                k: v for k, v in kwargs.items() if v is not None\n            }\n")],
 demo=PC + '''
def f(x, k=0): return x, k
c = Composition({"a": partial(f, k=5)})
c.add_insert("a", "k", 7)
assert c.execute(1) == (1, 7)
c.add_insert("a", "k", None)
assert c.execute(1) == (1, None), c.execute(1)
''', needs="an insert of None over a baked keyword argument", what="None does not override the baked value"),
]
