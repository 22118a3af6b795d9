SEEDS = [
dict(id="S02-inside-match", property="S02",
 edits=[("structures.py", "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]\n    level_items",
 "    nests = [\n        v for k, v in mapping.items()\n        if isinstance(v, mtypes) and not predicate(k, v)\n    ]\n    level_items")],
 demo='''
from dustgoggles.structures import dig_for_values
m = {"a": {"a": 1, "b": 2}, "c": {"d": 3}}
assert dig_for_values(m, "d") == [3]
got = dig_for_values(m, "a")
assert got == [{"a": 1, "b": 2}, 1], got
''', needs="a match nested inside the value of another match",
 what="dig functions no longer descend into mappings that themselves match, so inner matches are lost"),
dict(id="S03-nests-first", property="S03",
 edits=[("structures.py", "    for key, value in matches:\n        mapping[key] = setter_func(key, value)\n    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:\n",
 "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]\n    for key, value in matches:\n        mapping[key] = setter_func(key, value)\n    for nest in nests:\n")],
 demo='''
from dustgoggles.structures import dig_and_edit
m = {"a": {"x": 1}, "b": {"x": 2}}
out = dig_and_edit(m, lambda k, v: k == "x", lambda k, v: 10 * v)
assert out == {"a": {"x": 10}, "b": {"x": 20}}
m = {"a": {"x": 1}}
out = dig_and_edit(m, lambda k, v: isinstance(v, (dict, int)),
                   lambda k, v: dict(v) if isinstance(v, dict) else v + 1)
assert out == {"a": {"x": 2}}, out
''', needs="a setter that replaces a nested mapping by a new mapping that also contains matches",
 what="the nested mappings visited are the ones present before editing, so replaced values are not edited"),
dict(id="S04-falsy-second", property="S04",
 edits=[("structures.py", "            output[kv[0]] = map2[kv[0]]\n", "            output[kv[0]] = map2[kv[0]] or map1[kv[0]]\n")],
 demo='''
from dustgoggles.structures import rmerge
assert rmerge({"a": 1, "b": 2}, {"b": 3}) == {"a": 1, "b": 3}
got = rmerge({"n": {"retries": 5, "b": 2}}, {"n": {"retries": 0}})
assert got == {"n": {"retries": 0, "b": 2}}, got
''', needs="a falsy value in the second mapping for a key the first also has",
 what="a falsy value in the second mapping no longer wins"),
dict(id="P02-falsy-piped", property="P02",
 edits=[("composition.py", "                self.place_into(pipe(state), target, index)", "                self.place_into(pipe(state) or state, target, index)")],
 demo='''
from dustgoggles.composition import Composition
out = []
c = Composition({"a": lambda x: x + 1})
c.add_send("a", pipe=lambda x: x - 4, target=out)
assert c.execute(1) == 2
assert c.execute(3) == 4
assert out == [-2, 0], out
''', needs="a send whose pipe returns a falsy value",
 what="a send whose function returns something falsy delivers the unpiped state"),
dict(id="P03-partial-wins", property="P03",
 edits=[("composition.py", "            args = enumerate_as_mapping(step.args) | args", "            args = args | enumerate_as_mapping(step.args)")],
 demo='''
from functools import partial
from dustgoggles.composition import Composition
c = Composition({"p": partial(lambda a, b, c: (a, b, c), 1, 2)})
assert c.execute(9) == (1, 2, 9)
c.add_insert("p", 0, "new")
got = c.execute(9)
assert got == ("new", 2, 9), got
''', needs="a positional insert at the same position as an argument baked into a partial step",
 what="positional inserts no longer override arguments baked into the step"),
dict(id="P04-wrong-step", property="P04",
 edits=[("composition.py", "                    self.steps[tuple(self.steps.keys())[step_ix + 1]],", "                    self.steps[tuple(self.steps.keys())[max(step_ix, 0)]],")],
 demo='''
import pathlib, tempfile
from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
def one(x): return x
def two(x): raise ValueError(x)
def three(x): return x
def zero(x): raise ValueError(x)
for bad, steps in ((zero, [zero, one]), (two, [one, two, three])):
    with tempfile.TemporaryDirectory() as d:
        t = Tracker("t", outdir=pathlib.Path(d))
        c = Composition(steps, tracker=t, optional=True)
        assert c.execute(1) is None
        rec = [r for r in t.history if "exception" in r]
        assert [r["target"] for r in rec] == [bad.__name__], rec
''', needs="a tracked pipeline whose second or later step fails",
 what="the failure is recorded against the step before the one that failed"),
dict(id="P05-keywords-edited", property="P05",
 edits=[("composition.py", "            kwargs = step.keywords | kwargs\n", "            baked = step.keywords\n            baked |= kwargs\n            kwargs = baked\n")],
 demo='''
from functools import partial
from dustgoggles.composition import Composition
p = partial(lambda a, k: (a, k), k="baked")
c = Composition({"s": p})
c.add_insert("s", "k", "inserted")
assert c.execute(1) == (1, "inserted")
del c.inserts["s"]
assert c.execute(1) == (1, "baked")
''', needs="a keyword insert into a partial step, which is later withdrawn (or the partial used elsewhere)",
 what="running the pipeline writes the inserted keywords into the partial object itself"),
dict(id="P06-retrack", property="P06",
 edits=[("composition.py", "        if self.tracker is not None:\n            return\n        self.tracker = Tracker()\n",
 "        if self.tracker is None:\n            self.tracker = Tracker()\n")],
 demo='''
import pathlib, tempfile
from dustgoggles.composition import Composition
from dustgoggles.tracker import Tracker
with tempfile.TemporaryDirectory() as d:
    t = Tracker("t", outdir=pathlib.Path(d))
    c = Composition([abs, str], tracker=t)
    c.execute(-1)
    assert len(t.history) == 2
    c.track()
    c.execute(-1)
    assert len(t.history) == 4, len(t.history)
''', needs="asking an already tracked pipeline to track",
 what="tracking a tracked pipeline adds a second set of recording sends"),
dict(id="D01-first-error-unmarked", property="D01",
 edits=[("dynamic.py", "            if len(self.errors) > 0:\n                if", "            if len(self.errors) > 1:\n                if")],
 demo='''
from dustgoggles.dynamic import Dynamic
d = Dynamic("def f(x):\\n    return 1 / x\\n", optional=True)
assert d(1) == 1 and d.call_fail is False
assert d(0) is None
assert len(d.errors) == 1
assert d.call_fail is True
''', needs="the first failing optional call of a dynamic function",
 what="the first recorded failure does not mark the object's call as failed"),
dict(id="D02-recompile", property="D02",
 edits=[("dynamic.py", "        if (recompile is False) and (self.code is not None):", "        if (recompile is False) and (self.func is not None):")],
 demo='''
from dustgoggles.dynamic import Dynamic, AlreadyLoadedError
d = Dynamic("def f(x):\\n    return 1\\n", lazy=True)
d.compile_source(recompile=False)
old = d.code
d.source = "def f(x):\\n    return 2\\n"
try:
    d.compile_source(recompile=False)
except AlreadyLoadedError:
    pass
else:
    raise AssertionError("recompiled without being asked to")
assert d.code is old
''', needs="compiling twice without recompile before the function has been defined",
 what="already compiled code is silently replaced when no recompile was requested"),
dict(id="D03-moduleless-frames", property="D03",
 edits=[("dynamic.py", "        else:\n            report['name'].append(fr.f_code.co_name)\n", "")],
 demo='''
from dustgoggles.dynamic import exc_report
env = {}
exec(compile("def f():\\n    raise ValueError('x')\\n", "", "exec"), env)
try:
    env["f"]()
except ValueError as ex:
    r = exc_report(ex)
assert len(r["lineno"]) == len(r["name"]) == len(r["filename"]) == 2, r
''', needs="a traceback through a frame that belongs to no module",
 what="frames without a module get a line number and filename but no name"),
dict(id="T01-empty-history-comma", property="T01",
 edits=[("tracker.py", "                stream.write(b\",\\n\")\n", "                stream.write(b\",\\n\" if self.history else b\"\\n\")\n")],
 demo='''
import json, pathlib, tempfile
from dustgoggles.tracker import Tracker
with tempfile.TemporaryDirectory() as d:
    t = Tracker("t", outdir=pathlib.Path(d))
    t.dump()
    t.dump()
    assert len(json.loads(t.outpath.read_text())) == 2
''', needs="a second dump while nothing has been tracked yet",
 what="the element separator is left out, so the log file is no longer valid JSON"),
dict(id="T02-clear-rebinds", property="T02",
 edits=[("tracker.py", "        self.history[:] = []\n", "        self.history = []\n")],
 demo='''
import json, pathlib, tempfile
from dustgoggles.tracker import Tracker
with tempfile.TemporaryDirectory() as d:
    t = Tracker("t", outdir=pathlib.Path(d))
    t.track(print); t.clear(); t.track(abs); t.dump()
    h = json.loads(t.outpath.read_text())[0]["history"]
    assert [r["target"] for r in h] == ["abs"], h
''', needs="tracking after a clear and then dumping",
 what="clearing detaches the recorded history from the one the log holds"),
dict(id="T03-first-write", property="T03",
 edits=[("tracker.py", "        if self.paused is True:\n            return\n", "        if self.paused is True and self.outpath.exists():\n            return\n")],
 demo='''
import pathlib, tempfile
from dustgoggles.tracker import Tracker
with tempfile.TemporaryDirectory() as d:
    t = Tracker("t", outdir=pathlib.Path(d))
    t.dump(); t.paused = True; size = t.outpath.stat().st_size
    t.dump()
    assert t.outpath.stat().st_size == size
    t.clear()
    t.dump()
    assert not t.outpath.exists()
''', needs="dumping a paused tracker that has no log file yet",
 what="a paused tracker writes its log file if there is none"),
]
