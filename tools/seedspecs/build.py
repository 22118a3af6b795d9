C, D = "composition.py", "dynamic.py"
PC = "from dustgoggles.composition import Composition\n"
PD = "from dustgoggles.dynamic import *\nfrom dustgoggles import dynamic as mod\n"
SEEDS = [
dict(id="P07-insert-fresh", property="P07",
 edits=[(C, "        if step_name not in self.inserts.keys():\n            self.inserts[step_name] = {}\n",
         "        if not isinstance(self.inserts.get(step_name), dict) or step_name not in self.steps:\n            self.inserts[step_name] = {}\n")],
 demo=PC + '''
c = Composition({"a": str})
c.add_insert("b", "x", 1)
c.add_insert("b", "y", 2)
c.add_step(lambda s, x=0, y=0: (s, x, y), "b")
assert c.execute(3) == ("3", 1, 2), c.execute(3)
''', needs="two inserts registered for a step before it is added", what="the second replaces the first"),
dict(id="P07-default-name", property="P07",
 edits=[(C, "            name = len(self.steps) + 1\n", "            name = len(self.steps)\n            while name in self.steps:\n                name += 1\n")],
 demo=PC + '''
c = Composition({"a": str, "b": len})
c.add_step(abs)
assert c.index == ("a", "b", 3), c.index
''', needs="a step added without a name", what="it is named by the number of steps, so documented inserts and sends miss it"),
dict(id="P07-replaced-last", property="P07",
 edits=[(C, "        self.steps[name] = step\n        self._add_track_send(name)\n",
         "        if name in self.inserts:\n            self.steps = {**{k: v for k, v in self.steps.items() if k != name}, name: step}\n        else:\n            self.steps |= {name: step}\n        self._add_track_send(name)\n")],
 demo=PC + '''
c = Composition({"a": lambda s, k=0: s + k, "b": str}, inserts={"a": {"k": 5}})
c.add_step(lambda s, k=0: s * k, "a")
assert c.index == ("a", "b"), c.index
assert c.execute(2) == "10"
''', needs="replacing a step that has inserts", what="the replacement moves to the end"),
dict(id="P07-shared-capture", property="P07",
 edits=[(C, "        self.captures = {step: [None] for step in self.steps}\n",
         "        made = {}\n        self.captures = {\n            name: made.setdefault(step, [None])\n            for name, step in self.steps.items()\n        }\n")],
 demo=PC + '''
c = Composition({"a": abs, "b": lambda x: x - 9, "c": abs})
c.add_captures()
c.execute(-2)
assert {k: v[0] for k, v in c.captures.items()} == {"a": 2, "b": -7, "c": 7}, c.captures
''', needs="the same function at two steps", what="the two steps share one capture"),
dict(id="P07-send-order", property="P07",
 edits=[(C, "        if (target is None) and (pipe is None):\n", "        buses = self.sends.setdefault(step_name, [])\n        if target is None and (pipe is None):\n")],
 demo=PC + '''
c = Composition({"a": abs})
try:
    c.add_send("b")
    assert False
except ValueError:
    pass
assert c.send_index == (), c.send_index
''', needs="a refused send", what="it leaves an empty entry behind"),
dict(id="P07-hook-late", property="P07",
 edits=[(C, "        iterpipe = self.itercall(signal, **special_kwargs)\n", "        iterpipe = self.itercall(signal)\n"),
        (C, "        self._bind_special_runtime_kwargs(special_kwargs)\n", "        if special_kwargs:\n            self._bind_special_runtime_kwargs(special_kwargs)\n")],
 demo=PC + '''
class Sub(Composition):
    def _bind_special_runtime_kwargs(self, kwargs):
        self.seen = dict(kwargs)
c = Sub({"a": abs})
c.execute(-1, z=4)
assert c.seen == {"z": 4}
''', needs="a subclass with runtime keywords, executed rather than iterated", what="execute drops the keywords"),
dict(id="D01-stale-call-fail", property="D01",
 edits=[(D, "                if self.errors[-1].get('category') == 'call':\n", "                if self.errors[0].get('category') == 'call':\n")],
 demo=PD + '''
d = Dynamic("def f(x): return 1 / x", optional=True)
d.errors.append({"category": "compile"})
assert d(0) is None
assert d.call_fail, "an error before it"
''', needs="a call failure after an earlier recorded compile failure", what="the flag is not set"),
dict(id="D02-unload-name", property="D02",
 edits=[(D, "        self.__name__ = self.__class__.__name__\n        self.__signature__ = None\n", "        if self.func is not None:\n            self.__name__ = self.__class__.__name__\n        self.__signature__ = None\n")],
 demo=PD + '''
d = Dynamic("def f(x): return x")
assert d.__name__ == "f"
d.unload()
assert d.__name__ == "Dynamic", d.__name__
''', needs="unloading", what="an unloaded Dynamic keeps the name of its former function"),
]
