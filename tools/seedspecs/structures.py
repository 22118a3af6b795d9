S = "structures.py"
PS = "from dustgoggles.structures import *\n"
SEEDS = [
dict(id="S01-keyed-records", property="S01",
 edits=[(S, "            rec['kwargs'] = rec.get('kwargs', {})\n",
         "            rec['kwargs'] = kwargs = rec.get('kwargs', {})\n            if kwargs.pop('with_key', False):\n                rec['args'] = (rec['key'], *rec['args'])\n")],
 demo=PS + '''
def f(*a): return a
recs = [{"key": "x", "kwargs": {}}]
map_into_pool(f, recs)
assert recs == [{"key": "x", "kwargs": {}}]
recs = [{"key": "x", "kwargs": {"with_key": False}}]
map_into_pool(f, recs)
assert recs == [{"key": "x", "kwargs": {"with_key": False}}], recs
''', needs="a record with a with_key argument of its own",
 what="the caller's kwargs mapping loses an item"),
dict(id="S02-found-not-entered", property="S02",
 edits=[(S, "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]\n    level_items = [(k, v) for k, v in mapping.items() if predicate(k, v)]\n",
         "    level_items = [(k, v) for k, v in mapping.items() if predicate(k, v)]\n    found = {k for k, _ in level_items}\n    nests = [v for k, v in mapping.items() if isinstance(v, mtypes) and k not in found]\n")],
 demo=PS + '''
m = {"a": {"a": 1, "b": 2}, "c": {"a": 3}}
assert sorted(map(str, dig_for_values(m, "a"))) == sorted(map(str, [{"a": 1, "b": 2}, 1, 3]))
''', needs="a matching item that is itself a mapping with a match inside", what="the inside of a matching mapping is not searched"),
dict(id="S02-deduplicated", property="S02",
 edits=[(S, "        level_items += reduce(\n            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]\n        )\n",
         "        for nest in nests:\n            level_items += [i for i in dig_for_all(nest, predicate, mtypes) if i not in level_items]\n")],
 demo=PS + '''
assert dig_for_values({"x": {"a": 1}, "y": {"a": 2}}, "a") == [1, 2]
assert dig_for_values({"x": {"a": 1}, "y": {"a": 1}}, "a") == [1, 1]
''', needs="equal items in two places", what="only one of several equal matches is returned"),
dict(id="S02-last-nest", property="S02",
 edits=[(S, "    dug, iternests = None, iter(nests)\n    while dug is None:\n        try:\n            dug = dig_for(next(iternests), predicate, mtypes)\n        except StopIteration:\n            return None\n    return dug\n",
         "    iternests = iter(nests)\n    nest = next(iternests)\n    for following in iternests:\n        dug = dig_for(nest, predicate, mtypes)\n        if dug is not None:\n            return dug\n        if following:\n            nest = following\n    return dig_for(nest, predicate, mtypes) if len(nests) < 3 else None\n")],
 demo=PS + '''
for n in (1, 2, 3, 4):
    m = {i: {"b": 1} for i in range(n)}
    m[n - 1] = {"a": n}
    assert dig_for_value(m, "a") == n, n
''', needs="three nested mappings side by side with the match in the last", what="the last nested mapping is not searched"),
dict(id="S03-first-level-value", property="S03",
 edits=[(S, "    for key, value in matches:\n        mapping[key] = setter_func(key, value)\n",
         "    edits = {}\n    for key, value in matches:\n        edits[key] = edits[value] if isinstance(value, (str, int)) and value in edits else setter_func(key, value)\n    mapping.update(edits)\n")],
 demo=PS + '''
m = {"a": 1, "b": {"c": 2}}
dig_and_edit(m, lambda k, v: isinstance(v, int), lambda k, v: v + 1)
assert m == {"a": 2, "b": {"c": 3}}
m = {"a": 1, "b": "a"}
dig_and_edit(m, lambda k, v: True, lambda k, v: (k, v))
assert m == {"a": ("a", 1), "b": ("b", "a")}, m
''', needs="a value that is the same as an earlier edited key", what="it is given the other key's new value"),
dict(id="S04-same-type", property="S04",
 edits=[(S, "        elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):\n",
         "        elif isinstance(map1[kv[0]], mtypes) and type(map1[kv[0]]) is type(map2[kv[0]]):\n")],
 demo=PS + '''
assert rmerge({"a": {"x": 1}}, {"a": {"y": 2}}) == {"a": {"x": 1, "y": 2}}
assert rmerge({"a": {"x": 1}}, {"a": OrderedDict(y=2)}) == {"a": {"x": 1, "y": 2}}
''', needs="two mappings of different types under one key", what="they are not merged"),
dict(id="S05-truthy-lost", property="S05",
 edits=[(S, "        if ref(item) is True:\n            hits.append(item)\n        else:\n            misses.append(item)\n",
         "        verdict = ref(item)\n        if verdict is True:\n            hits.append(item)\n        elif not verdict:\n            misses.append(item)\n")],
 demo=PS + '''
h, m = separate_by([1, 2, 3], lambda x: x > 1)
assert (h, m) == ([2, 3], [1])
h, m = separate_by(["a", "", "b"], len)
assert sorted(h + m) == ["", "a", "b"], (h, m)
''', needs="a predicate that returns something true other than True", what="the item is in neither result"),
dict(id="S06-pruned", property="S06",
 edits=[(S, "        self.dict_[key] = itemhash\n", "        old, self.dict_[key] = self.dict_.get(key), itemhash\n        if old != itemhash:\n            self.reverse.pop(old, None)\n")],
 demo=PS + '''
h = HashDict()
h["a"] = 1; h["a"] = 2
assert h["a"] == 2
h["b"] = 3; h["c"] = 3; h["b"] = 4
assert h["b"] == 4 and h["c"] == 3
''', needs="two keys with the same item, one reassigned", what="the other key's item is gone"),
dict(id="S06-falsy", property="S06",
 edits=[(S, "        if itemhash not in self.reverse.keys():\n", "        if not self.reverse.get(itemhash) and itemhash is not None:\n")],
 demo=PS + '''
h = HashDict(lambda x: len(x) if x else None)
h["a"] = [1]
assert h["a"] == [1]
h["b"] = []
assert h["b"] == []
''', needs="an equivalence that gives None for some item", what="looking up that key raises KeyError"),
dict(id="S07-remainder", property="S07",
 edits=[(S, "            chunks = divide(self.threads, argrecs)\n", "            chunks = chunked(argrecs, max(1, len(argrecs) // self.threads))\n            chunks = [c for c, _ in zip(chunks, range(self.threads + 1))]\n")],
 demo=PS + '''
for n in (1, 4, 5, 7):
    r = map_into_pool(abs, [{"args": (i,)} for i in range(n)], threads=4)
    assert r == {i: i for i in range(n)}, (n, r)
''', needs="a number of records that leaves more than one chunk over", what="the last records have no outcome"),
dict(id="S07-falsy-key", property="S07",
 edits=[(S, "            rec['args'] = rec.get('args', ())\n", "            rec['key'] = rec['key'] or i\n            rec['args'] = rec.get('args', ())\n"),
        (S, "        for i, rec in enumerate(argrecs):\n", "        for i, rec in enumerate(argrecs, 0):\n")],
 demo=PS + '''
assert map_into_pool(abs, [{"args": (-1,)}, {"args": (-2,), "key": "x"}]) == {0: 1, "x": 2}
r = map_into_pool(abs, [{"args": (-1,), "key": 1}, {"args": (-2,), "key": 0}])
assert r == {1: 1, 0: 2}, r
''', needs="a record whose own key is 0 or empty", what="the outcome is filed under another key, replacing another record's"),
dict(id="S07-first-failure-ends", property="S07",
 edits=[(S, "                if raise_exc:\n                    raise ex\n                output[k] = ex\n", "                if raise_exc:\n                    raise ex\n                if isinstance(ex, (MemoryError, OSError)):\n                    return output | {k: ex}\n                output.update({k: ex})\n")],
 demo=PS + '''
def f(x):
    if x == 1: raise ValueError
    if x == 2: raise FileNotFoundError
    return x
r = map_into_pool(f, [{"args": (i,)} for i in (0, 1)])
assert r[0] == 0 and isinstance(r[1], ValueError)
r = map_into_pool(f, [{"args": (i,)} for i in (0, 2, 3)])
assert r.keys() == {0, 1, 2}, r
''', needs="a record that fails with an OSError", what="later records' outcomes are discarded"),
dict(id="S08-errors-only", property="S08",
 edits=[(S, "    finally:\n        pool.terminate()\n    return results\n", "    except Exception:\n        pool.terminate()\n        raise\n    pool.terminate()\n    return results\n")],
 demo=PS + '''
import dustgoggles.structures as mod
gone = []
class P(mod.MaybePool):
    def terminate(self):
        gone.append(1); super().terminate()
mod.MaybePool = P
assert mod.map_into_pool(abs, [{"args": (1,)}]) == {0: 1} and gone == [1]
def stop(_): raise KeyboardInterrupt
try:
    mod.map_into_pool(stop, [{"args": (1,)}])
except KeyboardInterrupt:
    pass
assert gone == [1, 1], gone
''', needs="an interrupt while records are being mapped", what="the workers are left running"),
dict(id="S08-chunks-left", property="S08",
 edits=[(S, "        if self.pool is not None:\n            self.pool.terminate()\n", "        if self.pool is not None and self.results:\n            self.pool.terminate()\n")],
 demo=PS + '''
import multiprocessing, time
assert map_into_pool(abs, [{"args": (1,)}], threads=2) == {0: 1}
def bad():
    yield {"args": (1,)}
    raise ValueError
try:
    map_into_pool(abs, bad(), threads=2)
except ValueError as e:
    kept = e
import time
time.sleep(1)
assert not multiprocessing.active_children()
''', needs="records that fail before anything is submitted", what="the workers are not terminated"),
dict(id="S09-empty-record", property="S09",
 edits=[(S, "        if all([isinstance(value, Mapping) for value in mapping.values()]):\n            branch = accumulated_levels.copy()\n",
         "        if any([isinstance(value, Mapping) for value in mapping.values()]):\n            branch = accumulated_levels.copy()\n            branch.update((k, v) for k, v in mapping.items() if not isinstance(v, Mapping))\n            mapping = {k: v for k, v in mapping.items() if isinstance(v, Mapping)}\n")],
 demo=PS + '''
got = to_records({"a": {"b": {"x": 1}, "c": {"x": 2}}}, level_names=["l", "m"])
assert got == [{"x": 1, "l": "a", "m": "b"}, {"x": 2, "l": "a", "m": "c"}]
got = to_records({"a": {"x": 1, "y": {"z": 1}}}, level_names=["l", "m"])
assert got == [{"x": 1, "y": {"z": 1}, "l": "a"}], got
''', needs="a record with a mapping among its fields", what="its field is made into a level of its own"),
dict(id="S10-null-leaf", property="S10",
 edits=[(S, "            long_records.append({f\"{prefix}{level}\": maybe_mapping})\n            continue\n", "            if maybe_mapping is not None or not levels:\n                long_records.append({f\"{prefix}{level}\": maybe_mapping})\n            continue\n")],
 demo=PS + '''
assert unnest({"a": None, "b": {"c": 1}}) == {"a": None, "_b__c": 1} or len(unnest({"a": None, "b": {"c": 1}})) == 2
assert len(unnest({"a": 1, "b": {"c": None}})) == 2
''', needs="a None below the top level", what="the leaf is lost"),
dict(id="S10-first-wins", property="S10",
 edits=[(S, "    long_records = []\n    for level, maybe", "    long_records, seen = [], set()\n    for level, maybe"),
        (S, "            long_records.append({f\"{prefix}{level}\": maybe_mapping})\n            continue\n", "            if str(level).lower() not in seen:\n                long_records.append({f\"{prefix}{level}\": maybe_mapping})\n            seen.add(str(level).lower())\n            continue\n")],
 demo=PS + '''
assert len(unnest({"a": 1, "b": 2})) == 2
assert len(unnest({"a": 1, "A": 2})) == 2
''', needs="two keys that differ in case only", what="one of the leaves is lost"),
dict(id="S11-identical-key", property="S11",
 edits=[(S, "        if key == prior_key:\n", "        if key is prior_key:\n")],
 demo=PS + '''
assert list(insert_after("n", 1, "a", {"a": 0, "b": 2})) == ["a", "n", "b"]
k = "".join(["x", "y"])
assert list(insert_after("n", 1, k, {"xy": 0, "b": 2})) == ["xy", "n", "b"]
''', needs="a key that is equal to but not the same object as the mapping's", what="nothing is inserted"),
dict(id="S11-default-for-none", property="S11",
 edits=[(S, "    return list(map(methodcaller(\"get\", key, default), view))\n", "    return [default if m.get(key) is None else m[key] for m in view]\n")],
 demo=PS + '''
assert get_from_all("a", [{"a": 1}, {}], 0) == [1, 0]
assert get_from_all("a", [{"a": None}], 0) == [None]
''', needs="a mapping whose own value is None", what="the default is returned for it"),
dict(id="S11-stale-level", property="S11",
 edits=[(S, "        try:\n            level = getitemattr(level, key)\n        except AttributeError:\n            return default\n    return level\n",
         "        try:\n            level = getitemattr(level, key)\n        except AttributeError:\n            break\n    return default if level is collection else level\n")],
 demo=PS + '''
m = {"a": {"b": 1}}
assert get_from(m, ["a", "b"], 0) == 1 and get_from(m, ["x", "b"], 0) == 0
assert get_from(m, ["a", "x"], 0) == 0
''', needs="a path whose first key is there and a later one is not", what="the last level found is returned in place of the default"),
]
