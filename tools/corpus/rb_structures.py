"""bugs in structures.py that need something specific to show"""
import re
F = "structures.py"
SRC = open("/repo/dustgoggles/structures.py").read()
CASES = []
import ast


def get(qual):
    body = ast.parse(SRC).body
    for part in qual.split("."):
        node = next(n for n in body if getattr(n, "name", None) == part)
        body = node.body
    lines = SRC.splitlines()
    start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    import textwrap
    return textwrap.dedent("\n".join(lines[start:node.end_lineno]))


def bug(id, props, qual, *subs, add=""):
    s = get(qual)
    for old, new in subs:
        assert old in s, (id, old)
        s = s.replace(old, new)
    CASES.append(dict(id=id, kind="bug", file=F, props=props, defs={qual: s}, add=add))


bug("b-rec-tee-shared", "S09", "to_records", ("level_names, lower_names = tee(level_names)", "lower_names = level_names"))
bug("b-rec-any", "S09", "to_records", ("if all([", "if any(["))
bug("b-rec-branch-shared", "S09", "to_records", ("branch = accumulated_levels.copy()", "branch = accumulated_levels"))
bug("b-rec-flat-order", "S09", "to_records", ("mapping | category_dict", "category_dict | mapping"))
bug("b-rec-mutable-default", ["S09", "S01"], "to_records", ("accumulated_levels=None, level", "accumulated_levels={}, level"),
    ("branch = accumulated_levels.copy()", "branch = accumulated_levels"), ("{} if accumulated_levels is None else accumulated_levels", "accumulated_levels"))
bug("b-rec-acc-falsy", "S09", "to_records", ("accumulated_levels | {level_name: category}", "{level_name: category} if len(accumulated_levels) < 2 else accumulated_levels | {level_name: category}"))
bug("b-rec-level-adv", "S09", "to_records", ("            records += ", "            next(level_names, None)\n            records += "))
bug("b-unnest-prefix-int", "S10", "_unnest", ("if len(prefix) > 0:", "if prefix and prefix != '0':"))
bug("b-unnest-escape", "S10", "_unnest", ('f"{escape}_{escape}".join', 'f"{escape}_".join'))
bug("b-unnest-levels-shared", "S10", "_unnest", ("        long_records += _unnest(maybe_mapping, mtypes, escape,\n                                levels + [level])", "        levels.append(level)\n        long_records += _unnest(maybe_mapping, mtypes, escape, levels)"))
bug("b-unnest-emptyskip", "S10", "_unnest", ("if not isinstance(maybe_mapping, mtypes):", "if not (isinstance(maybe_mapping, mtypes) and maybe_mapping):"))
bug("b-unnest-mtypes", "S10", "_unnest", ("_unnest(maybe_mapping, mtypes, escape,", "_unnest(maybe_mapping, dict, escape,"))
bug("b-unnest-escape-lost", "S10", "_unnest", ("_unnest(maybe_mapping, mtypes, escape,\n", "_unnest(maybe_mapping, mtypes, '',\n"))
bug("b-unnest-merge-rev", "S10", "unnest", ("merge(flat_records)", "merge(flat_records[::-1])"))
bug("b-listify-bytes", "S11", "listify", ("isinstance(thing, str)", "isinstance(thing, (str, bytes, tuple))"))
bug("b-listify-same", ["S11", "S01"], "listify", ("            return list(thing)", "            return thing if isinstance(thing, list) else list(thing)"))
bug("b-enum-dict-copy", "S11", "enumerate_as_mapping", ("return {ix: element for ix, element in enumerate(sequence)}", "return {ix: element for ix, element in enumerate(sequence, 1)}"))
bug("b-enum-falsy", "S11", "enumerate_as_mapping", ("if sequence is None:", "if not sequence:"))
bug("b-enum-set", "S11", "enumerate_as_mapping", ("enumerate(sequence)}", "enumerate(set(sequence))}"))
bug("b-insert-once", "S11", "insert_after", ("        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value", "        if key == prior_key:\n            new_dict[new_key] = new_value\n        new_dict[key] = value"))
bug("b-insert-overwrites", "S11", "insert_after", ("new_dict[new_key] = new_value", "new_dict.setdefault(new_key, new_value)"))
bug("b-insert-inplace", "S01", "insert_after", ("    new_dict = {}\n", "    new_dict = mapping\n"), ("in mapping.items()", "in list(mapping.items())"))
bug("b-getall-default", "S11", "get_from_all", ('methodcaller("get", key, default)', 'methodcaller("get", key)'))
bug("b-getall-filter", "S11", "get_from_all", ("list(map(", "list(filter(None, map("), ("view))", "view)))"))
bug("b-getitemattr-attrfirst", "S11", "getitemattr", ("return getitem(collection, key)\n    except (KeyError, IndexError, TypeError):\n        return getattr(collection, key)", "return getattr(collection, key)\n    except (AttributeError, TypeError):\n        return getitem(collection, key)"))
bug("b-getitemattr-noindex", "S11", "getitemattr", ("(KeyError, IndexError, TypeError)", "(KeyError, TypeError)"))
bug("b-getfrom-none", "S11", "get_from", ("            return default\n", "            return default\n        if level is None:\n            return default\n"))
bug("b-getfrom-continue", "S11", "get_from", ("            return default\n", "            level = default\n"))
bug("b-const-val", "S02", "constant_to_dig_predicate", ('elif match == "value":\n        return valonly(', 'elif match == "value":\n        return keyonly('))
bug("b-const-default", "S02", "constant_to_dig_predicate", ('elif match == "item":\n        return partial(default, putative_predicate)', 'elif match == "item":\n        return partial(eq, putative_predicate)'))
bug("b-level-strict", "S02", "_evaluate_diglevel", ("if isinstance(v, mtypes)]", "if type(v) in mtypes]"))
bug("b-level-empty", "S02", "_evaluate_diglevel", ("if predicate(k, v)]", "if predicate(k, v) is True]"))
bug("b-level-matched-nests", "S02", "_evaluate_diglevel", ("nests = [v for v in mapping.values() if isinstance(v, mtypes)]", "nests = [v for k, v in mapping.items() if isinstance(v, mtypes) and not predicate(k, v)]"))
bug("b-level-unique", "S02", "_evaluate_diglevel", ("nests = [v for v in mapping.values() if isinstance(v, mtypes)]", "nests = list({id(v): v for v in mapping.values() if isinstance(v, mtypes)}.values())"))
bug("b-all-dictonly", "S02", "dig_for_all", ("dig_for_all(nest, predicate, mtypes) for", "dig_for_all(nest, predicate, (dict,)) for"))
bug("b-all-firstlevel", "S02", "dig_for_all", ("if nests:", "if nests and not level_items:"))
bug("b-allw-nonefalse", "S02", "dig_all_wrapper", ("return [item[element_ix] for item in items]", "return [item[element_ix] for item in items if item[element_ix] is not None]"))
bug("b-allw-ix", "S02", "dig_all_wrapper", ("if element_ix is None:", "if not element_ix:"))
bug("b-for-empty", "S02", "dig_for", ("    while dug is None:", "    while not dug:\n        if dug is not None and not isinstance(dug, list): break"), ("dug = dig_for(next(iternests), predicate, mtypes)", "dug = dig_for(next(iternests), predicate, (dict,))"))
bug("b-for-first-nest", "S02", "dig_for", ("    while dug is None:\n        try:\n            dug = dig_for(next(iternests), predicate, mtypes)\n        except StopIteration:\n            return None\n    return dug", "    return dig_for(next(iternests), predicate, mtypes)"))
bug("b-w-last", "S02", "dig_wrapper", ("return item[0][element_ix]", "return item[-1][element_ix]"))
bug("b-w-falsy", "S02", "dig_wrapper", ("return item[0][element_ix]", "return item[0][element_ix] or None"))
bug("b-key-pred", "S02", "dig_for_key", ("return dig_wrapper(mapping, ref, match, base_pred, 0, mtypes)", "return dig_wrapper(mapping, ref, match, eq, 0, mtypes)"))
bug("b-item-mt", "S02", "dig_for_item", ("None, mtypes)", "None, (dict,))"))
bug("b-edit-lazy", "S03", "dig_and_edit", ("matches = tuple(filter(splat(filter_func), mapping.items()))", "matches = tuple(filter(splat(filter_func), mapping.items()))[:1]"))
bug("b-edit-truthy", "S03", "dig_and_edit", ("mapping[key] = setter_func(key, value)", "mapping[key] = setter_func(key, value) or value"))
bug("b-edit-skip-same", "S03", "dig_and_edit", ("[v for v in mapping.values() if isinstance(v, mtypes)]", "[v for k, v in mapping.items() if isinstance(v, mtypes) and k not in dict(matches)]"))
bug("b-edit-mtypes", "S03", "dig_and_edit", ("dig_and_edit(nest, filter_func, setter_func, mtypes)", "dig_and_edit(nest, filter_func, setter_func)"))
bug("b-edit-ret", "S03", "dig_and_edit", ("    return mapping", "    return dict(mapping)"))
bug("b-edit-swap", "S03", "dig_and_edit", ("setter_func(key, value)", "setter_func(value, key)"))
bug("b-todict-type", "S03", "NestingDict.todict", ("is_it(NestingDict)(v)", "is_it(NestingDict)(v) and len(v) > 0"))
bug("b-todict-defaultdict", "S03", "NestingDict.todict", ("return dict(\n        dig_and_edit(", "return (\n        dig_and_edit("))
bug("b-sep-truth", "S05", "separate_by", ("if ref(item) is True:", "if ref(item):"))
bug("b-sep-twice", ["S05", "F01"], "separate_by", ("        else:\n", "        elif ref(item) is False:\n"))
bug("b-rm-none", "S04", "rmerge", ("output[kv[0]] = map2[kv[0]]", "output[kv[0]] = map2[kv[0]] if map2[kv[0]] is not None else map1[kv[0]]"))
bug("b-rm-mtypes", "S04", "rmerge", ("rmerge(map1[kv[0]], map2[kv[0]], mtypes)", "rmerge(map1[kv[0]], map2[kv[0]])"))
bug("b-rm-swap", "S04", "rmerge", ("rmerge(map1[kv[0]], map2[kv[0]], mtypes)", "rmerge(map2[kv[0]], map1[kv[0]], mtypes)"))
bug("b-rm-shallow", "S04", "rmerge", ("output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)", "output[kv[0]] = {**map1[kv[0]], **map2[kv[0]]}"))
bug("b-rm-inplace", ["S04", "S01"], "rmerge", ("output = {}", "output = map1"), ("chain(map1.items(), map2.items())", "list(chain(map1.items(), map2.items()))"))
bug("b-rm-any", "S04", "rmerge", ("elif all(map(", "elif any(map("))
bug("b-rm-alias", ["S04", "S01"], "rmerge", ("output = {}", "output = dict(map1)"), ("output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)", "output[kv[0]].update(rmerge(map1[kv[0]], map2[kv[0]], mtypes))"))
bug("b-hash-reverse-last", "S06", "HashDict.__setitem__", ("if itemhash not in self.reverse.keys():", "if not self.reverse.get(itemhash):"), ("self.dict_[key] = itemhash", "if self.dict_.setdefault(key, itemhash) != itemhash: pass"))
bug("b-hash-builtin", "S06", "HashDict.__setitem__", ("itemhash = self.hasher(item)", "itemhash = hash(self.hasher(item))"))
bug("b-hash-key", "S06", "HashDict.__setitem__", ("self.dict_[key] = itemhash\n    if itemhash not in", "if itemhash not in self.reverse.keys():\n        self.dict_[key] = itemhash\n    if itemhash not in"))
bug("b-hash-cleanup", "S06", "HashDict.__setitem__", ("self.dict_[key] = itemhash", "old = self.dict_.get(key)\n    self.dict_[key] = itemhash\n    if old is not None and old != itemhash:\n        self.reverse.pop(old, None)"))
bug("b-mr-exc", "S07", "MaybeResult", ("except Exception as ex:", "except ValueError as ex:"))
bug("b-mr-base", ["F02", "S07"], "MaybeResult", ("    except KeyboardInterrupt:\n            raise\n        except Exception as ex:", "    except BaseException as ex:"))
bug("b-mr-ready", "S07", "MaybeResult", ("return True", "return None"))
bug("b-cw-key", "S07", "_chunkwrap", ("rec['key']: MaybeResult", "str(rec['key']): MaybeResult"))
bug("b-cw-raise", "S07", "_chunkwrap", ("MaybeResult(func, rec['args'], rec['kwargs']).value", "func(*rec['args'], **rec['kwargs'])"))
bug("b-map-mutates", "S01", "MaybePool.map", ("argrecs = [dict(rec) for rec in argrecs]", "argrecs = list(argrecs)"))
bug("b-map-key0", "S07", "MaybePool.map", ("rec['key'] = rec.get('key', i)", "rec['key'] = rec.get('key') or i"))
bug("b-map-keyi1", "S07", "MaybePool.map", ("for i, chunk in enumerate(chunks)", "for i, chunk in enumerate(filter(None, map(list, chunks)), 1)"), ('f"chunk_{i}"', 'f"chunk_{i // 2}"'))
bug("b-map-stale", "S07", "MaybePool.map", ("        self.chunked = False\n        self.results", "        self.results"))
bug("b-map-accum", "S07", "MaybePool.map", ("        self.results = {\n            rec['key']: self.apply(func, rec['args'], rec['kwargs'])\n            for rec in argrecs\n        }", "        self.results.update({\n            rec['key']: self.apply(func, rec['args'], rec['kwargs'])\n            for rec in argrecs\n        })"))
bug("b-apply-args", "S07", "MaybePool.apply", ("return self.pool.apply_async(func, args, kwargs)", "return self.pool.apply_async(func, args)"))
bug("b-apply-sharedkw", "S07", "MaybePool.apply", ("kwargs = {} if kwargs is None else kwargs", "kwargs = {} if not isinstance(kwargs, dict) or len(args) > 0 else kwargs"))
bug("b-get-raise", "S07", "MaybePool.get", ("                    if raise_exc and isinstance(result, Exception):\n                        raise result\n", ""))
bug("b-get-drop", "S07", "MaybePool.get", ("            output[k] = ex\n", "            if not self.chunked:\n                output[k] = ex\n"))
bug("b-get-clears", "S07", "MaybePool.get", ("    return output", "    self.results = {}\n    return output"))
bug("b-nrun", "S07", "MaybePool.n_running", ("self.n_results - self.n_ready", "self.n_ready - self.n_results"))
bug("b-readyany", "S07", "MaybePool.ready", ("all(v.ready()", "any(v.ready()"))
bug("b-term-none", "S08", "MaybePool.terminate", ("if self.pool is not None:", "if self.pool is not None and self.results:"))
bug("b-close-ready", "S08", "MaybePool.close", ("if self.pool is None:", "if self.pool is None or not self.results:"))
bug("b-mp-filter", "S07", "map_into_pool", ("if not isinstance(v, Exception)", "if v is not None and not isinstance(v, Exception)"))
bug("b-mp-chunks", "S07", "map_into_pool", ("pool.map(func, argrecs, as_chunks=as_chunks)", "pool.map(func, argrecs, as_chunks=as_chunks and threads)"))
bug("b-mp-outer", "S08", "map_into_pool", ("    try:\n        pool.map(func, argrecs, as_chunks=as_chunks)\n", "    pool.map(func, argrecs, as_chunks=as_chunks)\n    try:\n"))
bug("b-mp-except", "S08", "map_into_pool", ("    finally:\n        pool.terminate()\n", "    except Exception:\n        pool.terminate()\n        raise\n"))
bug("b-mp-noclose", "S08", "map_into_pool", ("        pool.close()\n        pool.join()\n", "        pool.join()\n"))
