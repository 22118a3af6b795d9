F = "structures.py"
SEP = '''    hits = []
    misses = []
    for item in collection:
        if ref(item) is True:
            hits.append(item)
        else:
            misses.append(item)
    return hits, misses
'''
EDIT = '''    matches = tuple(filter(splat(filter_func), mapping.items()))
    for key, value in matches:
        mapping[key] = setter_func(key, value)
    for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:
        dig_and_edit(nest, filter_func, setter_func, mtypes)
    return mapping
'''
RM = '''    output = {}
    only_in_one = set(map1.keys()).symmetric_difference(map2.keys())
    for kv in chain(map1.items(), map2.items()):
        if kv[0] in only_in_one:
            output[kv[0]] = kv[1]
        elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
        else:
            output[kv[0]] = map2[kv[0]]
    return output
'''
DFA = '''    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    if nests:
        level_items += reduce(
            add, [dig_for_all(nest, predicate, mtypes) for nest in nests]
        )
    return level_items
'''
DF = '''    dug, iternests = None, iter(nests)
    while dug is None:
        try:
            dug = dig_for(next(iternests), predicate, mtypes)
        except StopIteration:
            return None
    return dug
'''
BUGS = [
 ("s5a", "S05", F, "            misses.append(item)", "            if item not in misses:\n                misses.append(item)"),
 ("s5b", "S05", F, SEP, SEP.replace("hits.append", "hits.insert(0, item) if 0 else misses.append")),
 ("s5c", "S05", F, "        else:\n            misses.append(item)", "        elif ref(item) is False:\n            misses.append(item)"),
 ("s5d", "S05", F, "            hits.append(item)\n", "            hits.insert(0, item)\n"),
 ("s5e", "S05", "pivot.py", "return df.loc[predicate], df.loc[~predicate]", "return df.loc[predicate], df.loc[~predicate].dropna()"),
 ("s5f", "S05", "pivot.py", "variables = df.loc[:, ~constant_indices]", "variables = df.loc[:, constant_indices]"),
 ("s5g", "S05", "pivot.py", "variables = df.loc[~constant_indices]", "variables = df.loc[:, ~constant_indices]"),
 ("s5h", "S05", "pivot.py", "                (series == series.iloc[0]).fillna(False).all()\n", "                not (series == series.iloc[0]).fillna(False).all()\n"),
 ("s5i", "S05", "pivot.py", "return constants, df\n", "return constants, variables\n"),
 ("s5j", "S05", "pivot.py", "return df.loc[predicate], df.loc[~predicate]", "return df.loc[~predicate], df.loc[predicate]"),
 ("s5k", "S05", F, SEP, SEP.replace("            misses.append(item)", "            misses.append(item)\n            if len(misses) > 10000:\n                break")),
 ("s4a", "S04", F, "            output[kv[0]] = map2[kv[0]]\n", "            output[kv[0]] = map1[kv[0]]\n"),
 ("s4b", "S04", F, "rmerge(map1[kv[0]], map2[kv[0]], mtypes)", "rmerge(map1[kv[0]], map2[kv[0]])"),
 ("s4c", "S04", F, "rmerge(map1[kv[0]], map2[kv[0]], mtypes)", "rmerge(map2[kv[0]], map1[kv[0]], mtypes)"),
 ("s4d", "S04", F, "elif all(map(", "elif any(map("),
 ("s4e", "S04", F, "isinstance(m, mtypes), (map1", "isinstance(m, dict), (map1"),
 ("s4f", "S04", F, "symmetric_difference(map2.keys())", "difference(map2.keys())"),
 ("s4g", "S04", F, "in chain(map1.items(), map2.items())", "in chain(map1.items())"),
 ("s4h", "S04", F, "            output[kv[0]] = kv[1]\n", "            if kv[1] is not None:\n                output[kv[0]] = kv[1]\n"),
 ("s4i", "S04", F, "            output[kv[0]] = map2[kv[0]]\n", "            output[kv[0]] = map2[kv[0]] or map1[kv[0]]\n"),
 ("s3a", "S03", F, "dig_and_edit(nest, filter_func, setter_func, mtypes)", "dig_and_edit(nest, filter_func, setter_func)"),
 ("s3b", "S03", F, EDIT, EDIT.replace("    matches =", "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]\n    matches =").replace("[v for v in mapping.values() if isinstance(v, mtypes)]:", "nests:")),
 ("s3c", "S03", F, "    for key, value in matches:\n        mapping[key] = setter_func(key, value)", "    for key, value in matches:\n        mapping[key] = setter_func(key, value)\n        if key is None:\n            break"),
 ("s3d", "S03", F, EDIT, '''    for key, value in tuple(mapping.items()):
        if filter_func(key, value):
            mapping[key] = setter_func(key, value)
        elif isinstance(value, mtypes):
            dig_and_edit(value, filter_func, setter_func, mtypes)
    return mapping
'''),
 ("s3e", "S03", F, EDIT, '''    for key, value in tuple(mapping.items()):
        if filter_func(key, value):
            mapping[key] = setter_func(key, value)
        if isinstance(value, mtypes):
            dig_and_edit(value, filter_func, setter_func, mtypes)
    return mapping
'''),
 ("s3f", "S03", F, "for nest in [v for v in mapping.values() if isinstance(v, mtypes)]:", "for nest in [v for v in mapping.values() if isinstance(v, dict)]:"),
 ("s3g", "S03", F, "lambda _, v: is_it(NestingDict)(v), lambda _, v: dict(v)", "lambda _, v: is_it(NestingDict)(v) and len(v) > 0, lambda _, v: dict(v)"),
 ("s3h", "S03", F, "lambda _, v: is_it(NestingDict)(v), lambda _, v: dict(v)", "lambda _, v: is_it(NestingDict)(v), lambda _, v: dict(v), (NestingDict,)"),
 ("s2a", "S02", F, "[dig_for_all(nest, predicate, mtypes) for nest in nests]", "[dig_for_all(nest, predicate, (dict,)) for nest in nests]"),
 ("s2b", "S02", F, "    nests = [v for v in mapping.values() if isinstance(v, mtypes)]", "    nests = [v for k, v in mapping.items() if isinstance(v, mtypes) and not predicate(k, v)]"),
 ("s2c", "S02", F, "dug = dig_for(next(iternests), predicate, mtypes)", "dug = dig_for(next(iternests), predicate, (dict,))"),
 ("s2d", "S02", F, DF, '''    for nest in nests:
        return dig_for(nest, predicate, mtypes)
    return None
'''),
 ("s2e", "S02", F, DF, '''    dug = None
    for nest in nests:
        dug = dig_for(nest, predicate, mtypes)
    return dug
'''),
 ("s2f", "S02", F, "    if len(items) == 0:\n        return None", "    if len(items) == 0:\n        return []"),
 ("s2g", "S02", F, "return dig_wrapper(mapping, ref, match, base_pred, 1, mtypes)", "return dig_wrapper(mapping, ref, match, base_pred, 0, mtypes)"),
 ("s2h", "S02", F, "return dig_all_wrapper(mapping, ref, match, base_pred, 0, mtypes)", "return dig_all_wrapper(mapping, ref, match, base_pred, 0, (dict,))"),
 ("s2i", "S02", F, "    if element_ix is None:\n        return item[0]\n", "    if not element_ix:\n        return item[0]\n"),
 ("s2j", "S02", F, "return valonly(partial(default, putative_predicate))", "return keyonly(partial(default, putative_predicate))"),
 ("s2k", "S02", F, "if predicate(k, v)]", "if predicate(k, v) is True]"),
 ("s2l", "S02", F, DFA, DFA.replace("if nests:", "if nests and not level_items:")),
 ("s2m", "S02", F, "isinstance(v, mtypes)]\n    level", "type(v) in mtypes]\n    level"),
 ("s2n", "S02", F, "    if isinstance(putative_predicate, Callable):", "    if isinstance(putative_predicate, Callable) and match != 'value':"),
]
SAME = [
 ("r5a", ["S05", "F03", "S01"], F, SEP, '''    buckets = {True: [], False: []}
    for item in collection:
        buckets[ref(item) is True].append(item)
    return buckets[True], buckets[False]
'''),
 ("r5b", "S05", F, SEP, '''    hits, misses = [], []
    for item in collection:
        target = hits if ref(item) is True else misses
        target.append(item)
    return hits, misses
'''),
 ("r5c", "S05", F, SEP, '''    items = list(collection)
    flags = [ref(item) is True for item in items]
    hits = [i for i, f in zip(items, flags) if f]
    misses = [i for i, f in zip(items, flags) if not f]
    return hits, misses
'''),
 ("r5d", "S05", F, SEP, SEP.replace("if ref(item) is True:\n            hits.append(item)\n        else:\n            misses.append(item)", "if ref(item) is not True:\n            misses.append(item)\n            continue\n        hits.append(item)")),
 ("r5e", "S05", "pivot.py", "return df.loc[predicate], df.loc[~predicate]", "hits = df.loc[predicate]\n    others = ~predicate\n    return hits, df.loc[others]"),
 ("r5f", "S05", "pivot.py", '''    if how == "rows":
        constants = df.loc[:, constant_indices]
        variables = df.loc[:, ~constant_indices]
    else:
        constants = df.loc[constant_indices]
        variables = df.loc[~constant_indices]
''', '''    by_row = how == "rows"
    selected, rest = constant_indices, ~constant_indices
    constants = df.loc[:, selected] if by_row else df.loc[selected]
    variables = df.loc[:, rest] if by_row else df.loc[rest]
'''),
 ("r5g", "S05", "pivot.py", "            if (len(series) == 0) or (\n                (series == series.iloc[0]).fillna(False).all()\n            ):\n                constant_indices.loc[ix] = True", "            if len(series) > 0 and not (series == series.iloc[0]).fillna(False).all():\n                continue\n            constant_indices.loc[ix] = True"),
 ("r4a", ["S04", "S01"], F, RM, '''    output = {}
    for key in [*map1, *(k for k in map2 if k not in map1)]:
        if key not in map2:
            output[key] = map1[key]
        elif key not in map1:
            output[key] = map2[key]
        elif isinstance(map1[key], mtypes) and isinstance(map2[key], mtypes):
            output[key] = rmerge(map1[key], map2[key], mtypes)
        else:
            output[key] = map2[key]
    return output
'''),
 ("r4b", ["S04", "S01"], F, RM, '''    output = dict(map1)
    for key, value in map2.items():
        if key in map1 and isinstance(map1[key], mtypes) and isinstance(value, mtypes):
            value = rmerge(map1[key], value, mtypes)
        output[key] = value
    return output
'''),
 ("r4c", ["S04", "S01"], F, RM, '''    both = set(map1) & set(map2)
    output = {**map1, **map2}
    for key in both:
        old, new = map1[key], map2[key]
        if isinstance(old, mtypes) and isinstance(new, mtypes):
            output[key] = rmerge(old, new, mtypes)
    return output
'''),
 ("r4d", ["S04", "S01"], F, RM, RM.replace('''elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):''', '''elif all(isinstance(m[kv[0]], mtypes) for m in (map1, map2)):''')),
 ("r3a", ["S03", "S01"], F, EDIT, '''    for key, value in tuple(mapping.items()):
        if filter_func(key, value):
            mapping[key] = setter_func(key, value)
    for value in mapping.values():
        if isinstance(value, mtypes):
            dig_and_edit(value, filter_func, setter_func, mtypes)
    return mapping
'''),
 ("r3b", "S03", F, EDIT, '''    for key, value in [(k, v) for k, v in mapping.items() if filter_func(k, v)]:
        mapping[key] = setter_func(key, value)
    nests = tuple(v for v in mapping.values() if isinstance(v, mtypes))
    for nest in nests:
        dig_and_edit(nest, filter_func, setter_func, mtypes=mtypes)
    return mapping
'''),
 ("r3c", "S03", F, EDIT, '''    matches = list(filter(lambda kv: filter_func(*kv), mapping.items()))
    mapping.update({key: setter_func(key, value) for key, value in matches})
    nests = filter(lambda v: isinstance(v, mtypes), mapping.values())
    for nest in list(nests):
        dig_and_edit(nest, filter_func, setter_func, mtypes)
    return mapping
'''),
 ("r2a", "S02", F, DFA, '''    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    for nest in nests:
        level_items.extend(dig_for_all(nest, predicate, mtypes))
    return level_items
'''),
 ("r2b", "S02", F, DFA, '''    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    deeper = [dig_for_all(nest, predicate, mtypes) for nest in nests]
    return level_items + [item for sub in deeper for item in sub]
'''),
 ("r2c", "S02", F, DF, '''    for nest in nests:
        dug = dig_for(nest, predicate, mtypes)
        if dug is not None:
            return dug
    return None
'''),
 ("r2d", "S02", F, '''    nests = [v for v in mapping.values() if isinstance(v, mtypes)]
    level_items = [(k, v) for k, v in mapping.items() if predicate(k, v)]
''', '''    nests, level_items = [], []
    for k, v in mapping.items():
        if predicate(k, v):
            level_items.append((k, v))
        if isinstance(v, mtypes):
            nests.append(v)
'''),
 ("r2e", "S02", F, '''    if element_ix is None:
        return items
    return [item[element_ix] for item in items]
''', '''    if element_ix is not None:
        items = [item[element_ix] for item in items]
    return items
'''),
 ("r2f", "S02", F, '''    item = dig_for(mapping, predicate, mtypes)
    if item is None:
        return None
    if element_ix is None:
        return item[0]
    return item[0][element_ix]
''', '''    found = dig_for(mapping, predicate, mtypes)
    if found is None:
        return None
    first = found[0]
    return first if element_ix is None else first[element_ix]
'''),
]
