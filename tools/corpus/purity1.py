F, P, U, C, M = "structures.py", "pivot.py", "func.py", "scrape.py", "mosaic.py"
BUGS = [
 ("t1", "S01", F, "branch = accumulated_levels.copy()", "branch = accumulated_levels"),
 ("t2", "S01", F, "            flat = mapping | category_dict\n", "            flat = mapping\n            flat |= category_dict\n"),
 ("t3", "S01", F, "            flat = mapping | category_dict\n            records.append(flat)", "            mapping.update(category_dict)\n            records.append(mapping)"),
 ("t4", "S01", F, "category_dict = accumulated_levels | {level_name: category}", "accumulated_levels[level_name] = category\n            category_dict = accumulated_levels"),
 ("u1", "S01", F, "        if not isinstance(maybe_mapping, mtypes):\n            long_records.append({f\"{prefix}{level}\": maybe_mapping})\n", "        if not isinstance(maybe_mapping, mtypes):\n            long_records.append({f\"{prefix}{level}\": nested.setdefault(level, None)})\n            if prefix:\n                nested[f\"{prefix}{level}\"] = maybe_mapping\n"),
 ("i1", "S01", F, "    new_dict = {}\n    for key, value in mapping.items():\n        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n    return new_dict",
  "    later, found = {}, False\n    for key in list(mapping):\n        if found:\n            later[key] = mapping.pop(key)\n        elif key == prior_key:\n            found = True\n    if found:\n        mapping[new_key] = new_value\n    mapping.update(later)\n    return mapping"),
 ("i2", "S01", F, "    new_dict = {}\n    for key, value in mapping.items():\n        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n    return new_dict",
  "    if new_key in mapping:\n        mapping[new_key] = new_value\n    new_dict = {}\n    for key, value in mapping.items():\n        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n    return new_dict"),
 ("g1", "S01", F, "    return list(map(methodcaller(\"get\", key, default), view))", "    return [m.setdefault(key, default) for m in view]"),
 ("g2", "S01", F, "    level = collection\n    for key in keys:\n        try:\n", "    level = collection\n    while keys:\n        key = keys.pop(0)\n        try:\n"),
 ("s1", "S01", F, "    hits = []\n    misses = []\n    for item in collection:\n        if ref(item) is True:\n            hits.append(item)\n        else:\n            misses.append(item)\n    return hits, misses",
  "    hits = [item for item in collection if ref(item) is True]\n    for item in hits:\n        collection.remove(item)\n    return hits, list(collection)"),
 ("m1", "S01", F, "    output = {}\n    only_in_one", "    output = map1\n    only_in_one"),
 ("m2", "S01", F, "            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)\n", "            map2[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)\n            output[kv[0]] = map2[kv[0]]\n"),
 ("m3", "S01", F, "            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)\n", "            merged = map1[kv[0]]\n            merged.update(rmerge(merged, map2[kv[0]], mtypes))\n            output[kv[0]] = merged\n"),
 ("p1", "S01", F, "        argrecs = [dict(rec) for rec in argrecs]\n", "        argrecs = list(argrecs)\n"),
 ("p2", "S01", F, "            rec['args'] = rec.get('args', ())\n            rec['kwargs'] = rec.get('kwargs', {})\n", "            rec['args'] = rec.get('args', ())\n            rec['kwargs'] = rec.get('kwargs', {})\n            rec['kwargs'].setdefault('key', i)\n"),
 ("l1", "S01", F, "            return list(thing)\n    return [thing]", "            if isinstance(thing, list):\n                thing.sort()\n            return list(thing)\n    return [thing]"),
 ("e1", "S01", F, "    if isinstance(sequence, Mapping):\n        return sequence\n", "    if isinstance(sequence, Mapping):\n        for ix, key in enumerate(list(sequence)):\n            sequence[ix] = sequence.pop(key)\n        return sequence\n"),
 ("d1", "S01", U, "    sets = [tuple(this_set) for this_set in sets]\n    shared = intersection(*sets)\n    return [\n        [file for file in this_set if file not in shared] for this_set in sets\n    ]",
  "    shared = intersection(*sets)\n    for this_set in sets:\n        for file in list(this_set):\n            if file in shared:\n                this_set.remove(file)\n    return [list(this_set) for this_set in sets]"),
 ("d2", "S01", U, "    return reduce(and_, [set(iterable) for iterable in iterables])", "    first = iterables[0] if isinstance(iterables[0], set) else set(iterables[0])\n    for other in iterables[1:]:\n        first &= set(other)\n    return first"),
 ("d3", "S01", U, "        args = args[:arg_count]\n        return func(*args, **kwargs)", "        if isinstance(args, list):\n            del args[arg_count:]\n        args = args[:arg_count]\n        return func(*args, **kwargs)"),
 ("v1", "S01", P, "    df = df.copy()\n    df.loc[unpacked.index", "    df.loc[unpacked.index"),
 ("v2", "S01", P, "    return df.drop(columns=colname)", "    df.drop(columns=colname, inplace=True)\n    return df", (P, "    df = df.copy()\n", "")),
 ("v3", "S01", P, "    arr_finite = arr[np.isfinite(arr)]\n", "    if use_nillable_int is False:\n        arr[np.isneginf(arr)] = np.nan\n    arr_finite = arr[np.isfinite(arr)]\n"),
 ("v4", "S01", P, "    arr = np.asarray(arr)\n    if arr.dtype.kind in 'cMO'", "    arr = np.asarray(arr)\n    arr += 0\n    if arr.dtype.kind in 'cMO'"),
 ("v5", "S01", P, "    df = pd.DataFrame(series).reset_index()\n", "    if series.index.name is None:\n        series.index.name = 'index'\n    df = pd.DataFrame(series).reset_index()\n"),
 ("v6", "S01", P, "        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']\n        recast.index = col.index\n", "        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']\n        recast.index = col.index\n        df[_] = recast\n"),
 ("v7", "S01", P, "        constants = by_label.iloc[0].to_dict()\n", "        constants = by_label.iloc[0].to_dict()\n    if drop_constants and how == 'rows':\n        df.drop(columns=list(constant_indices[constant_indices].index), inplace=True)\n"),
 ("v8", "S01", P, "    dropped = series.dropna()\n", "    series.dropna(inplace=True)\n    dropped = series\n"),
 ("v9", "S01", P, "    df = df.melt(by)\n", "    df.columns = [str(col) for col in df.columns]\n    df = df.melt(by)\n"),
 ("v10", "S01", P, "    offsets = np.abs(arr_nzero - recast)\n", "    offsets = np.abs(np.subtract(arr, recast, out=arr))\n"),
 ("v11", "S01", P, "    unique_tuples = df[cols].value_counts()", "    df.sort_values(cols, inplace=True)\n    unique_tuples = df[cols].value_counts()"),
 ("v12", "S01", P, "    for column in extra_columns:\n", "    for column in extra_columns:\n        df0 = dataframe.pop(column)\n"),
 ("v13", "S01", P, "    by = listify(by)\n", "    by = by if isinstance(by, list) else [by]\n    by += ['variable']\n    by = by[:-1]\n"),
 ("c1", "S01", C, "    metadata = {\n        field: scrape(pattern) for field, pattern in metadata_regex.items()\n    }\n", "    metadata = metadata_regex\n    for field, pattern in list(metadata_regex.items()):\n        metadata[field] = scrape(pattern)\n"),
 ("c2", "S01", C, "    metaframe = []\n    for file in files:\n        metaframe.append(pattern_scraper(file))\n    return metaframe", "    for ix, file in enumerate(files):\n        files[ix] = pattern_scraper(file)\n    return files"),
 ("o1", "S01", M, "        if not ((rec[\"min\"] > bounds[1]) or (rec[\"max\"] < bounds[0])):\n            bound_records.append(rec)\n", "        if not ((rec[\"min\"] > bounds[1]) or (rec[\"max\"] < bounds[0])):\n            bound_records.append(rec)\n        else:\n            rec[\"skipped\"] = True\n"),
 ("o2", "S01", M, "        return\n    bound_groups = []\n", "        return\n    meta_records.sort(key=lambda rec: rec[\"min\"])\n    bound_groups = []\n", (M, "    meta_records = list(meta_records)\n", "")),
 ("o3", "S01", M, "    meta_df = pd.DataFrame(meta_records)\n", "    for rec in meta_records:\n        rec.pop(\"file_path\", None)\n    meta_df = pd.DataFrame(meta_records)\n"),
]
SAME = [
 ("r1", ["S01"], F, "            category_dict = accumulated_levels | {level_name: category}\n            flat = mapping | category_dict\n", "            flat = dict(mapping)\n            flat.update(accumulated_levels)\n            flat[level_name] = category\n"),
 ("r2", ["S01"], F, "    output = {}\n    only_in_one", "    output = dict(map1)\n    output.clear()\n    only_in_one"),
 ("r3", ["S01"], F, "    new_dict = {}\n    for key, value in mapping.items():\n        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n    return new_dict",
  "    items = list(mapping.items())\n    for ix, (key, _) in enumerate(items):\n        if key == prior_key:\n            items.insert(ix + 1, (new_key, new_value))\n            break\n    return dict(items)"),
 ("r4", ["S01"], P, "    df = df.copy()\n    df.loc[unpacked.index, unpacked.columns] = unpacked\n    return df.drop(columns=colname)", "    out = df.drop(columns=colname)\n    out.loc[unpacked.index, unpacked.columns] = unpacked\n    return out"),
 ("r5", ["S01"], P, "        offsets = np.abs(arr_nzero - recast)\n", "        offsets = arr_nzero - recast\n        np.abs(offsets, out=offsets)\n"),
 ("r6", ["S01"], P, "    return pd.DataFrame(\n        np.repeat(dataframe.values, repeats, axis=0),\n        columns=dataframe.columns,\n    )", "    out = pd.DataFrame(np.repeat(dataframe.values, repeats, axis=0))\n    out.columns = dataframe.columns\n    return out"),
 ("r7", ["S01"], M, "    bound_records = []\n    for rec in meta_records:\n        if not ((rec[\"min\"] > bounds[1]) or (rec[\"max\"] < bounds[0])):\n            bound_records.append(rec)\n", "    bound_records = list(meta_records)\n    for rec in meta_records:\n        if (rec[\"min\"] > bounds[1]) or (rec[\"max\"] < bounds[0]):\n            bound_records.remove(rec)\n"),
 ("r8", ["S01"], U, "    return reduce(and_, [set(iterable) for iterable in iterables])", "    sets = [set(iterable) for iterable in iterables]\n    shared = sets.pop(0)\n    while sets:\n        shared &= sets.pop()\n    return shared"),
 ("r9", ["S01"], F, "        argrecs = [dict(rec) for rec in argrecs]\n", "        argrecs = [rec.copy() for rec in argrecs]\n"),
 ("r10", ["S01"], F, "        argrecs = [dict(rec) for rec in argrecs]\n        for i, rec in enumerate(argrecs):\n            rec['key'] = rec.get('key', i)\n            rec['args'] = rec.get('args', ())\n            rec['kwargs'] = rec.get('kwargs', {})\n", "        argrecs = [{'key': i, 'args': (), 'kwargs': {}} | rec for i, rec in enumerate(argrecs)]\n"),
 ("r12", ["S01"], P, "    squeezed.index.name = series.index.name\n    squeezed.name = series.name\n    return squeezed", "    out = squeezed.copy()\n    out.index.name, out.name = series.index.name, series.name\n    return out"),
 ("r13", ["S01"], P, "    keys1 = df1[list(columns)].value_counts().index.to_list()\n", "    columns = list(columns)\n    columns.sort()\n    keys1 = df1[list(columns)].value_counts().index.to_list()\n"),
 ("r14", ["S01"], C, "    metadata = {\n        field: scrape(pattern) for field, pattern in metadata_regex.items()\n    }\n", "    metadata = dict(metadata_regex)\n    for field in metadata:\n        metadata[field] = scrape(metadata[field])\n"),
]
