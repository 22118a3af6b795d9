"""M01-M03: bugs and behaviour-preserving edits of mosaic"""
F = "mosaic.py"
M = ["M01", "M02"]
REL = '''    relevant_records = [
        rec for rec in meta_records if rec["path_in_schema"] == sort_column
    ]
'''
MAX = '''    max_value = max([rec["max"] for rec in relevant_records])
    min_value = min([rec["min"] for rec in relevant_records])
'''
WIN = '''    windows = list(windowed(np.linspace(min_value, max_value, n_chunks + 1), 2))
'''
LAST = '''    lower, upper = windows[-1]
    windows[-1] = (lower, max(upper + 1, np.nextafter(upper, np.inf)))
'''
REV = '''    if direction == "descending":
        windows.reverse()
'''
OPEN = '''        sort_writer = parquet.ParquetWriter(
            output_file, version=version, schema=schema, **open_kwargs
        )
'''
KW = '''    write_kwargs, open_kwargs = {}, {}
    if row_group_size is not None:
        write_kwargs["row_group_size"] = row_group_size
    if use_dictionary is not None:
        open_kwargs["use_dictionary"] = use_dictionary
'''
RBC = '''            window_table = read_between(
                sort_reader,
                sort_column,
                window,
                relevant_records,
                verbose=verbose
            )
            if window_table is None:
                continue
            if len(window_table) == 0:
                continue
'''
SKIP = '''            if window_table is None:
                continue
            if len(window_table) == 0:
                continue
'''
SORT = '''            window_table = window_table.sort_by([(sort_column, direction)])
            if inline_processor is not None:
                window_table = inline_processor(window_table)
            sort_writer.write_table(window_table, **write_kwargs)
'''
WLOOP = '''        for window in windows:
'''
SEL = '''    for rec in meta_records:
        if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
            bound_records.append(rec)
'''
FIL = '''        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
        more_than = pac.filter(
            less_than, pac.greater_equal(less_than[field], bounds[0])
        )
        if columns is not None:
            more_than = more_than.select(columns)
        bound_groups.append(more_than)
'''
GRP = '''    for rec in bound_records:
        group = parquet_file.read_row_group(rec["row_group"])
'''
RECS = '''    for col_ix, group_ix in product(
        range(meta.num_columns), range(meta.num_row_groups)
    ):
        record = meta.row_group(group_ix).column(col_ix).to_dict()
        if "statistics" in record.keys():
            record |= record.pop("statistics") or {}
        records.append(record | {"row_group": group_ix, "col_ix": col_ix})
'''
FLAT = '''        col_slice = meta_df.loc[meta_df["path_in_schema"] == col]
        constants, _ = extract_constants(col_slice)
'''
CONS = '''        # the totals supersede per-group values that happen to be constant
        constants = keyfilter(lambda k: k not in col_stats.index, constants)
'''
BRIEF = '''        if extended is False:
            constants = keyfilter(
                lambda k: k in BRIEF_PQ_META_FIELDS, constants
            )
'''
VERB = '''    if verbose is True:
        print(len(bound_records), len(meta_records))
'''
MCD = '''    metadata = meta_record_df(
        parquet_metadata_records(parquet_fn), extended=extended
    )
    metadata.index = metadata["column"]
    metadata.index.name = None
    return metadata.T
'''
BUGS = [
    ("b1", "M01", F, LAST, ""),
    ("b2", "M01", F, LAST, "    windows[-1] = (windows[-1][0], windows[-1][1] + 1)\n"),
    ("b3", "M01", F, LAST, "    windows[-1] = (windows[-1][0] + 1, max(windows[-1][1] + 1, np.nextafter(windows[-1][1], np.inf)))\n"),
    ("b4", "M01", F, LAST, "    windows[0] = (windows[0][0], windows[0][1] + 1)\n"),
    ("b5", "M01", F, MAX, MAX.replace("for rec in relevant_records])\n    min", "for rec in meta_records])\n    min")),
    ("b6", "M01", F, MAX, '''    max_value = relevant_records[-1]["max"]
    min_value = relevant_records[0]["min"]
'''),
    ("b7", "M01", F, MAX, MAX.replace('min([rec["min"]', 'max([rec["min"]')),
    ("b8", "M01", F, WIN, WIN.replace("min_value, max_value, n_chunks + 1", "min_value, max_value, n_chunks + 1, endpoint=False")),
    ("b9", "M01", F, WIN, '''    edges = np.linspace(min_value, max_value, n_chunks + 1)
    windows = [(edges[i], edges[i + 1] - 1) for i in range(n_chunks)]
'''),
    ("b10", "M01", F, WIN, WIN.replace("min_value, max_value", "0, max_value")),
    ("b11", "M01", F, "                relevant_records,\n", "                meta_records,\n"),
    ("b12", "M01", F, "                relevant_records,\n", "                relevant_records[1:],\n"),
    ("b13", "M01", F, SKIP, SKIP.replace("len(window_table) == 0", "len(window_table) <= 1")),
    ("b14", "M01", F, SKIP, SKIP.replace("                continue\n            if len", "                break\n            if len")),
    ("b15", "M01", F, SORT, SORT.replace("sort_writer.write", "window_table = window_table.slice(0, row_group_size)\n            sort_writer.write")),
    ("b16", "M01", F, SORT, SORT + "            if len(window_table) > 1000:\n                sort_writer.write_table(window_table, **write_kwargs)\n"),
    ("b17", "M01", F, SEL, SEL.replace('rec["max"] < bounds', 'rec["max"] <= bounds')),
    ("b18", "M01", F, SEL, '''    for rec in meta_records:
        if rec["min"] >= bounds[0] and rec["max"] < bounds[1]:
            bound_records.append(rec)
'''),
    ("b19", "M01", F, SEL, '''    for rec in meta_records:
        if bounds[0] <= rec["min"] < bounds[1] or bounds[0] <= rec["max"] < bounds[1]:
            bound_records.append(rec)
'''),
    ("b20", "M01", F, FIL, FIL.replace("pac.less(", "pac.less_equal(")),
    ("b21", "M01", F, FIL, FIL.replace("pac.greater_equal(", "pac.greater(")),
    ("b22", "M01", F, FIL, FIL.replace("pac.greater_equal(less_than[field]", "pac.greater_equal(group[field]")),
    ("b23", "M01", F, FIL, '''        if rec["min"] >= bounds[0]:
            more_than = pac.filter(group, pac.less(group[field], bounds[1]))
        else:
            more_than = pac.filter(
                group, pac.greater_equal(group[field], bounds[0])
            )
        if columns is not None:
            more_than = more_than.select(columns)
        bound_groups.append(more_than)
'''),
    ("b24", "M01", F, GRP, '''    for i, rec in enumerate(bound_records):
        group = parquet_file.read_row_group(i)
'''),
    ("b25", "M01", F, GRP, GRP.replace('rec["row_group"]', 'rec["col_ix"]')),
    ("b26", "M01", F, "    return pa.concat_tables(bound_groups)\n", "    return pa.concat_tables(bound_groups[:1])\n"),
    ("b27", "M01", F, "    return pa.concat_tables(bound_groups)\n", "    if len(bound_groups) < 2:\n        return\n    return pa.concat_tables(bound_groups)\n"),
    ("b28", "M01", F, RECS, RECS.replace('"row_group": group_ix, "col_ix": col_ix', '"row_group": col_ix, "col_ix": group_ix')),
    ("b29", "M01", F, RECS, RECS.replace(' or {}', '')),
    ("b30", "M01", F, RECS, RECS.replace('        if "statistics" in record.keys():\n    ', '')),
    ("b31", "M01", F, RECS, RECS.replace("range(meta.num_columns), range(meta.num_row_groups)", "range(meta.num_columns), range(1, meta.num_row_groups)")),
    ("b32", "M01", F, RECS, '''    record = {}
    for col_ix, group_ix in product(
        range(meta.num_columns), range(meta.num_row_groups)
    ):
        record |= meta.row_group(group_ix).column(col_ix).to_dict()
        if "statistics" in record.keys():
            record |= record.pop("statistics") or {}
        record |= {"row_group": group_ix, "col_ix": col_ix}
        records.append(record)
'''),
    ("b33", "M01", F, RECS, RECS.replace("record |= record.pop(\"statistics\") or {}", "record = (record.pop(\"statistics\") or {}) | record").replace("meta.row_group(group_ix)", "meta.row_group(0)")),
    ("b34", "M01", F, RECS, RECS.replace("range(meta.num_columns), range(meta.num_row_groups)", "range(meta.num_row_groups), range(meta.num_columns)")),
    ("b35", "M01", F, REL, '''    relevant_records = [
        rec for rec in meta_records if rec["path_in_schema"] == sort_column
        and rec["row_group"] > 0
    ]
'''),
    ("b36", "M01", F, "                verbose=verbose\n            )", "                columns=[sort_column],\n                verbose=verbose\n            )"),
    ("c1", "M02", F, REV, ""),
    ("c2", "M02", F, REV, '    if direction == "ascending":\n        windows.reverse()\n'),
    ("c3", "M02", F, SORT, SORT.replace("[(sort_column, direction)]", "sort_column")),
    ("c4", "M02", F, SORT, SORT.replace("direction)]", '"ascending")]')),
    ("c5", "M02", F, SORT, SORT.replace("sort_column, direction", "window_table.column_names[0], direction")),
    ("c6", "M02", F, SORT, SORT.replace("(sort_column, direction)", "(schema.names[0], direction), (sort_column, direction)")),
    ("c7", "M02", F, KW, KW.replace("if use_dictionary is not None", "if use_dictionary")),
    ("c8", "M02", F, KW, KW.replace("    if use_dictionary is not None:\n    ", "")),
    ("c9", "M02", F, KW, KW.replace('open_kwargs["use_dictionary"]', 'write_kwargs["use_dictionary"]')),
    ("c10", "M02", F, OPEN, OPEN.replace("version=version, ", "")),
    ("c11", "M02", F, OPEN, OPEN.replace(", **open_kwargs", "")),
    ("c12", "M02", F, SORT, SORT.replace(", **write_kwargs", "")),
    ("c13", "M02", F, "        if schema is None:\n            schema = sort_reader", "        if True:\n            schema = sort_reader"),
    ("c14", "M02", F, "        if schema is None:\n            schema = sort_reader", "        if schema is not None:\n            schema = sort_reader"),
    ("c15", "M02", F, "                verbose=verbose\n            )", "            )"),
    ("c16", "M02", F, "                verbose=verbose\n            )", "                None,\n                True\n            )"),
    ("c17", "M02", F, "            if verbose is True:\n                print(window", "            if verbose is not None:\n                print(window"),
    ("c18", "M02", F, VERB, "    print(len(bound_records), len(meta_records))\n"),
    ("c19", "M02", F, WIN, WIN.replace("n_chunks + 1", "n_chunks")),
    ("c20", "M02", F, WIN, WIN.replace("n_chunks + 1", "max(n_chunks, 2)")),
    ("c21", "M02", F, SORT, SORT.replace("            if inline_processor is not None:\n                window_table = inline_processor(window_table)\n", "            if inline_processor is not None:\n                inline_processor(window_table)\n")),
    ("c22", "M02", F, SORT, SORT.replace("            window_table = window_table.sort_by([(sort_column, direction)])\n            if inline_processor is not None:\n                window_table = inline_processor(window_table)\n", "            if inline_processor is not None:\n                window_table = inline_processor(window_table)\n            else:\n                window_table = window_table.sort_by([(sort_column, direction)])\n")),
    ("c23", "M02", F, FIL, FIL.replace("        if columns is not None:\n            more_than = more_than.select(columns)\n", "")),
    ("c24", "M02", F, FIL, FIL.replace("        less_than = ", "        if columns is not None:\n            group = group.select(columns)\n        less_than = ").replace("        if columns is not None:\n            more_than = more_than.select(columns)\n", "")),
    ("c25", "M02", F, GRP, GRP.replace('(rec["row_group"])', '(rec["row_group"], columns=columns)')),
    ("c26", "M02", F, OPEN, OPEN.replace("output_file", "input_file")),
    ("c27", "M02", F, WLOOP, "        for window in sorted(windows):\n"),
    ("c28", "M02", F, KW, KW.replace("    if row_group_size is not None:\n", "    if row_group_size is not None and use_dictionary is None:\n")),
    ("c29", "M02", F, REV, '    windows.sort(reverse=direction != "descending")\n'),
    ("d1", "M03", F, CONS, ""),
    ("d2", "M03", F, FLAT, "        col_slice = meta_df\n        constants, _ = extract_constants(col_slice)\n"),
    ("d3", "M03", F, FLAT, FLAT.replace("extract_constants(col_slice)", "extract_constants(meta_df)")),
    ("d4", "M03", F, '        col_stats = col_slice[', '        col_stats = meta_df['),
    ("d5", "M03", F, '        ].sum()', '        ].max()'),
    ("d6", "M03", F, '"total_compressed_size": "comp_size",\n            "total_uncompressed_size": "uncomp_size"', '"total_compressed_size": "uncomp_size",\n            "total_uncompressed_size": "comp_size"'),
    ("d7", "M03", F, '            "has_dictionary_page": "dict_page",\n', '            "has_dictionary_pages": "dict_page",\n'),
    ("d8", "M03", F, '    "has_dictionary_page",\n    "col_ix",\n', '    "col_ix",\n'),
    ("d9", "M03", F, '    "compression",\n    "encodings",\n', '    "compression"\n    "encodings",\n'),
    ("d10", "M03", F, CONS, CONS.replace("not in col_stats.index", "in BRIEF_PQ_META_FIELDS")),
    ("d11", "M03", F, '                "num_values",\n                "dict_page",', '                "num_value",\n                "dict_page",'),
    ("d12", "M03", F, '["num_values", "total_compressed_size", "total_uncompressed_size"]\n', '["total_compressed_size", "total_uncompressed_size"]\n'),
    ("d13", "M03", F, MCD, MCD.replace(", extended=extended", "")),
    ("d14", "M03", F, MCD, MCD.replace('    metadata.index = metadata["column"]\n', '')),
    ("d15", "M03", F, MCD, MCD.replace('metadata["column"]', 'metadata["col_ix"]')),
    ("d16", "M03", F, "    if extended is False:\n        meta_df = meta_df.reindex(", "    if True:\n        meta_df = meta_df.reindex("),
    ("d17", "M03", F, '    for col in meta_df["path_in_schema"].unique():\n', '    for col in meta_df["path_in_schema"].unique()[1:]:\n'),
    ("d18", "M03", F, '    meta_df = meta_df.convert_dtypes().rename(', '    meta_df = meta_df.convert_dtypes().rename(copy=False) if extended else meta_df.convert_dtypes().rename('),
]
SAME = [
    ("s1", M, F, REL, '    relevant_records = list(\n        filter(lambda rec: rec["path_in_schema"] == sort_column, meta_records)\n    )\n'),
    ("s2", M, F, REL, '''    relevant_records = []
    for rec in meta_records:
        if rec["path_in_schema"] != sort_column:
            continue
        relevant_records.append(rec)
'''),
    ("s3", M, F, MAX, '''    max_value = max(rec["max"] for rec in relevant_records)
    min_value = min(map(lambda rec: rec["min"], relevant_records))
'''),
    ("s4", M, F, MAX, '''    max_value, min_value = relevant_records[0]["max"], relevant_records[0]["min"]
    for rec in relevant_records[1:]:
        if rec["max"] > max_value:
            max_value = rec["max"]
        if rec["min"] < min_value:
            min_value = rec["min"]
'''),
    ("s5", M, F, WIN, '''    edges = np.linspace(min_value, max_value, n_chunks + 1)
    windows = list(zip(edges[:-1], edges[1:]))
'''),
    ("s6", M, F, WIN, '''    edges = np.linspace(min_value, max_value, num=n_chunks + 1)
    windows = [(edges[i], edges[i + 1]) for i in range(n_chunks)]
'''),
    ("s7", M, F, WIN, '''    edges = np.linspace(min_value, max_value, n_chunks + 1).tolist()
    windows = [tuple(pair) for pair in windowed(edges, 2)]
'''),
    ("s8", M, F, LAST, "    windows[-1] = (windows[-1][0], np.nextafter(windows[-1][1], np.inf))\n"),
    ("s9", M, F, LAST, "    windows[-1] = (windows[-1][0], float('inf'))\n"),
    ("s10", M, F, LAST, "    windows[-1] = (windows[-1][0], np.inf)\n"),
    ("s11", M, F, WIN + "    # windows exclude their upper bounds; adding 1 does not change huge floats\n" + LAST, '''    edges = list(np.linspace(min_value, max_value, n_chunks + 1))
    edges[-1] = max(edges[-1] + 1, np.nextafter(edges[-1], np.inf))
    windows = list(windowed(edges, 2))
'''),
    ("s12", M, F, REV, '    if direction == "descending":\n        windows = windows[::-1]\n'),
    ("s13", M, F, REV, '    windows = list(reversed(windows)) if direction == "descending" else windows\n'),
    ("s43", M, F, REV, '    windows.sort(reverse=direction == "descending")\n'),
    ("s44", M, F, REV, '    windows = sorted(windows, key=lambda w: w[0], reverse=direction == "descending")\n'),
    ("s14", M, F, SKIP, '''            if window_table is None or len(window_table) == 0:
                continue
'''),
    ("s15", M, F, SKIP, '''            if window_table is None or window_table.num_rows < 1:
                continue
'''),
    ("s16", M, F, SKIP, '''            if not (window_table is not None and len(window_table) > 0):
                continue
'''),
    ("s17", M, F, SKIP, '''            if window_table is None:
                continue
            if not len(window_table):
                continue
'''),
    ("s18", M, F, SORT, '''            window_table = window_table.sort_by([(sort_column, direction)])
            if inline_processor is None:
                sort_writer.write_table(window_table, **write_kwargs)
            else:
                sort_writer.write_table(
                    inline_processor(window_table), **write_kwargs
                )
'''),
    ("s19", M, F, KW, '''    write_kwargs = (
        {} if row_group_size is None else {"row_group_size": row_group_size}
    )
    open_kwargs = (
        {} if use_dictionary is None else dict(use_dictionary=use_dictionary)
    )
'''),
    ("s20", M, F, SORT, SORT.replace(", **write_kwargs", ", row_group_size=row_group_size")),
    ("s21", M, F, OPEN, '''        sort_writer = parquet.ParquetWriter(
            output_file, schema, version=version, **open_kwargs
        )
'''),
    ("s22", "M01", F, SEL, '''    bound_records = [
        rec
        for rec in meta_records
        if rec["min"] <= bounds[1] and rec["max"] >= bounds[0]
    ]
'''),
    ("s23", "M01", F, SEL, '''    low, high = bounds
    for rec in meta_records:
        if rec["min"] >= high or rec["max"] < low:
            continue
        bound_records.append(rec)
'''),
    ("s24", M, F, FIL, '''        values = group[field]
        selected = pac.filter(
            group,
            pac.and_(
                pac.less(values, bounds[1]), pac.greater_equal(values, bounds[0])
            ),
        )
        if columns is not None:
            selected = selected.select(columns)
        bound_groups.append(selected)
'''),
    ("s25", M, F, FIL, '''        group = group.filter(pac.greater_equal(group[field], bounds[0]))
        group = group.filter(pac.less(group[field], bounds[1]))
        bound_groups.append(group if columns is None else group.select(columns))
'''),
    ("s26", M, F, FIL, '''        group = group.filter(
            (pac.field(field) >= bounds[0]) & (pac.field(field) < bounds[1])
        )
        if columns is not None:
            group = group.select(columns)
        bound_groups.append(group)
'''),
    ("s27", M, F, FIL + "    return pa.concat_tables(bound_groups)\n", '''        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
        bound_groups.append(
            pac.filter(
                less_than, pac.greater_equal(less_than[field], bounds[0])
            )
        )
    result = pa.concat_tables(bound_groups)
    return result if columns is None else result.select(columns)
'''),
    ("s28", "M01", F, RECS, '''    for col_ix in range(meta.num_columns):
        for group_ix in range(meta.num_row_groups):
            record = meta.row_group(group_ix).column(col_ix).to_dict()
            statistics = record.pop("statistics", None)
            if statistics:
                record.update(statistics)
            record["row_group"] = group_ix
            record["col_ix"] = col_ix
            records.append(record)
'''),
    ("s29", "M01", F, RECS, '''    for group_ix, col_ix in product(
        range(meta.num_row_groups), range(meta.num_columns)
    ):
        record = meta.row_group(group_ix).column(col_ix).to_dict()
        statistics = record.pop("statistics", {}) or {}
        records.append(
            {**record, **statistics, "row_group": group_ix, "col_ix": col_ix}
        )
'''),
    ("s30", "M01", F, RECS, '''    for group_ix in range(meta.num_row_groups):
        group = meta.row_group(group_ix)
        for col_ix in range(group.num_columns):
            record = group.column(col_ix).to_dict()
            record |= record.pop("statistics", None) or {}
            records.append(record | {"row_group": group_ix, "col_ix": col_ix})
'''),
    ("s31", "M03", F, BRIEF, '''        if not extended:
            constants = {
                k: v for k, v in constants.items() if k in BRIEF_PQ_META_FIELDS
            }
'''),
    ("s32", "M03", F, CONS, '''        constants = {
            k: v for k, v in constants.items() if k not in col_stats.index
        }
'''),
    ("s33", "M03", F, FLAT, FLAT.replace("meta_df.loc[meta_df", "meta_df[meta_df")),
    ("s34", "M03", F, '''    meta_df = pd.DataFrame(meta_records)
    if meta_df["path_in_schema"].duplicated().any():
''', '''    meta_df = pd.DataFrame(meta_records)
    if meta_df["path_in_schema"].nunique() < len(meta_df):
'''),
    ("s35", "M03", F, MCD, '''    records = parquet_metadata_records(parquet_fn)
    metadata = meta_record_df(records, extended)
    metadata.index = metadata["column"].rename(None)
    return metadata.T
'''),
    ("s36", M, F, VERB, "    if verbose:\n        print(len(bound_records), len(meta_records))\n"),
    ("s37", M, F, WLOOP + RBC, '''        tables = (
            (
                window,
                read_between(
                    sort_reader,
                    sort_column,
                    window,
                    relevant_records,
                    verbose=verbose,
                ),
            )
            for window in windows
        )
        for window, window_table in tables:
            if window_table is None:
                continue
            if len(window_table) == 0:
                continue
'''),
    ("s38", M, F, "def sort_chunked(\n", '''def _column_records(meta_records, column):
    return [rec for rec in meta_records if rec["path_in_schema"] == column]


def _value_windows(records, n_chunks):
    import numpy as np

    low = min(rec["min"] for rec in records)
    high = max(rec["max"] for rec in records)
    windows = list(windowed(np.linspace(low, high, n_chunks + 1), 2))
    lower, upper = windows[-1]
    windows[-1] = (lower, max(upper + 1, np.nextafter(upper, np.inf)))
    return windows


def sort_chunked(
''', (F, REL + MAX + WIN + "    # windows exclude their upper bounds; adding 1 does not change huge floats\n" + LAST, '''    relevant_records = _column_records(meta_records, sort_column)
    windows = _value_windows(relevant_records, n_chunks)
''')),
    ("s39", M, F, SORT, SORT.replace("window_table.sort_by([(sort_column, direction)])", "window_table.take(\n                pac.sort_indices(window_table, sort_keys=[(sort_column, direction)])\n            )")),
    ("s40", M, F, GRP, '''    for index in [rec["row_group"] for rec in bound_records]:
        group = parquet_file.read_row_group(index)
'''),
    ("s41", "M03", F, '        col_stats = col_slice[\n            ["num_values", "total_compressed_size", "total_uncompressed_size"]\n        ].sum()', '        totals = ["num_values", "total_compressed_size", "total_uncompressed_size"]\n        col_stats = col_slice[totals].sum()', (F, "k not in col_stats.index", "k not in totals")),
    ("s42", "M03", F, CONS + "        col_series.append(pd.concat([pd.Series(constants), col_stats]))\n", '''        col_series.append(pd.Series(constants | dict(col_stats)))
'''),
]
