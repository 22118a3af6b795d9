"""V05: bugs and refactorings of the reshaping helpers"""
P = "pivot.py"
JN = '''    keys1 = df1[columns].value_counts().index.to_list()
    keys2 = df2[columns].value_counts().index.to_list()
    return getattr(set(keys1), set_method)(set(keys2))
'''
UN = '''    dropped = series.dropna()
    df = pd.DataFrame(dropped.tolist(), index=dropped.index)
    df.columns = [f"{dropped.name}_{i}" for i, _ in enumerate(df.columns)]
    return df
'''
UC = '''    unpacked = unpack(df[colname])
    df = df.copy()
    df.loc[unpacked.index, unpacked.columns] = unpacked
    return df.drop(columns=colname)
'''
SM = '''    if values is not None:
        df = df.loc[df[by].isin(values).all(axis=1)]
    df = df.melt(by, var_name="variable")
    names = reduce(
        lambda x, y: x + "_" + y,
        [v for _, v in df[by + ["variable"]].astype(str).items()],
    )
    return pd.Series(df["value"].to_numpy(), index=names)
'''
SQ = '''    if aggfunc is None:
        if is_bool_dtype(series.dtype):
            aggfunc = "any"
        else:
            return series.loc[~series.index.duplicated()]
    levels = list(range(series.index.nlevels))
    return series.groupby(level=levels, dropna=False).agg(aggfunc)
'''
RC = '''    records = [
        {col: value for col, value in zip(cols, values)}
        for values in unique_tuples
    ]
'''
DU = '''    rows = np.repeat(np.arange(len(dataframe)), repeats)
    return dataframe.iloc[rows].reset_index(drop=True)
'''
ST = '''        method = getattr(series.str, str_method_name)
        return method(*str_args, **str_kwargs)
'''
V = "V05"
BUGS = [
 ("j1", V, P, JN, JN.replace("set(keys1), set_method)(set(keys2)", "set(keys2), set_method)(set(keys1)")),
 ("j2", V, P, JN, JN.replace("df2[columns]", "df1[columns]")),
 ("j3", V, P, JN, JN.replace("df2[columns]", "df2")),
 ("j4", V, P, JN, JN.replace("getattr(set(keys1), set_method)(set(keys2))", "set(keys1).difference(set(keys2))")),
 ("j5", V, P, JN, JN.replace("getattr(set(keys1), set_method)(set(keys2))", "set(keys1) - set(keys2)")),
 ("u1", V, P, UN, UN.replace(", index=dropped.index", "")),
 ("u2", V, P, UN, UN.replace("index=dropped.index", "index=series.index")),
 ("u3", V, P, UN, UN.replace('    df.columns = [f"{dropped.name}_{i}" for i, _ in enumerate(df.columns)]\n', "")),
 ("u4", V, P, UN, UN.replace("f\"{dropped.name}_{i}\"", "f\"column_{i}\"")),
 ("c1", V, P, UC, UC.replace("    df = df.copy()\n", "")),
 ("c2", V, P, UC, UC.replace("    df.loc[unpacked.index, unpacked.columns] = unpacked\n", "")),
 ("c3", V, P, UC, UC.replace("df.drop(columns=colname)", "df")),
 ("c4", V, P, UC, UC.replace("df.drop(columns=colname)", "df.drop(colname)")),
 ("s1", V, P, SM, SM.replace(', index=names', "")),
 ("s2", V, P, SM, SM.replace(".all(axis=1)", ".any(axis=1)")),
 ("s3", V, P, SM, SM.replace("    df = df.melt", "    whole = df\n    df = df.melt").replace('df["value"].to_numpy()', 'whole.melt(by[::-1])["value"].to_numpy()')),
 ("s4", V, P, SM, SM.replace(', var_name="variable"', "")),
 ("s5", V, P, SM, SM.replace("if values is not None:", "if values is None:")),
 ("s6", V, P, SM, SM.replace('by + ["variable"]', "by")),
 ("s7", V, P, SM, SM.replace("    df = df.melt", "    melted = df.melt(by)\n    df = df.melt").replace('df["value"].to_numpy()', 'melted["value"].sort_values().to_numpy()')),
 ("q1", V, P, SQ, SQ.replace(", dropna=False", "")),
 ("q2", V, P, SQ, SQ.replace('"any"', '"first"')),
 ("q3", V, P, SQ, SQ.replace("~series", "series")),
 ("q4", V, P, SQ, SQ.replace("duplicated()", "duplicated(keep='last')")),
 ("q5", V, P, SQ, SQ.replace("agg(aggfunc)", "agg('sum')")),
 ("q6", V, P, SQ, SQ.replace("if is_bool", "if not is_bool")),
 ("q7", V, P, SQ, SQ.replace("duplicated()", "duplicated(keep=False)")),
 ("r1", V, P, RC, RC.replace("{col: value for", "{value: col for")),
 ("r2", V, P, RC, RC.replace("zip(cols, values)", "zip(values, cols)")),
 ("d1", V, P, DU, "    return pd.DataFrame(np.repeat(dataframe.values, repeats, axis=0), columns=dataframe.columns)\n"),
 ("d2", V, P, DU, DU.replace("np.repeat", "np.tile")),
 ("d3", V, P, DU, DU.replace("repeats)", "2)")),
 ("d4", V, P, DU, DU.replace("reset_index(drop=True)", "reset_index()")),
 ("d5", V, P, DU, DU.replace(", repeats)", ", repeats + 1)")),
 ("t1", V, P, ST, ST.replace(", **str_kwargs", "")),
 ("t2", V, P, ST, ST.replace("*str_args, ", "")),
 ("t3", V, P, ST, ST.replace("        return method", "        method")),
]
SAME = [
 ("j1", V, P, JN, '''    def keys(frame):
        return set(frame[columns].value_counts().index.to_list())

    return getattr(keys(df1), set_method)(keys(df2))
'''),
 ("j2", V, P, JN, '''    first, second = (
        {tuple(row) for row in frame[columns].dropna().to_numpy()}
        for frame in (df1, df2)
    )
    return getattr(first, set_method)(second)
'''),
 ("j3", V, P, JN, '''    keys1, keys2 = [
        set(frame[columns].value_counts().index) for frame in (df1, df2)
    ]
    operation = getattr(keys1, set_method)
    return operation(keys2)
'''),
 ("j4", V, P, JN, JN.replace("getattr(set(keys1), set_method)(set(keys2))", "getattr(set, set_method)(set(keys1), keys2)")),
 ("u1", V, P, UN, '''    present = series[series.notna()]
    names = [f"{series.name}_{i}" for i in range(max(map(len, present), default=0))]
    return pd.DataFrame(present.tolist(), index=present.index, columns=names)
'''),
 ("u2", V, P, UN, '''    dropped = series.dropna()
    values, labels = dropped.tolist(), dropped.index
    df = pd.DataFrame(values, labels)
    return df.add_prefix(f"{series.name}_")
'''),
 ("u3", V, P, UN, '''    dropped = series.dropna()
    df = pd.DataFrame(list(dropped), index=dropped.index)
    prefix = f"{dropped.name}_"
    names = []
    for i in range(len(df.columns)):
        names.append(prefix + str(i))
    df.columns = names
    return df
'''),
 ("u4", V, P, UN, '''    dropped = series.dropna()
    df = pd.DataFrame(dropped.tolist(), index=dropped.index)
    return df.rename(columns=lambda i: f"{dropped.name}_{i}")
'''),
 ("u5", V, P, UN, '''    dropped = series.dropna()
    df = pd.DataFrame(dropped.tolist())
    df.index = dropped.index
    df.columns = [f"{dropped.name}_{i}" for i, _ in enumerate(df.columns)]
    return df
'''),
 ("c1", V, P, UC, '''    unpacked = unpack(df[colname])
    rest = df.drop(columns=[colname])
    rest.loc[unpacked.index, unpacked.columns] = unpacked
    return rest
'''),
 ("c2", V, P, UC, '''    unpacked = unpack(df[colname])
    df = df.copy()
    for name in unpacked.columns:
        df.loc[unpacked.index, name] = unpacked[name]
    del df[colname]
    return df
'''),
 ("c3", V, P, UC, '''    unpacked = unpack(df[colname])
    return df.drop(colname, axis=1).join(unpacked)
'''),
 ("c4", V, P, UC, '''    unpacked = unpack(df[colname])
    df = df.copy()
    df.loc[unpacked.index, unpacked.columns] = unpacked
    df.pop(colname)
    return df
'''),
 ("c5", V, P, UC, '''    return pd.concat([df.drop(columns=colname), unpack(df[colname])], axis=1)
'''),
 ("s1", V, P, SM, '''    if values is not None:
        wanted = df[by].isin(values).all(axis="columns")
        df = df[wanted]
    long = df.melt(id_vars=by, var_name="variable", value_name="value")
    parts = long[[*by, "variable"]].astype(str)
    names = parts[by[0]] if by else parts["variable"]
    for column in [*by, "variable"][1:]:
        names = names + "_" + parts[column]
    return pd.Series(long["value"].to_numpy(), index=names)
'''),
 ("s2", V, P, SM, SM.replace('lambda x, y: x + "_" + y', 'lambda x, y: x.str.cat(y, sep="_")')),
 ("s3", V, P, SM, SM.replace('''    names = reduce(
        lambda x, y: x + "_" + y,
        [v for _, v in df[by + ["variable"]].astype(str).items()],
    )
''', '''    names = df[by + ["variable"]].astype(str).agg("_".join, axis=1)
''')),
 ("s4", V, P, SM, SM.replace("if values is not None:\n        df = df.loc[df[by].isin(values).all(axis=1)]", "rows = slice(None) if values is None else df[by].isin(values).all(axis=1)\n    df = df.loc[rows]")),
 ("s5", V, P, SM, SM.replace("    return pd.Series(df[\"value\"].to_numpy(), index=names)\n", "    smashed = df[\"value\"].copy()\n    smashed.index = names\n    smashed.name = None\n    return smashed\n")),
 ("q1", V, P, SQ, '''    if aggfunc is None:
        if not is_bool_dtype(series.dtype):
            first = ~series.index.duplicated(keep="first")
            return series[first]
        aggfunc = "any"
    grouped = series.groupby(level=[*range(series.index.nlevels)], dropna=False)
    return grouped.aggregate(aggfunc)
'''),
 ("q2", V, P, SQ, SQ.replace("is_bool_dtype(series.dtype)", "pd.api.types.is_bool_dtype(series)")),
 ("q3", V, P, SQ, SQ.replace("is_bool_dtype(series.dtype)", "series.dtype in (bool, pd.BooleanDtype())")),
 ("q4", V, P, SQ, '''    boolean = is_bool_dtype(series.dtype)
    if aggfunc is None and not boolean:
        return series.loc[~series.index.duplicated()]
    how = "any" if aggfunc is None else aggfunc
    levels = list(range(series.index.nlevels))
    return series.groupby(level=levels, dropna=False).agg(how)
'''),
 ("q5", V, P, SQ, '''    levels = list(range(series.index.nlevels))
    groups = series.groupby(level=levels, dropna=False)
    if aggfunc is not None:
        return groups.agg(aggfunc)
    if is_bool_dtype(series.dtype):
        return groups.any()
    repeated = series.index.duplicated()
    return series.loc[np.logical_not(repeated)]
'''),
 ("r1", V, P, RC, "    records = [dict(zip(cols, values)) for values in unique_tuples]\n"),
 ("r2", V, P, RC, '''    records = []
    for values in unique_tuples:
        record = {}
        for col, value in zip(cols, values):
            record[col] = value
        records.append(record)
'''),
 ("r3", V, P, RC, '''    records = [
        {cols[i]: values[i] for i in range(len(cols))}
        for values in unique_tuples
    ]
'''),
 ("r4", V, P, RC, "    return pd.DataFrame(unique_tuples, columns=cols)\n"),
 ("d1", V, P, DU, DU.replace("dataframe.iloc[rows].reset_index(drop=True)", "dataframe.take(rows).reset_index(drop=True)")),
 ("d2", V, P, DU, '''    positions = np.arange(len(dataframe)).repeat(repeats)
    block = dataframe.iloc[positions]
    block.index = pd.RangeIndex(len(block))
    return block
'''),
 ("d3", V, P, DU, '''    rows = [i for i in range(len(dataframe)) for _ in range(repeats)]
    return dataframe.iloc[rows].reset_index(drop=True)
'''),
 ("d4", V, P, DU, '''    return dataframe.loc[dataframe.index.repeat(repeats)].reset_index(drop=True)
'''),
 ("t1", V, P, ST, "        return getattr(series.str, str_method_name)(*str_args, **str_kwargs)\n"),
 ("t2", V, P, ST, ST.replace("        method = ", "        accessor = series.str\n        method = ").replace("getattr(series.str", "getattr(accessor")),
]
