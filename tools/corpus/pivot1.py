P = "pivot.py"
CB = "        return bool(amin >= info.min and amax <= info.max)\n"
EQ = "        test_equality = same_named.eq(same_named.iloc[:, 0], axis=0)\n        # comparisons with values missing from nullable columns are missing\n        if not test_equality.fillna(False).all(axis=None):\n            raise ValueError\n"
AE = "        if (aerr := np.nanmax(np.abs(offsets))) > atol:\n            continue\n"
RE_ = "        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:\n            continue\n"
OFF = "        offsets = np.abs(arr_nzero - recast)\n"
BND = "        if check_in_dtype_bounds(amin, amax, dtype) is False:\n            continue\n"
DF = "        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']\n        recast.index = col.index\n        cast_series.append(recast)\n"
BUGS = [
    ("y1", "V04", "pivot.py", "    return typed_columns(df, (\"int\", \"float\"))", "    return typed_columns(df, (\"int\", \"float64\"))"),
    ("y2", "V04", "pivot.py", "    names = df.dtypes.apply(attrgetter(\"name\")).str.lower()", "    names = df.dtypes.apply(attrgetter(\"name\"))"),
    ("y5", "V04", "pivot.py", "re.match(type_pattern, df.dtypes.name.lower())", "re.fullmatch(type_pattern, df.dtypes.name.lower())"),
    ("y6", "V04", "pivot.py", "            return df\n        return pd.DataFrame(index=df.index)", "            return pd.DataFrame(index=df.index)\n        return df"),
 ("b1", "V01", P, CB, "        return bool(amin >= info.min or amax <= info.max)\n"),
 ("b2", "V01", P, CB, "        return bool(amax <= info.max)\n"),
 ("b3", "V01", P, CB, "        return bool(amin >= info.min)\n"),
 ("b4", "V01", P, CB, "        return bool(amin >= info.min and amin <= info.max)\n"),
 ("b5", "V01", P, CB, "        return bool(amin >= info.min and amax <= info.max + 1)\n"),
 ("b6", "V01", P, "info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)", "info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(np.float64)"),
 ("x3", "V03", P, "    for _, col in df.items():\n", "    for name in df.columns:\n        col = df[name]\n"),
 ("b7", "V01", P, "    except TypeError:  # just too big!\n        return False", "    except TypeError:  # just too big!\n        return True"),
 ("b8", "V01", P, "            recast = arr_nzero.astype(dtype)\n", "            recast = arr_nzero.astype(np.float32)\n"),
 ("b9", "V01", P, BND, "        if kind != 'float' and check_in_dtype_bounds(amin, amax, dtype) is False:\n            continue\n"),
 ("b10", "V01", P, BND, "        if check_in_dtype_bounds(amin, amax, np.dtype('int64')) is False:\n            continue\n"),
 ("b11", "V01", P, BND, ""),
 ("a1", "V01", P, AE, "        aerr = np.nanmax(np.abs(offsets))\n"),
 ("a2", "V01", P, AE, "        if (aerr := np.nanmean(np.abs(offsets))) > atol:\n            continue\n"),
 ("a3", "V01", P, AE, "        if (aerr := np.nanmin(np.abs(offsets))) > atol:\n            continue\n"),
 ("a4", "V01", P, OFF + AE, "        offsets = arr_nzero - recast\n        if (aerr := np.nanmax(offsets)) > atol:\n            continue\n"),
 ("a5", "V01", P, AE, AE.replace("> atol", "> rtol")),
 ("a6", "V01", P, AE, AE.replace("> atol", "< atol")),
 ("a7", "V01", P, AE + RE_, "        aerr = np.nanmax(np.abs(offsets))\n        rerr = np.nanmax(np.abs(offsets / arr_nzero))\n        if aerr > atol and rerr > rtol:\n            continue\n"),
 ("a8", "V01", P, AE, "        if (aerr := np.nanmax(np.abs(offsets))) > atol and kind == 'float':\n            continue\n"),
 ("r1", "V01", P, RE_, "        rerr = np.nanmax(np.abs(offsets / arr_nzero))\n"),
 ("r2", "V01", P, OFF, "        offsets = arr_nzero - recast\n", (P, RE_, RE_.replace("np.abs(offsets / arr_nzero)", "offsets / arr_nzero"))),
 ("r3", "V01", P, RE_, RE_.replace("np.abs(offsets / arr_nzero)", "offsets / arr_nzero")),
 ("r4", "V01", P, RE_, RE_.replace("np.abs(offsets / arr_nzero)", "np.abs(offsets)")),
 ("r5", "V01", P, RE_, RE_.replace("> rtol", "> rtol and number > 16")),
 ("n1", "V01", P, "        elif kind != 'float' and has_nonfinite and use_nillable_int is False:\n            continue\n", ""),
 ("n2", "V01", P, "    has_nonfinite = arr_finite.size < arr.size\n", "    has_nonfinite = False\n"),
 ("n3", "V01", P, "    if arr_nzero.size == 0 and not has_nonfinite:\n        return", "    if arr_nzero.size == 0:\n        return"),
 ("n4", "V01", P, "    has_nonfinite = arr_finite.size < arr.size\n", "    has_nonfinite = bool(np.isnan(arr_finite).any())\n"),
 ("f1", "V01", P, "        return _maybeseries(arr, dtype, library, name, aerr, rerr)\n", "        return _maybeseries(arr_finite, dtype, library, name, aerr, rerr)\n"),
 ("f2", "V01", P, "        return _maybeseries(arr, np.float16, library, name, 0, 0)\n", "        return _maybeseries(arr, np.float16, library, name, 0, 0)['recast']\n"),
 ("f3", "V01", P, "        return _maybeseries(arr, dtype, library, name, aerr, rerr)\n", "        return _maybeseries(arr, dtype, library, name, rerr, aerr)\n"),
 ("f4", "V01", P, "        return _maybeseries(arr, dtype, library, name, aerr, rerr)\n", "        return _maybeseries(arr, dtype, library, name, 0, 0)\n"),
 ("f5", "V01", P, "    return {'recast': arr, 'aerr': aerr, 'rerr': rerr}", "    return {'recast': arr, 'aerr': aerr}"),
 ("i1", "V01", P, "    amin, amax = arr.min(), arr.max()\n    sign", "    amin, amax = arr.min(), arr.min()\n    sign"),
 ("i2", "V01", P, "    for depth in (8, 16, 32, 64):\n        dt = np.dtype(f'{sign}int{depth}')\n        if check_in_dtype_bounds(amin, amax, dt):\n", "    for depth in (8, 16, 32, 64):\n        dt = np.dtype(f'int{depth}')\n        if check_in_dtype_bounds(amin, amax, np.dtype(f'{sign}int{depth}')):\n"),
 ("i3", "V01", P, "    amin, amax = arr_finite.min(), arr_finite.max()\n", "    amin, amax = arr_finite.min(), np.abs(arr_finite).min()\n"),
 ("i4", "V01", P, "    if arr.dtype.kind in 'ui':\n", "    if arr.dtype.kind in 'uib' or arr.dtype.kind == 'f':\n"),
 ("d1", "V02", P, EQ, EQ.replace("same_named.eq(same_named.iloc[:, 0], axis=0)", "dataframe[column] == same_named")),
 ("d2", "V02", P, EQ, EQ.replace(".all(axis=None)", ".any(axis=None)")),
 ("d3", "V02", P, EQ, EQ.replace("same_named.eq(same_named.iloc[:, 0], axis=0)", "same_named.iloc[:, 1].eq(same_named.iloc[:, 0])").replace("axis=None", "")),
 ("d4", "V02", P, EQ, EQ + "        break\n"),
 ("d5", "V02", P, "    for column in extra_columns:\n" + "        same_named = dataframe.loc[:, column]\n" + EQ, ""),
 ("d6", "V02", P, EQ, EQ.replace("same_named.eq(same_named.iloc[:, 0], axis=0)", "same_named.iloc[:100].eq(same_named.iloc[:100, 0], axis=0)")),
 ("d7", "V02", P, EQ, EQ.replace("            raise ValueError\n", "            continue\n")),
 ("d8", "V02", P, EQ, "        if len(same_named) > 1:\n            if not same_named.eq(same_named.iloc[:, 0], axis=0).fillna(False).all(axis=None):\n                raise ValueError\n"),
 ("d9", "V02", P, EQ, EQ.replace("same_named.eq(same_named.iloc[:, 0], axis=0)", "same_named.dtypes.eq(same_named.dtypes.iloc[0])").replace("axis=None", "")),
 ("d10", "V02", P, EQ, EQ.replace("            raise ValueError\n", "            raise KeyError\n")),
 ("w1", "V03", P, DF, DF.replace("        recast.index = col.index\n", "")),
 ("w2", "V03", P, DF, DF.replace("atol, rtol", "rtol, atol")),
 ("w3", "V03", P, DF, DF.replace("col, atol, rtol, 'pandas', use_nillable_int", "col, library='pandas', use_nillable_int=use_nillable_int")),
 ("w4", "V03", P, "            cast_series.append(col if copy_all is False else col.copy())\n            continue\n", "            if copy_all is True:\n                cast_series.append(col.copy())\n            continue\n"),
 ("w5", "V03", P, "    return pd.concat(cast_series, axis=1)" if False else "        return pd.concat(cast_series, axis=1)", "        return pd.concat(cast_series)"),
 ("w6", "V03", P, "            cast_series.append(col if copy_all is False else col.copy())\n            continue\n", "            cast_series.append(col if copy_all is False else col.copy())\n"),
 ("w7", "V03", P, DF, DF.replace("use_nillable_int)", "False)")),
 ("w8", "V03", P, "        if not is_numeric_dtype(col.dtype):\n", "        if len(cast_series) > 0 and _ == cast_series[-1].name:\n            continue\n        if not is_numeric_dtype(col.dtype):\n"),
]
SAME = [
    ("y7", ["V04"], "pivot.py", "re.match(type_pattern, df.dtypes.name.lower())", "re.search(\"^\" + type_pattern, df.dtypes.name.lower()) is not None"),
    ("y8", ["V04"], "pivot.py", "    type_pattern = f\"u?({'|'.join(typenames)})\".lower()", "    type_pattern = \"u?(\" + \"|\".join(t.lower() for t in typenames) + \")\""),
    ("y9", ["V04"], "pivot.py", "    return df[df.dtypes.loc[names.str.match(type_pattern)].index]", "    wanted = names.str.match(type_pattern)\n    return df[df.dtypes[wanted].index]"),
    ("y10", ["V04"], "pivot.py", "    return df[df.dtypes.loc[names.str.match(type_pattern)].index]", "    return df.loc[:, names.str.contains(\"^\" + type_pattern)]"),
 ("s1", ["V01"], P, CB, "        return not (amin < info.min or amax > info.max)\n"),
 ("s2", ["V01"], P, CB, "        return info.min <= amin <= amax <= info.max\n" if False else "        return bool(info.min <= amin and info.max >= amax)\n"),
 ("s3", ["V01"], P, AE + RE_, "        aerr = np.nanmax(np.abs(offsets))\n        rerr = np.nanmax(np.abs(offsets / arr_nzero))\n        if aerr > atol or rerr > rtol:\n            continue\n"),
 ("s4", ["V01"], P, OFF, "        offsets = arr_nzero - recast\n"),
 ("s5", ["V01"], P, AE, "        aerr = offsets.max()\n        if not aerr <= atol:\n            continue\n"),
 ("s6", ["V01"], P, "    arr_finite = arr[np.isfinite(arr)]\n", "    finite_mask = np.isfinite(arr)\n    arr_finite = arr[finite_mask]\n", (P, "    has_nonfinite = arr_finite.size < arr.size\n", "    has_nonfinite = not finite_mask.all()\n")),
 ("s7", ["V01"], P, "    has_nonfinite = arr_finite.size < arr.size\n", "    has_nonfinite = len(arr_finite) != len(arr)\n"),
 ("s8", ["V01"], P, "    amin, amax = arr_finite.min(), arr_finite.max()\n", "    amin, amax = np.min(arr_finite), np.max(arr_finite)\n"),
 ("s9", ["V01"], P, "    amin, amax = arr.min(), arr.max()\n    sign = 'u' if amin >= 0 else ''\n    for depth in (8, 16, 32, 64):\n        dt = np.dtype(f'{sign}int{depth}')\n        if check_in_dtype_bounds(amin, amax, dt):\n            # there's never 'error' casting int types to int types\n            return _maybeseries(arr, dt, library, name, 0, 0)\n",
  "    amin, amax = arr.min(), arr.max()\n    types = (np.uint8, np.uint16, np.uint32, np.uint64) if amin >= 0 else (np.int8, np.int16, np.int32, np.int64)\n    for t in types:\n        info = np.iinfo(t)\n        if amin >= info.min and amax <= info.max:\n            return _maybeseries(arr, np.dtype(t), library, name, 0, 0)\n"),
 ("s10", ["V01"], P, "    arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)\n", "    arr = arr.astype(dtype)\n"),
 ("s11", ["V01"], P, "    return {'recast': arr, 'aerr': aerr, 'rerr': rerr}", "    return dict(recast=arr, aerr=aerr, rerr=rerr)"),
 ("s12", ["V01"], P, BND, "        if not check_in_dtype_bounds(amin, amax, dtype):\n            continue\n"),
 ("s13", ["V01"], P, "    nzero_mask = arr_finite != 0\n    arr_nzero = arr_finite[nzero_mask]\n", "    arr_nzero = arr_finite[arr_finite.nonzero()]\n"),
 ("s14", ["V01"], P, OFF + AE + RE_, "        errors = _errors(arr_nzero, recast)\n        if errors[0] > atol or errors[1] > rtol:\n            continue\n        aerr, rerr = errors\n", (P, "def downcast(\n", "def _errors(data, recast):\n    off = np.abs(data - recast)\n    return off.max(), np.abs(off / data).max()\n\n\ndef downcast(\n")),
 ("t1", ["V02"], P, EQ, "        first = same_named.iloc[:, 0]\n        for ix in range(1, same_named.shape[1]):\n            if not same_named.iloc[:, ix].equals(first):\n                raise ValueError\n"),
 ("t2", ["V02"], P, EQ, "        if not same_named.eq(same_named.iloc[:, 0], axis=0).fillna(False).all().all():\n            raise ValueError\n"),
 ("t3", ["V02"], P, EQ, "        if same_named.ne(same_named.iloc[:, 0], axis=0).fillna(True).any(axis=None):\n            raise ValueError(f'unequal columns named {column}')\n"),
 ("t4", ["V02"], P, "    if len(extra_columns) == 0:\n        return dataframe\n", ""),
 ("t5", ["V02"], P, "    for column in extra_columns:\n        same_named = dataframe.loc[:, column]\n" + EQ, "    for column in extra_columns.unique():\n        _check_same(dataframe.loc[:, column])\n", (P, "# TODO, maybe: allow this to work", "def _check_same(same_named):\n    if not same_named.eq(same_named.iloc[:, 0], axis=0).fillna(False).all(axis=None):\n        raise ValueError\n\n\n# TODO, maybe: allow this to work")),
 ("t6", ["V02"], P, "    for column in extra_columns:\n        same_named = dataframe.loc[:, column]\n" + EQ, "    if not all(\n        dataframe.loc[:, c].eq(dataframe.loc[:, c].iloc[:, 0], axis=0).fillna(False).all(axis=None)\n        for c in extra_columns\n    ):\n        raise ValueError\n"),
 ("t7", ["V02"], P, "        same_named = dataframe.loc[:, column]\n", "        same_named = dataframe[column]\n"),
 ("x1", ["V03"], P, DF, "        result = downcast(\n            col, atol=atol, rtol=rtol, library='pandas', use_nillable_int=use_nillable_int\n        )\n        cast_series.append(result['recast'].set_axis(col.index))\n"),
 ("x2", ["V03"], P, DF, "        recast = downcast(col, atol, rtol, 'numpy', use_nillable_int)['recast']\n        cast_series.append(pd.Series(recast, index=col.index, name=_))\n"),
 ("x4", ["V03"], P, "            cast_series.append(col if copy_all is False else col.copy())\n            continue\n", "            if copy_all is True:\n                col = col.copy()\n            cast_series.append(col)\n            continue\n"),
 ("x5", ["V03"], P, "    if reassemble is True:\n        return pd.concat(cast_series, axis=1)\n    return cast_series\n", "    return pd.concat(cast_series, axis='columns') if reassemble else cast_series\n"),
]
