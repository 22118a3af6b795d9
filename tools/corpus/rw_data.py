"""behaviour-preserving rewrites of pivot.py, mosaic.py and scrape.py"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rwlib import Corpus

V, M, R = (Corpus(x) for x in ("pivot.py", "mosaic.py", "scrape.py"))

V.same("v-bounds-ifs", {"check_in_dtype_bounds": '''
    def check_in_dtype_bounds(amin, amax, dt):
        if dt.kind in 'iu':
            info = np.iinfo(dt)
        else:
            info = np.finfo(dt)
        try:
            low, high = amin >= info.min, amax <= info.max
        except TypeError:
            return False
        return bool(low and high)
'''})
V.same("v-bounds-chain", {"check_in_dtype_bounds": '''
    def check_in_dtype_bounds(amin, amax, dt):
        limits = np.iinfo if dt.kind in ('i', 'u') else np.finfo
        info = limits(dt)
        try:
            if amin < info.min or amax > info.max:
                return False
            return bool(amin >= info.min and amax <= info.max)
        except TypeError:
            return False
'''})
V.same("v-maybeseries", {"_maybeseries": '''
    def _maybeseries(arr, dtype, library, name, aerr, rerr):
        if arr.dtype == dtype:
            recast = arr.copy()
        else:
            recast = arr.astype(dtype)
        if library != 'pandas':
            return dict(recast=recast, aerr=aerr, rerr=rerr)
        return dict(recast=pd.Series(recast, name=name), aerr=aerr, rerr=rerr)
'''})
V.same("v-int-next", {"_downcast_int_array": '''
    def _downcast_int_array(arr, library, name=None):
        amin, amax = arr.min(), arr.max()
        family = 'uint' if amin >= 0 else 'int'
        candidates = [np.dtype(f'{family}{depth}') for depth in (8, 16, 32, 64)]
        for dt in candidates:
            if not check_in_dtype_bounds(amin, amax, dt):
                continue
            return _maybeseries(arr, dt, library, name, 0, 0)
        raise TypeError("Unusual failure in downcasting integer array.")
'''})
V.same("v-int-while", {"_downcast_int_array": '''
    def _downcast_int_array(arr, library, name=None):
        amin, amax = arr.min(), arr.max()
        sign = '' if amin < 0 else 'u'
        depth = 8
        while depth <= 64:
            dt = np.dtype(f'{sign}int{depth}')
            if check_in_dtype_bounds(amin, amax, dt):
                return _maybeseries(arr, dt, library, name, 0, 0)
            depth *= 2
        raise TypeError("Unusual failure in downcasting integer array.")
'''})
DC = V.get("downcast")
V.tweak("v-dc-zero-split", "downcast", ('''    if arr_nzero.size == 0 and not has_nonfinite:
        return _maybeseries(arr, np.uint8, library, name, 0, 0)
    elif arr_nzero.size == 0 and use_nillable_int is False:
        return _maybeseries(arr, np.float16, library, name, 0, 0)
    elif arr_nzero.size == 0:
        return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
''', '''    if arr_nzero.size == 0:
        if not has_nonfinite:
            return _maybeseries(arr, np.uint8, library, name, 0, 0)
        if use_nillable_int is False:
            return _maybeseries(arr, np.float16, library, name, 0, 0)
        return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
'''))
V.tweak("v-dc-errors-first", "downcast", ('''        if (aerr := np.nanmax(np.abs(offsets))) > atol:
            continue
        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:
            continue
''', '''        aerr = np.nanmax(offsets)
        rerr = np.nanmax(offsets / np.abs(arr_nzero))
        if aerr > atol or rerr > rtol:
            continue
'''))
V.tweak("v-dc-errors-helper", "downcast", ('''        offsets = np.abs(arr_nzero - recast)
        if (aerr := np.nanmax(np.abs(offsets))) > atol:
            continue
        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:
            continue
''', '''        aerr, rerr = _cast_errors(arr_nzero, recast)
        if aerr > atol:
            continue
        if rerr > rtol:
            continue
'''), add='''
def _cast_errors(original, recast):
    offsets = np.abs(original - recast)
    return np.nanmax(offsets), np.nanmax(np.abs(offsets / original))
''')
V.tweak("v-dc-loop-nested", "downcast", ('''        # we're done checking if this next clause is True
        if kind == 'float' and number == arr.dtype.itemsize * 8:
            return _maybeseries(arr, arr.dtype, library, name, 0, 0)
        elif kind != 'float' and number == 128:
            continue
        elif kind != 'float' and has_nonfinite and use_nillable_int is False:
            continue
        elif kind == 'float' and number == 8:
            continue
''', '''        if kind == 'float':
            if number == arr.dtype.itemsize * 8:
                return _maybeseries(arr, arr.dtype, library, name, 0, 0)
            if number == 8:
                continue
        else:
            if number == 128:
                continue
            if has_nonfinite and use_nillable_int is False:
                continue
'''))
V.tweak("v-dc-within", "downcast", ('''        if check_in_dtype_bounds(amin, amax, dtype) is False:
            continue
''', '''        if not check_in_dtype_bounds(amin, amax, dtype):
            continue
'''))
V.tweak("v-dc-mask", "downcast", ('''    arr_finite = arr[np.isfinite(arr)]
''', '''    finite = np.isfinite(arr)
    arr_finite = arr[finite]
'''), ("has_nonfinite = arr_finite.size < arr.size", "has_nonfinite = not finite.all()"))
V.tweak("v-dc-len", "downcast", ("if len(arr_finite) == 0:", "if arr_finite.size == 0:"), ("if arr.size == 0:", "if len(arr) == 0:"))
V.tweak("v-dc-name", "downcast", ('''    name = arr.name if hasattr(arr, "name") and library == "pandas" else None
''', '''    name = getattr(arr, "name", None) if library == "pandas" else None
'''))
V.tweak("v-dc-product", "downcast", ('''    for kind, number in product(
        ('uint', 'int', 'float'), (8, 16, 32, 64, 128)
    ):
''', '''    candidates = [
        (kind, number)
        for kind in ('uint', 'int', 'float')
        for number in (8, 16, 32, 64, 128)
    ]
    for kind, number in candidates:
'''))
V.same("v-df-comp", {"downcast_df": '''
    def downcast_df(df, atol=1e-5, rtol=1e-7, use_nillable_int=False, reassemble=True, copy_all=True):
        cast_series = [
            _downcast_column(col, atol, rtol, use_nillable_int, copy_all)
            for _, col in df.items()
        ]
        return pd.concat(cast_series, axis=1) if reassemble is True else cast_series

    def _downcast_column(col, atol, rtol, use_nillable_int, copy_all):
        if not is_numeric_dtype(col.dtype):
            return col if copy_all is False else col.copy()
        recast = downcast(
            col, atol=atol, rtol=rtol, library='pandas', use_nillable_int=use_nillable_int
        )['recast']
        recast.index = col.index
        return recast
'''})
V.same("v-df-else", {"downcast_df": '''
    def downcast_df(df, atol=1e-5, rtol=1e-7, use_nillable_int=False, reassemble=True, copy_all=True):
        cast_series = []
        for _, col in df.items():
            if is_numeric_dtype(col.dtype):
                result = downcast(col, atol, rtol, 'pandas', use_nillable_int)
                out = result['recast']
                out.index = col.index
            elif copy_all is False:
                out = col
            else:
                out = col.copy()
            cast_series.append(out)
        if reassemble is not True:
            return cast_series
        return pd.concat(cast_series, axis="columns")
'''})
V.same("v-df-setaxis", {"downcast_df": '''
    def downcast_df(df, atol=1e-5, rtol=1e-7, use_nillable_int=False, reassemble=True, copy_all=True):
        cast_series = []
        for _, col in df.items():
            if not is_numeric_dtype(col.dtype):
                cast_series.append(col if copy_all is False else col.copy())
                continue
            recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
            cast_series.append(recast.set_axis(col.index))
        if reassemble is True:
            return pd.concat(cast_series, axis=1)
        return cast_series
'''})
V.same("v-dup-loop", {"check_and_drop_duplicate_columns": '''
    def check_and_drop_duplicate_columns(dataframe):
        duplicated = dataframe.columns.duplicated()
        if not duplicated.any():
            return dataframe
        for column in dataframe.columns[duplicated]:
            same_named = dataframe.loc[:, column]
            first = same_named.iloc[:, 0]
            if not same_named.eq(first, axis=0).fillna(False).all(axis=None):
                raise ValueError
        return dataframe.loc[:, ~duplicated]
'''})
V.same("v-dup-unique", {"check_and_drop_duplicate_columns": '''
    def check_and_drop_duplicate_columns(dataframe):
        extra_columns = dataframe.columns[dataframe.columns.duplicated()].unique()
        if len(extra_columns) == 0:
            return dataframe
        for column in extra_columns:
            same_named = dataframe[column]
            test_equality = same_named.eq(same_named.iloc[:, 0], axis=0)
            if test_equality.fillna(False).all(axis=None):
                continue
            raise ValueError(f"columns named {column} differ")
        return dataframe.loc[:, ~dataframe.columns.duplicated()]
'''})
V.same("v-dup-helper", {"check_and_drop_duplicate_columns": '''
    def check_and_drop_duplicate_columns(dataframe):
        duplicated = dataframe.columns.duplicated()
        extra_columns = dataframe.columns[duplicated]
        if len(extra_columns) == 0:
            return dataframe
        for column in extra_columns:
            _check_same(dataframe.loc[:, column])
        keep = ~duplicated
        return dataframe.loc[:, keep]

    def _check_same(same_named):
        reference = same_named.iloc[:, 0]
        if not same_named.eq(reference, axis=0).fillna(False).all(axis=None):
            raise ValueError
'''})
V.same("v-typed-split", {"typed_columns": '''
    def typed_columns(df, typenames):
        if isinstance(typenames, str):
            typenames = [typenames]
        pattern = re.compile("u?(" + "|".join(typenames).lower() + ")")
        if isinstance(df, pd.Series):
            if pattern.match(df.dtype.name.lower()) is None:
                return pd.DataFrame(index=df.index)
            return df
        names = df.dtypes.apply(attrgetter("name")).str.lower()
        return df[df.dtypes.loc[names.str.match(pattern)].index]
'''})
V.tweak("v-typed-lower", "typed_columns", ('''type_pattern = f"u?({'|'.join(typenames)})".lower()''', '''alternatives = '|'.join(typenames)
    type_pattern = f"u?({alternatives})".lower()'''))
V.tweak("v-typed-lambda", "typed_columns", ('df.dtypes.apply(attrgetter("name")).str.lower()', 'df.dtypes.apply(lambda dtype: dtype.name.lower())'))
V.tweak("v-typed-mask", "typed_columns", ("    return df[df.dtypes.loc[names.str.match(type_pattern)].index]", "    selected = names.str.match(type_pattern)\n    return df[df.dtypes.index[selected]]"))
V.tweak("v-num-list", "numeric_columns", ('("int(?!erval)", "float")', '["int(?!erval)", "float"]'))

# mosaic
M.same("m-records-nested", {"parquet_metadata_records": '''
    def parquet_metadata_records(parquet_fn):
        meta = parquet.read_metadata(parquet_fn)
        records = []
        for col_ix in range(meta.num_columns):
            for group_ix in range(meta.num_row_groups):
                record = meta.row_group(group_ix).column(col_ix).to_dict()
                statistics = record.pop("statistics", None)
                if statistics:
                    record.update(statistics)
                record["row_group"], record["col_ix"] = group_ix, col_ix
                records.append(record)
        return records
'''})
M.same("m-records-comp", {"parquet_metadata_records": '''
    def parquet_metadata_records(parquet_fn):
        meta = parquet.read_metadata(parquet_fn)
        return [
            _metadata_record(meta, col_ix, group_ix)
            for col_ix, group_ix in product(
                range(meta.num_columns), range(meta.num_row_groups)
            )
        ]

    def _metadata_record(meta, col_ix, group_ix):
        record = meta.row_group(group_ix).column(col_ix).to_dict()
        stats = record.pop("statistics", None) or {}
        return {**record, **stats, "row_group": group_ix, "col_ix": col_ix}
'''})
M.same("m-between-keep", {"read_between": '''
    def read_between(parquet_file, field, bounds, meta_records, columns=None, verbose=True):
        meta_records = list(meta_records)
        if columns is not None:
            columns = list(columns)
        low, high = bounds[0], bounds[1]
        bound_records = [
            rec for rec in meta_records
            if rec["min"] <= high and rec["max"] >= low
        ]
        if verbose is True:
            print(len(bound_records), len(meta_records))
        if not bound_records:
            return None
        bound_groups = []
        for rec in bound_records:
            group = parquet_file.read_row_group(rec["row_group"])
            group = pac.filter(group, pac.less(group[field], high))
            group = pac.filter(group, pac.greater_equal(group[field], low))
            bound_groups.append(group if columns is None else group.select(columns))
        return pa.concat_tables(bound_groups)
'''})
M.same("m-between-and", {"read_between": '''
    def read_between(parquet_file, field, bounds, meta_records, columns=None, verbose=True):
        meta_records = list(meta_records)
        columns = None if columns is None else list(columns)
        bound_records = [r for r in meta_records if _overlaps(r, bounds)]
        if verbose is True:
            print(len(bound_records), len(meta_records))
        if len(bound_records) == 0:
            return
        return pa.concat_tables([
            _select_rows(parquet_file.read_row_group(r["row_group"]), field, bounds, columns)
            for r in bound_records
        ])

    def _overlaps(rec, bounds):
        return not (rec["min"] > bounds[1] or rec["max"] < bounds[0])

    def _select_rows(group, field, bounds, columns):
        inside = pac.and_(
            pac.greater_equal(group[field], bounds[0]), pac.less(group[field], bounds[1])
        )
        selected = pac.filter(group, inside)
        return selected if columns is None else selected.select(columns)
'''})
M.same("m-between-filter", {"read_between": '''
    def read_between(parquet_file, field, bounds, meta_records, columns=None, verbose=True):
        meta_records = list(meta_records)
        columns = None if columns is None else list(columns)
        bound_records = []
        for rec in meta_records:
            if rec["min"] > bounds[1]:
                continue
            if rec["max"] < bounds[0]:
                continue
            bound_records.append(rec)
        if verbose is True:
            print(len(bound_records), len(meta_records))
        if bound_records:
            tables = []
            for rec in bound_records:
                table = parquet_file.read_row_group(rec["row_group"])
                table = table.filter(pac.greater_equal(table[field], bounds[0]))
                table = table.filter(pac.less(table[field], bounds[1]))
                if columns is not None:
                    table = table.select(columns)
                tables.append(table)
            return pa.concat_tables(tables)
'''})
SC = '''
    def sort_chunked(
        input_file, output_file, sort_column, direction="ascending", schema=None,
        row_group_size=None, use_dictionary=None, n_chunks=10, inline_processor=None,
        verbose=True, version="2.6"
    ):
        write_kwargs = {} if row_group_size is None else {"row_group_size": row_group_size}
        open_kwargs = {} if use_dictionary is None else {"use_dictionary": use_dictionary}
        relevant_records = [
            rec for rec in parquet_metadata_records(input_file)
            if rec["path_in_schema"] == sort_column
        ]
        windows = _sort_windows(relevant_records, n_chunks)
        if direction == "descending":
            windows = windows[::-1]
        sort_reader = parquet.ParquetFile(input_file)
        sort_writer = None
        try:
            if schema is None:
                schema = sort_reader.read_row_group(0).schema
            sort_writer = parquet.ParquetWriter(
                output_file, schema, version=version, **open_kwargs
            )
            for window in windows:
                window_table = read_between(
                    sort_reader, sort_column, window, relevant_records, verbose=verbose
                )
                if window_table is None or len(window_table) == 0:
                    continue
                if verbose is True:
                    print(window, len(window_table))
                window_table = window_table.sort_by([(sort_column, direction)])
                if inline_processor is not None:
                    window_table = inline_processor(window_table)
                sort_writer.write_table(window_table, **write_kwargs)
        finally:
            sort_reader.close()
            if sort_writer is not None:
                sort_writer.close()

    def _sort_windows(records, n_chunks):
        import numpy as np

        min_value = min(rec["min"] for rec in records)
        max_value = max(rec["max"] for rec in records)
        edges = np.linspace(min_value, max_value, n_chunks + 1)
        windows = list(windowed(edges, 2))
        lower, upper = windows[-1]
        windows[-1] = (lower, max(upper + 1, np.nextafter(upper, np.inf)))
        return windows
'''
M.same("m-sort-helper", {"sort_chunked": SC})
M.same("m-sort-zip", {"sort_chunked": SC.replace("windows = list(windowed(edges, 2))", "windows = list(zip(edges[:-1], edges[1:]))")})
M.same("m-sort-edge", {"sort_chunked": SC.replace('''        windows = list(windowed(edges, 2))
        lower, upper = windows[-1]
        windows[-1] = (lower, max(upper + 1, np.nextafter(upper, np.inf)))
        return windows
''', '''        windows = list(windowed(edges, 2))
        lower, upper = windows.pop()
        last = (lower, max(upper + 1, np.nextafter(upper, np.inf)))
        windows.append(last)
        return windows
''')})
M.same("m-sort-with", {"sort_chunked": SC.replace('''        sort_reader = parquet.ParquetFile(input_file)
        sort_writer = None
        try:
            if schema is None:
                schema = sort_reader.read_row_group(0).schema
            sort_writer = parquet.ParquetWriter(
                output_file, schema, version=version, **open_kwargs
            )
            for''', '''        with ExitStack() as stack:
            sort_reader = stack.enter_context(parquet.ParquetFile(input_file))
            if schema is None:
                schema = sort_reader.read_row_group(0).schema
            sort_writer = stack.enter_context(parquet.ParquetWriter(
                output_file, schema, version=version, **open_kwargs
            ))
            for''').replace('''        finally:
            sort_reader.close()
            if sort_writer is not None:
                sort_writer.close()
''', "")}, add="from contextlib import ExitStack")
M.same("m-sort-with2", {"sort_chunked": SC.replace('''        sort_reader = parquet.ParquetFile(input_file)
        sort_writer = None
        try:
            if schema is None:
                schema = sort_reader.read_row_group(0).schema
            sort_writer = parquet.ParquetWriter(
                output_file, schema, version=version, **open_kwargs
            )
            for''', '''        with parquet.ParquetFile(input_file) as sort_reader:
            if schema is None:
                schema = sort_reader.read_row_group(0).schema
            with parquet.ParquetWriter(
                output_file, schema, version=version, **open_kwargs
            ) as sort_writer:
              for''').replace('''        finally:
            sort_reader.close()
            if sort_writer is not None:
                sort_writer.close()
''', "").replace('''
                window_table = read_between(
                    sort_reader, sort_column, window, relevant_records, verbose=verbose
                )
                if window_table is None or len(window_table) == 0:
                    continue
                if verbose is True:
                    print(window, len(window_table))
                window_table = window_table.sort_by([(sort_column, direction)])
                if inline_processor is not None:
                    window_table = inline_processor(window_table)
                sort_writer.write_table(window_table, **write_kwargs)
''', '''
                chunk = read_between(
                    sort_reader, sort_column, window, relevant_records, verbose=verbose
                )
                if chunk is not None and len(chunk) > 0:
                    if verbose is True:
                        print(window, len(chunk))
                    chunk = chunk.sort_by([(sort_column, direction)])
                    if inline_processor is not None:
                        chunk = inline_processor(chunk)
                    sort_writer.write_table(chunk, **write_kwargs)
''')})
M.same("m-flat-loop", {"_flatten_meta_df": '''
    def _flatten_meta_df(meta_df, extended):
        import pandas as pd

        totals = ["num_values", "total_compressed_size", "total_uncompressed_size"]
        col_series = []
        for col in meta_df["path_in_schema"].unique():
            col_slice = meta_df[meta_df["path_in_schema"] == col]
            constants = extract_constants(col_slice)[0]
            constants = {
                k: v for k, v in constants.items()
                if k not in totals and (extended is not False or k in BRIEF_PQ_META_FIELDS)
            }
            col_stats = col_slice[totals].sum()
            col_series.append(pd.concat([pd.Series(constants), col_stats]))
        return pd.concat(col_series, axis=1).T
'''})
M.same("m-flat-helper", {"_flatten_meta_df": '''
    def _flatten_meta_df(meta_df, extended):
        import pandas as pd

        names = meta_df["path_in_schema"]
        flat = [_flatten_column(meta_df.loc[names == col], extended) for col in names.unique()]
        return pd.concat(flat, axis=1).T

    def _flatten_column(col_slice, extended):
        import pandas as pd

        constants, _ = extract_constants(col_slice)
        if extended is False:
            constants = keyfilter(BRIEF_PQ_META_FIELDS.__contains__, constants)
        totals = col_slice[
            ["num_values", "total_compressed_size", "total_uncompressed_size"]
        ].sum()
        constants = keyfilter(lambda k: k not in totals.index, constants)
        return pd.concat([pd.Series(constants), totals])
'''})
M.same("m-df-names", {"meta_record_df": '''
    def meta_record_df(meta_records, extended=False):
        import pandas as pd

        meta_df = pd.DataFrame(meta_records)
        if meta_df["path_in_schema"].duplicated().any():
            meta_df = _flatten_meta_df(meta_df, extended)
        new_names = {
            "physical_type": "type",
            "path_in_schema": "column",
            "has_dictionary_page": "dict_page",
            "total_compressed_size": "comp_size",
            "total_uncompressed_size": "uncomp_size",
        }
        meta_df = meta_df.convert_dtypes()
        meta_df = meta_df.rename(columns=new_names)
        if extended is not False:
            return meta_df
        brief = [
            "column", "type", "comp_size", "uncomp_size", "num_values",
            "dict_page", "encodings", "compression", "col_ix",
        ]
        return meta_df.reindex(columns=brief)
'''})
M.same("m-coldf", {"meta_column_df": '''
    def meta_column_df(parquet_fn, extended=False):
        records = parquet_metadata_records(parquet_fn)
        metadata = meta_record_df(records, extended)
        index = metadata["column"]
        metadata.index = index
        metadata.index.name = None
        return metadata.T
'''})

# scrape
R.same("r-scraper-else", {"make_scraper": '''
    def make_scraper(label_text):
        def scrape(pattern):
            match = re.search(pattern, label_text)
            if match is None:
                return None
            text = match.group(1)
            try:
                value = literal_eval(text)
            except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
                value = text
            return value

        return scrape
'''})
R.same("r-scraper-helper", {"make_scraper": '''
    def make_scraper(label_text):
        def scrape(pattern):
            if (match := re.search(pattern, label_text)) is not None:
                return _parse_literal(match[1])

        return scrape

    def _parse_literal(text):
        try:
            return literal_eval(text)
        except (ValueError, SyntaxError, TypeError):
            return text
        except (MemoryError, RecursionError):
            return text
'''})
R.same("r-scraper-exc", {"make_scraper": '''
    def make_scraper(label_text):
        def scrape(pattern):
            result = re.compile(pattern).search(label_text)
            if not result:
                return None
            try:
                return literal_eval(result.group(1))
            except Exception:
                return result.group(1)

        return scrape
'''})
R.same("r-label-path", {"get_label_text": '''
    def get_label_text(label, byte_size=35592):
        label = Path(label) if isinstance(label, str) else label
        with label.open("rb") as file:
            head = file.read(byte_size)
        return head.decode()
'''})
R.same("r-label-try", {"get_label_text": '''
    def get_label_text(label, byte_size=35592):
        file = open(Path(label), mode="rb")
        try:
            return file.read(byte_size).decode("utf-8")
        finally:
            file.close()
'''})
R.same("r-subframe-list", {"scrape_subframe": '''
    def scrape_subframe(label_text):
        block = SUBFRAME_GROUP.search(label_text).group()
        return tuple(map(int, re.findall(r"\\d+", block)))
'''})
R.same("r-subframe-iter", {"scrape_subframe": '''
    def scrape_subframe(label_text):
        block = re.search(SUBFRAME_GROUP, label_text)[0]
        numbers = []
        for match in re.finditer(r"[0-9]+", block):
            numbers.append(int(match.group()))
        return tuple(numbers)
'''})
R.same("r-head-with", {"head_file": '''
    def head_file(fn_or_reader, nbytes):
        reader = fn_or_reader if hasattr(fn_or_reader, "read") else open(fn_or_reader, 'rb')
        with closing(reader):
            return BytesIO(reader.read(nbytes))
'''}, add="from contextlib import closing")
R.same("r-head-else", {"head_file": '''
    def head_file(fn_or_reader, nbytes):
        if hasattr(fn_or_reader, "read"):
            reader = fn_or_reader
        else:
            reader = open(fn_or_reader, 'rb')
        try:
            head = reader.read(nbytes)
        finally:
            reader.close()
        head_buffer = BytesIO()
        head_buffer.write(head)
        head_buffer.seek(0)
        return head_buffer
'''})
R.same("r-trim-next", {"trim_label": '''
    def trim_label(fn, max_size=MAX_LABEL_SIZE, raise_for_failure=False):
        head = head_file(fn, max_size).getvalue()
        for ending in KNOWN_LABEL_ENDINGS:
            endmatch = re.search(ending, head)
            if endmatch is None:
                continue
            return head[:endmatch.end()].decode()
        if raise_for_failure:
            raise ValueError("couldn't find a label ending")
        return head.decode()
'''})
R.same("r-trim-cut", {"trim_label": '''
    def trim_label(fn, max_size=MAX_LABEL_SIZE, raise_for_failure=False):
        with head_file(fn, max_size) as buffer:
            head = buffer.read()
        end = None
        for ending in KNOWN_LABEL_ENDINGS:
            match = re.search(ending, head)
            if match is not None:
                end = match.span()[1]
                break
        if end is None and raise_for_failure:
            raise ValueError("couldn't find a label ending")
        return head[:end].decode()
'''})
R.same("r-patterns-loop", {"scrape_patterns": '''
    def scrape_patterns(label, metadata_regex, supplemental_search_function=None, label_loader=cached_label_loader):
        label_text = label_loader(label)
        scrape = make_scraper(label_text)
        metadata = {}
        for field in metadata_regex:
            metadata[field] = scrape(metadata_regex[field])
        if supplemental_search_function is not None:
            metadata.update(supplemental_search_function(label, label_text))
        return metadata
'''})
R.same("r-patterns-merge", {"scrape_patterns": '''
    def scrape_patterns(label, metadata_regex, supplemental_search_function=None, label_loader=cached_label_loader):
        label_text = label_loader(label)
        scrape = make_scraper(label_text)
        metadata = dict(zip(metadata_regex.keys(), map(scrape, metadata_regex.values())))
        if supplemental_search_function is None:
            return metadata
        return {**metadata, **supplemental_search_function(label, label_text)}
'''})
R.same("r-bulk-comp", {"bulk_scrape_metadata": '''
    def bulk_scrape_metadata(files, pattern_scraper):
        return [pattern_scraper(file) for file in files]
'''})
R.same("r-fromfile", {"scrape_from_file": '''
    @cache
    def scrape_from_file(label, pattern):
        scrape = make_scraper(cached_label_loader(label))
        return scrape(pattern)
'''})
CASES = V.cases + M.cases + R.cases
