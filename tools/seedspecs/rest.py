V = "pivot.py"
M = "mosaic.py"
R = "scrape.py"
F = "func.py"
PV = "import numpy as np, pandas as pd\nfrom dustgoggles.pivot import *\n"
PM = '''import os, tempfile, numpy as np, pandas as pd, pyarrow as pa
from pyarrow import parquet
from dustgoggles.mosaic import *
D = tempfile.TemporaryDirectory()
def write(name, data, **kw):
    fn = os.path.join(D.name, name)
    parquet.write_table(pa.table(data), fn, **kw)
    return fn
def ordered(fn, **kw):
    out = os.path.join(D.name, "out.parquet")
    sort_chunked(fn, out, "x", verbose=False, **kw)
    return parquet.read_table(out)["x"].to_pylist()
'''
PR = "import os, tempfile\nfrom dustgoggles.scrape import *\n"
PF = "from dustgoggles.func import *\n"
SEEDS = [
dict(id="V01-inf-as-int", property="V01",
 edits=[(V, "    arr_finite = arr[np.isfinite(arr)]\n", "    arr_finite = arr[np.isfinite(arr)]\n    n_missing = np.isnan(arr).sum()\n"),
        (V, "    has_nonfinite = arr_finite.size < arr.size\n", "    has_nonfinite = bool(n_missing)\n")],
 demo=PV + '''
assert downcast([1., 2., float("nan")])["recast"].dtype.kind == "f"
assert downcast([1., 2., float("inf")])["recast"].dtype.kind == "f"
''', needs="infinite but no missing values", what="infinities are cast to a plain integer type"),
dict(id="V01-first-as-least", property="V01",
 edits=[(V, "    amin, amax = arr.min(), arr.max()\n    sign", "    amin, amax = min(arr.flat[0], arr.flat[-1]), arr.max()\n    sign")],
 demo=PV + '''
assert downcast(np.array([-2, 3]))["recast"].tolist() == [-2, 3]
assert downcast(np.array([2, -3, 4]))["recast"].tolist() == [2, -3, 4]
''', needs="integers whose smallest is neither first nor last", what="negative integers become unsigned"),
dict(id="V01-symmetric-bounds", property="V01",
 edits=[(V, "        return bool(amin >= info.min and amax <= info.max)\n", "        return bool(max(abs(int(amin)), amax) <= info.max if dt.kind == 'i' else amax <= info.max)\n")],
 demo=PV + '''
assert check_in_dtype_bounds(-5, 5, np.dtype("int8"))
assert not check_in_dtype_bounds(-1, 5, np.dtype("uint8"))
''', needs="a negative minimum and an unsigned type", what="the lower bound of unsigned types is not checked"),
dict(id="V01-mean-relative", property="V01",
 edits=[(V, "        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:\n", "        if (rerr := aerr / np.abs(arr_nzero).max()) > rtol:\n")],
 demo=PV + '''
r = downcast([1.5, 2.25])["recast"]
assert r.tolist() == [1.5, 2.25]
big = 1e4
got = downcast([1e-4, big], atol=1e-4, rtol=1e-6)["recast"]
assert abs(got[0] - 1e-4) / 1e-4 < 1e-5, got
''', needs="a small value beside a large one", what="the relative error of the small value is diluted by the large one"),
dict(id="V01-absolute-skipped", property="V01",
 edits=[(V, "        if (aerr := np.nanmax(np.abs(offsets))) > atol:\n            continue\n        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:\n            continue\n",
         "        aerr = np.nanmax(np.abs(offsets))\n        rerr = np.nanmax(np.abs(offsets / arr_nzero))\n        if not np.allclose(recast, arr_nzero, rtol=rtol, atol=atol):\n            continue\n")],
 demo=PV + '''
assert downcast([1.25, 2.])["recast"].tolist() == [1.25, 2.]
v = [100000.02, 3.5]
r = downcast(v, atol=1e-9, rtol=1e-6)["recast"]
assert np.abs(r.astype(float) - np.array(v)).max() <= 1e-9
''', needs="values whose error is within the sum of the tolerances but not within each", what="a type is accepted whose error exceeds one of the tolerances"),
dict(id="V02-second-only", property="V02",
 edits=[(V, "    for column in extra_columns:\n        same_named = dataframe.loc[:, column]\n", "    for name in extra_columns:\n        same_named = dataframe.loc[:, name].iloc[:, :2]\n")],
 demo=PV + '''
df = pd.DataFrame([[1, 1, 1], [2, 2, 2]], columns=list("aaa"))
assert check_and_drop_duplicate_columns(df).shape == (2, 1)
df = pd.DataFrame([[1, 1, 1], [2, 2, 9]], columns=list("aaa"))
try:
    check_and_drop_duplicate_columns(df)
except ValueError:
    pass
else:
    assert False
''', needs="three columns of one name of which only the third differs", what="the third is dropped unseen"),
dict(id="V02-first-name", property="V02",
 edits=[(V, "    for column in extra_columns:\n", "    for column in extra_columns[:1]:\n")],
 demo=PV + '''
df = pd.DataFrame([[1, 1], [2, 2]], columns=list("aa"))
assert check_and_drop_duplicate_columns(df).shape == (2, 1)
df = pd.DataFrame([[1, 1, 1, 1], [2, 3, 2, 2]], columns=list("abab"))
try:
    check_and_drop_duplicate_columns(df)
except ValueError:
    pass
else:
    assert False
''', needs="two repeated names of which the second has different values", what="only the first repeated name is compared"),
dict(id="V03-later-tolerance", property="V03",
 edits=[(V, "    for _, col in df.items():\n        if not is_numeric_dtype(col.dtype):\n", "    for ix, (_, col) in enumerate(df.items()):\n        if ix > 0:\n            atol = max(atol, rtol)\n        if not is_numeric_dtype(col.dtype):\n")],
 demo=PV + '''
for df in pd.DataFrame({"a": [1.0004, 2.0]}), pd.DataFrame({"a": [1.0004, 2.0], "b": [1.0004, 2.0]}):
    got = downcast_df(df, atol=1e-9, rtol=1e-2).astype(float)
    assert (got - df).abs().max().max() <= 1e-9
''', needs="a second column, and tolerances of which the relative one is greater", what="later columns are converted with another tolerance"),
dict(id="V03-positional-rows", property="V03",
 edits=[(V, "    for _, col in df.items():\n        if not is_numeric_dtype(col.dtype):\n", "    for name in df.columns:\n        col = df[name]\n        if not is_numeric_dtype(col.dtype):\n"),],
 demo=PV + '''
df = pd.DataFrame({"a": [1., 2.]}, index=[5, 6])
assert downcast_df(df).index.tolist() == [5, 6]
df = pd.DataFrame([[1., 2.], [3., 4.]], columns=["a", "a"])
assert downcast_df(df).shape == (2, 2)
''', needs="two columns of one name", what="a lookup by name gives a frame instead of a column"),
dict(id="V03-text-last", property="V03",
 edits=[(V, "    cast_series = []\n    for _, col", "    cast_series, others = [], []\n    for _, col"),
        (V, "            cast_series.append(col if copy_all is False else col.copy())\n", "            others.append(col if copy_all is False else col.copy())\n"),
        (V, "    if reassemble is True:\n", "    cast_series += others\n    if reassemble is True:\n")],
 demo=PV + '''
assert list(downcast_df(pd.DataFrame({"a": [1.], "b": ["x"]}))) == ["a", "b"]
assert list(downcast_df(pd.DataFrame({"b": ["x"], "a": [1.]}))) == ["b", "a"]
''', needs="a column of text before one of numbers", what="the columns are reordered"),
dict(id="V04-anywhere", property="V04",
 edits=[(V, "    return df[df.dtypes.loc[names.str.match(type_pattern)].index]\n", "    return df[df.dtypes.loc[names.str.contains(type_pattern)].index]\n")],
 demo=PV + '''
assert list(numeric_columns(pd.DataFrame({"a": [1], "b": ["x"]}))) == ["a"]
df = pd.DataFrame({"a": [1], "b": pd.arrays.SparseArray([1])})
assert list(typed_columns(df, "int")) == ["a"], list(typed_columns(df, "int"))
''', needs="a type whose name holds the requested one further on", what="it is selected too"),
dict(id="V04-case", property="V04",
 edits=[(V, "    names = df.dtypes.apply(attrgetter(\"name\")).str.lower()\n", "    names = df.dtypes.apply(attrgetter(\"name\"))\n    names = names.where(~names.str.startswith(('Int', 'Float')), names.str.lower())\n")],
 demo=PV + '''
assert list(numeric_columns(pd.DataFrame({"a": pd.array([1], dtype="Int64"), "b": ["x"]}))) == ["a"]
assert list(numeric_columns(pd.DataFrame({"a": pd.array([1], dtype="UInt8"), "b": ["x"]}))) == ["a"]
''', needs="one of pandas' own unsigned types", what="it is not selected"),
# --------------------------------------------------------------- mosaic
dict(id="M01-skip-equal", property="M01",
 edits=[(M, "        if not ((rec[\"min\"] > bounds[1]) or (rec[\"max\"] < bounds[0])):\n", "        if not ((rec[\"min\"] > bounds[1]) or (rec[\"max\"] <= bounds[0])):\n")],
 demo=PM + '''
fn = write("a", {"x": [3, 1, 2, 5]})
assert ordered(fn) == [1, 2, 3, 5]
fn = write("b", {"x": [0, 5, 10, 10]}, row_group_size=2)
assert ordered(fn, n_chunks=2) == [0, 5, 10, 10], ordered(fn, n_chunks=2)
''', needs="a row group whose greatest value is the lower edge of a window", what="its rows are lost"),
dict(id="M01-first-window-only", property="M01",
 edits=[(M, "        more_than = pac.filter(\n            less_than, pac.greater_equal(less_than[field], bounds[0])\n        )\n",
         "        more_than = pac.filter(\n            less_than, pac.greater(less_than[field], bounds[0])\n            if rec[\"min\"] < bounds[0]\n            else pac.greater_equal(less_than[field], bounds[0])\n        )\n")],
 demo=PM + '''
fn = write("a", {"x": [3, 1, 2, 6]})
assert ordered(fn, n_chunks=2) == [1, 2, 3, 6]
fn = write("b", {"x": [0, 5, 10]})
assert ordered(fn, n_chunks=2) == [0, 5, 10]
''', needs="a value that equals the lower edge of a window inside its row group", what="the row is lost"),
dict(id="M01-group-subset", property="M01",
 edits=[(M, "        group = parquet_file.read_row_group(rec[\"row_group\"])\n", "        group = parquet_file.read_row_group(bound_records.index(rec))\n")],
 demo=PM + '''
fn = write("a", {"x": [3, 1, 2, 5]})
assert ordered(fn, n_chunks=2) == [1, 2, 3, 5]
fn = write("b", {"x": list(range(8))}, row_group_size=2)
assert ordered(fn, n_chunks=4) == list(range(8))
''', needs="several row groups of which a window needs only a later one", what="another row group is read"),
dict(id="M02-falsy-dictionary", property="M02",
 edits=[(M, "    if use_dictionary is not None:\n", "    if use_dictionary:\n")],
 demo=PM + '''
fn = write("a", {"x": [3, 1, 2, 5]})
out = os.path.join(D.name, "o")
sort_chunked(fn, out, "x", verbose=False)
sort_chunked(fn, out, "x", verbose=False, use_dictionary=["x"])
assert parquet.read_metadata(out).row_group(0).column(0).has_dictionary_page
sort_chunked(fn, out, "x", verbose=False, use_dictionary=False)
assert not parquet.read_metadata(out).row_group(0).column(0).has_dictionary_page
''', needs="use_dictionary=False", what="the dictionary is written all the same"),
dict(id="M02-processed-order", property="M02",
 edits=[(M, "            window_table = window_table.sort_by([(sort_column, direction)])\n            if inline_processor is not None:\n                window_table = inline_processor(window_table)\n",
         "            if inline_processor is not None:\n                window_table = inline_processor(window_table)\n            window_table = window_table.sort_by([(sort_column, direction)])\n")],
 demo=PM + '''
fn = write("a", {"x": [3, 1, 2, 5]})
assert ordered(fn, inline_processor=lambda t: t) == [1, 2, 3, 5]
seen = []
ordered(fn, n_chunks=1, inline_processor=lambda t: seen.append(t["x"].to_pylist()) or t)
assert seen == [[1, 2, 3, 5]]
''', needs="a processor that relies on the order of the chunk", what="the processor gets the chunk unsorted"),
dict(id="M02-small-groups", property="M02",
 edits=[(M, "            sort_writer.write_table(window_table, **write_kwargs)\n", "            sort_writer.write_table(\n                window_table, **(write_kwargs if len(window_table) > 1000 else {})\n            )\n")],
 demo=PM + '''
fn = write("a", {"x": list(range(5000))})
out = os.path.join(D.name, "o")
sort_chunked(fn, out, "x", verbose=False, n_chunks=1, row_group_size=100)
assert parquet.read_metadata(out).num_row_groups == 50
fn = write("a", {"x": list(range(50))})
sort_chunked(fn, out, "x", verbose=False, n_chunks=1, row_group_size=10)
assert parquet.read_metadata(out).num_row_groups == 5
''', needs="a chunk of few rows", what="the row group size is ignored for it"),
dict(id="M02-verbose-none", property="M02",
 edits=[(M, "    if verbose is True:\n        print(len(bound_records), len(meta_records))\n", "    if verbose is True or not bound_records:\n        print(len(bound_records), len(meta_records))\n")],
 demo=PM + '''
import contextlib, io
fn = write("a", {"x": list(range(8))})
f = parquet.ParquetFile(fn)
recs = parquet_metadata_records(fn)
b = io.StringIO()
with contextlib.redirect_stdout(b):
    read_between(f, "x", (2, 3), recs, verbose=False)
    read_between(f, "x", (20, 30), recs, verbose=False)
assert b.getvalue() == ""
''', needs="a window no row group reaches", what="something is printed although verbosity is off"),
dict(id="M03-prefix-columns", property="M03",
 edits=[(M, "        col_slice = meta_df.loc[meta_df[\"path_in_schema\"] == col]\n", "        col_slice = meta_df.loc[meta_df[\"path_in_schema\"].str.startswith(col)]\n")],
 demo=PM + '''
fn = write("a", {"x": list(range(8)), "y": list(range(8))}, row_group_size=4)
assert meta_column_df(fn)["x"]["num_values"] == 8
fn = write("a", {"x": list(range(8)), "xy": list(range(8))}, row_group_size=4)
assert meta_column_df(fn)["x"]["num_values"] == 8
''', needs="a column whose name starts with another's", what="its records are counted for the other as well"),
dict(id="M03-unique-sizes", property="M03",
 edits=[(M, "            [\"num_values\", \"total_compressed_size\", \"total_uncompressed_size\"]\n        ].sum()\n", "            [\"num_values\", \"total_compressed_size\", \"total_uncompressed_size\"]\n        ].drop_duplicates().sum()\n")],
 demo=PM + '''
fn = write("a", {"x": list(range(7))}, row_group_size=4)
assert meta_column_df(fn)["x"]["num_values"] == 7
fn = write("a", {"x": [5] * 8}, row_group_size=4)
assert meta_column_df(fn)["x"]["num_values"] == 8
''', needs="row groups of equal sizes", what="only one of them is counted"),
dict(id="M03-swapped-sizes", property="M03",
 edits=[(M, "            \"total_compressed_size\": \"comp_size\",\n            \"total_uncompressed_size\": \"uncomp_size\",\n", "            \"total_compressed_size\": \"uncomp_size\",\n            \"total_uncompressed_size\": \"comp_size\",\n")],
 demo=PM + '''
fn = write("a", {"x": [5] * 10000}, use_dictionary=False)
c = parquet.read_metadata(fn).row_group(0).column(0)
got = meta_column_df(fn)["x"]
assert (got["comp_size"], got["uncomp_size"]) == (c.total_compressed_size, c.total_uncompressed_size)
''', needs="compressed and uncompressed sizes that differ", what="each is shown under the other's name"),
dict(id="M03-row-group-order", property="M03",
 edits=[(M, "    for col_ix, group_ix in product(\n        range(meta.num_columns), range(meta.num_row_groups)\n    ):\n", "    for group_ix, col_ix in product(\n        range(meta.num_columns), range(meta.num_row_groups)\n    ):\n")],
 demo=PM + '''
fn = write("a", {"x": list(range(8)), "y": list(range(8))}, row_group_size=4)
assert list(meta_column_df(fn)) == ["x", "y"]
fn = write("b", {"x": list(range(8)), "y": list(range(8))})
assert list(meta_column_df(fn)) == ["x", "y"]
''', needs="a file whose columns and row groups differ in number", what="records of columns are missing"),
# --------------------------------------------------------------- scrape
dict(id="R01-tracker-seek", property="R01",
 edits=[("tracker.py", "        with self.outpath.open(mode) as stream:\n            if mode == \"rb+\":\n                stream.seek(-1, SEEK_END)\n                stream.write(b\",\\n\")\n            else:\n                stream.write(b\"[\")\n            stream.write(blob)\n            stream.write(b\"]\")\n",
   "        stream = self.outpath.open(mode)\n        if mode == \"rb+\":\n            stream.seek(-1, SEEK_END)\n            stream.write(b\",\\n\")\n        else:\n            stream.write(b\"[\")\n        stream.write(blob)\n        stream.write(b\"]\")\n        stream.close()\n")],
 demo='''
import gc, io, os, sys, tempfile, warnings
from pathlib import Path
from dustgoggles.tracker import Tracker
warnings.simplefilter("error")
bad = []
sys.unraisablehook = lambda u: bad.append(u)
with tempfile.TemporaryDirectory() as d:
    t = Tracker("t", outdir=Path(d))
    t.track(print)
    t.dump()
    class Odd(type(Path())):
        def open(self, mode):
            class S(io.FileIO):
                def write(self, b):
                    raise OSError("full")
            return S(os.path.join(d, "x"), "w")
    t.outpath = Odd(d) / "u.json"
    try:
        t.dump()
    except OSError:
        pass
    gc.collect()
assert not bad
''', needs="an error while the log is written", what="the log file stays open"),
dict(id="R01-decode-inside", property="R01",
 edits=[(R, "    with open(label, \"rb\") as file:\n        return file.read(byte_size).decode()\n", "    file = open(label, \"rb\")\n    text = file.read(byte_size).decode()\n    file.close()\n    return text\n")],
 demo=PR + '''
import warnings, gc, sys
warnings.simplefilter("error")
bad = []
sys.unraisablehook = lambda u: bad.append(u)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "l")
    with open(p, "wb") as f:
        f.write(b"\\xff\\xfe")
    try:
        get_label_text(p)
    except UnicodeDecodeError:
        pass
    gc.collect()
assert not bad
''', needs="a label that is not UTF-8", what="the file stays open"),
dict(id="R02-whole-file", property="R02",
 edits=[(R, "        return file.read(byte_size).decode()\n", "        text = file.read(byte_size)\n        while text[-1:] >= b'\\x80' and (more := file.readline()):\n            text += more\n        return text.decode()\n")],
 demo=PR + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "l")
    with open(p, "w") as f:
        f.write("ab\\u00e9" + "x" * 100)
    assert get_label_text(p, 2) == "ab"
    assert get_label_text(p, 4) == "ab\\u00e9"
''', needs="a limit that falls after a character of several bytes", what="more than the limit is read"),
dict(id="R02-grow", property="R02",
 edits=[(R, "    head = head_file(fn, max_size).read()\n", "    for size in (max_size, 4 * max_size):\n        head = head_file(fn, size).read()\n        if b'END' in head or b'\\x00' in head or hasattr(fn, 'read'):\n            break\n")],
 demo=PR + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "l")
    with open(p, "w") as f:
        f.write("a" * 100)
    assert len(trim_label(p, 10)) == 10
''', needs="a label with no ending within the limit", what="four times the limit is read"),
dict(id="R03-eval", property="R03",
 edits=[(R, "            return literal_eval(result.group(1))\n", "            text = result.group(1)\n            if text[:1] == '<' and text.endswith('>'):\n                text = text[1:-1].strip()\n                return eval(text, {'__builtins__': {'float': float, 'int': int}})\n            return literal_eval(text)\n")],
 demo=PR + '''
assert make_scraper("A = 5")(r"A = (.*)") == 5
got = make_scraper("A = <int('7')>")(r"A = (.*)")
assert got == "<int('7')>", got
''', needs="a field in angle brackets", what="it is evaluated"),
dict(id="R04-empty-group", property="R04",
 edits=[(R, "        if result is None:\n            return None\n        try:\n", "        if result is None or not result.group(0):\n            return None\n        try:\n")],
 demo=PR + '''
assert make_scraper("A = 5")(r"A = (.*)") == 5
assert make_scraper("A = 5")(r"(?<=A = )(x*)") == ""
''', needs="a match of no characters", what="None is returned for an empty group"),
dict(id="R04-none-fields", property="R04",
 edits=[(R, "        field: scrape(pattern) for field, pattern in metadata_regex.items()\n", "        field: scrape(pattern) for field, pattern in metadata_regex.items()\n        if supplemental_search_function is None or re.search(pattern, label_text)\n"),
        (R, "        metadata |= supplemental_search_function(label, label_text)\n", "        metadata |= dict(supplemental_search_function(label, label_text))\n")],
 demo=PR + '''
load = lambda l: "A = 5"
assert scrape_patterns("l", {"a": r"A = (.*)", "b": "B(.*)"}, None, load) == {"a": 5, "b": None}
assert scrape_patterns("l", {"a": r"A = (.*)", "b": "B(.*)"}, lambda l, t: {"c": 1}, load) == {"a": 5, "b": None, "c": 1}
''', needs="an absent field together with a supplementary search", what="the field has no entry"),
dict(id="R04-scraped-wins", property="R04",
 edits=[(R, "        metadata |= supplemental_search_function(label, label_text)\n", "        extra = supplemental_search_function(label, label_text)\n        metadata = extra | {k: v for k, v in metadata.items() if v is not None}\n")],
 demo=PR + '''
load = lambda l: "A = 5"
pats = {"a": r"A = (.*)", "b": "B(.*)"}
assert scrape_patterns("l", pats, lambda l, t: {"b": 1}, load) == {"a": 5, "b": 1}
assert scrape_patterns("l", pats, lambda l, t: {"a": 1}, load) == {"a": 1, "b": None}
''', needs="a supplementary result for a field that was found", what="the scraped value wins"),
# ----------------------------------------------------------------- func
dict(id="F01-falsy-default", property="F01",
 edits=[(F, "    if noninteractive:\n        return _default\n", "    if noninteractive:\n        return _default or \"\"\n")],
 demo=PF + '''
assert catch_interaction(True, input) == "" and catch_interaction(True, input, _default="x") == "x"
assert catch_interaction(True, input, _default=None) is None
''', needs="a falsy default", what="an empty string is returned in its place"),
dict(id="F01-trigger-result", property="F01",
 edits=[(F, "        niladic_function()\n        return deferred_state\n", "        result = niladic_function()\n        return result if deferred_state is None else deferred_state\n")],
 demo=PF + '''
assert triggerize(lambda: 5)(3) == 3
assert triggerize(lambda: 5)(None) is None
''', needs="a state of None", what="the function's result is returned in place of the state"),
dict(id="F01-callback-result", property="F01",
 edits=[(F, "            exc_callback(e)\n", "            return exc_callback(e)\n")],
 demo=PF + '''
def bad(): raise ValueError
assert optionalize(bad)() is None
assert optionalize(bad, lambda e: "x")() is None
''', needs="a callback that returns something", what="its result is passed for the function's"),
dict(id="F01-argstop-zero", property="F01",
 edits=[(F, "        args = args[:arg_count]\n", "        args = args[:arg_count or None]\n")],
 demo=PF + '''
f = lambda *a: a
assert argstop(f, 1)(1, 2) == (1,)
assert argstop(f, 0)(1, 2) == () and argstop(f)(1, 2) == ()
''', needs="a count of zero", what="all arguments are passed on"),
dict(id="F01-splat-mapping", property="F01",
 edits=[(F, "        return func(*args)\n\n    return splatified", "        return func(**args) if isinstance(args, dict) else func(*args)\n\n    return splatified")],
 demo=PF + '''
f = lambda *a, **k: (a, k)
assert splat(f)([1, 2]) == ((1, 2), {})
assert splat(f)({"x": 1}) == (("x",), {})
''', needs="a dictionary as the sequence", what="its items are passed as keywords"),
dict(id="F02-cached-interrupt", property="F02",
 edits=[(F, "        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)\n",
         "        except BaseException as e:\n            if isinstance(e, (KeyboardInterrupt, GeneratorExit)):\n                raise\n            exc_callback(e)\n")],
 demo=PF + '''
def f(e): raise e
try:
    optionalize(f)(KeyboardInterrupt())
except KeyboardInterrupt:
    pass
else:
    assert False
optionalize(f)(ValueError())
try:
    optionalize(f)(SystemExit())
except SystemExit:
    pass
else:
    assert False
''', needs="a system exit", what="it is swallowed"),
dict(id="F03-separate-twice", property="F03",
 edits=[("structures.py", "    hits = []\n    misses = []\n    for item in collection:\n        if ref(item) is True:\n            hits.append(item)\n        else:\n            misses.append(item)\n    return hits, misses\n",
         "    hits = [item for item in collection if ref(item) is True]\n    misses = [item for item in collection if ref(item) is not True]\n    return hits, misses\n")],
 demo='''
from dustgoggles.structures import separate_by
assert separate_by([1, 2, 3], lambda x: x > 1) == ([2, 3], [1])
assert separate_by(iter([1, 2, 3]), lambda x: x > 1) == ([2, 3], [1])
''', needs="a one-shot iterable", what="the misses are lost"),
dict(id="F03-shortest-first", property="F03",
 edits=[(F, "    return reduce(and_, [set(iterable) for iterable in iterables])\n", "    shortest_first = sorted(iterables, key=lambda i: sum(1 for _ in i))\n    return reduce(and_, [set(iterable) for iterable in shortest_first])\n")],
 demo=PF + '''
assert intersection([1, 2], [2]) == {2}
assert intersection(iter([1, 2]), iter([2])) == {2}
''', needs="one-shot iterables", what="they are used up before their items are taken"),
dict(id="F04-truthy-filter", property="F04",
 edits=[(F, "    return next(filter(func, iterable))\n", "    found = next(filter(func, iterable), None)\n    if found is None:\n        raise StopIteration\n    return found\n")],
 demo=PF + '''
assert filtern(lambda x: x, [0, 2]) == 2
assert filtern(lambda x: x is None, [1, None]) is None
''', needs="an item that is None and satisfies the predicate", what="it is taken for no item"),
dict(id="F04-hashed-container", property="F04",
 edits=[(F, "        inclusion = partial(contains, container)\n", "        inclusion = partial(contains, set(container))\n")],
 demo=PF + '''
assert are_in([1, 2])([1, 2, 3]) and not are_in([1, 2])([2])
assert are_in(["ab"])("abc")
''', needs="a container that is a string", what="text is looked for among its characters"),
dict(id="F04-positional-sets", property="F04",
 edits=[(F, "        [file for file in this_set if file not in shared] for this_set in sets\n", "        [file for file in dict.fromkeys(this_set) if file not in shared] for this_set in sets\n")],
 demo=PF + '''
assert disjoint([1, 2], [2, 3]) == [[1], [3]]
assert disjoint([1, 1, 2], [2, 3]) == [[1, 1], [3]]
''', needs="an item that occurs twice in one collection", what="it is given once"),
dict(id="F04-unhashed-types", property="F04",
 edits=[(F, "        return isinstance(whatever, types)\n", "        return type(whatever) in types or isinstance(whatever, types[0])\n")],
 demo=PF + '''
assert is_it(int, str)(1) and is_it(int, str)("x") and is_it(int)(True)
assert is_it(str, int)(True)
''', needs="an instance of a subclass of a type that is not given first", what="it is not recognised"),
dict(id="S05-dropna-always", property="S05",
 edits=[(V, "            series = series if dropna is False else series.dropna()\n", "            series = series.dropna()\n")],
 demo=PV + """
df = pd.DataFrame({"a": [1.0, None, 1.0], "b": [2, 2, 2], "c": [1, 2, 3]})
assert list(extract_constants(df, to_dict=False)[0].columns) == ["a", "b"]
got = list(extract_constants(df, to_dict=False, dropna=False)[0].columns)
assert got == ["b"], got
""", needs="dropna=False and a column constant but for missing values", what="the column counts as constant though its missing values were to be compared"),
dict(id="S05-first-of-nothing", property="S05",
 edits=[(V, "        for ix, series in getattr(df, method)():\n            series = series if dropna is False else series.dropna()\n",
  "        for ix, series in getattr(df, method)():\n            if len(series) == 0:\n                constant_indices.loc[ix] = True\n                continue\n            series = series.dropna() if dropna else series\n"),
  (V, "            if (len(series) == 0) or (\n                (series == series.iloc[0]).fillna(False).all()\n            ):\n", "            if (series == series.iloc[0]).fillna(False).all():\n")],
 demo=PV + """
df = pd.DataFrame({"a": [1, 1], "b": [2, 3]})
assert list(extract_constants(df, to_dict=False)[0].columns) == ["a"]
df = pd.DataFrame({"a": [1, 1], "b": [2, 3], "c": [None, None]})
assert list(extract_constants(df, to_dict=False)[0].columns) == ["a", "c"]
""", needs="a column without any value", what="extracting constants fails with IndexError"),
dict(id="R05-raise-early", property="R05",
 edits=[(R, "            return head[:endmatch.span()[1]].decode()\n    if raise_for_failure:\n        raise ValueError(\"couldn't find a label ending\")\n",
  "            return head[:endmatch.span()[1]].decode()\n        elif raise_for_failure:\n            raise ValueError(\"couldn't find a label ending\")\n")],
 demo=PR + """
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "a.lbl")
    open(fn, "wb").write(b"A = 1\\r\\n" + bytes(8) + b"data")
    assert trim_label(fn) == "A = 1\\r\\n" + chr(0) * 3
    assert trim_label(fn, raise_for_failure=True) == "A = 1\\r\\n" + chr(0) * 3
""", needs="a label that ends in null bytes and raise_for_failure=True", what="ValueError though the label has a known ending"),
dict(id="R05-last-ending", property="R05",
 edits=[(R, "    for ending in KNOWN_LABEL_ENDINGS:\n        if (endmatch := re.search(ending, head)) is not None:\n            return head[:endmatch.span()[1]].decode()\n    if raise_for_failure:\n        raise ValueError(\"couldn't find a label ending\")\n    return head.decode()\n",
  "    cut = None\n    for ending in KNOWN_LABEL_ENDINGS:\n        if (endmatch := re.search(ending, head)) is not None:\n            cut = endmatch.span()[1]\n    if cut is None and raise_for_failure:\n        raise ValueError(\"couldn't find a label ending\")\n    return head[:cut].decode()\n")],
 demo=PR + """
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "a.lbl")
    open(fn, "wb").write(b"A = 1\\r\\nEND\\r\\n")
    assert trim_label(fn) == "A = 1\\r\\nEND\\r\\n"
    open(fn, "wb").write(b"A = 1\\r\\nEND\\r\\ndata" + bytes(8))
    assert trim_label(fn) == "A = 1\\r\\nEND\\r\\n", trim_label(fn)
""", needs="a label with END followed by data with null bytes", what="data after END are returned as label text"),
dict(id="R05-cut-decoded", property="R05",
 edits=[(R, "            return head[:endmatch.span()[1]].decode()\n", "            return head.decode(errors=\"ignore\")[:endmatch.span()[1]]\n")],
 demo=PR + """
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "a.lbl")
    open(fn, "wb").write(b"A = 1\\r\\nEND\\r\\ndata")
    assert trim_label(fn) == "A = 1\\r\\nEND\\r\\n"
    open(fn, "wb").write("A = 5 \\u00b5m\\r\\nEND\\r\\ndata".encode())
    assert trim_label(fn) == "A = 5 \\u00b5m\\r\\nEND\\r\\n", trim_label(fn)
""", needs="a label with a character of several bytes before its ending", what="the text is cut too late, by offsets in bytes"),
dict(id="V05-junction-shared", property="V05",
 edits=[(V, "    keys2 = df2[columns].value_counts().index.to_list()\n    return getattr(set(keys1), set_method)(set(keys2))\n",
  "    keys2 = df2[columns].value_counts().index.to_list()\n    small, large = sorted((set(keys1), set(keys2)), key=len)\n    return getattr(large, set_method)(small)\n")],
 demo=PV + """
a = pd.DataFrame({"k": [1, 2, 3]}); b = pd.DataFrame({"k": [3, 4]})
assert junction(a, b, ["k"]) == {(1,), (2,)}
assert junction(b, a, ["k"]) == {(4,)}, junction(b, a, ["k"])
""", needs="a first frame with fewer keys than the second", what="the difference is taken the other way round"),
dict(id="V05-unpack-labels", property="V05",
 edits=[(V, "    df = pd.DataFrame(dropped.tolist(), index=dropped.index)\n", "    df = pd.DataFrame(dropped.tolist(), index=series.index[:len(dropped)])\n")],
 demo=PV + """
s = pd.Series([[1, 2], [3, 4]], index=["a", "b"], name="q")
assert unpack(s).loc["b"].tolist() == [3, 4]
s = pd.Series([[1, 2], None, [3, 4]], index=["a", "b", "c"], name="q")
assert unpack(s).index.tolist() == ["a", "c"], unpack(s)
""", needs="a missing value before the last row", what="unpacked values are labelled with other rows' labels"),
dict(id="V05-unpack-positions", property="V05",
 edits=[(V, "    df = pd.DataFrame(dropped.tolist(), index=dropped.index)\n", "    df = pd.DataFrame(dropped.tolist())\n")],
 demo=PV + """
df = pd.DataFrame({"q": [[1, 2], [3, 4]], "r": [5, 6]})
assert unpack_column(df, "q")["q_1"].tolist() == [2, 4]
df.index = [1, 0]
assert unpack_column(df, "q")["q_1"].tolist() == [2, 4], unpack_column(df, "q")
""", needs="a frame with labels other than the row numbers", what="unpacked values land in other rows"),
dict(id="V05-smash-any", property="V05",
 edits=[(V, "        df = df.loc[df[by].isin(values).all(axis=1)]\n", "        df = df.loc[df[by].isin(values).any(axis=1)]\n")],
 demo=PV + """
df = pd.DataFrame({"a": ["x", "y"], "v": [1, 2]})
assert smash(df, "a", ["x"]).to_dict() == {"x_v": 1}
df = pd.DataFrame({"a": ["x", "y"], "b": ["x", "x"], "v": [1, 2]})
assert smash(df, ["a", "b"], ["x"]).to_dict() == {"x_x_v": 1}, smash(df, ["a", "b"], ["x"])
""", needs="several key columns and requested values", what="rows stay in which only one key has a requested value"),
dict(id="V05-squeeze-last", property="V05",
 edits=[(V, "            return series.loc[~series.index.duplicated()]\n", "            return series[~series.index.duplicated(keep=\"last\" if series.index.has_duplicates and series.index.is_monotonic_increasing is False else \"first\")]\n")],
 demo=PV + """
s = pd.Series([1, 2, 3], index=["a", "a", "b"])
assert squeeze(s).to_dict() == {"a": 1, "b": 3}
s = pd.Series([1, 2, 3], index=["b", "a", "b"])
assert squeeze(s).to_dict() == {"b": 1, "a": 2}, squeeze(s)
""", needs="repeated labels that are not sorted", what="the last value of a label is kept instead of the first"),
dict(id="V05-pdstr-options", property="V05",
 edits=[(V, "        return method(*str_args, **str_kwargs)\n", "        return method(*str_args, **str_kwargs) if not str_args else method(*str_args)\n")],
 demo=PV + """
s = pd.Series(["a.b", "ab"])
assert pdstr("upper")(s).tolist() == ["A.B", "AB"]
assert pdstr("contains", "a.b", regex=False)(s).tolist() == [True, False]
assert pdstr("contains", "A.B", case=False)(s).tolist() == [True, False], pdstr("contains", "A.B", case=False)(s)
""", needs="both arguments and options", what="the options are dropped"),
]
