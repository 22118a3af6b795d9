"""R01-R04: bugs and behaviour-preserving edits of scrape, mosaic's files and dumps"""
S = "scrape.py"
LBL = '''    with open(label, "rb") as file:
        return file.read(byte_size).decode()
'''
HEAD = '''    head_buffer = BytesIO()
    if not hasattr(fn_or_reader, "read"):
        fn_or_reader = open(fn_or_reader, 'rb')
    try:
        head_buffer.write(fn_or_reader.read(nbytes))
    finally:
        fn_or_reader.close()
    head_buffer.seek(0)
    return head_buffer
'''
SCR = '''        result = re.search(pattern, label_text)
        if result is None:
            return None
        try:
            return literal_eval(result.group(1))
        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
            return result.group(1)
'''
PAT = '''    metadata = {
        field: scrape(pattern) for field, pattern in metadata_regex.items()
    }
'''
SUP = '''    if supplemental_search_function is not None:
        metadata |= supplemental_search_function(label, label_text)
    return metadata
'''
TRK = '''        with self.outpath.open(mode) as stream:
            if mode == "rb+":
                stream.seek(-1, SEEK_END)
                stream.write(b",\\n")
            else:
                stream.write(b"[")
            stream.write(blob)
            stream.write(b"]")
'''
DUMP = '''        with open(fn, mode) as file:
            # noinspection PyTypeChecker
            file.write(self.get_raw(key))
'''
FIN = '''    finally:
        sort_reader.close()
        if sort_writer is not None:
            sort_writer.close()'''
I = "codex/implements.py"
C = "codex/codecs.py"
LOG = '''    try:
        with open("../holding/dumplog.csv", "a+") as file:
            file.write(message + "\\n")
    except OSError:
        pass
'''
OPEN2 = '''    sort_reader, sort_writer = parquet.ParquetFile(input_file), None
    try:
        if schema is None:
            schema = sort_reader.read_row_group(0).schema
        sort_writer = parquet.ParquetWriter(
            output_file, version=version, schema=schema, **open_kwargs
        )
'''
BUGS = [
    # R01
    ("a1", "R01", S, LBL, '''    file = open(label, "rb")
    text = file.read(byte_size).decode()
    file.close()
    return text
'''),
    ("a2", "R01", S, HEAD, HEAD.replace("    try:\n        head_buffer.write(fn_or_reader.read(nbytes))\n    finally:\n        fn_or_reader.close()", "    head_buffer.write(fn_or_reader.read(nbytes))\n    fn_or_reader.close()")),
    ("a3", "R01", S, HEAD, HEAD.replace("finally:\n        fn_or_reader.close()", "except OSError:\n        fn_or_reader.close()\n        raise\n    else:\n        fn_or_reader.close()")),
    ("a4", "R01", "mosaic.py", FIN, FIN.replace("        sort_reader.close()\n", "")),
    ("a5", "R01", "mosaic.py", FIN, FIN.replace("        if sort_writer is not None:\n            sort_writer.close()", "        del sort_writer")),
    ("a6", "R01", "mosaic.py", OPEN2, OPEN2.replace("    sort_reader, sort_writer = parquet.ParquetFile(input_file), None\n    try:\n        if schema is None:\n            schema = sort_reader.read_row_group(0).schema\n", "    sort_reader, sort_writer = parquet.ParquetFile(input_file), None\n    if schema is None:\n        schema = sort_reader.read_row_group(0).schema\n    try:\n")),
    ("a7", "R01", "mosaic.py", OPEN2, OPEN2.replace("schema = sort_reader.read_row_group(0).schema", "schema = parquet.ParquetFile(input_file).read_row_group(0).schema")),
    ("a8", "R01", "tracker.py", TRK, '''        stream = self.outpath.open(mode)
        if mode == "rb+":
            stream.seek(-1, SEEK_END)
            stream.write(b",\\n")
        else:
            stream.write(b"[")
        stream.write(blob)
        stream.write(b"]")
        stream.close()
'''),
    ("a9", "R01", I, DUMP, '''        file = open(fn, mode)
        file.write(self.get_raw(key))
        file.close()
'''),
    ("a10", "R01", I, LOG, '''    try:
        file = open("../holding/dumplog.csv", "a+")
        file.write(message + "\\n")
        file.close()
    except OSError:
        pass
'''),
    ("a11", "R01", "mosaic.py", FIN, '''    except (OSError, ValueError, TypeError):
        sort_reader.close()
        if sort_writer is not None:
            sort_writer.close()
        raise
    sort_reader.close()
    sort_writer.close()'''),
    ("a12", "R01", "mosaic.py", FIN, FIN.replace("if sort_writer is not None:", "if sort_writer is not None and schema is None:")),
    ("a13", "R01", S, HEAD, HEAD.replace("finally:\n        fn_or_reader.close()", "finally:\n        if nbytes > 0:\n            fn_or_reader.close()")),
    ("a14", "R01", I, DUMP, '''        file = open(fn, mode)
        raw = self.get_raw(key)
        with file:
            file.write(raw)
'''),
    ("a15", "R01", S, "    head = head_file(fn, max_size).read()\n", "    head = open(fn, 'rb').read(max_size)\n"),
    ("a16", "R01", "mosaic.py", "    meta = parquet.read_metadata(parquet_fn)\n", "    meta = parquet.ParquetFile(parquet_fn).metadata\n"),
    # R02
    ("b1", "R02", S, "file.read(byte_size).decode()", "file.read().decode()[:byte_size]"),
    ("b2", "R02", S, LBL, "    return label.read_text()[:byte_size]\n"),
    ("b3", "R02", S, "head_buffer.write(fn_or_reader.read(nbytes))", "head_buffer.write(fn_or_reader.read()[:nbytes])"),
    ("b4", "R02", S, 'with open(label, "rb") as file:\n        return file.read(byte_size).decode()', 'with open(label, "r") as file:\n        return file.read(byte_size)'),
    ("b5", "R02", S, "    head = head_file(fn, max_size).read()\n", "    head = head_file(fn, MAX_LABEL_SIZE).read()\n"),
    ("b6", "R02", S, "    head = head_file(fn, max_size).read()\n", "    head = head_file(fn, -1).read()\n"),
    ("b7", "R02", S, "    head = head_file(fn, max_size).read()\n", "    with open(fn, 'rb') as file:\n        head = b''.join(file)[:max_size]\n"),
    ("b8", "R02", S, "file.read(byte_size).decode()", "(file.read(byte_size) + file.read(byte_size)).decode()"),
    ("b9", "R02", S, "head_buffer.write(fn_or_reader.read(nbytes))", "head_buffer.write(fn_or_reader.read(nbytes))\n        head_buffer.write(fn_or_reader.read(nbytes))"),
    ("b10", "R02", S, "        return file.read(byte_size).decode()", "        return file.read(byte_size * 2).decode()"),
    ("b11", "R02", S, "label: Union[Path, str], byte_size: int = 35592) -> str", "label: Union[Path, str], byte_size: Optional[int] = None) -> str"),
    ("b12", "R02", S, "    head_buffer.seek(0)\n", ""),
    ("b13", "R02", S, "max_size = MAX_LABEL_SIZE, raise", "max_size = -1, raise"),
    ("b14", "R02", S, "    try:\n        head_buffer.write", "    fn_or_reader.seek(0, 2)\n    try:\n        head_buffer.write"),
    ("b15", "R02", S, "    return make_scraper(cached_label_loader(label))(pattern)", "    return make_scraper(Path(label).read_text())(pattern)"),
    ("b16", "R02", S, "    head_buffer.seek(0)\n", "    head_buffer.seek(0, 2)\n"),
    ("b17", "R02", S, LBL, '''    with open(label, "rb") as file:
        lines = file.readlines(byte_size)
    return b"".join(lines).decode()
'''),
    # R03
    ("c1", "R03", S, "return literal_eval(result.group(1))", "return eval(result.group(1))"),
    ("c2", "R03", S, "    return literal_eval(\n        \",\"", "    return eval(\n        \",\""),
    ("c3", "R03", C, "return ast.literal_eval(blob.decode())", "return eval(blob.decode(), {})"),
    ("c4", "R03", C, "        return json.loads(blob)", "        try:\n            return json.loads(blob)\n        except ValueError:\n            return pickle.loads(blob)"),
    ("c5", "R03", C, "        return json.loads(blob)", "        try:\n            return json.loads(blob)\n        except ValueError:\n            return pickle_codec_factory()[1](blob)"),
    ("c6", "R03", C, "        return ast.literal_eval(blob.decode())", "        return eval(compile(blob.decode(), '', 'eval'))"),
    ("c7", "R03", S, "from ast import literal_eval\n", "literal_eval = eval\n"),
    ("c8", "R03", S, "from ast import literal_eval\n", "import builtins\nliteral_eval = getattr(builtins, 'eval')\n"),
    ("c9", "R03", S, "from ast import literal_eval\n", "from pandas import eval as literal_eval\n"),
    ("c10", "R03", I, '"""', '"""', ),
    ("c11", "R03", S, "        return file.read(byte_size).decode()", "        import pickle\n        return pickle.load(file)"),
    ("c12", "R03", C, "import pickle\n", "import pickle\nfrom pickle import loads as unpack\n", (C, "        return json.loads(blob)", "        return json.loads(blob) if blob[:1] != b'\\x80' else unpack(blob)")),
    ("c13", "R03", S, "cached_ls = cache(os.listdir)", "cached_ls = cache(lambda d: os.popen(f'ls {d}').read().split())"),
    ("c14", "R03", S, "cached_ls = cache(os.listdir)", "import subprocess\ncached_ls = cache(lambda d: subprocess.check_output(f'ls {d}', shell=True).split())"),
    # R04
    ("d1", "R04", S, "(ValueError, SyntaxError, TypeError, MemoryError, RecursionError)", "(ValueError, SyntaxError)"),
    ("d2", "R04", S, "(ValueError, SyntaxError, TypeError, MemoryError, RecursionError)", "(ValueError, SyntaxError, TypeError)"),
    ("d3", "R04", S, "RecursionError):\n            return result.group(1)", "RecursionError):\n            return None"),
    ("d4", "R04", S, "RecursionError):\n            return result.group(1)", "RecursionError):\n            return result.group(0)"),
    ("d5", "R04", S, "        if result is None:\n            return None\n", ""),
    ("d6", "R04", S, "re.search(pattern, label_text)", "re.match(pattern, label_text)"),
    ("d7", "R04", S, "literal_eval(result.group(1))", "literal_eval(result.group())"),
    ("d8", "R04", S, "re.search(pattern, label_text)", "re.search(pattern, label_text, re.MULTILINE)"),
    ("d9", "R04", S, PAT, PAT.replace("field: scrape(pattern)", "field: value").replace("metadata_regex.items()\n", "metadata_regex.items()\n        if (value := scrape(pattern)) is not None\n")),
    ("d10", "R04", S, "metadata |= supplemental_search_function(label, label_text)", "metadata = supplemental_search_function(label, label_text) | metadata"),
    ("d11", "R04", S, "metadata |= supplemental_search_function(label, label_text)", "metadata = supplemental_search_function(label, label_text)"),
    ("d12", "R04", S, "supplemental_search_function(label, label_text)", "supplemental_search_function(label_text, label)"),
    ("d13", "R04", S, "field: scrape(pattern) for", "field: scrape(field) for"),
    ("d14", "R04", S, "        if result is None:\n            return None\n", "        if result is None:\n            return ''\n"),
    ("d15", "R04", S, "re.search(pattern, label_text)", "re.search(pattern, label_text[:35592])"),
    ("d16", "R04", S, "        metaframe.append(pattern_scraper(file))\n", "        if (meta := pattern_scraper(file)) not in metaframe:\n            metaframe.append(meta)\n"),
    ("d17", "R04", S, SUP, SUP.replace("        metadata |= supplemental_search_function(label, label_text)", "        for k, v in supplemental_search_function(label, label_text).items():\n            metadata.setdefault(k, v)")),
    ("d18", "R04", S, SCR, SCR.replace("literal_eval(result.group(1))", "literal_eval(result.group(1)) or None")),
    ("d19", "R04", S, "        if result is None:\n            return None\n", "        if result is None or not result.group(1):\n            return None\n"),
    ("d20", "R04", S, "literal_eval(result.group(1))\n", "literal_eval(result.groups()[-1])\n"),
    ("d21", "R04", S, "RecursionError):\n            return result.group(1)", "RecursionError):\n            return result.group(1).strip()"),
]
BUGS = [b for b in BUGS if b[0] not in ("c10",)]
BUGS += [("c15", "R03", S, "from ast import literal_eval\n", "import ast\n\n\ndef literal_eval(text):\n    try:\n        return ast.literal_eval(text)\n    except ValueError:\n        return __import__('builtins').eval(text, {'__builtins__': {}})\n")]
SAME = [
    ("s1", ["R01", "R02"], S, LBL, '''    file = open(label, "rb")
    try:
        return file.read(byte_size).decode()
    finally:
        file.close()
'''),
    ("s2", ["R01", "R02"], S, LBL, '''    with open(label, mode="rb") as stream:
        blob = stream.read(byte_size)
    return blob.decode()
'''),
    ("s3", ["R01", "R02"], S, LBL, '''    with label.open("rb") as stream:
        blob = stream.read(byte_size)
    return blob.decode("utf-8")
'''),
    ("s4", ["R01", "R02"], S, HEAD, '''    opened = not hasattr(fn_or_reader, "read")
    reader = open(fn_or_reader, "rb") if opened else fn_or_reader
    with reader:
        head = reader.read(nbytes)
    return BytesIO(head)
'''),
    ("s5", ["R01", "R02"], S, HEAD, '''    if hasattr(fn_or_reader, "read"):
        reader = fn_or_reader
    else:
        reader = open(fn_or_reader, "rb")
    try:
        head = reader.read(nbytes)
    finally:
        reader.close()
    return BytesIO(head)
'''),
    ("s6", ["R01", "R02"], S, HEAD, HEAD.replace("        fn_or_reader = open(fn_or_reader, 'rb')", "        fn_or_reader = _reader(fn_or_reader)"), (S, "def head_file(", "def _reader(fn):\n    return open(fn, 'rb')\n\n\ndef head_file(")),
    ("s7", ["R01"], "mosaic.py", FIN, '''    except BaseException:
        sort_reader.close()
        if sort_writer is not None:
            sort_writer.close()
        raise
    else:
        sort_reader.close()
        sort_writer.close()'''),
    ("s8", ["R01"], "mosaic.py", FIN, '''    finally:
        if sort_writer is not None:
            sort_writer.close()
        sort_reader.close()'''),
    ("s9", ["R01"], "mosaic.py", FIN, '''    finally:
        for resource in (sort_reader, sort_writer):
            if resource is not None:
                resource.close()'''),
    ("s10", ["R01"], "tracker.py", TRK, '''        stream = self.outpath.open(mode)
        try:
            if mode == "rb+":
                stream.seek(-1, SEEK_END)
                stream.write(b",\\n")
            else:
                stream.write(b"[")
            stream.write(blob)
            stream.write(b"]")
        finally:
            stream.close()
'''),
    ("s11", ["R01"], I, DUMP, '''        raw = self.get_raw(key)
        with open(fn, mode) as file:
            file.write(raw)
'''),
    ("s12", ["R01"], I, DUMP, "        Path(fn).write_bytes(self.get_raw(key))\n"),
    ("s13", ["R01"], I, LOG, '''    try:
        file = open("../holding/dumplog.csv", "a+")
    except OSError:
        return
    try:
        file.write(message + "\\n")
    except OSError:
        pass
    finally:
        file.close()
'''),
    ("s14", ["R01"], "mosaic.py", OPEN2, '''    sort_reader = parquet.ParquetFile(input_file)
    sort_writer = None
    try:
        writer_schema = schema
        if writer_schema is None:
            writer_schema = sort_reader.read_row_group(0).schema
        sort_writer = parquet.ParquetWriter(
            output_file, writer_schema, version=version, **open_kwargs
        )
'''),
    ("s15", ["R01"], "mosaic.py", "    meta = parquet.read_metadata(parquet_fn)\n", "    with parquet.ParquetFile(parquet_fn) as reader:\n        meta = reader.metadata\n"),
    ("s16", ["R02", "R01"], S, "    head = head_file(fn, max_size).read()\n", "    head = head_file(fn, nbytes=max_size).getvalue()\n"),
    ("s17", ["R02"], S, "file.read(byte_size).decode()", "str(file.read(byte_size), 'utf-8')"),
    ("s18", ["R04", "R03"], S, SCR, '''        if (found := re.search(pattern, label_text)) is None:
            return None
        field = found.group(1)
        try:
            return literal_eval(field)
        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
            return field
'''),
    ("s19", ["R04", "R03"], S, SCR, '''        found = re.compile(pattern).search(label_text)
        if not found:
            return None
        field = found[1]
        try:
            value = literal_eval(field)
        except Exception:
            value = field
        return value
'''),
    ("s20", ["R04", "R03"], S, SCR, '''        result = re.search(pattern, label_text)
        if result is not None:
            return _parse(result.group(1))
        return None
''', (S, "def make_scraper(", '''def _parse(text):
    try:
        return literal_eval(text)
    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
        return text


def make_scraper(''')),
    ("s21", ["R04"], S, PAT, '''    metadata = {}
    for field, pattern in metadata_regex.items():
        metadata[field] = scrape(pattern)
'''),
    ("s22", ["R04"], S, PAT, '''    metadata = {
        field: scrape(metadata_regex[field]) for field in metadata_regex
    }
'''),
    ("s23", ["R04"], S, SUP, '''    if supplemental_search_function is None:
        return metadata
    return metadata | supplemental_search_function(label, label_text)
'''),
    ("s24", ["R04"], S, SUP, '''    if supplemental_search_function is not None:
        metadata.update(supplemental_search_function(label, label_text))
    return metadata
'''),
    ("s25", ["R04"], S, '''    metaframe = []
    for file in files:
        metaframe.append(pattern_scraper(file))
    return metaframe
''', "    return [pattern_scraper(file) for file in files]\n"),
    ("s26", ["R04"], S, '''    metaframe = []
    for file in files:
        metaframe.append(pattern_scraper(file))
    return metaframe
''', "    return list(map(pattern_scraper, files))\n"),
    ("s27", ["R03", "R04"], S, "from ast import literal_eval\n", "import ast\n", (S, "return literal_eval(result.group(1))", "return ast.literal_eval(result.group(1))"), (S, "    return literal_eval(\n", "    return ast.literal_eval(\n")),
    ("s28", ["R03"], C, "import pickle\n", "import pickle as pkl\n", (C, "pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)", "pkl.dumps(value, protocol=pkl.HIGHEST_PROTOCOL)"), (C, "return pickle.loads(blob)", "return pkl.loads(blob)")),
    ("s29", ["R03"], C, "        return pickle.loads(blob)\n\n    return encode, decode", "        return pickle.loads(blob)\n\n    return encode, pickle.loads"),
    ("s30", ["R04"], S, "    # little closure for neatness\n    scrape = make_scraper(label_text)\n", "    scrape = make_scraper(label_text=label_text)\n"),
    ("s31", ["R04"], S, PAT, '''    fields = list(metadata_regex)
    values = [scrape(metadata_regex[f]) for f in fields]
    metadata = dict(zip(fields, values))
'''),
    ("s32", ["R01", "R02"], S, HEAD, '''    if hasattr(fn_or_reader, "read"):
        try:
            head = fn_or_reader.read(nbytes)
        finally:
            fn_or_reader.close()
    else:
        with open(fn_or_reader, "rb") as reader:
            head = reader.read(nbytes)
    head_buffer = BytesIO()
    head_buffer.write(head)
    head_buffer.seek(0)
    return head_buffer
'''),
]
TRIM = '''    for ending in KNOWN_LABEL_ENDINGS:
        if (endmatch := re.search(ending, head)) is not None:
            return head[:endmatch.span()[1]].decode()
    if raise_for_failure:
        raise ValueError("couldn't find a label ending")
    return head.decode()
'''
BUGS += [
 ("e1", "R05", S, TRIM, TRIM.replace("span()[1]", "span()[0]")),
 ("e2", "R05", S, TRIM, TRIM.replace("if raise_for_failure", "if not raise_for_failure")),
 ("e3", "R05", S, TRIM, TRIM.replace("head[:endmatch.span()[1]].decode()", "head.decode()[:endmatch.end()]")),
 ("e4", "R05", S, TRIM, TRIM.replace("head[:endmatch.span()[1]].decode()", "head[:endmatch.end() - 2].decode()")),
 ("e5", "R05", S, TRIM, TRIM.replace("in KNOWN_LABEL_ENDINGS", "in reversed(KNOWN_LABEL_ENDINGS)")),
 ("e6", "R05", S, TRIM, TRIM.replace("in KNOWN_LABEL_ENDINGS", "in KNOWN_LABEL_ENDINGS[:1]")),
 ("e7", "R05", S, TRIM, TRIM.replace("head[:endmatch.span()[1]].decode()", "head[:endmatch.end()]")),
 ("e8", "R05", S, TRIM, TRIM.replace("re.search", "re.match")),
 ("e9", "R05", S, TRIM, TRIM.replace("    if raise_for_failure:", "        if raise_for_failure:").replace("        raise Val", "            raise Val")),
 ("e10", "R05", S, TRIM, '''    cut = len(head)
    for ending in KNOWN_LABEL_ENDINGS:
        if (endmatch := re.search(ending, head)) is not None:
            cut = endmatch.end()
    if cut == len(head) and raise_for_failure:
        raise ValueError("couldn't find a label ending")
    return head[:cut].decode()
'''),
 ("e11", "R05", S, "    b'\\x00{3}',", "    b'\\x00',"),
 ("e12", "R05", S, "    b'END\\r\\n',", "    b'END$',"),
]
SAME += [
 ("e1", "R05", S, TRIM, TRIM.replace("endmatch.span()[1]", "endmatch.end()")),
 ("e2", "R05", S, TRIM, '''    endmatch = None
    for ending in KNOWN_LABEL_ENDINGS:
        endmatch = re.search(ending, head)
        if endmatch:
            break
    if endmatch is None:
        if raise_for_failure is True:
            raise ValueError("couldn't find a label ending")
        return head.decode()
    _, end = endmatch.span()
    return head[:end].decode()
'''),
 ("e3", "R05", S, TRIM, '''    matches = (re.search(ending, head) for ending in KNOWN_LABEL_ENDINGS)
    endmatch = next((m for m in matches if m is not None), None)
    if endmatch is not None:
        return head[:endmatch.end()].decode()
    if not raise_for_failure:
        return head.decode()
    raise ValueError("couldn't find a label ending")
'''),
 ("e4", "R05", S, TRIM, '''    for ending in KNOWN_LABEL_ENDINGS:
        endmatch = re.compile(ending).search(head)
        if endmatch is None:
            continue
        head = head[0:endmatch.end(0)]
        break
    else:
        if raise_for_failure:
            raise ValueError("couldn't find a label ending")
    return head.decode()
'''),
 ("e5", "R05", S, TRIM, '''    end = None
    for ending in KNOWN_LABEL_ENDINGS:
        if end is None and (endmatch := re.search(ending, head)):
            end = endmatch.end()
    if end is None and raise_for_failure:
        raise ValueError("couldn't find a label ending")
    return head[:end].decode()
'''),
 ("e6", "R05", S, TRIM, '''    for ending in KNOWN_LABEL_ENDINGS:
        for endmatch in re.finditer(ending, head):
            return head[:endmatch.end()].decode()
    if raise_for_failure:
        raise ValueError("couldn't find a label ending")
    return head.decode()
'''),
 ("e7", "R05", S, TRIM, '''    found = [m for m in (re.search(e, head) for e in KNOWN_LABEL_ENDINGS) if m]
    if found:
        head = head[:found[0].end()]
    elif raise_for_failure:
        raise ValueError("couldn't find a label ending")
    return head.decode()
'''),
 ("e8", "R05", S, TRIM, '''    for ending in map(re.compile, KNOWN_LABEL_ENDINGS):
        start, *rest = ending.split(head, maxsplit=1)
        if rest:
            return head[:len(head) - len(rest[0])].decode()
    if raise_for_failure:
        raise ValueError("couldn't find a label ending")
    return head.decode("utf-8")
'''),
 ("e9", "R05", S, "KNOWN_LABEL_ENDINGS = (\n    b'END\\r\\n',  # PVL\n    b'\\x00{3}',  # just null bytes\n)", "KNOWN_LABEL_ENDINGS = [\n    re.compile(rb'END\\r\\n'),\n    re.compile(b'\\x00\\x00\\x00'),\n]"),
]
