"""C16: bugs and behaviour-preserving edits of Notepad.dump, GridPaper.dump, get_raw and fetch_block_bytes"""
I = "codex/implements.py"
U = "codex/memutilz.py"
ND = '''            fn = f"{self.prefix}_{key}".replace(".", "_")
        # a missing key must not cost an existing file its contents
        raw = self.get_raw(key)
        with open(fn, mode) as file:
            # noinspection PyTypeChecker
            file.write(raw)
'''
NAME = '''            fn = f"{self.prefix}_{key}".replace(".", "_")
'''
NB = ND[len(NAME):]
GD = '''            fn = f"{self.prefix}_{key}".replace(".", "_")
        self[key].tofile(fn)
'''
RAW = '''        return fetch_block_bytes(self.address(key))
'''
FB = '''    return block.buf.tobytes()
'''
P = "C16"
BUGS = [
 ("n1", P, I, 'def dump(self, key, fn=None, mode="wb"):', 'def dump(self, key, fn=None, mode="ab"):'),
 ("n2", P, I, 'def dump(self, key, fn=None, mode="wb"):', 'def dump(self, key, fn=None, mode="r+b"):'),
 ("n3", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', 'f"{self.prefix}".replace(".", "_")')),
 ("n4", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', 'f"{key}".replace(".", "_")')),
 ("n5", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', 'f"{self.prefix}_{key}"')),
 ("n6", P, I, ND, ND.replace("file.write(raw)", "pickle.dump(self[key], file)"), (I, "import atexit\n", "import atexit\nimport pickle\n")),
 ("n7", P, I, ND, ND.replace("file.write(raw)", "file.write(str(self[key]).encode())")),
 ("n8", P, I, ND, ND.replace("file.write(raw)", "file.write(raw[:-1])")),
 ("n9", P, I, ND, ND.replace("file.write(raw)", "file.write(raw.rstrip(bytes(1)))")),
 ("n10", P, I, ND, NAME + '''        with open(fn, mode) as file:
            file.write(self.get_raw(key))
'''),
 ("n11", P, I, ND, NAME + '''        if not self.index.check(key):
            return
''' + NB),
 ("n12", P, I, ND, NAME + NB.replace("open(fn, mode)", 'open(f"{self.prefix}_{key}", mode)')),
 ("n13", P, I, ND, ND + "        del self[key]\n"),
 ("n14", P, I, ND, NAME + '''        try:
            raw = self.get_raw(key)
        except FileNotFoundError:
            return
        with open(fn, mode) as file:
            file.write(raw)
'''),
 ("n15", P, I, ND, NAME + '''        try:
            raw = self.get_raw(key)
        except FileNotFoundError:
            raw = b""
        with open(fn, mode) as file:
            file.write(raw)
'''),
 ("g1", P, I, GD, GD.replace("tofile(fn)", 'tofile(fn, sep=",")')),
 ("g2", P, I, GD, GD.replace("self[key].tofile(fn)", "np.save(fn, self[key])")),
 ("g3", P, I, GD, GD.replace("self[key].tofile(fn)", "self[key].ravel()[:-1].tofile(fn)")),
 ("g4", P, I, GD, GD.replace("self[key].tofile(fn)", 'self[key].astype("f4").tofile(fn)')),
 ("g5", P, I, GD, GD.replace("self[key].tofile(fn)", 'self[key].tofile(f"{self.prefix}_{key}")')),
 ("g6", P, I, GD, GD.replace("_{key}", "")),
 ("g7", P, I, GD, GD.replace("self[key].tofile(fn)", "self[key].T.tofile(fn)")),
 ("g8", P, I, GD, GD + "        del self[key]\n"),
 ("r1", P, I, RAW, "        return fetch_block_bytes(key)\n"),
 ("r2", P, I, RAW, "        return fetch_block_bytes(self.index.hash_address(key))\n"),
 ("r3", P, U, FB, "    return block.buf.tobytes()[:-1]\n"),
 ("r4", P, U, FB, '    return block.buf.tobytes().rstrip(b"\\x00")\n'),
 ("r5", P, U, FB, "    return block.buf[:4096].tobytes()\n"),
]
SAME = [
 ("n1", P, I, ND, NAME + '''        raw = self.get_raw(key)
        file = open(fn, mode)
        try:
            file.write(raw)
        finally:
            file.close()
'''),
 ("n2", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', 'self.address(key).replace(".", "_")')),
 ("n3", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', '"_".join((self.prefix, str(key))).replace(".", "_")')),
 ("n4", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', '"_".join(f"{self.prefix}_{key}".split("."))')),
 ("n5", P, I, ND, ND.replace("self.get_raw(key)", "fetch_block_bytes(self.address(key))")),
 ("n6", P, I, ND, NAME + '''        from pathlib import Path
        with Path(fn).open(mode) as file:
            file.write(self.get_raw(key))
'''.replace("        with Path", "        raw = self.get_raw(key)\n        with Path").replace("file.write(self.get_raw(key))", "file.write(raw)")),
 ("n7", P, I, '''        if fn is None:
''' + ND, '''        raw = self.get_raw(key)
        fn = self._dump_name(key) if fn is None else fn
        with open(fn, mode) as file:
            file.write(raw)

    def _dump_name(self, key):
        return f"{self.prefix}_{key}".replace(".", "_")
'''),
 ("n8", P, I, ND, ND.replace("file.write(raw)", "file.write(memoryview(raw))")),
 ("n9", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', 'f"{self.prefix}_{key}".translate(str.maketrans(".", "_"))')),
 ("n10", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', '(self.prefix + "_" + str(key)).replace(".", "_")')),
 ("n11", P, I, ND, ND.replace('f"{self.prefix}_{key}".replace(".", "_")', 're.sub(r"\\.", "_", f"{self.prefix}_{key}")'), (I, "import atexit\n", "import atexit\nimport re\n")),
 ("n12", P, I, ND, NAME + '''        raw = self.get_raw(key)
        with open(file=fn, mode=mode) as file:
            file.write(raw)
'''),
 ("n13", P, I, ND, NAME + '''        if not exists_block(self.address(key)):
            raise KeyError(key)
        with open(fn, mode) as file:
            file.write(self.get_raw(key))
'''),
 ("n14", P, I, ND, NAME + '''        try:
            raw = self.get_raw(key)
        except FileNotFoundError:
            raise KeyError(f"{key} not found in this object's space.")
        with open(fn, mode) as file:
            file.write(raw)
'''),
 ("g1", P, I, GD, GD.replace("self[key].tofile(fn)", "array = self.__getitem__(key, copy=False)\n        array.tofile(fn)")),
 ("g2", P, I, GD, GD.replace("self[key].tofile(fn)", 'raw = self.get_raw(key)\n        with open(fn, "wb") as file:\n            file.write(raw)')),
 ("g3", P, I, GD, GD.replace("self[key].tofile(fn)", 'content = self[key].tobytes()\n        with open(fn, "wb") as file:\n            file.write(content)')),
 ("g4", P, I, GD, GD.replace("self[key].tofile(fn)", 'array = self[key]\n        with open(fn, "wb") as file:\n            array.tofile(file)')),
 ("g5", P, I, GD, GD.replace('f"{self.prefix}_{key}".replace(".", "_")', 'self.address(key).replace(".", "_")')),
 ("g6", P, I, '''        if fn is None:
''' + GD, '''        array = self[key]
        array.tofile(f"{self.prefix}_{key}".replace(".", "_") if fn is None else fn)
'''),
 ("r1", P, I, RAW, "        address = self.address(key)\n        raw = fetch_block_bytes(address)\n        return raw\n"),
 ("r2", P, U, FB, "    return bytes(block.buf)\n"),
 ("r3", P, U, FB, "    return block.buf[:].tobytes()\n"),
 ("r4", P, U, FB, "    return block.buf[:block.size].tobytes()\n"),
]
