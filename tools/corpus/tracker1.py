F = "tracker.py"
REC = '''            | self.metadata
            | metadata
'''
BUGS = [
 ("t1a", "T01", F, "                stream.seek(-1, SEEK_END)\n                stream.write(b\",\\n\")", "                stream.seek(0, SEEK_END)\n                stream.write(b\",\\n\")"),
 ("t1b", "T01", F, "                stream.write(b\",\\n\")", "                stream.write(b\"\\n\")"),
 ("t1c", "T01", F, "            stream.write(b\"]\")", "            stream.write(b\"]\\n\")"),
 ("t1d", "T01", F, "        blob = json.dumps(self.log, indent=2).encode('utf-8')\n", "", (F, "            stream.write(blob)", "            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))")),
 ("t1e", "T01", F, "json.dumps(self.log, indent=2)", "json.dumps(self.history, indent=2)"),
 ("t1f", "T01", F, "mode = \"rb+\" if self.outpath.exists() else \"wb\"", "mode = \"rb+\" if len(self.history) > 1 else \"wb\""),
 ("t1g", "T01", F, "        self.log = {k: self.log[k] for k in key_order}\n        blob = json.dumps(self.log", "        log = {k: self.log[k] for k in key_order[:-1]}\n        blob = json.dumps(log"),
 ("t1h", "T01", F, "            stream.write(b\"]\")", "        with self.outpath.open('ab') as stream:\n            stream.write(b\"]\")\n            stream.write(b\"]\")"),
 ("t1i", "T01", F, "        blob = json.dumps(self.log, indent=2).encode('utf-8')", "        try:\n            blob = json.dumps(self.log, indent=2).encode('utf-8')\n        except Exception:\n            return"),
 ("t1j", "T01", F, "stream.seek(-1, SEEK_END)", "stream.seek(-2, SEEK_END)"),
 ("t1k", "T01", F, "        with self.outpath.open(mode) as stream:\n            if mode == \"rb+\":\n                stream.seek(-1, SEEK_END)\n                stream.write(b\",\\n\")\n            else:\n                stream.write(b\"[\")\n            stream.write(blob)\n", "        with self.outpath.open(mode) as stream:\n            if mode == \"rb+\":\n                stream.seek(-1, SEEK_END)\n                stream.write(b\",\\n\")\n            else:\n                stream.write(b\"[\")\n                stream.write(blob)\n                stream.write(b\",\")\n            stream.write(blob)\n"),
 ("t1l", "T01", F, "            stream.write(blob)\n            stream.write(b\"]\")", "            stream.write(blob)\n            if mode == \"wb\":\n                stream.write(b\"]\")"),
 ("t1m", "T01", F, "key_order = sorted(self.log.keys(), key=lambda n: \"history\" in n)", "key_order = sorted(self.log.keys() - {'name'}, key=lambda n: \"history\" in n)"),
 ("t1n", "T01", F, "        mode = \"rb+\" if self.outpath.exists() else \"wb\"\n", "        mode = \"rb+\" if self.outpath.exists() else \"wb\"\n        self.outpath.touch()\n        mode = \"rb+\"\n"),
 ("t2a", "T02", F, "        self.history[:] = []", "        self.history = []"),
 ("t2b", "T02", F, REC, "            | metadata\n            | self.metadata\n"),
 ("t2c", "T02", F, "        self.counter = count(1)\n\n    def track", "\n    def track"),
 ("t2d", "T02", F, "        self.outpath.unlink(missing_ok=True)\n", "        self.outpath.unlink()\n"),
 ("t2e", "T02", F, "        self.outpath.unlink(missing_ok=True)\n", ""),
 ("t2f", "T02", F, "self.history, self.metadata, self.counter = [], {}, count(1)", "self.history, self.metadata, self.counter = [], {}, count(0)"),
 ("t2g", "T02", F, "\"trackcount\": next(self.counter)", "\"trackcount\": len(self.log) - 2"),
 ("t2h", "T02", F, "            \"history\": self.history,", "            \"history\": list(self.history),"),
 ("t2i", "T02", F, "        self.history.append(rec)", "        self.history.insert(0, rec)"),
 ("t2j", "T02", F, "        self.metadata |= metadata", "        self.metadata = metadata"),
 ("t2k", "T02", F, "        rec = (\n", "        self.metadata |= metadata\n        rec = (\n"),
 ("t2l", "T02", F, "        self.log = {k: self.log[k] for k in key_order}", "        self.log = {k: (list(self.log[k]) if k == 'history' else self.log[k]) for k in key_order}"),
 ("t2m", "T02", F, "        self.history[:] = []\n        self.counter = count(1)", "        self.history[:-1] = []\n        self.counter = count(1)"),
 ("t2n", "T02", F, "        self.history.append(rec)", "        if rec not in self.history:\n            self.history.append(rec)\n        self.counter = count(len(self.history))"),
 ("t2o", "T02", F, "        rec = (\n            {", "        rec = (self.metadata | metadata | \n            {", (F, REC, "")),
 ("t3a", "T03", F, "        if self.paused is True:\n            return\n", ""),
 ("t3b", "T03", F, "    def _set_paused(self, state: bool):\n        self._paused = state", "    def _set_paused(self, state: bool):\n        self._paused = self._paused or state"),
 ("t3c", "T03", F, "if self.paused is True:", "if self.paused is True and not self.outpath.exists():"),
 ("t3d", "T03", F, "        if self.paused is True:\n            return\n", "        if self.paused is True or len(self.history) == 0:\n            return\n"),
 ("t3e", "T03", F, "        if self.paused is True:\n            return\n", "        if self.paused is False:\n            return\n"),
 ("t3f", "T03", F, "    _paused = False", "    _paused = None"),
 ("t3g", "T03", F, "        if self.paused is True:\n            return\n", "        if self.paused is True:\n            self.outpath.unlink(missing_ok=True)\n            return\n"),
 ("t3h", "T03", F, "    def _set_paused(self, state: bool):\n        self._paused = state", "    def _set_paused(self, state: bool):\n        Tracker._paused = state"),
 ("t3i", "T03", F, "    def _set_paused(self, state: bool):\n        self._paused = state", "    def _set_paused(self, state: bool):\n        self._paused = not self._paused"),
 ("t4a", "T04", F, "    def set_metadata(self, **metadata):\n        pass\n\n    log", "    log"),
 ("t4b", "T04", F, "    def track(self, *_, **__):\n        pass", "    def track(self, *_):\n        pass"),
 ("t4c", "T04", F, "    def track(self, *_, **__):\n        pass", "    def track(self, func, **metadata):\n        return func"),
 ("t4d", "T04", F, "    def set_metadata(self, **metadata):\n        pass", "    def set_metadata(self, **metadata):\n        self.metadata |= metadata"),
 ("t4e", "T04", F, "    log = None\n    history = None", "    log = None\n    history = []"),
 ("t4f", "T04", F, "    def track(self, *_, **__):\n        pass", "    def track(self, *_, **__):\n        self.history = (self.history or []) + [_]"),
 ("t4g", "T04", F, "    def dump(self):\n        pass\n", "    def dump(self, outpath):\n        pass\n"),
 ("t4h", "T04", F, "    def clear(self):\n        pass\n", "    def clear(self):\n        raise NotImplementedError\n"),
 ("t4i", "T04", F, "    def set_metadata(self, **metadata):\n        self", "    def set_metadata(self, *, replace=False, **metadata):\n        if replace:\n            self.metadata = {}\n        self", (F, "    def set_metadata(self, **metadata):\n        pass", "    def set_metadata(self, name=None, level=None):\n        pass")),
]
SAME = [
 ("s1", ["T01", "T03"], F, '''        mode = "rb+" if self.outpath.exists() else "wb"
        with self.outpath.open(mode) as stream:
            if mode == "rb+":
                stream.seek(-1, SEEK_END)
                stream.write(b",\\n")
            else:
                stream.write(b"[")
            stream.write(blob)
            stream.write(b"]")
''', '''        if self.outpath.exists():
            self._append(blob)
        else:
            self.outpath.write_bytes(b"[" + blob + b"]")

    def _append(self, blob):
        with open(self.outpath, "rb+") as stream:
            stream.seek(-1, SEEK_END)
            stream.truncate()
            stream.write(b",\\n" + blob + b"]")
'''),
 ("s2", ["T01", "T03"], F, "        if self.paused is True:\n            return\n", "        if self.paused:\n            return None\n"),
 ("s3", ["T01"], F, '        mode = "rb+" if self.outpath.exists() else "wb"\n        with self.outpath.open(mode) as stream:\n            if mode == "rb+":\n                stream.seek(-1, SEEK_END)\n                stream.write(b",\\n")\n            else:\n                stream.write(b"[")\n            stream.write(blob)\n            stream.write(b"]")\n',
  '        appending = os.path.exists(self.outpath)\n        lead = b",\\n" if appending else b"["\n        with open(self.outpath, "rb+" if appending else "wb") as stream:\n            if appending:\n                stream.seek(-1, os.SEEK_END)\n            for piece in (lead, blob, b"]"):\n                stream.write(piece)\n'),
 ("s4", ["T02"], F, "        self.history[:] = []", "        self.history.clear()"),
 ("s5", ["T02"], F, "        self.history[:] = []", "        del self.history[:]"),
 ("s6", ["T02", "T01"], F, "        rec = (\n            {\n", "        rec = dict(\n            **{\n", (F, REC + "        )", "        )\n        rec.update(self.metadata)\n        rec.update(metadata)")),
 ("s7", ["T02"], F, "        self.outpath.unlink(missing_ok=True)\n", "        if self.outpath.exists():\n            self.outpath.unlink()\n"),
 ("s8", ["T02"], F, "        self.outpath.unlink(missing_ok=True)\n", "        try:\n            os.unlink(self.outpath)\n        except FileNotFoundError:\n            pass\n"),
 ("s9", ["T02", "T01"], F, "next(self.counter)", "self._next_count()", (F, "    def set_metadata(self, **metadata):\n        self", "    def _next_count(self):\n        self.counter += 1\n        return self.counter\n\n    def set_metadata(self, **metadata):\n        self"), (F, "[], {}, count(1)", "[], {}, 0"), (F, "self.counter = count(1)", "self.counter = 0")),
 ("s10", ["T01", "T02", "T03"], F, "        key_order = sorted(self.log.keys(), key=lambda n: \"history\" in n)\n        self.log = {k: self.log[k] for k in key_order}\n", "        self.log[\"history\"] = self.log.pop(\"history\")\n"),
 ("s11", ["T03", "T02"], F, "    def _get_paused(self):\n        return self._paused\n\n    def _set_paused(self, state: bool):\n        self._paused = state\n", "    @property\n    def paused(self):\n        return self._paused\n\n    @paused.setter\n    def paused(self, state: bool):\n        self._paused = state\n", (F, "    paused = property(_get_paused, _set_paused)\n", "")),
 ("s12", ["T04"], F, "    def set_metadata(self, **metadata):\n        pass\n", "    def set_metadata(self, *_, **__):\n        return None\n"),
]
