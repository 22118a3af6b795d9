"""bugs of the shared memory codex that need something specific to show"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rwlib import Corpus
I, K, U = Corpus("codex/implements.py"), Corpus("codex/codecs.py"), Corpus("codex/memutilz.py")
b = I.bug
b("c1-fast-path", "C01", "TagIndex.add", ("    with self.lock_class", "    if exists_ok is True and self.check(key) is not None:\n        return self.check(key)\n    with self.lock_class"))
b("c1-del-tail-out", "C01", "TagIndex.__delitem__", ("        return self._delitem(target)", "        found = self._delitem(target)\n    self.update_length()\n    return found"))
b("c1-lock-by-key", "C01", "TagIndex.add", ("self.lock_class(self.name, self.debug)", "self.lock_class(f'{self.name}_{len(str(key))}', self.debug)"))
b("c1-del-other-lock", "C01", "TagIndex.__delitem__", ("self.lock_class(self.name, self.debug)", "self.lock_class(self.memory.name + '_del', self.debug)"))
b("c1-meta-after", "C01", "MetaTagIndex.add", ("        if value is not None:\n            self.memorize(value, self.val_address(writehead))\n        return writehead", "    if value is not None:\n        self.memorize(value, self.val_address(writehead))\n    return writehead"))
b("c1-meta-del-out", "C01", "MetaTagIndex.__delitem__", ("        found_at = super()._delitem(target)\n", "        found_at = super()._delitem(target)\n    with FakeLock():\n"))
b("c2-release-return", "C02", "SlidingLock.release", ("        if block is None:\n            continue", "        if block is None:\n            return"))
b("c2-exc-only", "C02", "SlidingLock.__enter__", ("except BaseException as ex:", "except Exception as ex:"))
b("c2-exit-exc", "C02", "SlidingLock.__exit__", ("    self.release()", "    if exc_type is not KeyboardInterrupt:\n        self.release()"))
b("c2-renumber-outside", "C02", "SlidingLock.__enter__", ("    try:\n        self._renumber()\n        self.acquire()", "    self._renumber()\n    try:\n        self.acquire()"))
b("c2-unlink-order", "C02", "SlidingLock.release", ("        block.unlink()\n        block.close()\n", "        block.close()\n"))
b("c2-retake-leak", "C02", "SlidingLock._renumber", ("            self.marker.unlink()\n            self.marker.close()\n", "            self.marker.close()\n"))
b("c2-timeout-swallow", "C03", "SlidingLock.acquire", ("        self.acquired = self._check_acquirement()", "        try:\n            self.acquired = self._check_acquirement()\n        except TimeoutError:\n            return"))
b("c3-range-off", "C03", "SlidingLock._check_acquirement", ("range(self.floor, self.number)", "range(self.floor + 2, self.number)"))
b("c3-scan-lock-names", "C03", "SlidingLock._check_acquirement", ('exists_block(f"{self.name}_{other_number}")', 'exists_block(f"{self.name}_{other_number}_lock")'))
b("c3-floor-on-fail", "C03", "SlidingLock.release", ("if self.acquired is True:", "if self.marker is not None:"))
b("c3-noretake", "C03", "SlidingLock._renumber", (">= self.number", "> self.number"))
b("c3-floor-early", "C03", "SlidingLock.acquire", ("    while self.acquired is False:", "    if self.number - self.floor == 1 and self.acquired is False:\n        self.acquired = True\n    while self.acquired is False:"))
b("c3-release-order", "C03", "SlidingLock.release", ("(\"lock\", \"marker\")", "(\"marker\", \"lock\")"), ("    if self.acquired is True:\n        self.count.buf[:] = self.number.to_bytes(5, \"little\")\n        if getattr(self, \"debug\") is True:\n            log(f\"{here()},{self.number},set floor to {self.number}\")\n", ""), ("    self.acquired = False", "    if self.acquired is True:\n        self.count.buf[:] = self.number.to_bytes(5, \"little\")\n    self.acquired = False"))
b("c3-number-wrap", "C03", "SlidingLock._renumber", ("self.number = self.floor + 1", "self.number = (self.floor + 1) % 2 ** 16"))
b("c4-len-first", "C04", "TagIndex._delitem", ("    delete_block(self.hash_address(target))\n", "    delete_block(self.hash_address(target), True) if found_at else None\n"))
b("c4-hash-nomove", "C04", "TagIndex._delitem", ("    nameblock.buf[:] = found_at.to_bytes(8, \"little\")\n", "    if found_at:\n            nameblock.buf[:] = found_at.to_bytes(8, \"little\")\n"))
b("c4-cached-length", "C04", "TagIndex._add", ("    self.update_length()\n", "    if self.length is None:\n        self.update_length()\n"))
b("c4-zero-pos", "C04", "TagIndex._add", ("if found_at is not None:", "if found_at:"))
b("c4-del-zero", "C04", "TagIndex._delitem", ("if found_at is None:", "if not found_at:"))
b("c4-hash-lower", "C04", "TagIndex.hash_address", ("str(key).encode()", "str(key).lower().encode()"))
b("c4-hash-short", "C04", "TagIndex.hash_address", ("{namehash}", "{namehash[:4]}"))
b("c4-strip", "C04", "TagIndex._enumerate_keys", ("key = keyblock.buf.tobytes().decode()", "key = keyblock.buf.tobytes().decode().strip()"))
b("c4-stop-at-missing", "C04", "TagIndex._enumerate_keys", ("            continue\n", "            return\n"))
b("c4-no-overwrite", ["C04", "C07"], "TagIndex._add", ("        size=len(keybytes),\n        overwrite=True\n", "        size=len(keybytes)\n"))
b("c4-charlen", ["C04", "C07"], "TagIndex._add", ("size=len(keybytes)", "size=len(str(key))"))
b("c4-update-skip", "C04", "TagIndex.update", ("    self.cache = []\n", "    if self.cache and len(self.cache) == self.length:\n        return self.cache\n    self.cache = []\n"))
b("c5-added-existing", "C05", "MetaTagIndex.add", ("if value is not None:", "if value:"))
b("c5-val-key", "C05", "MetaTagIndex.add", ("self.val_address(writehead)", "self.val_address(self.length)"))
b("c5-del-last", "C05", "MetaTagIndex.__delitem__", ("(found_at == self.length - 1)", "(found_at >= self.length - 2)"))
b("c5-src-not-removed", "C05", "MetaTagIndex.__delitem__", ("            delete_block(self.val_address(self.length - 1))\n", ""))
b("c5-keep-stale", "C05", "MetaTagIndex.__delitem__", ("            delete_block(self.val_address(found_at), True)", "            if found_at == self.length - 1:\n                delete_block(self.val_address(found_at), True)"))
b("c5-items-shift", "C05", "MetaTagIndex.items", ("return [(key, val) for _, key, val in self._enumerate(True, True)]", "return list(zip(self.keys(), (v for v in self.values() if v is not None)))"))
b("c5-cached-loader", "C05", "MetaTagIndex._load_value", ("        return self.remember(self.val_address(ix))", "        if not hasattr(self, '_vals'):\n            self._vals = {}\n        if ix not in self._vals:\n            self._vals[ix] = self.remember(self.val_address(ix))\n        return self._vals[ix]"))
b("c5-getitem-first", "C05", "MetaTagIndex.__getitem__", ("self.val_address(found_at)", "self.val_address(found_at or self.length)"))
b("c6-sticky-cache", "C06", "Sticky.stick", ("    self._cached_value = obj", "    if self._cached_value is None:\n        self._cached_value = obj"))
b("c6-address-lower", ["C06", "C04"], "AbstractNotepad.address", ("{key}", "{str(key).lower()}"))
b("c6-address-strip", ["C06", "C04"], "AbstractNotepad.address", ('f"{self.prefix}_{key}"', 'f"{self.prefix}_{key}".rstrip("_")'))
b("c6-iter-items", "C06", "AbstractNotepad.iteritems", ("yield key, self[key]", "yield key, self.get_raw(key)"))
b("c6-itervalues-none", "C06", "AbstractNotepad.itervalues", ("        yield self[key]", "        if (value := self[key]) is not None:\n            yield value"))
b("c6-get-or", ["C06", "C09"], "Notepad.get", ("return self.__getitem__(key, fetch)", "return self.__getitem__(key, fetch) or default"))
b("c6-grid-view", "C06", "GridPaper.__getitem__", ("self.remember(self.index[key], fetch, copy)", "self.remember(self.index[key], fetch, False)"))
b("c8-flag-add-only", "C08", "Notepad.__setitem__", ("self.memorize(value, self.address(key), exists_ok)", "self.memorize(value, self.address(key), True)"), ("self.index.add(key, meta, exists_ok=exists_ok)", "self.index.add(key, meta)"))
b("c8-grid-flag", "C08", "GridPaper.__setitem__", ("value, self.address(key), exists_ok, keep_open", "value, self.address(key), exists_ok or keep_open, keep_open"))
b("c8-grid-set", "C08", "GridPaper.set", ("self.__setitem__(key, value, exists_ok)", "self.__setitem__(key, value, keep_open=exists_ok)"))
b("c8-index-meta", "C08", "MetaTagIndex.add", ("super()._add(key, exists_ok)", "super()._add(key, exists_ok or value is not None)"))
b("c9-getitem-passthrough", "C09", "GridPaper.__getitem__", ("except FileNotFoundError:", "except ValueError:"))
b("c9-get-copy", "C09", "GridPaper.get", ("    except KeyError:\n        return default", "    except KeyError:\n        if default is None:\n            raise\n        return default"))
b("c9-index-missing", "C09", "MetaTagIndex.__getitem__", ("    if found_at is None:\n        raise KeyError(f\"{key} not found in index.\")\n", ""))
b("c9-sticky-missing", "C09", "Sticky.read", ("    except FileNotFoundError:\n        return None", "    except ValueError:\n        return None"))
b("c10-lower", "C10", "Notepad.__setitem__", ('key.startswith("index")', 'key.startswith("index_")'))
b("c10-grid-eq", "C10", "GridPaper.__delitem__", ('key.startswith("index")', 'key == "index"'))
b("c10-meta-opt", "C10", "Notepad.__setitem__", ('if isinstance(key, str) and key.startswith("index"):', 'if meta is None and isinstance(key, str) and key.startswith("index"):'))
b("c10-grid-late", "C10", "GridPaper.__setitem__", ('    if isinstance(key, str) and key.startswith("index"):\n        raise KeyError("\'index\' is a reserved namespace.")\n', ''), ("    self.index.add(key, metadata)", "    if isinstance(key, str) and key.startswith(\"index\"):\n        raise KeyError(\"'index' is a reserved namespace.\")\n    self.index.add(key, metadata)"))
b("c11-exception-only", "C11", "Notepad.__setitem__", ("except BaseException:", "except (TypeError, ValueError):"))
b("c11-always-remove", ["C11", "C04"], "Notepad.__setitem__", ("            if not exists_block(self.address(key)):\n                self.index.remove(key)", "            self.index.remove(key)"))
b("c11-swallow", "C11", "Notepad.__setitem__", ("                self.index.remove(key)\n            raise\n", "                self.index.remove(key)\n                return\n            raise\n"))
b("c11-grid-first", "C11", "GridPaper.__setitem__", ("    try:\n        metadata, block", "    if exists_ok is True:\n        self.index.add(key)\n    try:\n        metadata, block"))
b("c12-clear-cache", "C12", "Notepad.clear", ("self.update_index()", "self.index.cache"))
b("c12-close-skip-count", "C12", "TagIndex.close", ('if exists_block(f"{self.name}_count"):', 'if self.cache and exists_block(f"{self.name}_count"):'))
b("c12-close-mem", "C12", "TagIndex.close", ("    self.memory.unlink()\n", "    if not self.cache:\n        self.memory.unlink()\n"))
b("c12-close-try", "C12", "Notepad.close", ("        keys = self.update_index().copy()\n", "        keys = self.update_index()[:100]\n"))
b("c12-dump-after", "C12", "GridPaper.close", ("        if dump is True:\n            self.dump(key)\n        del self[key]", "        del self[key]\n        if dump is True:\n            self.dump(key)"))
b("c12-sticky-close", "C12", "Sticky.close", ("    block.unlink()\n", ""))
b("c12-grid-index", "C12", "GridPaper.close", ("    self.index.close()\n", "    if dump is False:\n        self.index.close()\n"))
b("c13-register-always", "C13", "AbstractNotepad.__init__", ("    if cleanup_on_exit is True:\n        atexit.register(self.close)", "    if cleanup_on_exit is not None:\n        atexit.register(self.close)"))
b("c13-lambda", "C13", "ShareableIndex.__init__", ("atexit.register(self.close)", "atexit.register(lambda: self.close())"))
b("c13-unreg-cond", "C13", "Notepad.close", ("    atexit.unregister(self.close)", "    if dump is False:\n        atexit.unregister(self.close)"))
b("c13-sticky-truthy", "C13", "Sticky.note", ("'cleanup_on_exit': cleanup_on_exit", "'cleanup_on_exit': cleanup_on_exit and address is not None"))
b("c13-unreg-first", "C13", "Sticky.close", ("    block = SharedMemory(self.address)\n", "    atexit.unregister(Sticky.close)\n    block = SharedMemory(self.address)\n"), ("    atexit.unregister(self.close)", "    pass"))
b("c15-debug-lost", "C15", "AbstractNotepad.__init__", ("            debug,\n            **index_kwargs", "            **index_kwargs"))
b("c15-grid-create", "C15", "GridPaper.__init__", ("        create,\n        cleanup_on_exit,", "        create or update_on_init,\n        cleanup_on_exit,"))
b("c15-nolock", "C15", "MetaTagIndex.__init__", ("super().__init__(name, create, cleanup_on_exit, debug, no_lockout)", "super().__init__(name, create, cleanup_on_exit, debug)"))
b("c15-codec", ["C15", "C06"], "AbstractNotepad.__init__", ("encode, decode = codec_factory()", "encode, decode = pickle_codec_factory()"))
b("c15-update", "C15", "Notepad.__init__", ("        update_on_init,\n        debug,", "        debug,\n        update_on_init,"))
b("c15-nolock-truthy", "C15", "ShareableIndex.__init__", ("if no_lockout is True:", "if no_lockout is True and debug is False:"))
k = K.bug
k("k6-ast-str", "C06", "ast_codec_factory", ("return repr(value).encode()", "return str(value).encode()"))
k("k6-order", "C06", "numpy_mnemonic_factory", ("array.shape, dtype=array.dtype, buffer=block.buf\n        )", "array.shape, dtype=array.dtype, buffer=block.buf,\n            order='F' if array.flags.f_contiguous else 'C'\n        )"))
k("k6-dtype-name", "C06", "numpy_mnemonic_factory", ('"dtype": array.dtype.str', '"dtype": array.dtype.name'))
k("k6-shape-1d", "C06", "numpy_mnemonic_factory", ('"shape": array.shape,', '"shape": array.shape if array.ndim > 1 else (array.size,),'))
k("k7-nbytes", "C07", "numpy_mnemonic_factory", ("array.size * array.itemsize, True, True", "max(array.size, 8) * array.itemsize, True, True"))
k("k7-generic-keep", ["C07", "C06"], "generic_mnemonic_factory", ("open_block(address, size, True, True)", "open_block(address, size, True, exists_ok is not True)"))
k("k7-partial-write", ["C07", "C06"], "generic_mnemonic_factory", ("block = open_block(address, size, True, True)\n        block.buf[:] = encoded", "block = open_block(address, size, True, False)\n        block.buf[:size] = encoded"))
k("k8-none", "C08", "generic_mnemonic_factory", ("if (exists_ok is False) and exists_block(address):", "if (exists_ok is None) and exists_block(address):"))
k("k8-late", "C08", "numpy_mnemonic_factory", ("        if (exists_ok is False) and exists_block(address):\n            raise FileExistsError\n        block = open_block(address, array.size * array.itemsize, True, True)\n", "        block = open_block(address, array.size * array.itemsize, True, exists_ok)\n"))
u = U.bug
u("u7-open", "C07", "open_block", ("        old_block.unlink()\n        old_block.close()\n        return SharedMemory(address, True, size)", "        if old_block.size >= size:\n            return old_block\n        old_block.unlink()\n        old_block.close()\n        return SharedMemory(address, True, size)"))
u("u5-delete", ["C05", "C12"], "delete_block", ("        block.unlink()\n", "        if not missing_ok:\n            block.unlink()\n"))
u("u14-scope", "C14", "deactivate_shared_memory_resource_tracker", ('    def fix_unregister(name, rtype):\n        if rtype == "shared_memory":', '    def fix_unregister(name, rtype):\n        if rtype != "semaphore":'))
u("u14-drop-ret", "C14", "deactivate_shared_memory_resource_tracker", ("resource_tracker.unregister = fix_unregister", "resource_tracker.unregister = fix_register"))
u("u14-name", "C14", "deactivate_shared_memory_resource_tracker", ('        if rtype == "shared_memory":\n            return\n        return resource_tracker._resource_tracker.register(name, rtype)', '        if rtype == "shared_memory" or name.startswith("/psm"):\n            return\n        return resource_tracker._resource_tracker.register(name, rtype)'))
CASES = I.cases + K.cases + U.cases
