F = "codex/implements.py"
CO = "codex/codecs.py"
MU = "codex/memutilz.py"
ALLC = ["C%02d" % i for i in range(1, 16)]
BUGS = [
 # ---- C01
 ("c01-del-nolock", "C01", F, '''    def __delitem__(self, target):
        with self.lock_class(self.name, self.debug):
            return self._delitem(target)''', '''    def __delitem__(self, target):
        return self._delitem(target)'''),
 ("c01-check-outside", "C01", F, '''        with self.lock_class(self.name, self.debug):
            writehead = super()._add(key, exists_ok)
            if value is not None:
                self.memorize(value, self.val_address(writehead))
            return writehead''', '''        with self.lock_class(self.name, self.debug):
            writehead = super()._add(key, exists_ok)
        if value is not None:
            self.memorize(value, self.val_address(writehead))
        return writehead'''),
 ("c01-lockname", "C01", F, '''        with self.lock_class(self.name, self.debug):
            return self._delitem(target)''', '''        with self.lock_class(f"{self.name}_del", self.debug):
            return self._delitem(target)'''),
 ("c01-lockname-key", "C01", F, '''        with self.lock_class(self.name, self.debug):
            return self._add(key, exists_ok)''', '''        with self.lock_class(f"{self.name}_{key}", self.debug):
            return self._add(key, exists_ok)'''),
 ("c01-precheck", "C01", F, '''        if value is not None:
            raise ValueError("TagIndex does not support value-setting.")
        with self''', '''        if value is not None:
            raise ValueError("TagIndex does not support value-setting.")
        self.update_length()
        with self'''),
 ("c01-fake-debug", ["C01", "C15"], F, '''        if no_lockout is True:
            self.lock_class = FakeLock''', '''        if no_lockout is True or debug is True:
            self.lock_class = FakeLock'''),
 ("c01-early-exit", "C01", F, '''    def __delitem__(self, target):
        with self.lock_class(self.name, self.debug):
            return self._delitem(target)''', '''    def __delitem__(self, target):
        with self.lock_class(self.name, self.debug):
            found_at = self.check(target)
        return self._delitem(target)'''),
 ("c01-meta-del-outside", "C01", F, '''            found_at = super()._delitem(target)
            if (
                (found_at''', '''            found_at = super()._delitem(target)
        if True:
            if (
                (found_at'''),
 ("c01-pid-count", "C01", F, '''open_block(f"{self.name}_count", 5)''', '''open_block(f"{self.name}_{os.getpid()}_count", 5)'''),
 # ---- C02
 ("c02-no-release-on-fail", "C02", F, '''            self.release()
            raise ex
''', '''            raise ex
'''),
 ("c02-exception-only", "C02", F, '''        except BaseException as ex:
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},crashing''', '''        except Exception as ex:
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},crashing'''),
 ("c02-release-only-acquired", "C02", F, '''                log(f"{here()},{self.number},set floor to {self.number}")
        for thing''', '''                log(f"{here()},{self.number},set floor to {self.number}")
        if self.acquired is False:
            return
        for thing'''),
 ("c02-release-marker-only", "C02", F, '''for thing in ("lock", "marker"):''', '''for thing in ("lock",):'''),
 ("c02-renumber-leak", "C02", F, '''                self.marker.unlink()
                self.marker.close()
                self.marker = None
                self.floor''', '''                self.marker.close()
                self.marker = None
                self.floor'''),
 ("c02-exit-on-noexc", "C02", F, '''            log(f"{here()},{self.number},entering cleanup")
        self.release()''', '''            log(f"{here()},{self.number},entering cleanup")
        if exc_type is None:
            self.release()'''),
 ("c02-nested", "C02", F, '''            found_at = super()._delitem(target)''', '''            found_at = super().__delitem__(target)'''),
 ("c02-scan-self", "C02", F, '''range(self.floor, self.number)''', '''range(self.floor, self.number + 1)'''),
 ("c02-manual-lock", "C02", F, '''        with self.lock_class(self.name, self.debug):
            return self._add(key, exists_ok)''', '''        lock = self.lock_class(self.name, self.debug)
        lock.__enter__()
        result = self._add(key, exists_ok)
        lock.__exit__(None, None, None)
        return result'''),
 ("c02-break-first", "C02", F, '''            block.unlink()
            block.close()
            setattr(self, thing, None)''', '''            block.unlink()
            block.close()
            setattr(self, thing, None)
            if thing == "lock":
                break'''),
 # ---- C03
 ("c03-no-recheck", "C03", F, '''            if (floor := self._get_floor()) >= self.number:''', '''            if (floor := self._get_floor()) > self.number:'''),
 ("c03-no-reread", "C03", F, '''            if (floor := self._get_floor()) >= self.number:''', '''            if (floor := self.floor) >= self.number:'''),
 ("c03-scan-short", "C03", F, '''range(self.floor, self.number)''', '''range(self.floor, self.number - 1)'''),
 ("c03-scan-from-number", "C03", F, '''range(self.floor, self.number)''', '''range(self.number - 1, self.number)'''),
 ("c03-scan-lock", "C03", F, '''exists_block(f"{self.name}_{other_number}")''', '''exists_block(f"{self.name}_{other_number}_lock")'''),
 ("c03-first-only", "C03", F, '''                self.wait()
                return False
''', '''                self.wait()
                return False
            break
'''),
 ("c03-floor-after", "C03", F, '''        if self.acquired is True:
            self.count.buf[:] = self.number.to_bytes(5, "little")
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},set floor to {self.number}")
''', '''''', (F, '''                log(f"{here()},{self.number},released {thing}")
''', '''                log(f"{here()},{self.number},released {thing}")
        if self.acquired is True:
            self.count.buf[:] = self.number.to_bytes(5, "little")
''')),
 ("c03-floor-always", "C03", F, '''        if self.acquired is True:
            self.count''', '''        if self.number is not None:
            self.count'''),
 ("c03-floor-minus", "C03", F, '''self.count.buf[:] = self.number.to_bytes(5, "little")''', '''self.count.buf[:] = (self.number - 1).to_bytes(5, "little")'''),
 ("c03-order", "C03", F, '''for thing in ("lock", "marker"):''', '''for thing in ("marker", "lock"):'''),
 ("c03-big", "C03", F, '''self.number.to_bytes(5, "little")''', '''self.number.to_bytes(5, "big")'''),
 ("c03-acquired-init", "C03", F, '''            self.lock = SharedMemory(
                f"{self.name}_{self.number}_lock", size=1, create=True
            )''', '''            self.lock = SharedMemory(
                f"{self.name}_{self.number}_lock", size=1, create=True
            )
            self.acquired = self.number == self.floor + 1'''),
 ("c03-nonexclusive", "C03", F, '''                self.marker = SharedMemory(
                    f"{self.name}_{self.number}", size=1, create=True
                )''', '''                self.marker = open_block(f"{self.name}_{self.number}", 1)'''),
 ("c03-start-at-floor", "C03", F, '''        self.number = self.floor + 1
''', '''        self.number = self.floor
'''),
 ("c03-wait-then-go", "C03", F, '''                self.wait()
                return False
''', '''                self.wait()
                continue
'''),
 # ---- C04
 ("c04-len-first", "C04", F, '''        new_length_bytes = (self.length - 1).to_bytes(8, "little")
        self.memory.buf[:] = new_length_bytes
        if getattr''', '''        new_length_bytes = (self.length).to_bytes(8, "little")
        self.memory.buf[:] = new_length_bytes
        if getattr'''),
 ("c04-stale-length", "C04", F, '''            raise FileExistsError
        self.update_length()
''', '''            raise FileExistsError
        if self.length is None:
            self.update_length()
'''),
 ("c04-stale-length-del", "C04", F, '''            raise KeyError(f"{target} not found in this index.")
        self.update_length()
''', '''            raise KeyError(f"{target} not found in this index.")
        if self.length is None:
            self.update_length()
'''),
 ("c04-no-reverse", "C04", F, '''            nameblock.buf[:] = found_at.to_bytes(8, "little")
            lastblock''', '''            lastblock'''),
 ("c04-no-hash-del", "C04", F, '''        delete_block(self.hash_address(target))
        new''', '''        new'''),
 ("c04-short-hash", "C04", F, '''HASHER(str(key).encode()).hexdigest()
''', '''HASHER(str(key).encode()).hexdigest()[:8]
'''),
 ("c04-lower", "C04", F, '''HASHER(str(key).encode()).hexdigest()
''', '''HASHER(str(key).lower().encode()).hexdigest()
'''),
 ("c04-lastblock-kept", "C04", F, '''            lastblock.unlink()
            lastblock.close()
''', '''            lastblock.close()
'''),
 ("c04-position", "C04", F, '''        position_bytes = self.length.to_bytes(8, "little")''', '''        position_bytes = (self.length + 1).to_bytes(8, "little")'''),
 ("c04-list-skip", "C04", F, '''        for ix in range(self.length):
            try:
                keyblock''', '''        for ix in range(self.length - 1):
            try:
                keyblock'''),
 ("c04-list-cache", "C04", F, '''        self.cache = []
        for ix, key in self._enumerate_keys():
            self.cache.append(key)''', '''        for ix, key in self._enumerate_keys():
            if key not in self.cache:
                self.cache.append(key)'''),
 ("c04-delitem-return", "C04", F, '''        if found_at is None:
            raise KeyError(f"{target} not found in this index.")''', '''        if found_at is None:
            return None'''),
 # ---- C05
 ("c05-no-meta-del", "C05", F, '''                delete_block(self.val_address(found_at), True)
''', '''                pass
'''),
 ("c05-last-val-kept", "C05", F, '''                moved_block.buf[:] = valbytes
                delete_block(self.val_address(self.length - 1))
''', '''                moved_block.buf[:] = valbytes
'''),
 ("c05-only-last", "C05", F, '''                (found_at == self.length - 1)
                or not exists_block(self.val_address(self.length - 1))
''', '''                found_at == self.length - 1
'''),
 ("c05-wrong-slot", "C05", F, '''                self.memorize(value, self.val_address(writehead))''', '''                self.memorize(value, self.val_address(self.length))'''),
 ("c05-exists-skip", "C05", F, '''            if value is not None:
                self.memorize(value''', '''            if value is not None and not exists_block(self.val_address(writehead)):
                self.memorize(value'''),
 ("c05-falsy-meta", "C05", F, '''            if value is not None:
                self.memorize(value''', '''            if value:
                self.memorize(value'''),
 ("c05-items-zip", "C05", F, '''        return [(key, val) for _, key, val in self._enumerate(True, True)]''', '''        return [
            (key, val) for _, key, val in self._enumerate(True, True)
            if val is not None
        ]'''),
 # ---- C06
 ("c06-decode-missing", "C06", F, '''            self.remember = partial(self.remember, decode=decode)''', '''            self.remember = partial(self.remember)'''),
 ("c06-sticky-nocache", "C06", F, '''        if (self._cached_value is not None) and (reread is False):''', '''        if (self._cached_value is not None) or (reread is False):'''),
 ("c06-reread-ignored", "C06", F, '''        if (self._cached_value is not None) and (reread is False):''', '''        if self._cached_value is not None:'''),
 ("c06-dtype-kind", "C06", CO, '''"dtype": array.dtype.str,''', '''"dtype": array.dtype.name,'''),
 ("c06-shape-flat", "C06", CO, '''            "shape": array.shape,''', '''            "shape": array.size,'''),
 ("c06-shape-rev", "C06", CO, '''            "shape": array.shape,''', '''            "shape": array.shape[::-1],'''),
 ("c06-ascii", "C06", CO, '''        return ast.literal_eval(blob.decode())''', '''        return ast.literal_eval(blob.decode("ascii"))'''),
 ("c06-repr-str", "C06", CO, '''        return repr(value).encode()''', '''        return str(value).encode()'''),
 ("c06-json-keys", "C06", CO, '''        return json.dumps(value).encode()''', '''        return json.dumps(value, skipkeys=True, default=str).encode()'''),
 ("c06-address-lower", "C06", F, '''        return f"{self.prefix}_{key}"

''', '''        return f"{self.prefix}_{str(key).lower()}"

'''),
 ("c06-set-noreplace", ["C06", "C08"], CO, '''        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, True)
''', '''        if exists_block(address):
            return address
        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, True)
'''),
 ("c06-stick-if-changed", "C06", F, '''        encoded = self.encode(obj)
        size = len(encoded)
''', '''        if self._cached_value is not None and obj == self._cached_value:
            return
        encoded = self.encode(obj)
        size = len(encoded)
'''),
 ("c06-itervalues", "C06", F, '''            yield self[key]

    def iteritems''', '''            yield self.get_raw(key)

    def iteritems'''),
 ("c06-note-addr", "C06", F, '''            'address': str(address),
            'cleanup''', '''            'address': str(address).lower(),
            'cleanup'''),
 # ---- C07
 ("c07-sticky-nooverwrite", "C07", F, '''        block = open_block(self.address, size, overwrite=True)''', '''        block = open_block(self.address, size)'''),
 ("c07-memorize-reuse", "C07", CO, '''        block = open_block(address, size, True, True)
        block.buf[:] = encoded''', '''        block = open_block(address, size, True, False)
        block.buf[:size] = encoded'''),
 ("c07-moved-nooverwrite", "C07", F, '''                self.key_address(found_at),
                size=len(lastkey),
                overwrite=True''', '''                self.key_address(found_at),
                size=len(lastkey)'''),
 ("c07-keysize", "C07", F, '''            size=len(keybytes),''', '''            size=len(str(key)),'''),
 ("c07-open-same-size", "C07", MU, '''        old_block = SharedMemory(address)
        old_block.unlink()''', '''        old_block = SharedMemory(address)
        if old_block.size >= size:
            return old_block
        old_block.unlink()'''),
 ("c07-array-size", "C07", CO, '''        block = open_block(address, array.size * array.itemsize, True, True)''', '''        block = open_block(address, array.size * 8, True, True)'''),
 # ---- C08
 ("c08-exists-ok-lost", "C08", F, '''            self.index.add(key, meta, exists_ok=exists_ok)
            try:
                self.memorize(value, self.address(key), exists_ok)''', '''            self.index.add(key, meta, exists_ok=True)
            try:
                self.memorize(value, self.address(key), True)'''),
 ("c08-grid-exists", "C08", F, '''                value, self.address(key), exists_ok, keep_open
            )''', '''                value, self.address(key), True, keep_open
            )'''),
 ("c08-set-drop", "C08", F, '''        return self.__setitem__(key, value, meta, exists_ok)''', '''        return self.__setitem__(key, value, meta)'''),
 ("c08-set-misplaced", "C08", F, '''        return self.__setitem__(key, value, meta, exists_ok)''', '''        return self.__setitem__(key, value, exists_ok)'''),
 ("c08-memorize-any", "C08", CO, '''        if (exists_ok is False) and exists_block(address):
            raise FileExistsError
        block = open_block(address, array''', '''        if (exists_ok is False) and (keep_open is True) and exists_block(address):
            raise FileExistsError
        block = open_block(address, array'''),
 ("c08-add-flag", "C08", F, '''            if exists_ok is True:
                if getattr(self, "debug")''', '''            if exists_ok is not None:
                if getattr(self, "debug")'''),
 # ---- C09
 ("c09-get-nodefault", "C09", F, '''            return self.__getitem__(key, fetch, copy)
        except KeyError:
            return default''', '''            return self.__getitem__(key, fetch, copy)
        except KeyError:
            return None'''),
 ("c09-get-falsy", "C09", F, '''            return self.__getitem__(key, fetch)
        except KeyError:
            return default''', '''            return self.__getitem__(key, fetch) or default
        except KeyError:
            return default'''),
 ("c09-getitem-fnf", "C09", F, '''            return self.remember(self.address(key), fetch)
        except FileNotFoundError:''', '''            return self.remember(self.address(key), fetch)
        except FileExistsError:'''),
 ("c09-del-missing", "C09", F, '''            delete_block(self.address(key))
            self.index.remove(key)
        except FileNotFoundError:''', '''            delete_block(self.address(key), True)
            if key in self.update_index():
                self.index.remove(key)
        except FileNotFoundError:'''),
 ("c09-sticky-raise", "C09", F, '''        try:
            block = SharedMemory(self.address)
        except FileNotFoundError:
            return None
        stream''', '''        block = SharedMemory(self.address)
        stream'''),
 ("c09-none-missing", "C09", F, '''        try:
            return self.remember(self.address(key), fetch)
        except FileNotFoundError:
            raise KeyError(f"{key} not found in this object's space.")

    def get(self, key, default=None, fetch=True):
        try:
            return self.__getitem__(key, fetch)''', '''        try:
            return self.remember(self.address(key), fetch)
        except FileNotFoundError:
            raise KeyError(f"{key} not found in this object's space.")

    def get(self, key, default=None, fetch=True):
        try:
            value = self.__getitem__(key, fetch)
            return default if value is None else value'''),
 # ---- C10
 ("c10-del-reserved", "C10", F, '''    def __delitem__(self, key):
        if isinstance(key, str) and key.startswith("index"):
            raise KeyError("'index' is a reserved key prefix")
        try:''', '''    def __delitem__(self, key):
        try:'''),
 ("c10-exact", "C10", F, '''        if isinstance(key, str) and key.startswith("index"):
            raise KeyError("'index' is a reserved namespace.")''', '''        if isinstance(key, str) and key == "index":
            raise KeyError("'index' is a reserved namespace.")'''),
 ("c10-underscore", "C10", F, '''    def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
        if isinstance(key, str) and key.startswith("index"):''', '''    def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
        if isinstance(key, str) and key.startswith("index_"):'''),
 ("c10-late", "C10", F, '''        if isinstance(key, str) and key.startswith("index"):
            raise KeyError("'index' is a reserved namespace.")
        try:
            metadata, block = self.memorize(
                value, self.address(key), exists_ok, keep_open
            )''', '''        try:
            metadata, block = self.memorize(
                value, self.address(key), exists_ok, keep_open
            )
            if isinstance(key, str) and key.startswith("index"):
                raise KeyError("'index' is a reserved namespace.")'''),
 # ---- C11
 ("c11-exception", "C11", F, '''            except BaseException:
                # don't''', '''            except ValueError:
                # don't'''),
 ("c11-swallow", "C11", F, '''                    self.index.remove(key)
                raise
''', '''                    self.index.remove(key)
                    return
                raise
'''),
 ("c11-always-remove", ["C11"], F, '''                if not exists_block(self.address(key)):
                    self.index.remove(key)''', '''                if exists_block(self.address(key)):
                    self.index.remove(key)'''),
 ("c11-grid-order", "C11", F, '''        try:
            metadata, block = self.memorize(
                value, self.address(key), exists_ok, keep_open''', '''        try:
            self.index.add(key, {"name": self.address(key)})
            metadata, block = self.memorize(
                value, self.address(key), exists_ok, keep_open'''),
 # ---- C12
 ("c12-no-count", "C12", F, '''        if exists_block(f"{self.name}_count"):
            block = SharedMemory(f"{self.name}_count")
            block.unlink()
            block.close()
''', ''''''),
 ("c12-close-noloop", "C12", F, '''        for key in self.update():
            self.remove(key)
        self.memory.unlink()''', '''        self.memory.unlink()'''),
 ("c12-cache-loop", "C12", F, '''        for key in self.update():
            self.remove(key)
        self.memory.unlink()''', '''        for key in self.cache:
            self.remove(key)
        self.memory.unlink()'''),
 ("c12-dump-after", "C12", F, '''            if dump is True:
                self.dump(key)
            del self[key]
        self.index.close()''', '''            del self[key]
            if dump is True:
                self.dump(key)
        self.index.close()'''),
 ("c12-dump-else", "C12", F, '''                if dump is True:
                    self.dump(key)
                del self[key]
            self.index''', '''                if dump is True:
                    self.dump(key)
                else:
                    del self[key]
            self.index'''),
 ("c12-clear-index", "C12", F, '''    def clear(self):
        for key in self.update_index():
            del self[key]

    def __str__(self):
        return f"''', '''    def clear(self):
        for key in self.update_index():
            self.index.remove(key)

    def __str__(self):
        return f"'''),
 ("c12-mutating-cache", "C12", F, '''        delete_block(self.hash_address(target))
        new_length''', '''        delete_block(self.hash_address(target))
        if target in self.cache:
            self.cache.remove(target)
        new_length'''),
 ("c12-pull-nounlink", "C12", F, '''        block = SharedMemory(self.address)
        block.unlink()
        block.close()
        atexit''', '''        block = SharedMemory(self.address)
        block.close()
        atexit'''),
 ("c12-del-data", "C12", F, '''            delete_block(self.address(key))
            self.index.remove(key)
            for''', '''            self.index.remove(key)
            for'''),
 ("c12-half", "C12", F, '''            keys = self.update_index().copy()''', '''            keys = self.update_index()[1:]'''),
 ("c12-length-kept", "C12", F, '''        self.memory.unlink()
        self.memory.close()''', '''        self.memory.close()'''),
 # ---- C13
 ("c13-sticky-always", "C13", F, '''        self._cached_value = value
        if cleanup_on_exit is True:
            atexit''', '''        self._cached_value = value
        if cleanup_on_exit is not None:
            atexit'''),
 ("c13-note-drop", "C13", F, '''            'cleanup_on_exit': cleanup_on_exit
        }''', '''        }'''),
 ("c13-no-unregister", "C13", F, '''        block.close()
        atexit.unregister(self.close)

    def pull''', '''        block.close()

    def pull'''),
 ("c13-pad-unregister-index", "C13", F, '''        for key in self.update_index():
            if dump is True:
                self.dump(key)
            del self[key]
        self.index.close()
        atexit.unregister(self.close)''', '''        for key in self.update_index():
            if dump is True:
                self.dump(key)
            del self[key]
        self.index.close()
        atexit.unregister(self.index.close)'''),
 ("c13-index-lambda", "C13", F, '''        if cleanup_on_exit is True:
            atexit.register(self.close)
        self.debug = debug''', '''        if cleanup_on_exit is True:
            atexit.register(lambda: self.close())
        self.debug = debug'''),
 # ---- C14
 ("c14-all", "C14", MU, '''        if rtype == "shared_memory":
            return
        return resource_tracker._resource_tracker.register(name, rtype)''', '''        return'''),
 ("c14-swap", "C14", MU, '''        return resource_tracker._resource_tracker.unregister(name, rtype)''', '''        return resource_tracker._resource_tracker.register(name, rtype)'''),
 ("c14-ne", "C14", MU, '''    def fix_unregister(name, rtype):
        if rtype == "shared_memory":''', '''    def fix_unregister(name, rtype):
        if rtype != "shared_memory":'''),
 ("c14-sem", "C14", MU, '''    def fix_unregister(name, rtype):
        if rtype == "shared_memory":''', '''    def fix_unregister(name, rtype):
        if rtype in ("shared_memory", "semaphore"):'''),
 ("c14-clear", "C14", MU, '''        del resource_tracker._CLEANUP_FUNCS["shared_memory"]''', '''        resource_tracker._CLEANUP_FUNCS.clear()'''),
 ("c14-once", "C14", MU, '''    resource_tracker.unregister = fix_unregister
''', ''''''),
 # ---- C15
 ("c15-order", "C15", F, '''                create,
                cleanup_on_exit,
                debug,
                **index_kwargs
            )
            if update''', '''                create,
                debug,
                cleanup_on_exit,
                **index_kwargs
            )
            if update'''),
 ("c15-super-order", "C15", F, '''        super().__init__(name, create, cleanup_on_exit, debug, no_lockout)
        memorize''', '''        super().__init__(name, create, cleanup_on_exit, no_lockout, debug)
        memorize'''),
 ("c15-super-order2", "C15", F, '''        super().__init__(name, create, cleanup_on_exit, no_lockout, debug)
        if create''', '''        super().__init__(name, create, cleanup_on_exit, debug, no_lockout)
        if create'''),
 ("c15-grid-kwargs", "C15", F, '''            mnemonic_factory=numpy_mnemonic_factory,
            update_on_init=update_on_init,
            debug=debug,
            **index_kwargs''', '''            mnemonic_factory=numpy_mnemonic_factory,
            update_on_init=update_on_init,
            debug=debug'''),
 ("c15-lock-debug", "C15", F, '''        with self.lock_class(self.name, self.debug):
            return self._add(key, exists_ok)''', '''        with self.lock_class(self.name, True):
            return self._add(key, exists_ok)'''),
 ("c15-create-any", "C15", F, '''        if (create is False) and not exists_block(name):
            raise FileNotFoundError(''', '''        if (create is None) and not exists_block(name):
            raise FileNotFoundError(''', (F, '''        if create is False:
            self.memory = SharedMemory(name=name)
        else:
            self.memory = SharedMemory(name=name, create=True, size=8)''', '''        self.memory = open_block(name, 8)''')),
 ("c15-overwrite", "C15", F, '''            self.memory = SharedMemory(name=name, create=True, size=8)''', '''            self.memory = open_block(name, 8, True, True)'''),
]
SAME = [
 ("s-lockvar", ALLC, F, '''        with self.lock_class(self.name, self.debug):
            return self._add(key, exists_ok)''', '''        lock = self.lock_class(self.name, self.debug)
        with lock:
            result = self._add(key, exists_ok)
        return result'''),
 ("s-lockprop", ALLC, F, '''        with self.lock_class(self.name, self.debug):
            return self._delitem(target)''', '''        with self._lock():
            return self._delitem(target)

    def _lock(self):
        return self.lock_class(self.name, debug=self.debug)'''),
 ("s-tryfinally", ["C01", "C02"], F, '''        with self.lock_class(self.name, self.debug):
            return self._delitem(target)''', '''        lock = self.lock_class(self.name, self.debug)
        lock.__enter__()
        try:
            return self._delitem(target)
        finally:
            lock.__exit__(None, None, None)'''),
 ("s-any-scan", ["C02", "C03"], F, '''        for other_number in reversed(range(self.floor, self.number)):
            if exists_block(f"{self.name}_{other_number}"):
                if getattr(self, "debug") is True:
                    log(f"{here()},{self.number},{other_number} has precedence")
                # # # # #
                self.wait()
                return False
''', '''        if any(
            exists_block(f"{self.name}_{other_number}")
            for other_number in range(self.floor, self.number)
        ):
            self.wait()
            return False
'''),
 ("s-forward-scan", ["C02", "C03"], F, '''reversed(range(self.floor, self.number))''', '''range(self.floor + 1, self.number)'''),
 ("s-while-scan", ["C02", "C03"], F, '''        for other_number in reversed(range(self.floor, self.number)):
            if exists_block(f"{self.name}_{other_number}"):
''', '''        other_number = self.number
        while other_number > self.floor:
            other_number -= 1
            if exists_block(f"{self.name}_{other_number}"):
'''),
 ("s-slot-helper", ["C02", "C03"], F, '''    def _get_floor(self):''', '''    def _slot(self, number):
        return f"{self.name}_{number}"

    def _get_floor(self):''', (F, '''                self.marker = SharedMemory(
                    f"{self.name}_{self.number}", size=1, create=True
                )''', '''                self.marker = SharedMemory(
                    self._slot(self.number), create=True, size=1
                )'''), (F, '''exists_block(f"{self.name}_{other_number}")''', '''exists_block(self._slot(other_number))''')),
 ("s-release-unrolled", ["C02", "C03"], F, '''        for thing in ("lock", "marker"):
            block = getattr(self, thing)
            if block is None:
                continue
            block.unlink()
            block.close()
            setattr(self, thing, None)
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},released {thing}")
''', '''        if self.lock is not None:
            self.lock.unlink()
            self.lock.close()
            self.lock = None
        if self.marker is not None:
            self.marker.unlink()
            self.marker.close()
            self.marker = None
'''),
 ("s-renumber-while-true", ["C02", "C03"], F, '''        while self.marker is None:
            try:
                self.marker = SharedMemory(
                    f"{self.name}_{self.number}", size=1, create=True
                )
            except FileExistsError:
                self.number += 1
                continue
            # someone else may have used and released this slot since we
            # read the floor; if so, it no longer says anything about order
            if (floor := self._get_floor()) >= self.number:
                self.marker.unlink()
                self.marker.close()
                self.marker = None
                self.floor, self.number = floor, floor + 1
''', '''        while True:
            try:
                self.marker = SharedMemory(
                    f"{self.name}_{self.number}", size=1, create=True
                )
            except FileExistsError:
                self.number += 1
                continue
            floor = self._get_floor()
            if floor < self.number:
                break
            self.marker.unlink()
            self.marker.close()
            self.marker = None
            self.floor, self.number = floor, floor + 1
'''),
 ("s-floor-struct", ["C03"], F, '''int.from_bytes(self.count.buf.tobytes(), "little")''', '''int.from_bytes(bytes(self.count.buf), "little")'''),
 ("s-enter-finally", ["C02", "C03"], F, '''        try:
            self._renumber()
            self.acquire()
        except BaseException as ex:
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},crashing out: {ex}")
            self.release()
            raise ex
        return self''', '''        entered = False
        try:
            self._renumber()
            self.acquire()
            entered = True
        finally:
            if not entered:
                self.release()
        return self'''),
 ("s-add-helper", ALLC, F, '''        keybytes = str(key).encode()
        keyblock = open_block(
            self.key_address(self.length),
            create=True,
            size=len(keybytes),
            overwrite=True
        )
        keyblock.buf[:] = keybytes
        position_bytes = self.length.to_bytes(8, "little")
        nameblock = open_block(self.hash_address(key), create=True, size=8)
        nameblock.buf[:] = position_bytes
''', '''        self._write(self.key_address(self.length), str(key).encode())
        self._write(self.hash_address(key), self.length.to_bytes(8, "little"))
''', (F, '''    def hash_address(self, key):''', '''    @staticmethod
    def _write(address, data):
        block = open_block(address, len(data), overwrite=True)
        block.buf[:] = data

    def hash_address(self, key):''')),
 ("s-len-last", ["C01", "C02", "C04", "C05", "C07"], F, '''        self.update_length()
        new_length_bytes = (self.length + 1).to_bytes(8, "little")
        self.memory.buf[:] = new_length_bytes
        keybytes''', '''        self.update_length()
        keybytes''', (F, '''        nameblock.buf[:] = position_bytes
''', '''        nameblock.buf[:] = position_bytes
        self.memory.buf[:] = (self.length + 1).to_bytes(8, "little")
''')),
 ("s-update-comp", ALLC, F, '''        self.cache = []
        for ix, key in self._enumerate_keys():
            self.cache.append(key)
        return self.cache''', '''        self.cache = [key for _, key in self._enumerate_keys()]
        return self.cache'''),
 ("s-check-try", ALLC, F, '''        if exists_block(self.hash_address(target)):
            nameblock = SharedMemory(self.hash_address(target))
            return int.from_bytes(nameblock.buf.tobytes(), "little")
        return None''', '''        try:
            nameblock = SharedMemory(self.hash_address(target))
        except FileNotFoundError:
            return None
        return int.from_bytes(nameblock.buf.tobytes(), "little")'''),
 ("s-meta-del", ["C01", "C02", "C04", "C05", "C07"], F, '''            if (
                (found_at == self.length - 1)
                or not exists_block(self.val_address(self.length - 1))
            ):
                delete_block(self.val_address(found_at), True)
            elif exists_block(self.val_address(self.length - 1)):
                valblock = SharedMemory(self.val_address(self.length - 1))
                valbytes = valblock.buf.tobytes()
                moved_block = open_block(
                    self.val_address(found_at), size=len(valbytes), overwrite=True
                )
                moved_block.buf[:] = valbytes
                delete_block(self.val_address(self.length - 1))
''', '''            last = self.length - 1
            delete_block(self.val_address(found_at), True)
            if found_at != last and exists_block(self.val_address(last)):
                valbytes = fetch_block_bytes(self.val_address(last))
                moved = SharedMemory(
                    self.val_address(found_at), create=True, size=len(valbytes)
                )
                moved.buf[:] = valbytes
                delete_block(self.val_address(last))
'''),
 ("s-reserved-helper", ["C06", "C08", "C09", "C10", "C11"], F, '''        if isinstance(key, str) and key.startswith("index"):
            raise KeyError("'index' is a reserved key prefix")
        try:
            self.index.add''', '''        self._refuse(key)
        try:
            self.index.add''', (F, '''    def address(self, key):''', '''    def _refuse(self, key):
        if isinstance(key, str) and key[:5] == "index":
            raise KeyError("reserved")

    def address(self, key):''')),
 ("s-getitem-raw", ["C06", "C09"], F, '''        try:
            return self.remember(self.address(key), fetch)
        except FileNotFoundError:
            raise KeyError(f"{key} not found in this object's space.")
''', '''        address = self.address(key)
        try:
            value = self.remember(address, fetch=fetch)
        except FileNotFoundError as missing:
            raise KeyError(f"{key} not found in this object's space.") from missing
        return value
'''),
 ("s-close-while", ["C12", "C13"], F, '''            keys = self.update_index().copy()
            for key in keys:''', '''            for key in list(self.keys()):'''),
 ("s-close-helper", ["C12", "C13"], F, '''    def close(self, dump=False):
        for key in self.update_index():
            if dump is True:
                self.dump(key)
            del self[key]
        self.index.close()''', '''    def _drop(self, key, dump):
        if dump is True:
            self.dump(key)
        del self[key]

    def close(self, dump=False):
        for key in tuple(self.update_index()):
            self._drop(key, dump)
        self.index.close()'''),
 ("s-del-inline", ["C12"], F, '''    def clear(self):
        for key in self.update_index():
            del self[key]

    def __str__(self):
        return f"''', '''    def clear(self):
        for key in self.update_index():
            self.__delitem__(key)

    def __str__(self):
        return f"'''),
 ("s-count-delete", ["C12"], F, '''        if exists_block(f"{self.name}_count"):
            block = SharedMemory(f"{self.name}_count")
            block.unlink()
            block.close()
''', '''        delete_block(f"{self.name}_count", missing_ok=True)
'''),
 ("s-open-block", ALLC, MU, '''    try:
        return SharedMemory(address, size=size, create=create)
    except FileExistsError:
        if overwrite is False:
            return SharedMemory(address)
        old_block = SharedMemory(address)
        old_block.unlink()
        old_block.close()
        return SharedMemory(address, True, size)''', '''    try:
        return SharedMemory(name=address, create=create, size=size)
    except FileExistsError:
        existing = SharedMemory(name=address)
    if overwrite is False:
        return existing
    existing.unlink()
    existing.close()
    return SharedMemory(name=address, create=True, size=size)'''),
 ("s-sticky-fetch", ["C06", "C09", "C12", "C13"], F, '''        try:
            block = SharedMemory(self.address)
        except FileNotFoundError:
            return None
        stream = block.buf.tobytes()
        self._cached_value = self.decode(stream)
        return self._cached_value''', '''        try:
            stream = fetch_block_bytes(self.address)
        except FileNotFoundError:
            return None
        self._cached_value = value = self.decode(stream)
        return value'''),
 ("s-memorize-helper", ["C06", "C07", "C08", "C11"], CO, '''        encoded = encode(value)
        size = len(encoded)
        block = open_block(address, size, True, True)
        block.buf[:] = encoded
        return address''', '''        encoded = encode(value)
        block = open_block(address, len(encoded), overwrite=True)
        block.buf[:len(encoded)] = encoded
        return address'''),
 ("s-array-nbytes", ["C06", "C07", "C08"], CO, '''        block = open_block(address, array.size * array.itemsize, True, True)
        shared_array = np.ndarray(
            array.shape, dtype=array.dtype, buffer=block.buf
        )
        shared_array[...] = array''', '''        block = open_block(address, array.nbytes, overwrite=True)
        shared_array = np.ndarray(array.shape, array.dtype, block.buf)
        np.copyto(shared_array, array)'''),
 ("s-array-shape-list", ["C06"], CO, '''            "shape": array.shape,''', '''            "shape": list(array.shape),'''),
 ("s-tracker-loop", ["C14"], MU, '''    def fix_register(name, rtype):
        if rtype == "shared_memory":
            return
        return resource_tracker._resource_tracker.register(name, rtype)''', '''    def fix_register(name, rtype):
        if rtype != "shared_memory":
            return resource_tracker._resource_tracker.register(name, rtype)'''),
 ("s-tracker-pop", ["C14"], MU, '''    if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
        del resource_tracker._CLEANUP_FUNCS["shared_memory"]''', '''    resource_tracker._CLEANUP_FUNCS.pop("shared_memory", None)'''),
 ("s-init-kw", ["C13", "C15"], F, '''            self.index = index_type(
                f"{prefix}_index",
                create,
                cleanup_on_exit,
                debug,
                **index_kwargs
            )''', '''            self.index = index_type(
                name=f"{prefix}_index",
                create=create,
                cleanup_on_exit=cleanup_on_exit,
                debug=debug,
                **index_kwargs
            )'''),
 ("s-lockclass", ["C01", "C02", "C15"], F, '''        if no_lockout is True:
            self.lock_class = FakeLock
        else:
            self.lock_class = SlidingLock''', '''        self.lock_class = FakeLock if no_lockout is True else SlidingLock'''),
 ("s-dbg", ["C02", "C03", "C15"], F, '''def log(message):''', '''def log(message, *_):'''),
 ("s-write-len-direct", ["C01", "C04", "C07"], F, '''        new_length_bytes = (self.length - 1).to_bytes(8, "little")
        self.memory.buf[:] = new_length_bytes
        if getattr''', '''        self._set_length(self.length - 1)
        if getattr''', (F, '''    def update_length(self):''', '''    def _set_length(self, n):
        self.memory.buf[:] = n.to_bytes(8, "little")

    def update_length(self):''')),
]
