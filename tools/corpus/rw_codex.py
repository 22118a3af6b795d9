"""rewrites of codex that keep behaviour"""
import importlib.util, os
_s = importlib.util.spec_from_file_location("rwlib", os.path.join(os.path.dirname(__file__), "rwlib.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
I = _m.Corpus("codex/implements.py")
K = _m.Corpus("codex/codecs.py")
U = _m.Corpus("codex/memutilz.py")
S = I.same
T = I.tweak

S("l-enter-helper", {"SlidingLock.__enter__": '''
def _abandon(self, ex):
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},crashing out: {ex}")
    self.release()

def __enter__(self):
    try:
        self._renumber()
        self.acquire()
    except BaseException as ex:
        self._abandon(ex)
        raise
    return self
'''})
S("l-enter-flag", {"SlidingLock.__enter__": '''
def __enter__(self):
    done = False
    try:
        self._renumber()
        self.acquire()
        done = True
    finally:
        if not done:
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},crashing out")
            self.release()
    return self
'''})
S("l-renumber-for", {"SlidingLock._renumber": '''
def _try_slot(self, number):
    try:
        return SharedMemory(f"{self.name}_{number}", size=1, create=True)
    except FileExistsError:
        return None

def _renumber(self):
    self.floor = self._get_floor()
    self.number = self.floor + 1
    while True:
        self.marker = self._try_slot(self.number)
        if self.marker is None:
            self.number += 1
            continue
        floor = self._get_floor()
        if floor < self.number:
            break
        self.marker.unlink()
        self.marker.close()
        self.marker = None
        self.floor = floor
        self.number = floor + 1
    if self.debug is True:
        log(f"{here()},{self.number},taking slot {self.number}")
'''})
S("l-check-asc", {"SlidingLock._check_acquirement": '''
def _check_acquirement(self):
    for other_number in range(self.floor, self.number):
        if not exists_block(f"{self.name}_{other_number}"):
            continue
        if getattr(self, "debug") is True:
            log(f"{here()},{self.number},{other_number} has precedence")
        self.wait()
        return False
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},taking precedence")
    return True
'''})
S("l-check-any", {"SlidingLock._check_acquirement": '''
def _check_acquirement(self):
    if any(
        exists_block(f"{self.name}_{number}")
        for number in reversed(range(self.floor, self.number))
    ):
        self.wait()
        return False
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},taking precedence")
    return True
'''})
S("l-check-next", {"SlidingLock._check_acquirement": '''
def _check_acquirement(self):
    ahead = next(
        (
            number for number in range(self.floor, self.number)
            if exists_block(f"{self.name}_{number}")
        ),
        None
    )
    if ahead is not None:
        if getattr(self, "debug") is True:
            log(f"{here()},{self.number},{ahead} has precedence")
        self.wait()
        return False
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},taking precedence")
    return True
'''})
S("l-check-while", {"SlidingLock._check_acquirement": '''
def _check_acquirement(self):
    other = self.number - 1
    while other >= self.floor:
        if exists_block(f"{self.name}_{other}"):
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},{other} has precedence")
            self.wait()
            return False
        other -= 1
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},taking precedence")
    return True
'''})
S("l-acquire-loop", {"SlidingLock.acquire": '''
def acquire(self):
    try:
        self.lock = SharedMemory(
            f"{self.name}_{self.number}_lock", size=1, create=True
        )
        if self.debug is True:
            log(f"{here()},{self.number},placed lock")
    except FileExistsError:
        if self.debug is True:
            log(f"{here()},{self.number},already have lock")
        self.acquired = True
    while not self.acquired:
        self.acquired = self._check_acquirement()
'''})
S("l-acquire-inline", {"SlidingLock.acquire": '''
def acquire(self):
    lock_name = f"{self.name}_{self.number}_lock"
    try:
        self.lock = SharedMemory(lock_name, size=1, create=True)
    except FileExistsError:
        if getattr(self, "debug") is True:
            log(f"{here()},{self.number},already have lock")
        self.acquired = True
        return
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},placed lock")
    while True:
        if self._check_acquirement():
            self.acquired = True
            return
'''})
S("l-release-flat", {"SlidingLock.release": '''
def _drop(self, name):
    block = getattr(self, name)
    if block is None:
        return
    block.unlink()
    block.close()
    setattr(self, name, None)
    if getattr(self, "debug") is True:
        log(f"{here()},{self.number},released {name}")

def release(self):
    if self.acquired is True:
        new_floor = self.number.to_bytes(5, "little")
        self.count.buf[:] = new_floor
        if getattr(self, "debug") is True:
            log(f"{here()},{self.number},set floor to {self.number}")
    self._drop("lock")
    self._drop("marker")
    self.acquired = False
'''})
S("l-release-unrolled", {"SlidingLock.release": '''
def release(self):
    if self.acquired:
        self.count.buf[:] = self.number.to_bytes(5, "little")
    if self.lock is not None:
        self.lock.unlink()
        self.lock.close()
        self.lock = None
    if self.marker is not None:
        self.marker.unlink()
        self.marker.close()
        self.marker = None
    self.acquired = False
'''})
T("l-floor-bytes", "SlidingLock._get_floor", ('int.from_bytes(self.count.buf.tobytes(), "little")', 'int.from_bytes(bytes(self.count.buf), "little")'))
T("l-wait-order", "SlidingLock.wait", ("    if self.max_spins is not None:\n        if self.spins > self.max_spins:", "    if self.max_spins is not None and self.spins > self.max_spins:\n        if True:"))
T("l-exit", "SlidingLock.__exit__", ("    self.release()", "    self.release()\n    return None"))

S("i-check", {"TagIndex.check": '''
def check(self, target):
    address = self.hash_address(target)
    if not exists_block(address):
        return None
    block = SharedMemory(address)
    position = int.from_bytes(block.buf.tobytes(), "little")
    return position
'''})
S("i-check-try", {"TagIndex.check": '''
def check(self, target):
    try:
        block = SharedMemory(self.hash_address(target))
    except FileNotFoundError:
        return None
    return int.from_bytes(block.buf.tobytes(), "little")
'''})
S("i-update-comp", {"TagIndex.update": '''
def update(self):
    self.cache = [key for _, key in self._enumerate_keys()]
    return self.cache
'''})
S("i-update-list", {"TagIndex.update": '''
def update(self):
    self.cache = list(map(lambda pair: pair[1], self._enumerate_keys()))
    return self.cache
'''})
S("i-enumerate-helper", {"TagIndex._enumerate_keys": '''
def _key_in_slot(self, ix):
    block = SharedMemory(self.key_address(ix))
    return block.buf.tobytes().decode()

def _enumerate_keys(self):
    self.update_length()
    for ix in range(self.length):
        try:
            key = self._key_in_slot(ix)
        except FileNotFoundError:
            continue
        yield ix, key
'''})
S("i-enumerate-while", {"TagIndex._enumerate_keys": '''
def _enumerate_keys(self):
    self.update_length()
    ix = 0
    while ix < self.length:
        if exists_block(self.key_address(ix)):
            keyblock = SharedMemory(self.key_address(ix))
            yield ix, keyblock.buf.tobytes().decode()
        ix += 1
'''})
S("i-add-helpers", {"TagIndex._add": '''
def _write(self, address, content):
    block = open_block(address, create=True, size=len(content), overwrite=True)
    block.buf[:] = content

def _add(self, key, exists_ok):
    found_at = self.check(key)
    if found_at is not None and exists_ok is not True:
        raise FileExistsError
    if found_at is not None:
        if getattr(self, "debug") is True:
            log(f"{here()},,{key} already in index at {found_at}")
        return found_at
    self.update_length()
    position = self.length
    self.memory.buf[:] = (position + 1).to_bytes(8, "little")
    self._write(self.key_address(position), str(key).encode())
    self._write(self.hash_address(key), position.to_bytes(8, "little"))
    if getattr(self, "debug") is True:
        log(f"{here()},,set {self.length} to {key}")
    return self.length
'''})
S("i-add-reorder", {"TagIndex._add": '''
def _add(self, key, exists_ok):
    found_at = self.check(key)
    if found_at is not None:
        if exists_ok is not True:
            raise FileExistsError
        if getattr(self, "debug") is True:
            log(f"{here()},,{key} already in index at {found_at}")
        return found_at
    self.update_length()
    keybytes = str(key).encode()
    keyblock = open_block(
        self.key_address(self.length), create=True, size=len(keybytes), overwrite=True
    )
    keyblock.buf[:] = keybytes
    nameblock = open_block(self.hash_address(key), create=True, size=8)
    nameblock.buf[:] = self.length.to_bytes(8, "little")
    self.memory.buf[:] = (self.length + 1).to_bytes(8, "little")
    if getattr(self, "debug") is True:
        log(f"{here()},,set {self.length} to {key}")
    return self.length
'''})
S("i-del-last", {"TagIndex._delitem": '''
def _move_last(self, last, found_at):
    lastblock = SharedMemory(self.key_address(last))
    lastkey = lastblock.buf.tobytes()
    moved_block = open_block(
        self.key_address(found_at), size=len(lastkey), overwrite=True
    )
    moved_block.buf[:] = lastkey
    nameblock = SharedMemory(self.hash_address(lastkey.decode()))
    nameblock.buf[:] = found_at.to_bytes(8, "little")
    lastblock.unlink()
    lastblock.close()

def _delitem(self, target):
    found_at = self.check(target)
    if found_at is None:
        raise KeyError(f"{target} not found in this index.")
    self.update_length()
    last = self.length - 1
    if found_at == last:
        delete_block(self.key_address(found_at))
        if getattr(self, "debug") is True:
            log(f"{here()},,deleted block at position {found_at}")
    else:
        self._move_last(last, found_at)
        if getattr(self, "debug") is True:
            log(f"{here()},,overwrote block at position {found_at}")
    delete_block(self.hash_address(target))
    self.memory.buf[:] = last.to_bytes(8, "little")
    if getattr(self, "debug") is True:
        log(f"{here()},,deleted {target} at index slot {found_at}")
    return found_at
'''})
S("i-del-single", {"TagIndex._delitem": '''
def _delitem(self, target):
    found_at = self.check(target)
    if found_at is None:
        raise KeyError(f"{target} not found in this index.")
    self.update_length()
    last = self.length - 1
    if found_at < last:
        lastkey = fetch_block_bytes(self.key_address(last))
        moved_block = open_block(
            self.key_address(found_at), size=len(lastkey), overwrite=True
        )
        moved_block.buf[:] = lastkey
        nameblock = SharedMemory(self.hash_address(lastkey.decode()))
        nameblock.buf[:] = found_at.to_bytes(8, "little")
    delete_block(self.key_address(last))
    delete_block(self.hash_address(target))
    self.memory.buf[:] = last.to_bytes(8, "little")
    if getattr(self, "debug") is True:
        log(f"{here()},,deleted {target} at index slot {found_at}")
    return found_at
'''})
S("i-lock-var", {"TagIndex.add": '''
def add(self, key, value=None, exists_ok=True):
    if value is not None:
        raise ValueError("TagIndex does not support value-setting.")
    lock = self.lock_class(self.name, self.debug)
    with lock:
        position = self._add(key, exists_ok)
    return position
'''})
S("i-lock-manager", {"TagIndex.add": '''
def _guard(self):
    return self.lock_class(self.name, self.debug)

def add(self, key, value=None, exists_ok=True):
    if value is not None:
        raise ValueError("TagIndex does not support value-setting.")
    with self._guard():
        return self._add(key, exists_ok)
''', "TagIndex.__delitem__": '''
def __delitem__(self, target):
    with self._guard():
        return self._delitem(target)
'''})
S("i-close", {"TagIndex.close": '''
def close(self):
    for key in list(self.update()):
        del self[key]
    self.memory.unlink()
    self.memory.close()
    delete_block(f"{self.name}_count", True)
    atexit.unregister(self.close)
'''})
S("i-close-while", {"TagIndex.close": '''
def close(self):
    remaining = self.update()
    for key in remaining:
        self.remove(key)
    count_name = f"{self.name}_count"
    if exists_block(count_name):
        delete_block(count_name)
    self.memory.unlink()
    self.memory.close()
    atexit.unregister(self.close)
'''})
S("m-del", {"MetaTagIndex.__delitem__": '''
def __delitem__(self, target):
    with self.lock_class(self.name, self.debug):
        found_at = super()._delitem(target)
        last = self.length - 1
        source, dest = self.val_address(last), self.val_address(found_at)
        if found_at != last and exists_block(source):
            valbytes = fetch_block_bytes(source)
            moved_block = open_block(dest, size=len(valbytes), overwrite=True)
            moved_block.buf[:] = valbytes
            delete_block(source)
        else:
            delete_block(dest, True)
    return found_at
'''})
S("m-add", {"MetaTagIndex.add": '''
def add(self, key, value=None, exists_ok=True):
    with self.lock_class(self.name, self.debug):
        slot = self._add(key, exists_ok)
        if value is None:
            return slot
        self.memorize(value, self.val_address(slot))
        return slot
'''})
S("m-enum", {"MetaTagIndex._enumerate": '''
def _enumerate(self, get_keys=False, get_values=False):
    self.update_length()
    for ix in range(self.length):
        output = [ix]
        if get_keys is True:
            output.append(self._load_key(ix))
        if get_values is True:
            output.append(self._load_value(ix))
        yield tuple(output)
'''})
S("m-items", {"MetaTagIndex.items": '''
def items(self):
    return [(key, val) for _, key, val in self._enumerate(get_keys=True, get_values=True)]
''', "MetaTagIndex.keys": '''
def keys(self):
    return [pair[1] for pair in self._enumerate(get_keys=True)]
''', "MetaTagIndex.values": '''
def values(self):
    return [pair[-1] for pair in self._enumerate(get_values=True)]
'''})
S("m-getitem", {"MetaTagIndex.__getitem__": '''
def __getitem__(self, key):
    if (found_at := self.check(key)) is not None:
        return fetch_block_bytes(self.val_address(found_at))
    raise KeyError(f"{key} not found in index.")
'''})
T("m-keyword", "MetaTagIndex.__init__", ("super().__init__(name, create, cleanup_on_exit, debug, no_lockout)", "super().__init__(\n            name=name, create=create, cleanup_on_exit=cleanup_on_exit,\n            debug=debug, no_lockout=no_lockout\n        )"))
T("x-lockclass", "ShareableIndex.__init__", ("    if no_lockout is True:\n            self.lock_class = FakeLock\n        else:\n            self.lock_class = SlidingLock\n".replace("            ", "        ").replace("        else", "    else"), "    self.lock_class = FakeLock if no_lockout is True else SlidingLock\n"))
T("x-kw", "TagIndex.__init__", ("super().__init__(name, create, cleanup_on_exit, no_lockout, debug)", "super().__init__(\n            name=name, create=create, cleanup_on_exit=cleanup_on_exit,\n            no_lockout=no_lockout, debug=debug\n        )"))
S("n-guard", {"Notepad.__setitem__": '''
@staticmethod
def _refuse_reserved(key):
    if isinstance(key, str) and key.startswith("index"):
        raise KeyError("'index' is a reserved key prefix")

def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
    self._refuse_reserved(key)
    try:
        self.index.add(key, meta, exists_ok=exists_ok)
        self._store(key, value, exists_ok)
    except FileExistsError:
        raise KeyError(
            f"{key} already exists in this object's cache. pass "
            f"exists_ok=True to overwrite it."
        )
    if self.debug is True:
        log(f"{here()},,set key={key} to {value}")

def _store(self, key, value, exists_ok):
    address = self.address(key)
    try:
        self.memorize(value, address, exists_ok)
    except BaseException:
        if not exists_block(address):
            self.index.remove(key)
        raise
''', "Notepad.__delitem__": '''
def __delitem__(self, key):
    self._refuse_reserved(key)
    try:
        delete_block(self.address(key))
    except FileNotFoundError:
        raise KeyError(f"{key} not apparently assigned")
    self.index.remove(key)
'''})
S("n-iter", {"AbstractNotepad.iteritems": '''
def iteritems(self):
    yield from ((key, self[key]) for key in self.update_index())
''', "AbstractNotepad.itervalues": '''
def itervalues(self):
    for key, value in self.iteritems():
        yield value
'''})
S("n-iter-map", {"AbstractNotepad.itervalues": '''
def itervalues(self):
    return map(self.__getitem__, self.update_index())
''', "AbstractNotepad.iteritems": '''
def iteritems(self):
    return ((key, self[key]) for key in self.update_index())
'''})
S("n-close", {"Notepad.close": '''
def close(self, dump=False):
    try:
        for key in tuple(self.update_index()):
            if dump is True:
                self.dump(key)
            self.__delitem__(key)
        self.index.close()
    except AttributeError:
        pass
    atexit.unregister(self.close)
''', "Notepad.clear": '''
def clear(self):
    keys = list(self.update_index())
    while keys:
        del self[keys.pop()]
'''})
S("n-close-two", {"Notepad.close": '''
def close(self, dump=False):
    try:
        keys = list(self.update_index())
        if dump is True:
            for key in keys:
                self.dump(key)
        for key in keys:
            del self[key]
        self.index.close()
    except AttributeError:
        pass
    atexit.unregister(self.close)
'''})
S("g-get", {"GridPaper.__getitem__": '''
def __getitem__(self, key, fetch=True, copy=True):
    try:
        metadata = self.index[key]
        if fetch is False:
            return self.remember(metadata, fetch)
        array, block = self.remember(metadata, fetch, copy)
    except FileNotFoundError:
        raise KeyError(f"{key} not found in this object's space.")
    if copy is False:
        self._open_blocks.append(block)
    return array
'''})
S("g-set", {"GridPaper.__setitem__": '''
def __setitem__(
    self, key, value, exists_ok: bool = True, keep_open: bool = False
):
    if isinstance(key, str) and key.startswith("index"):
        raise KeyError("'index' is a reserved namespace.")
    try:
        stored = self.memorize(value, self.address(key), exists_ok, keep_open)
    except FileExistsError:
        raise KeyError(f"{key} already exists in this object's cache.")
    metadata, block = stored
    if keep_open is True:
        self._open_blocks.append(block)
    self.index.add(key, metadata)
'''})
S("st-read", {"Sticky.read": '''
def read(self, reread=False):
    if reread is False and self._cached_value is not None:
        return self._cached_value
    if not exists_block(self.address):
        return None
    self._cached_value = self.decode(fetch_block_bytes(self.address))
    return self._cached_value
'''})
S("st-note", {"Sticky.note": '''
@classmethod
def note(cls, obj, address=None, cleanup_on_exit=False):
    if address is None:
        address = randint(100000, 999999)
    note = Sticky(str(address), obj, cleanup_on_exit)
    note.stick(obj)
    return note
'''})
S("st-stick", {"Sticky.stick": '''
def stick(self, obj):
    encoded = self.encode(obj)
    block = open_block(self.address, len(encoded), overwrite=True)
    block.buf[:len(encoded)] = encoded
    self._cached_value = obj
'''})
K.tweak("k-generic-inline", "generic_mnemonic_factory", ("block = open_block(address, size, True, True)\n        block.buf[:] = encoded", "open_block(address, size, True, True).buf[:] = encoded"))
K.tweak("k-array", "numpy_mnemonic_factory", ("array.size * array.itemsize, True, True", "array.nbytes, True, True"))
K.tweak("k-array2", "numpy_mnemonic_factory", ('"dtype": array.dtype.str', '"dtype": str(array.dtype.str)'))
CASES = I.cases + K.cases + U.cases
