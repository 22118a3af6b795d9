IMP = "codex/implements.py"
PRE = '''
import os, sys, time
from multiprocessing.shared_memory import SharedMemory
from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker
deactivate_shared_memory_resource_tracker()
from dustgoggles.codex import implements as imp, codecs
from dustgoggles.codex.implements import *
NAME = f"vseed{os.getpid()}x{time.time_ns()}"
import atexit, glob
atexit.register(lambda: [os.unlink(f) for f in glob.glob(f"/dev/shm/{NAME}*")])
'''
SEEDS = [
dict(id="C01-meta-unlocked", property="C01",
 edits=[(IMP, """            writehead = super()._add(key, exists_ok)
            if value is not None:
                self.memorize(value, self.val_address(writehead))
            return writehead
""", """            writehead = super()._add(key, exists_ok)
        if value is not None:
            self.memorize(value, self.val_address(writehead))
        return writehead
""")],
 demo=PRE + '''
# another process removes the key and adds its own in the gap after add() releases the lock
ix = MetaTagIndex(NAME)
other = MetaTagIndex(NAME, create=False)
class Gap(SlidingLock):
    def release(self):
        super().release()
        if self.number == 1:
            other.remove("mine")
            other.add("theirs", "their metadata")
ix.lock_class = Gap
ix.add("mine", "my metadata")
got = dict(ix.items())
assert got == {"theirs": "their metadata"}, got
''', needs="another process removing the key and reusing its slot between the key's and the metadata's write",
 what="a metadata index writes metadata after giving the lock back"),
dict(id="C01-debug-unlocks", property="C01",
 edits=[(IMP, "        if no_lockout is True:\n", "        if no_lockout is True or debug is True:\n")],
 demo=PRE + '''
held = []
class Rec(SlidingLock):
    def __enter__(self):
        held.append(self.name)
        return super().__enter__()
imp.SlidingLock = Rec
for debug in (False, True):
    n = NAME + str(debug)
    ix = TagIndex(n, debug=debug)
    del held[:]
    ix.add("a"); ix.remove("a")
    assert len(held) == 2, (debug, held)
''', needs="an index constructed with debug=True and used by more than one process",
 what="turning debug logging on silently disables locking"),
dict(id="C02-failed-claim", property="C02",
 edits=[(IMP, '        for thing in ("lock", "marker"):\n', '        for thing in ("lock", "marker") if self.acquired else ("lock",):\n')],
 demo=PRE + '''
a = SlidingLock(NAME)
a.__enter__()
b = SlidingLock(NAME)
b.max_spins = 3
try:
    b.__enter__()
    raise AssertionError("entered a held lock")
except TimeoutError:
    pass
a.__exit__(None, None, None)
c = SlidingLock(NAME)
c.max_spins = 3
c.__enter__()
c.__exit__(None, None, None)
''', needs="a process that gives up waiting for the lock",
 what="a process that times out leaves its numbered claim behind, so later ones wait for ever"),
dict(id="C02-readd-deadlock", property="C02",
 edits=[(IMP, """            if value is not None:
                self.memorize(value, self.val_address(writehead))
            return writehead
""", """            if value is not None:
                self.memorize(value, self.val_address(writehead))
            elif exists_block(self.val_address(writehead)):
                # the caller withdrew the metadata: start over with a clean slot
                self.remove(key)
                writehead = super()._add(key, exists_ok)
            return int(writehead)
""")],
 demo=PRE + '''
class Impatient(SlidingLock):
    def __init__(self, *a):
        super().__init__(*a)
        self.max_spins = 50
ix = MetaTagIndex(NAME)
ix.lock_class = Impatient
ix.add("a", 1); ix.add("b")
ix.add("a", 2); ix.add("b")
ix.add("a")
assert ix.keys() == ["a", "b"]
''', needs="re-adding a key that has metadata, without metadata", what="the index waits for a lock it holds itself"),
dict(id="C03-previous-only", property="C03",
 edits=[(IMP, "        for other_number in reversed(range(self.floor, self.number)):\n",
              "        for other_number in (self.number - 1,):\n")],
 demo=PRE + '''
holder = SlidingLock(NAME); holder.__enter__()
quitter = SlidingLock(NAME); quitter.max_spins = 2
third = SlidingLock(NAME); third.max_spins = 5
def enter(l):
    try:
        l.__enter__()
        return True
    except TimeoutError:
        return False
class Waits(SlidingLock):
    def wait(self):
        if self.spins == 0:
            # while this one waits, a third claims and the middle one gives up
            third._renumber()
        super().wait()
mid = Waits(NAME); mid.max_spins = 2
assert not enter(mid)
third.max_spins = 3
try:
    third.acquire()
    entered = True
except TimeoutError:
    entered = False
assert not entered, "two holders at once"
''', needs="three processes, the middle one giving up while the first still holds the lock",
 what="a claimant only looks at the slot right below its own"),
dict(id="C03-floor-late", property="C03",
 edits=[(IMP, """        if self.acquired is True:
            self.count.buf[:] = self.number.to_bytes(5, "little")
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},set floor to {self.number}")
        for thing in ("lock", "marker"):
            block = getattr(self, thing)
            if block is None:
                continue
            block.unlink()
            block.close()
            setattr(self, thing, None)
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},released {thing}")
        self.acquired = False
""", """        for thing in ("lock", "marker"):
            block = getattr(self, thing)
            if block is None:
                continue
            block.unlink()
            block.close()
            setattr(self, thing, None)
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},released {thing}")
        if self.acquired is True:
            self.count.buf[:] = self.number.to_bytes(5, "little")
            if getattr(self, "debug") is True:
                log(f"{here()},{self.number},set floor to {self.number}")
        self.acquired = False
""")],
 demo=PRE + '''
a, b, c = SlidingLock(NAME), SlidingLock(NAME), SlidingLock(NAME)
entered = []
class Between(SharedMemory):
    def unlink(self):
        super().unlink()
        if self.name.endswith("_1") and not entered:
            entered.append(None)
            # the first holder has withdrawn its claim: two others come and go, a third stays
            for _ in range(2):
                with SlidingLock(NAME):
                    pass
            b.__enter__()
a.__enter__()
a.marker.__class__ = Between
a.__exit__(None, None, None)
c.max_spins = 2
try:
    c.__enter__()
    assert not b.acquired, "two holders at once"
except TimeoutError:
    pass
''', needs="other processes coming, going and entering between the withdrawal of the claim and the publication of the floor",
 what="the floor is published after the claims are withdrawn, so a slot can be claimed twice"),
dict(id="C04-stale-length", property="C04",
 edits=[(IMP, """            raise KeyError(f"{target} not found in this index.")
        self.update_length()
""", """            raise KeyError(f"{target} not found in this index.")
        if self.length is None:
            self.update_length()
""")],
 demo=PRE + '''
ix = TagIndex(NAME); other = TagIndex(NAME, create=False)
ix.add("a"); ix.update()
other.add("b"); other.add("c")
ix.remove("a")
assert sorted(other.update()) == ["b", "c"], other.update()
''', needs="two objects on one index, the remover's remembered length being out of date",
 what="removing a key trusts the length read earlier"),
dict(id="C04-short-hash", property="C04",
 edits=[(IMP, '        return f"{self.name}_name_{namehash}"\n', '        return f"{self.name}_name_{namehash[:6]}"\n')],
 demo=PRE + '''
ix = TagIndex(NAME)
seen = {}
for i in range(100000):
    h = ix.hash_address(f"k{i}")
    if h in seen:
        break
    seen[h] = f"k{i}"
    if i > 40000:
        break
if h in seen and seen[h] != f"k{i}":
    ix.add(seen[h]); ix.add(f"k{i}")
    assert len(ix.update()) == 2, ix.update()
''', needs="two keys whose digests share their first 24 bits",
 what="reverse-lookup entries of different keys can collide"),
dict(id="C04-forgotten-hash", property="C04",
 edits=[(IMP, """                log(f"{here()},,deleted block at position {found_at}")
        delete_block(self.hash_address(target))
""", """                log(f"{here()},,deleted block at position {found_at}")
            delete_block(self.hash_address(target))
""")],
 demo=PRE + '''
ix = TagIndex(NAME)
for k in "abc":
    ix.add(k)
ix.remove("c"); ix.remove("a")
ix.add("a")
assert sorted(ix.update()) == ["a", "b"], ix.update()
''', needs="removing a key that is not the last one and adding it again",
 what="the reverse-lookup entry of a removed key survives when another key is moved into its slot"),
dict(id="C05-falsy-metadata", property="C05",
 edits=[(IMP, "            if value is not None:\n                self.memorize(value, self.val_address(writehead))\n",
              "            if value:\n                self.memorize(value, self.val_address(writehead))\n")],
 demo=PRE + '''
ix = MetaTagIndex(NAME)
ix.add("a", {"units": "nm"})
ix.add("a", {})
assert ix.items() == [("a", {})], ix.items()
''', needs="replacing metadata by an empty or zero value", what="falsy metadata is silently not recorded"),
dict(id="C05-inherited", property="C05",
 edits=[(IMP, """            if (
                (found_at == self.length - 1)
                or not exists_block(self.val_address(self.length - 1))
            ):
                delete_block""", """            if found_at == self.length - 1:
                delete_block""")],
 demo=PRE + '''
ix = MetaTagIndex(NAME)
ix.add("a", "meta of a"); ix.add("b")
ix.remove("a")
assert ix.items() == [("b", None)], ix.items()
''', needs="removing a key with metadata while the last key has none",
 what="the key moved into the freed slot inherits the removed key's metadata"),
dict(id="C06-byte-order", property="C06",
 edits=[("codex/codecs.py", '            "dtype": array.dtype.str,\n', '            "dtype": array.dtype.name,\n')],
 demo=PRE + '''
import numpy as np
g = GridPaper(NAME, create=True)
for a in (np.arange(4), np.ones((2, 2)), np.arange(4, dtype=">i4")):
    g["a"] = a
    assert g["a"].tolist() == a.tolist() and g["a"].dtype == a.dtype, g["a"]
''', needs="an array that is not in native byte order", what="arrays come back byte-swapped"),
dict(id="C06-fortran", property="C06",
 edits=[("codex/codecs.py", "            array.shape, dtype=array.dtype, buffer=block.buf\n", "            array.shape, dtype=array.dtype, buffer=block.buf,\n            order=\"F\" if np.isfortran(array) else \"C\"\n")],
 demo=PRE + '''
import numpy as np
g = GridPaper(NAME, create=True)
a = np.arange(6).reshape(2, 3)
for x in (a, np.asfortranarray(a), a.T):
    g["a"] = x
    assert g["a"].tolist() == x.tolist(), g["a"]
''', needs="an array that is not in C order", what="elements are stored in memory order but read in C order"),
dict(id="C07-reuse-bigger", property="C07",
 edits=[("codex/memutilz.py", "        old_block = SharedMemory(address)\n        old_block.unlink()\n",
                              "        old_block = SharedMemory(address)\n        if old_block.size >= size:\n            return old_block\n        old_block.unlink()\n"),
        ("codex/codecs.py", "        block.buf[:] = encoded\n", "        block.buf[:size] = encoded\n")],
 demo=PRE + '''
from functools import partial
n = Notepad(NAME, create=True, codec_factory=codecs.json_codec_factory)
n["a"] = 1
n["a"] = [1, 2, 3]
n["a"] = [1]
assert n["a"] == [1] and len(n.get_raw("a")) == 3
''', needs="storing a smaller value over a bigger one", what="a bigger block is kept, leaving stale bytes after the value"),
dict(id="C08-set-drops-flag", property="C08",
 edits=[(IMP, "    def set(self, key, value, exists_ok: bool = True):\n        return self.__setitem__(key, value, exists_ok)\n\n    def values(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the itervalues method for now\")\n\n    def items(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the iteritems method for now\")\n\n    def dump(self, key, fn=None):\n",
 "    def set(self, key, value, exists_ok: bool = True):\n        return self.__setitem__(key, value, keep_open=not exists_ok)\n\n    def values(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the itervalues method for now\")\n\n    def items(self):\n        # TODO: something with MemoryViews?\n        raise NotImplementedError(\"Try using the iteritems method for now\")\n\n    def dump(self, key, fn=None):\n")],
 demo=PRE + '''
import numpy as np
g = GridPaper(NAME, create=True)
g.set("a", np.arange(3))
try:
    g.set("a", np.arange(5), exists_ok=False)
    raise AssertionError("overwritten")
except KeyError:
    pass
assert g["a"].tolist() == [0, 1, 2]
''', needs="set() with exists_ok=False on a grid paper key that has a value", what="the existing array is overwritten"),
dict(id="C09-stored-none", property="C09",
 edits=[(IMP, """    def get(self, key, default=None, fetch=True):
        try:
            return self.__getitem__(key, fetch)
        except KeyError:
            return default
""", """    def get(self, key, default=None, fetch=True):
        try:
            value = self.__getitem__(key, fetch)
        except KeyError:
            value = None
        return default if value is None else value
""")],
 demo=PRE + '''
n = Notepad(NAME, create=True)
n["a"] = None
n["b"] = 0
assert n.get("b", 5) == 0 and n.get("c", 5) == 5
assert n.get("a", 5) is None
''', needs="a stored None and a default", what="a stored None is reported as missing"),
dict(id="C10-exact-prefix", property="C10",
 edits=[(IMP, """    ):
        if isinstance(key, str) and key.startswith("index"):
            raise KeyError("'index' is a reserved namespace.")
""", """    ):
        if isinstance(key, str) and key.startswith("index_"):
            raise KeyError("'index' is a reserved namespace.")
""")],
 demo=PRE + '''
import numpy as np
g = GridPaper(NAME, create=True)
g["a"] = np.arange(3)
for k in ("index_key_0", "index"):
    try:
        g[k] = np.arange(2)
        raise AssertionError(k)
    except KeyError:
        pass
assert list(g.keys()) == ["a"]
''', needs="the bare key 'index'", what="storing an array under 'index' destroys the grid paper's index"),
dict(id="C11-reserve-first", property="C11",
 edits=[(IMP, """        try:
            metadata, block = self.memorize(
                value, self.address(key), exists_ok, keep_open
            )
""", """        try:
            address = self.address(key)
            # reserve the slot first so that concurrent writers see the key
            self.index.add(key, exists_ok=exists_ok)
            metadata, block = self.memorize(
                value, address, exists_ok, keep_open
            )
""")],
 demo=PRE + '''
import numpy as np
g = GridPaper(NAME, create=True)
g["a"] = np.arange(3)
try:
    g["b"] = [1, 2, 3]
    raise AssertionError("lists have no dtype")
except AttributeError:
    pass
assert list(g.keys()) == ["a"], g.keys()
''', needs="a value that cannot be stored", what="a key whose array could not be stored stays listed"),
dict(id="C12-stale-cache", property="C12",
 edits=[(IMP, "            keys = self.update_index().copy()\n", "            keys = (self.index.cache or self.update_index()).copy()\n")],
 demo=PRE + '''
n = Notepad(NAME, create=True)
n["a"] = 1
n.keys()
Notepad(NAME, create=False)["b"] = 2
n.close()
left = [f for f in os.listdir("/dev/shm") if f.startswith(NAME + "_b")]
assert not left, left
''', needs="keys added by another object after the closing one last listed them",
 what="closing only removes the keys this object last saw"),
dict(id="C13-pull-keeps-hook", property="C13",
 edits=[(IMP, "    def pull(self):\n        return self.close()\n", "    def pull(self):\n        return delete_block(self.address)\n")],
 demo=PRE + '''
registered = []
atexit.register = lambda f, *a: registered.append(f) or f
atexit.unregister = lambda f: [registered.remove(g) for g in list(registered) if g == f]
s = Sticky.note({"a": 1}, NAME, cleanup_on_exit=True)
assert len(registered) == 1
s.pull()
assert registered == [], registered
''', needs="a sticky with cleanup_on_exit that is pulled explicitly",
 what="a pulled sticky is closed again at interpreter exit, which fails"),
dict(id="C14-other-kinds", property="C14",
 edits=[("codex/memutilz.py", """        if rtype == "shared_memory":
            return
        return resource_tracker._resource_tracker.unregister(name, rtype)
""", """        if rtype != "semaphore":
            return
        return resource_tracker._resource_tracker.unregister(name, rtype)
""")],
 demo='''
from multiprocessing import resource_tracker
from dustgoggles.codex.memutilz import deactivate_shared_memory_resource_tracker
deactivate_shared_memory_resource_tracker()
sent = []
class Fake:
    def register(self, n, t): sent.append(("r", n, t))
    def unregister(self, n, t): sent.append(("u", n, t))
resource_tracker._resource_tracker = Fake()
for t in ("shared_memory", "semaphore", "noop"):
    resource_tracker.register("x", t)
    resource_tracker.unregister("x", t)
assert sent == [("r", "x", "semaphore"), ("u", "x", "semaphore"), ("r", "x", "noop"), ("u", "x", "noop")], sent
''', needs="a resource that is neither shared memory nor a semaphore", what="other resources are never unregistered"),
dict(id="C15-swapped-options", property="C15",
 edits=[(IMP, "        super().__init__(name, create, cleanup_on_exit, debug, no_lockout)\n        memorize, remember",
              "        super().__init__(name, create, cleanup_on_exit, no_lockout, debug)\n        memorize, remember")],
 demo=PRE + '''
ix = MetaTagIndex(NAME, debug=True)
assert ix.lock_class is SlidingLock and ix.debug is True
ix2 = MetaTagIndex(NAME + "b", no_lockout=True)
assert ix2.lock_class is FakeLock and ix2.debug is False
''', needs="debug or no_lockout given to a metadata index", what="debug disables locking and no_lockout turns logging on"),
dict(id="C16-append", property="C16",
 edits=[(IMP, 'def dump(self, key, fn=None, mode="wb"):', 'def dump(self, key, fn=None, mode="ab"):')],
 demo=PRE + """
import tempfile
n = Notepad(NAME, create=True)
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.bin")
    n["a"] = list(range(50))
    n.dump("a", fn)
    n["a"] = 1
    n.dump("a", fn)
    got = open(fn, "rb").read()
    want = n.get_raw("a")
    n.close()
    assert got == want, got
""", needs="dumping to a file that already exists", what="the dump is appended to what the file held"),
dict(id="C16-dotted-prefix", property="C16",
 edits=[(IMP, """            fn = f"{self.prefix}_{key}".replace(".", "_")
        self[key].tofile(fn)""", """            fn = f"{self.prefix}_{key.rsplit('.', 1)[0]}".replace(".", "_")
        self[key].tofile(fn)""")],
 demo=PRE + """
import tempfile
import numpy as np
n = GridPaper(NAME, create=True)
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    n["b.x"], n["b.y"] = np.arange(3), np.arange(3) + 7
    n.dump("b.x"); n.dump("b.y")
    got = sorted(os.listdir(d))
    n.close()
    os.chdir("/")
    assert got == sorted([f"{NAME}_b_x", f"{NAME}_b_y"]), got
""", needs="keys that differ after their last dot only", what="dumps of different entries overwrite each other"),
dict(id="C16-grid-transpose", property="C16",
 edits=[(IMP, "        self[key].tofile(fn)\n", "        self[key].T.tofile(fn)\n")],
 demo=PRE + """
import tempfile
import numpy as np
n = GridPaper(NAME, create=True)
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.bin")
    n["a"] = np.arange(6).reshape(2, 3)
    n.dump("a", fn)
    raw, got = n.get_raw("a"), open(fn, "rb").read()
    n.close()
    assert raw == got
""", needs="an array of more than one dimension", what="the dumped array is in column order"),
dict(id="C16-raw-trailing", property="C16",
 edits=[("codex/memutilz.py", "    return block.buf.tobytes()\n", '    return block.buf.tobytes().rstrip(b"\\x00")\n')],
 demo=PRE + """
import numpy as np
n = GridPaper(NAME, create=True)
n["a"] = np.array([256, 0], dtype="i8")
raw = n.get_raw("a")
n.close()
assert raw == np.array([256, 0], dtype="i8").tobytes(), raw
""", needs="a stored value whose bytes end in zeros", what="the raw bytes are cut short"),
]
