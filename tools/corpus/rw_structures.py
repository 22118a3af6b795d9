"""whole-function rewrites of structures.py that keep behaviour"""
F = "structures.py"
CASES = []


def same(id, defs, add=""):
    CASES.append(dict(id=id, kind="same", file=F, defs=defs, add=add))


same("s-records-helper", {"to_records": '''
def _is_branch(mapping):
    for value in mapping.values():
        if not isinstance(value, Mapping):
            return False
    return True


def to_records(nested: Mapping, accumulated_levels=None, level_names=None):
    if level_names is None:
        level_names = naturals()
    else:
        level_names = iter(level_names)
    if accumulated_levels is None:
        accumulated_levels = {}
    level_name = next(level_names)
    records = []
    for category, mapping in nested.items():
        labels = {**accumulated_levels, level_name: category}
        if _is_branch(mapping):
            level_names, lower_names = tee(level_names)
            records.extend(to_records(mapping, labels, lower_names))
        else:
            records.append(mapping | labels)
    return records
'''})
same("s-records-early", {"to_records": '''
def to_records(nested: Mapping, accumulated_levels=None, level_names=None):
    names = naturals() if level_names is None else iter(level_names)
    inherited = accumulated_levels if accumulated_levels is not None else {}
    this_level = next(names)
    output = []
    for category, mapping in nested.items():
        label = {this_level: category}
        if not all(isinstance(v, Mapping) for v in mapping.values()):
            output.append(mapping | (inherited | label))
            continue
        names, lower = tee(names)
        output = output + to_records(mapping, inherited | label, lower)
    return output
'''})
same("s-unnest-stack", {"_unnest": '''
def _make_prefix(levels, escape):
    prefix = f"{escape}_{escape}".join([str(level) for level in levels])
    if prefix == "":
        return prefix
    return escape + prefix + escape + "_"


def _unnest(nested, mtypes, escape, levels):
    if isinstance(nested, mtypes):
        prefix = _make_prefix(levels, escape)
        long_records = []
        for level, value in nested.items():
            if isinstance(value, mtypes):
                long_records.extend(_unnest(value, mtypes, escape, [*levels, level]))
            else:
                long_records.append({prefix + str(level): value})
        return long_records
    return nested
'''})
same("s-unnest-fmt", {"_unnest": '''
def _unnest(nested, mtypes, escape, levels):
    if not isinstance(nested, mtypes):
        return nested
    separator = "{0}_{0}".format(escape)
    prefix = separator.join(str(l) for l in levels)
    if prefix:
        prefix = "{}{}{}_".format(escape, prefix, escape)
    flat = []
    for level in nested:
        value = nested[level]
        if isinstance(value, mtypes):
            flat += _unnest(value, mtypes, escape, levels + [level])
        else:
            flat.append({"{}{}".format(prefix, level): value})
    return flat
'''})
same("s-unnest-public", {"unnest": '''
def unnest(nested, mtypes=(dict,), escape=""):
    output = {}
    for record in _unnest(nested, mtypes, escape, []):
        output.update(record)
    return output
'''})
same("s-listify", {"listify": '''
def listify(thing):
    """Always a list, for things that want lists"""
    if isinstance(thing, str) or not isinstance(thing, Collection):
        return [thing]
    return [*thing]
'''})
same("s-reindex", {"reindex_mapping": '''
def reindex_mapping(mapping: Mapping) -> Mapping[int, Any]:
    assert isinstance(mapping, Mapping), "reindex_mapping only takes Mappings"
    return dict(enumerate(mapping.values()))
'''})
same("s-enum", {"enumerate_as_mapping": '''
def enumerate_as_mapping(sequence):
    if isinstance(sequence, Mapping):
        return sequence
    output = {}
    if sequence is not None:
        for ix, element in enumerate(sequence):
            output[ix] = element
    return output
'''})
same("s-insert", {"insert_after": '''
def insert_after(
    new_key: Any, new_value: Any, prior_key: Any, mapping: Mapping
) -> Mapping:
    def pairs():
        for key, value in mapping.items():
            yield key, value
            if key == prior_key:
                yield new_key, new_value

    return dict(pairs())
'''})
same("s-getall", {"get_from_all": '''
def get_from_all(key, mappings, default=None):
    """
    get all values of "key" from each dict or whatever in "mappings"
    """
    if isinstance(mappings, Mapping):
        mappings = mappings.values()
    return [mapping.get(key, default) for mapping in mappings]
'''})
same("s-getitemattr", {"getitemattr": '''
def getitemattr(collection: Union[Sequence, Mapping], key: Any) -> Any:
    try:
        value = collection[key]
    except (TypeError, KeyError, IndexError):
        value = getattr(collection, key)
    return value
''', "get_from": '''
def get_from(collection, keys, default=None):
    try:
        return reduce(getitemattr, keys, collection)
    except AttributeError:
        return default
'''})
same("s-getfrom-loop", {"get_from": '''
def get_from(collection, keys, default=None):
    level = collection
    try:
        for key in keys:
            level = getitemattr(level, key)
    except AttributeError:
        return default
    return level
'''})
same("s-const-pred", {"constant_to_dig_predicate": '''
def constant_to_dig_predicate(putative_predicate, match="key", default=eq):
    if isinstance(putative_predicate, Callable):
        return putative_predicate
    bound = partial(default, putative_predicate)
    wrappers = {"key": keyonly, "value": valonly, "item": lambda p: p}
    if match not in wrappers:
        return None
    return wrappers[match](bound)
'''})
same("s-keyonly", {"keyonly": '''
def keyonly(func):
    return lambda key, _value: func(key)
''', "valonly": '''
def valonly(func):
    return lambda _key, value: func(value)
'''})
same("s-diglevel", {"_evaluate_diglevel": '''
def _evaluate_diglevel(mapping, predicate, mtypes):
    level_items, nests = [], []
    for item in mapping.items():
        key, value = item
        if isinstance(value, mtypes):
            nests.append(value)
        if predicate(key, value):
            level_items.append(item)
    return level_items, nests
'''})
same("s-digall", {"dig_for_all": '''
def dig_for_all(mapping, predicate, mtypes):
    found, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    for nest in nests:
        found.extend(dig_for_all(nest, predicate, mtypes))
    return found
'''})
same("s-digall-chain", {"dig_for_all": '''
def dig_for_all(mapping, predicate, mtypes):
    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    lower = (dig_for_all(nest, predicate, mtypes) for nest in nests)
    return level_items + list(chain.from_iterable(lower))
'''})
same("s-digall-sum", {"dig_for_all": '''
def dig_for_all(mapping, predicate, mtypes):
    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    return sum((dig_for_all(n, predicate, mtypes) for n in nests), level_items)
'''})
same("s-digallw", {"dig_all_wrapper": '''
def dig_all_wrapper(mapping, ref, match, base_pred, element_ix, mtypes):
    items = dig_for_all(
        mapping, constant_to_dig_predicate(ref, match, base_pred), mtypes
    )
    if not items:
        return None
    return items if element_ix is None else [i[element_ix] for i in items]
'''})
same("s-digall-kw", {"dig_for_values": '''
def dig_for_values(mapping, ref, match="key", base_pred=eq, mtypes=(dict,)):
    return dig_all_wrapper(
        mapping, ref, match=match, base_pred=base_pred, element_ix=1, mtypes=mtypes
    )
''', "dig_for_keys": '''
def dig_for_keys(mapping, ref, match="key", base_pred=eq, mtypes=(dict,)):
    items = dig_for_items(mapping, ref, match, base_pred, mtypes)
    if items is None:
        return None
    return [key for key, _ in items]
'''})
same("s-digfor", {"dig_for": '''
def dig_for(mapping, predicate, mtypes):
    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    if len(level_items) > 0:
        return level_items
    for nest in nests:
        dug = dig_for(nest, predicate, mtypes)
        if dug is not None:
            return dug
    return None
'''})
same("s-digfor-next", {"dig_for": '''
def dig_for(mapping, predicate, mtypes):
    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    if level_items:
        return level_items
    searches = (dig_for(nest, predicate, mtypes) for nest in nests)
    return next((dug for dug in searches if dug is not None), None)
'''})
same("s-digw", {"dig_wrapper": '''
def dig_wrapper(mapping, ref, match, base_pred, element_ix, mtypes):
    found = dig_for(
        mapping, constant_to_dig_predicate(ref, match, base_pred), mtypes
    )
    if found is None:
        return None
    first = found[0]
    return first if element_ix is None else first[element_ix]
'''})
same("s-digedit", {"dig_and_edit": '''
def dig_and_edit(mapping, filter_func, setter_func, mtypes=(dict,)):
    matches = [(k, v) for k, v in mapping.items() if filter_func(k, v)]
    for key, value in matches:
        mapping[key] = setter_func(key, value)
    nests = [v for v in mapping.values() if isinstance(v, mtypes)]
    for nest in nests:
        dig_and_edit(
            nest, filter_func=filter_func, setter_func=setter_func, mtypes=mtypes
        )
    return mapping
'''})
same("s-digedit-two", {"dig_and_edit": '''
def _edit_level(mapping, filter_func, setter_func):
    keys = [key for key, value in mapping.items() if filter_func(key, value)]
    for key in keys:
        mapping[key] = setter_func(key, mapping[key])


def dig_and_edit(mapping, filter_func, setter_func, mtypes=(dict,)):
    _edit_level(mapping, filter_func, setter_func)
    for value in tuple(mapping.values()):
        if isinstance(value, mtypes):
            dig_and_edit(value, filter_func, setter_func, mtypes)
    return mapping
'''})
same("s-todict", {"NestingDict.todict": '''
def todict(self):
    """warning: this function may permanently modify lower levels"""
    def nesting(_, value):
        return isinstance(value, NestingDict)

    def plain(_, value):
        return dict(value)

    edited = dig_and_edit(self, nesting, plain)
    return dict(edited)
'''})
same("s-separate", {"separate_by": '''
def separate_by(collection, ref):
    hits, misses = [], []
    for item in collection:
        target = hits if ref(item) is True else misses
        target.append(item)
    return hits, misses
'''})
same("s-separate-tuple", {"separate_by": '''
def separate_by(collection, ref):
    output = {True: [], False: []}
    for item in collection:
        output[ref(item) is True].append(item)
    return output[True], output[False]
'''})
same("s-rmerge", {"rmerge": '''
def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
    output = {}
    for key, value in chain(map1.items(), map2.items()):
        if key not in map1 or key not in map2:
            output[key] = value
        elif isinstance(map1[key], mtypes) and isinstance(map2[key], mtypes):
            output[key] = rmerge(map1[key], map2[key], mtypes)
        else:
            output[key] = map2[key]
    return output
'''})
same("s-rmerge-copy", {"rmerge": '''
def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
    output = dict(map1)
    for key, value in map2.items():
        if key in map1 and isinstance(map1[key], mtypes) and isinstance(value, mtypes):
            value = rmerge(map1[key], value, mtypes)
        output[key] = value
    return output
'''})
same("s-hash", {"HashDict.__setitem__": '''
def __setitem__(self, key, item):
    itemhash = self.hasher(item)
    self.reverse.setdefault(itemhash, item)
    self.dict_[key] = itemhash
''', "HashDict.__getitem__": '''
def __getitem__(self, key):
    itemhash = self.dict_[key]
    return self.reverse[itemhash]
'''})
same("s-mayberesult", {"MaybeResult": '''
class MaybeResult:
    def __init__(self, func, args, kwargs):
        self.value = self._attempt(func, args, kwargs)

    @staticmethod
    def _attempt(func, args, kwargs):
        try:
            return func(*args, **kwargs)
        except Exception as ex:
            return ex

    def get(self):
        value = self.value
        if not isinstance(value, Exception):
            return value
        raise value

    @staticmethod
    def ready():
        return True
'''})
same("s-chunkwrap", {"_chunkwrap": '''
def _chunkwrap(func, argrecs):
    output = {}
    for rec in argrecs:
        result = MaybeResult(func, rec['args'], rec['kwargs'])
        output[rec['key']] = result.value
    return output
'''})
same("s-poolmap", {"MaybePool.map": '''
def _normalize(self, argrecs):
    return [
        {
            **rec,
            'key': rec.get('key', i),
            'args': rec.get('args', ()),
            'kwargs': rec.get('kwargs', {}),
        }
        for i, rec in enumerate(argrecs)
    ]

def map(self, func, argrecs, as_chunks=False):
    argrecs = self._normalize(argrecs)
    self.chunked = as_chunks is not False and self.pool is not None
    results = {}
    if self.chunked:
        for i, chunk in enumerate(divide(self.threads, argrecs)):
            results[f"chunk_{i}"] = self.apply(_chunkwrap, (func, chunk))
    else:
        for rec in argrecs:
            results[rec['key']] = self.apply(func, rec['args'], rec['kwargs'])
    self.results = results
'''})
same("s-poolapply", {"MaybePool.apply": '''
def apply(self, func, args=(), kwargs=None):
    """note: does apply_async by default"""
    if kwargs is None:
        kwargs = {}
    submit = MaybeResult if self.pool is None else self.pool.apply_async
    return submit(func, args, kwargs)
'''})
same("s-poolget", {"MaybePool.get": '''
def _collect(self, key, result):
    if self.chunked is True:
        return result.get()
    return {key: result.get()}

def get(self, raise_exc=False):
    output = {}
    for k, v in self.results.items():
        try:
            collected = self._collect(k, v)
            for key, result in collected.items():
                if self.chunked is True and raise_exc and isinstance(result, Exception):
                    raise result
                output[key] = result
        except Exception as ex:
            if raise_exc:
                raise
            output[k] = ex
    return output
'''})
same("s-poolget2", {"MaybePool.get": '''
def get(self, raise_exc=False):
    output = {}
    for k, v in self.results.items():
        try:
            result = v.get()
        except KeyboardInterrupt:
            raise
        except Exception as ex:
            if raise_exc:
                raise ex
            output[k] = ex
            continue
        if not self.chunked:
            output[k] = result
            continue
        for key, value in result.items():
            if raise_exc and isinstance(value, Exception):
                raise value
            output[key] = value
    return output
'''})
same("s-mapinto", {"map_into_pool": '''
def _without_exceptions(results):
    return {k: v for k, v in results.items() if not isinstance(v, Exception)}


def map_into_pool(
    func,
    argrecs,
    threads=None,
    filter_exc=False,
    as_chunks=True
):
    pool = MaybePool(threads)
    try:
        pool.map(func, argrecs, as_chunks=as_chunks)
        pool.close()
        pool.join()
        results = pool.get()
    finally:
        pool.terminate()
    if filter_exc is True:
        return _without_exceptions(results)
    return results
'''})
same("s-mapinto-ctx", {"map_into_pool": '''
@contextmanager
def _terminating(pool):
    try:
        yield pool
    finally:
        pool.terminate()


def map_into_pool(
    func,
    argrecs,
    threads=None,
    filter_exc=False,
    as_chunks=True
):
    with _terminating(MaybePool(threads)) as pool:
        pool.map(func, argrecs, as_chunks=as_chunks)
        pool.close()
        pool.join()
        results = pool.get()
        if filter_exc is not True:
            return results
        return {
            k: v for k, v in results.items() if not isinstance(v, Exception)
        }
'''}, add="from contextlib import contextmanager")
same("s-poolready", {"MaybePool.n_ready": '''
@property
def n_ready(self):
    return sum(1 for result in self.results.values() if result.ready())
''', "MaybePool.ready": '''
def ready(self):
    for result in self.results.values():
        if not result.ready():
            return False
    return True
''', "MaybePool.close": '''
def close(self):
    if self.pool is not None:
        return self.pool.close()
''', "MaybePool.join": '''
def join(self):
    pool = self.pool
    return pool.join() if pool is not None else None
''', "MaybePool.terminate": '''
def terminate(self):
    self.results = {}
    if self.pool is None:
        return
    self.pool.terminate()
'''})
same("s-poolinit", {"MaybePool.__init__": '''
def __init__(self, threads=None):
    self.threads = threads
    self.results = {}
    self.chunked = False
    self.pool = None if threads is None else Pool(threads)
'''})
