F = "structures.py"
SETI = '''        itemhash = self.hasher(item)
        self.dict_[key] = itemhash
        if itemhash not in self.reverse.keys():
            self.reverse[itemhash] = item
'''
REC = '''    for category, mapping in nested.items():
        if all([isinstance(value, Mapping) for value in mapping.values()]):
            branch = accumulated_levels.copy()
            branch[level_name] = category
            level_names, lower_names = tee(level_names)
            records += to_records(mapping, branch, lower_names)
        else:
            category_dict = accumulated_levels | {level_name: category}
            flat = mapping | category_dict
            records.append(flat)
'''
CH = '''    return {
        rec['key']: MaybeResult(func, rec['args'], rec['kwargs']).value
        for rec in argrecs
    }
'''
MAP = '''        for i, rec in enumerate(argrecs):
            rec['key'] = rec.get('key', i)
            rec['args'] = rec.get('args', ())
            rec['kwargs'] = rec.get('kwargs', {})
'''
SER = '''            self.chunked = False
            self.results = {
                rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                for rec in argrecs
            }
'''
PAR = '''            self.chunked = True
            chunks = divide(self.threads, argrecs)
            self.results = {
                f"chunk_{i}": self.apply(_chunkwrap, (func, chunk))
                for i, chunk in enumerate(chunks)
            }
'''
GET = '''        for k, v in self.results.items():
            try:
                if self.chunked is True:
                    for key, result in v.get().items():
                        if raise_exc and isinstance(result, Exception):
                            raise result
                        output[key] = result
                else:
                    output[k] = v.get()
            except KeyboardInterrupt:
                raise
            except Exception as ex:
                if raise_exc:
                    raise ex
                output[k] = ex
'''
MIP = '''    pool = MaybePool(threads)
    try:
        pool.map(func, argrecs, as_chunks=as_chunks)
        pool.close()
        pool.join()
        results = pool.get()
        if filter_exc is True:
            results = {
                k: v for k, v in results.items()
                if not isinstance(v, Exception)
            }
    finally:
        pool.terminate()
    return results
'''
MR = '''        try:
            self.value = func(*args, **kwargs)
        except KeyboardInterrupt:
            raise
        except Exception as ex:
            self.value = ex

    def get(self):
        if isinstance(self.value, Exception):
            raise self.value
        return self.value
'''
UN = '''    for level, maybe_mapping in nested.items():
        if not isinstance(maybe_mapping, mtypes):
            long_records.append({f"{prefix}{level}": maybe_mapping})
            continue
        long_records += _unnest(maybe_mapping, mtypes, escape,
                                levels + [level])
    return long_records
'''
INS = '''    for key, value in mapping.items():
        new_dict[key] = value
        if key == prior_key:
            new_dict[new_key] = new_value
    return new_dict
'''
GF = '''    for key in keys:
        try:
            level = getitemattr(level, key)
        except AttributeError:
            return default
    return level
'''
BUGS = [
 # hash dict
 ("h1", "S06", F, SETI, SETI.replace("        self.dict_[key] = itemhash\n        if itemhash not in self.reverse.keys():\n", "        if itemhash not in self.reverse.keys():\n            self.dict_[key] = itemhash\n")),
 ("h2", "S06", F, SETI, SETI.replace("self.dict_[key] = itemhash", "self.dict_.setdefault(key, itemhash)")),
 ("h3", "S06", F, SETI, SETI.replace("self.dict_[key] = itemhash", "self.dict_[key] = itemhash or key")),
 ("h4", "S06", F, SETI, SETI.replace("if itemhash not in self.reverse.keys()", "if itemhash not in self.dict_.values()")),
 ("h5", "S06", F, SETI, SETI.replace("if itemhash not in self.reverse.keys()", "if not self.reverse.get(itemhash)").replace("= item\n", "= item\n        elif key not in self.reverse:\n            self.reverse[key] = item\n").replace("self.dict_[key] = itemhash", "self.dict_[key] = key if key in self.reverse else itemhash")),
 ("h6", "S06", F, SETI, SETI.replace("        self.dict_[key] = itemhash\n", "        if key in self.dict_:\n            self.reverse.pop(self.dict_[key], None)\n        self.dict_[key] = itemhash\n")),
 ("h7", "S06", F, "return self.reverse[self.dict_[key]]", "return next(v for v in self.reverse.values() if v is not None and self.hasher(v) == self.dict_[key])"),
 # pool
 ("m1", "S07", F, CH, "    return {\n        i: MaybeResult(func, rec['args'], rec['kwargs']).value\n        for i, rec in enumerate(argrecs)\n    }\n"),
 ("m2", "S07", F, CH, CH.replace(".value", ".get()")),
 ("m3", "S07", F, MAP, MAP.replace("rec.get('key', i)", "rec.get('key') or i")),
 ("m4", "S07", F, MAP, MAP.replace("rec.get('kwargs', {})", "{}")),
 ("m5", "S07", F, SER, SER.replace("            self.chunked = False\n", "")),
 ("m6", "S07", F, PAR, PAR.replace("            self.chunked = True\n", "            self.chunked = self.threads > 1\n")),
 ("m7", "S07", F, PAR, PAR.replace("divide(self.threads, argrecs)", "chunked(argrecs, self.threads)").replace("for i, chunk in enumerate(chunks)", "for i, chunk in zip(range(self.threads), chunks)")),
 ("m8", "S07", F, PAR, PAR.replace('f"chunk_{i}"', 'f"chunk_{i // 2}"')),
 ("m9", "S07", F, GET, GET.replace("                        if raise_exc and isinstance(result, Exception):\n                            raise result\n                        output[key] = result\n", "                        if isinstance(result, Exception):\n                            raise result\n                        output[key] = result\n")),
 ("m10", "S07", F, GET, GET.replace("                if raise_exc:\n                    raise ex\n", "")),
 ("m11", "S07", F, GET, GET.replace("                output[k] = ex", "                output[k] = None")),
 ("m12", "S07", F, GET, GET.replace("if raise_exc and isinstance(result, Exception)", "if raise_exc and isinstance(result, BaseException) and not output")),
 ("m13", "S07", F, MIP, MIP.replace("if not isinstance(v, Exception)", "if v is not None and not isinstance(v, Exception)")),
 ("m14", "S07", F, MIP, MIP.replace("if filter_exc is True:", "if filter_exc is True or threads is None:")),
 ("m15", "S07", F, MR, MR.replace("            self.value = ex\n", "            self.value = None\n")),
 ("m16", "S07", F, MR, MR.replace("        except Exception as ex:\n", "        except (ValueError, TypeError) as ex:\n")),
 ("m17", "S07", F, MAP, "        for i, rec in enumerate(argrecs):\n            rec['key'] = rec.get('key', i)\n            rec['args'] = rec.get('args', ())\n            rec['kwargs'] = rec.get('kwargs', argrecs[0].get('kwargs', {}))\n"),
 ("m18", "S07", F, "return MaybeResult(func, args, kwargs)", "return MaybeResult(func, args, {})"),
 ("m19", "S07", F, "return self.pool.apply_async(func, args, kwargs)", "return self.pool.apply_async(func, args)"),
 ("m20", "S07", F, "        kwargs = {} if kwargs is None else kwargs\n        if self.pool", "        kwargs = {} if kwargs is None else kwargs\n        args = args[:1] if len(self.results) else args\n        if self.pool"),
 ("m21", "S07", F, GET, GET.replace("output[key] = result", "output.setdefault(k, result)")),
 ("m22", "S07", F, CH, "    out = {}\n    for rec in argrecs:\n        try:\n            out[rec['key']] = func(*rec['args'], **rec['kwargs'])\n        except KeyboardInterrupt:\n            raise\n        except Exception as ex:\n            out[rec['key']] = ex\n            break\n    return out\n"),
 ("m23", "S07", F, PAR, PAR.replace("divide(self.threads, argrecs)", "[argrecs[i * (len(argrecs) // self.threads):(i + 1) * (len(argrecs) // self.threads)] for i in range(self.threads)]")),
 ("m24", "S07", F, SER, SER.replace("            self.results = {\n                rec['key']", "            self.results |= {\n                rec['key']")),
 # shutdown
 ("t1", "S08", F, MIP, MIP.replace("    finally:\n        pool.terminate()\n", "    except Exception:\n        pool.terminate()\n        raise\n    pool.terminate()\n")),
 ("t2", "S08", F, MIP, MIP.replace("        results = pool.get()\n", "").replace("    finally:\n        pool.terminate()\n", "    finally:\n        pool.terminate()\n    results = pool.get()\n").replace("        if filter_exc is True:\n            results = {\n                k: v for k, v in results.items()\n                if not isinstance(v, Exception)\n            }\n", "")),
 ("t3", "S08", F, MIP, MIP.replace("        pool.close()\n        pool.join()\n        results = pool.get()\n", "        results = pool.get()\n        pool.close()\n        pool.join()\n")),
 ("t4", "S08", F, MIP, MIP.replace("    try:\n        pool.map(func, argrecs, as_chunks=as_chunks)\n", "    pool.map(func, argrecs, as_chunks=as_chunks)\n    try:\n")),
 ("t5", "S08", F, MIP, MIP.replace("    finally:\n        pool.terminate()\n", "    finally:\n        if not pool.ready():\n            pool.terminate()\n")),
 ("t6", "S08", F, "        if self.pool is not None:\n            self.pool.terminate()\n", "        if self.pool is not None and self.n_running > 0:\n            self.pool.terminate()\n"),
 ("t7", "S08", F, "            return\n        return self.pool.join()", "            return\n        return self.pool"),
 ("t8", "S08", F, "        return self.pool.close()", "        return self.pool.terminate()"),
 ("t9", "S08", F, MIP, MIP.replace("    finally:\n        pool.terminate()\n", "    finally:\n        pool.close()\n")),
 ("t10", "S08", F, MIP, MIP.replace("        results = pool.get()\n", "        results = pool.get()\n        if not results:\n            return results\n").replace("    finally:\n        pool.terminate()\n", "    except BaseException:\n        pool.terminate()\n        raise\n    pool.terminate()\n")),
 ("t11", "S08", F, "        if self.pool is not None:\n            self.pool.terminate()\n        self.results = {}", "        if self.results and self.pool is not None:\n            self.pool.terminate()\n        self.results = {}"),
 # records
 ("r1", "S09", F, REC, REC.replace("branch = accumulated_levels.copy()", "branch = accumulated_levels")),
 ("r2", "S09", F, REC, REC.replace("            level_names, lower_names = tee(level_names)\n", "            lower_names = level_names\n")),
 ("r3", "S09", F, REC, REC.replace("isinstance(value, Mapping)", "isinstance(value, Mapping) or value is None")),
 ("r4", "S09", F, REC, REC.replace("if all([", "if any([")),
 ("r5", "S09", F, REC, REC.replace("flat = mapping | category_dict", "flat = {level_name: category} | mapping")),
 ("r6", "S09", F, REC, REC.replace("branch[level_name] = category", "branch.setdefault(level_name, category)\n            accumulated_levels.setdefault(level_name, category)")),
 ("r7", "S09", F, REC, REC.replace("accumulated_levels | {level_name: category}", "accumulated_levels | ({level_name: category} if category else {})")),
 ("r8", "S09", F, REC, REC.replace("            category_dict = accumulated_levels | {level_name: category}\n            flat = mapping | category_dict", "            accumulated_levels[level_name] = category\n            flat = mapping | accumulated_levels")),
 ("r9", "S09", F, "        {} if accumulated_levels is None else accumulated_levels\n", "        {} if not accumulated_levels or level_names is None else accumulated_levels\n"),
 ("r10", "S09", F, "    level_names = naturals() if level_names is None else iter(level_names)", "    level_names = naturals() if level_names is None else iter(tuple(level_names)[:2] + (3,))"),
 ("r11", "S09", F, REC, REC.replace("records += to_records(mapping, branch, lower_names)", "records = to_records(mapping, branch, lower_names) + records[:1]")),
 # unnest
 ("u1", "S10", F, UN, UN.replace("levels + [level])", "[level])")),
 ("u2", "S10", F, UN, UN.replace('long_records.append({f"{prefix}{level}": maybe_mapping})', 'long_records.append({f"{prefix}{level}": maybe_mapping}) if maybe_mapping is not None else None')),
 ("u3", "S10", F, UN, UN.replace("levels + [level])", "levels[-1:] + [level])")),
 ("u4", "S10", F, UN, UN.replace("_unnest(maybe_mapping, mtypes, escape,", "_unnest(maybe_mapping, mtypes, '',")),
 ("u5", "S10", F, UN, "    for level, maybe_mapping in nested.items():\n        if not isinstance(maybe_mapping, mtypes):\n            long_records.append({f\"{prefix}{level}\": maybe_mapping})\n        else:\n            levels.append(level)\n            long_records += _unnest(maybe_mapping, mtypes, escape, levels)\n    return long_records\n"),
 ("u6", "S10", F, 'prefix = f"{escape}_{escape}".join(map(str, levels))', 'prefix = f"{escape}_{escape}".join(map(str, levels[-2:]))'),
 ("u7", "S10", F, "    return merge(flat_records)", "    return merge([r for r in flat_records if all(r.values())])"),
 ("u8", "S10", F, UN, UN.replace("if not isinstance(maybe_mapping, mtypes)", "if not isinstance(maybe_mapping, dict)")),
 # helpers
 ("p1", "S11", F, INS, INS.replace("        new_dict[key] = value\n        if key == prior_key:\n            new_dict[new_key] = new_value\n", "        if key == prior_key:\n            new_dict[new_key] = new_value\n        new_dict[key] = value\n")),
 ("p2", "S11", F, INS, INS.replace("    return new_dict\n", "    new_dict.setdefault(new_key, new_value)\n    return new_dict\n")),
 ("p3", "S11", F, INS, INS.replace("key == prior_key", "key and key == prior_key")),
 ("p4", "S11", F, "zip(range(len(mapping)), mapping.values())", "zip(range(len(mapping)), filter(None, mapping.values()))"),
 ("p5", "S11", F, "zip(range(len(mapping)), mapping.values())", "zip(range(len(mapping)), mapping.keys())"),
 ("p6", "S11", F, "ix: element for ix, element in enumerate(sequence)}", "ix: element for ix, element in enumerate(sequence, 1)}"),
 ("p7", "S11", F, 'list(map(methodcaller("get", key, default), view))', 'list(filter(None, map(methodcaller("get", key, default), view)))'),
 ("p8", "S11", F, 'list(map(methodcaller("get", key, default), view))', '[m.get(key) or default for m in view]'),
 ("p9", "S11", F, "view = mappings.values()", "view = mappings"),
 ("p10", "S11", F, GF, GF.replace("    return level\n", "    return level or default\n")),
 ("p11", "S11", F, GF, GF.replace("            return default\n", "            return level\n")),
 ("p12", "S11", F, GF, GF.replace("            return default\n", "            level = default\n")),
 ("p13", "S11", F, "except (KeyError, IndexError, TypeError):", "except (IndexError, TypeError):"),
 ("p14", "S11", F, "        if not isinstance(thing, str):\n            return list(thing)\n", "        if not isinstance(thing, str) and thing:\n            return list(thing)\n"),
 ("p15", "S11", F, "    if sequence is None:\n        return {}\n", ""),
]
SAME = [
 ("sh1", "*", F, SETI, "        digest = self.hasher(item)\n        self.reverse.setdefault(digest, item)\n        self.dict_[key] = digest\n"),
 ("sh2", "*", F, SETI, "        self.dict_[key] = itemhash = self.hasher(item)\n        if itemhash in self.reverse:\n            return\n        self.reverse[itemhash] = item\n"),
 ("sh3", "*", F, SETI, SETI, (F, "self.reverse = {}\n        self.hasher", "self.reverse = dict()\n        self._eq = equivalence\n        self.hasher")),
 ("sm1", "*", F, CH, "    outcomes = {}\n    for rec in argrecs:\n        outcome = MaybeResult(func, rec['args'], rec['kwargs'])\n        outcomes[rec['key']] = outcome.value\n    return outcomes\n"),
 ("sm2", "*", F, MAP, "        for i, rec in enumerate(argrecs):\n            for name, default in (('key', i), ('args', ()), ('kwargs', {})):\n                rec.setdefault(name, default)\n"),
 ("sm3", "*", F, SER, "            self.chunked = False\n            results = {}\n            for rec in argrecs:\n                results[rec['key']] = self.apply(\n                    func, rec['args'], rec['kwargs']\n                )\n            self.results = results\n"),
 ("sm4", "*", F, GET, '''        for k, v in self.results.items():
            try:
                found = v.get()
            except KeyboardInterrupt:
                raise
            except Exception as ex:
                if raise_exc:
                    raise ex
                output[k] = ex
                continue
            if self.chunked is not True:
                output[k] = found
                continue
            for key, result in found.items():
                if raise_exc and isinstance(result, Exception):
                    raise result
                output[key] = result
'''),
 ("sm5", "*", F, MIP, '''    pool = MaybePool(threads)
    try:
        results = _collect(pool, func, argrecs, as_chunks)
    finally:
        pool.terminate()
    if filter_exc is True:
        results = _drop_exc(results)
    return results


def _collect(pool, func, argrecs, as_chunks):
    pool.map(func, argrecs, as_chunks=as_chunks)
    pool.close()
    pool.join()
    return pool.get()


def _drop_exc(results):
    return {
        k: v for k, v in results.items() if not isinstance(v, Exception)
    }
'''),
 ("sm6", "*", F, PAR, "            self.chunked = True\n            self.results = {}\n            for i, chunk in enumerate(divide(self.threads, argrecs)):\n                self.results[f\"chunk_{i}\"] = self.apply(_chunkwrap, (func, chunk))\n"),
 ("sm7", "*", F, MAP, "        argrecs = [\n            {**rec, 'key': rec.get('key', i), 'args': rec.get('args', ()), 'kwargs': rec.get('kwargs', {})}\n            for i, rec in enumerate(argrecs)\n        ]\n"),
 ("sm8", "*", F, MR, MR.replace("        except KeyboardInterrupt:\n            raise\n        except Exception as ex:\n            self.value = ex\n", "        except Exception as ex:\n            self.value = ex\n")),
 ("sm9", "*", F, MIP, MIP.replace("            results = {\n                k: v for k, v in results.items()\n                if not isinstance(v, Exception)\n            }\n", "            for k in [k for k, v in results.items() if isinstance(v, Exception)]:\n                del results[k]\n")),
 ("sr1", "*", F, REC, '''    for category, mapping in nested.items():
        labels = accumulated_levels | {level_name: category}
        if not all(isinstance(value, Mapping) for value in mapping.values()):
            records.append(mapping | labels)
            continue
        level_names, lower_names = tee(level_names)
        records.extend(to_records(mapping, labels, lower_names))
'''),
 ("sr2", "*", F, REC, '''    remaining = tuple(level_names) if not isinstance(level_names, type(naturals())) else None
    for category, mapping in nested.items():
        labels = {**accumulated_levels, level_name: category}
        if all([isinstance(value, Mapping) for value in mapping.values()]):
            if remaining is None:
                level_names, lower = tee(level_names)
            else:
                lower = remaining
            records += to_records(mapping, labels, lower)
        else:
            records.append({**mapping, **labels})
'''),
 ("su1", "*", F, UN, '''    for level, maybe_mapping in nested.items():
        if isinstance(maybe_mapping, mtypes):
            deeper = _unnest(maybe_mapping, mtypes, escape, [*levels, level])
            long_records.extend(deeper)
        else:
            long_records.append({prefix + str(level): maybe_mapping})
    return long_records
'''),
 ("su2", "*", F, "    return merge(flat_records)", "    output = {}\n    for record in flat_records:\n        output.update(record)\n    return output"),
 ("sp1", "*", F, INS, '''    for key, value in mapping.items():
        new_dict[key] = value
        if key != prior_key:
            continue
        new_dict[new_key] = new_value
    return new_dict
'''),
 ("sp2", "*", F, "    return {\n        ix: value for ix, value in zip(range(len(mapping)), mapping.values())\n    }", "    return dict(enumerate(mapping.values()))"),
 ("sp3", "*", F, 'list(map(methodcaller("get", key, default), view))', '[mapping.get(key, default) for mapping in view]'),
 ("sp4", "*", F, GF, "    try:\n        for key in keys:\n            level = getitemattr(level, key)\n    except AttributeError:\n        return default\n    return level\n"),
 ("sp5", "*", F, GF, "    try:\n        return reduce(getitemattr, keys, level)\n    except AttributeError:\n        return default\n"),
 ("sp6", "*", F, "    if isinstance(thing, Collection):\n        if not isinstance(thing, str):\n            return list(thing)\n    return [thing]", "    if isinstance(thing, str) or not isinstance(thing, Collection):\n        return [thing]\n    return [*thing]"),
 ("sp7", "*", F, "    return {ix: element for ix, element in enumerate(sequence)}", "    return dict(enumerate(sequence))"),
]
