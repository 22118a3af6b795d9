"""F01-F04: bugs and behaviour-preserving edits of func and of except clauses"""
F, D, ST, CMP, IMP, SCR, PIV = "func.py", "dynamic.py", "structures.py", "composition.py", "codex/implements.py", "scrape.py", "pivot.py"
CATCH = '''    if noninteractive:
        return _default
    return func(*args, **kwargs)
'''
NAT = "    return accumulate(repeat(1), add)\n"
TRIG = '''    def trigger(deferred_state=None):
        niladic_function()
        return deferred_state
'''
AREIN = '''        inclusion = partial(contains, container)
        return reduce(oper, map(inclusion, items))
'''
INTER = "    return reduce(and_, [set(iterable) for iterable in iterables])\n"
DISJ = '''    sets = [tuple(this_set) for this_set in sets]
    shared = intersection(*sets)
    return [
        [file for file in this_set if file not in shared] for this_set in sets
    ]
'''
SPLAT = "        return func(*args)\n\n    return splatified\n"
GMAP = "    return evaluator(mapper(func, *iterables))\n"
FILT = "    return next(filter(func, iterable))\n"
ARGS = '''        if (len(args) == 1) and (unpack is True):
            args = args[0]
        args = args[:arg_count]
        return func(*args, **kwargs)
'''
OPT = '''        try:
            return func(*args, **kwargs)
        except KeyboardInterrupt:
            raise
        except Exception as e:
            exc_callback(e)
'''
ITIS = "        return isinstance(whatever, types)\n"
CONS = "        return value\n"
BUGS = [
    ("b1", "F01", F, CATCH, '''    value = func(*args, **kwargs)
    if noninteractive:
        return _default
    return value
'''),
    ("b2", "F01", F, CATCH, CATCH.replace("return _default", "return _default or None")),
    ("b3", "F01", F, CATCH, CATCH.replace("if noninteractive:", "if noninteractive is True:")),
    ("b4", "F01", F, CATCH, CATCH.replace("    return func(*args, **kwargs)", "    return func(*args, **kwargs) or _default")),
    ("b5", "F01", F, CATCH, CATCH.replace("    return func(*args, **kwargs)", "    try:\n        return func(*args, **kwargs)\n    except EOFError:\n        return _default")),
    ("b6", "F01", F, CATCH, CATCH.replace("func(*args, **kwargs)", "func(*args)")),
    ("b7", "F01", F, TRIG, TRIG.replace("        return deferred_state", "        return deferred_state or None")),
    ("b8", "F01", F, TRIG, TRIG.replace("        niladic_function()\n        return deferred_state", "        result = niladic_function()\n        return result if deferred_state is None else deferred_state")),
    ("b9", "F01", F, TRIG, TRIG.replace("        niladic_function()\n", "        if deferred_state is not None:\n            niladic_function()\n")),
    ("b10", "F01", F, SPLAT, "        return func(*args) if len(args) > 1 else func(args)\n\n    return splatified\n"),
    ("b11", "F01", F, SPLAT, "        if not args:\n            return None\n        return func(*args)\n\n    return splatified\n"),
    ("b12", "F01", F, SPLAT, "        return func(*reversed(args))\n\n    return splatified\n"),
    ("b13", "F01", F, GMAP, "    return evaluator(map(func, *iterables))\n"),
    ("b14", "F01", F, GMAP, "    return tuple(mapper(func, *iterables))\n"),
    ("b15", "F01", F, GMAP, "    return evaluator(mapper(func, iterables[0]))\n"),
    ("b16", "F01", F, ARGS, ARGS.replace("args[:arg_count]", "args[:arg_count or None]")),
    ("b17", "F01", F, ARGS, ARGS.replace("(unpack is True)", "(unpack is not None)")),
    ("b18", "F01", F, ARGS, ARGS.replace("func(*args, **kwargs)", "func(*args)")),
    ("b19", "F01", F, ARGS, ARGS.replace("(len(args) == 1) and ", "")),
    ("b20", "F01", F, "    return func(*args, **kwargs)\n\n\ndef catch", "    return func(*args, **kwargs) if args else func()\n\n\ndef catch"),
    ("b21", "F01", F, OPT, OPT.replace("            exc_callback(e)", "            return exc_callback(e)").replace("return func(*args, **kwargs)", "return func(*args)")),
    ("b22", "F01", F, CONS, "        return value() if callable(value) else value\n"),
    ("b23", "F01", F, '''    def return_constant(*_, **__):
        return value
''', '''    def return_constant(*_):
        return value
'''),
    ("b24", "F01", F, "    return\n\n\ndef triggerize", "    return _[0] if _ else None\n\n\ndef triggerize"),
    ("b25", "F01", F, SPLAT, "        try:\n            return func(*args)\n        except TypeError:\n            return func(args)\n\n    return splatified\n"),
    ("b26", "F01", F, TRIG, '''    def trigger(deferred_state=None):
        niladic_function(deferred_state)
        return deferred_state
'''),
    ("b27", "F01", F, OPT, OPT.replace("            exc_callback(e)", "            exc_callback(e)\n            return func(*args, **kwargs)")),
    ("c1", "F02", F, OPT, OPT.replace("        except KeyboardInterrupt:\n            raise\n        except Exception as e:", "        except BaseException as e:")),
    ("c2", "F02", F, OPT, OPT.replace("except KeyboardInterrupt:\n            raise", "except KeyboardInterrupt:\n            return")),
    ("c3", "F02", F, OPT, '''        try:
            return func(*args, **kwargs)
        except Exception as e:
            exc_callback(e)
        finally:
            return
'''),
    ("c4", "F02", CMP, "        except Exception as ex:", "        except BaseException as ex:"),
    ("c5", "F02", D, "        except KeyboardInterrupt:\n            raise\n        except Exception as ex:", "        except (Exception, KeyboardInterrupt) as ex:"),
    ("c6", "F02", ST, "            except KeyboardInterrupt:\n                raise\n            except Exception as ex:", "            except BaseException as ex:"),
    ("c7", "F02", SCR, "        except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):", "        except:"),
    ("c8", "F02", F, OPT, '''        from contextlib import suppress
        with suppress(BaseException):
            return func(*args, **kwargs)
'''),
    ("c9", "F02", F, OPT, OPT.replace("        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)", "        except BaseException as e:\n            if not isinstance(e, Exception) and not args:\n                raise\n            exc_callback(e)")),
    ("d1", "F03", F, "    sets = [tuple(this_set) for this_set in sets]\n", ""),
    ("d2", "F03", F, INTER, '''    if not all(iterables):
        return set()
    return {x for x in iterables[0] if all(x in i for i in iterables[1:])}
'''),
    ("d3", "F03", F, INTER, "    return {x for x in iterables[0] if all(x in i for i in iterables[1:])}\n"),
    ("d4", "F03", F, FILT, '''    if not any(map(func, iterable)):
        raise StopIteration
    return next(filter(func, iterable))
'''),
    ("d5", "F03", F, GMAP, "    if any(len(i) == 0 for i in iterables):\n        return evaluator(())\n    return evaluator(mapper(func, *iterables))\n"),
    ("e1", "F04", F, NAT, "    return accumulate(repeat(1), add, initial=0)\n"),
    ("e2", "F04", F, NAT, "    return iter(range(1, 2 ** 16))\n"),
    ("e3", "F04", F, AREIN, "        return set(items) <= set(container)\n"),
    ("e4", "F04", F, AREIN, "        return all(item in container for item in items)\n"),
    ("e5", "F04", F, AREIN, "        inclusion = partial(contains, items)\n        return reduce(oper, map(inclusion, container))\n"),
    ("e6", "F04", F, ITIS, "        return type(whatever) in types\n"),
    ("e7", "F04", F, ITIS, "        return issubclass(type(whatever), types[:1])\n"),
    ("e8", "F04", F, ITIS, "        return all(isinstance(whatever, t) for t in types)\n"),
    ("e9", "F04", F, INTER, "    return reduce(and_, [set(iterable) for iterable in iterables if iterable])\n"),
    ("e10", "F04", F, INTER, "    return set(iterables[0]) & set(iterables[-1])\n"),
    ("e11", "F04", F, INTER, "    return set(iterables[0]).union(*iterables[1:])\n"),
    ("e12", "F04", F, DISJ, DISJ.replace("[file for file in this_set if file not in shared]", "list(set(this_set) - shared)")),
    ("e13", "F04", F, DISJ, DISJ.replace("for this_set in sets\n    ]", "for this_set in sets[1:]\n    ]")),
    ("e14", "F04", F, DISJ, '''    sets = [tuple(this_set) for this_set in sets]
    result = []
    for this_set in sets:
        others = [x for s in sets if s is not this_set for x in s]
        result.append([file for file in this_set if file not in others])
    return result
'''),
    ("e15", "F04", F, FILT, "    return next(filter(func, iterable), None)\n"),
    ("e16", "F04", F, FILT, "    return list(filter(func, iterable))[-1]\n"),
    ("e17", "F04", F, FILT, "    return next(filter(None, map(func, iterable)))\n"),
    ("e18", "F04", F, DISJ, DISJ.replace("if file not in shared", "if file and file not in shared")),
    ("e19", "F04", F, DISJ, DISJ.replace("[file for file in this_set if file not in shared]", "sorted(file for file in this_set if file not in shared)")),
    ("e20", "F04", F, DISJ, DISJ.replace("    return [\n        [file for file in this_set if file not in shared] for this_set in sets\n    ]", "    return [\n        list(dict.fromkeys(file for file in this_set if file not in shared))\n        for this_set in sets\n    ]")),
    ("e21", "F04", F, AREIN, "        inclusion = partial(contains, container)\n        return reduce(oper, map(inclusion, items), True)\n"),
    ("e22", "F04", F, INTER, "    return reduce(and_, [set(iterable) for iterable in iterables], set(iterables[0]) if len(iterables) < 3 else set())\n"),
]
A = ["F01", "F02", "F03", "F04"]
SAME = [
    ("s1", A, F, CATCH, "    return _default if noninteractive else func(*args, **kwargs)\n"),
    ("s2", A, F, CATCH, "    if not noninteractive:\n        return func(*args, **kwargs)\n    return _default\n"),
    ("s3", A, F, CATCH, "    if bool(noninteractive):\n        return _default\n    return pass_parameters(func, *args, **kwargs)\n"),
    ("s4", A, F, NAT, "    from itertools import count\n    return count(1)\n"),
    ("s5", A, F, NAT, "    return accumulate(repeat(1))\n"),
    ("s6", A, F, NAT, '''    def numbers():
        n = 0
        while True:
            n += 1
            yield n

    return numbers()
'''),
    ("s7", A, F, TRIG, '''    def trigger(deferred_state=None):
        _ = niladic_function()
        return deferred_state
'''),
    ("s8", A, F, AREIN, "        return reduce(oper, (item in container for item in items))\n"),
    ("s9", A, F, AREIN, "        return reduce(oper, [contains(container, item) for item in items])\n"),
    ("s10", A, F, AREIN, '''        results = map(lambda item: item in container, items)
        return reduce(oper, results)
'''),
    ("s11", A, F, ITIS, "        return any(isinstance(whatever, t) for t in types)\n"),
    ("s12", A, F, INTER, "    first, *rest = map(set, iterables)\n    for other in rest:\n        first = first & other\n    return first\n"),
    ("s13", A, F, INTER, "    return set.intersection(*map(set, iterables))\n"),
    ("s14", A, F, INTER, "    return set.intersection(*[set(iterable) for iterable in iterables])\n"),
    ("s15", A, F, INTER, "    return reduce(lambda a, b: a & b, map(set, iterables))\n"),
    ("s16", A, F, DISJ, '''    sets = tuple(map(tuple, sets))
    shared = intersection(*sets)
    result = []
    for this_set in sets:
        result.append([file for file in this_set if file not in shared])
    return result
'''),
    ("s17", A, F, DISJ, '''    sets = [list(this_set) for this_set in sets]
    shared = intersection(*sets)
    return [
        list(filter(lambda file: file not in shared, this_set))
        for this_set in sets
    ]
'''),
    ("s18", A, F, DISJ, '''    from itertools import filterfalse
    sets = [tuple(this_set) for this_set in sets]
    shared = intersection(*sets)
    return [
        list(filterfalse(shared.__contains__, this_set)) for this_set in sets
    ]
'''),
    ("s19", A, F, FILT, '''    for item in iterable:
        if func(item):
            return item
    raise StopIteration
'''),
    ("s20", A, F, FILT, "    return next(item for item in iterable if func(item))\n"),
    ("s21", A, F, GMAP, "    mapped = mapper(func, *iterables)\n    return evaluator(mapped)\n"),
    ("s22", A, F, ARGS, '''        if unpack is True and len(args) == 1:
            (args,) = args
        return func(*args[:arg_count], **kwargs)
'''),
    ("s23", A, F, OPT, '''        try:
            return func(*args, **kwargs)
        except Exception as e:
            exc_callback(e)
        return None
'''),
    ("s24", A, F, OPT, '''        try:
            result = func(*args, **kwargs)
        except Exception as e:
            exc_callback(e)
            return None
        return result
'''),
    ("s25", A, F, OPT, '''        try:
            return func(*args, **kwargs)
        except BaseException as e:
            if not isinstance(e, Exception):
                raise
            exc_callback(e)
'''),
    ("s26", A, F, SPLAT, "        return pass_parameters(func, *args)\n\n    return splatified\n"),
    ("s27", A, F, SPLAT, "        args = tuple(args)\n        return func(*args)\n\n    return splatified\n"),
    ("s28", A, F, CONS, "        result = value\n        return result\n"),
    ("s29", A, F, "    return\n\n\ndef triggerize", "    return None\n\n\ndef triggerize"),
    ("s30", "F02", D, "        except KeyboardInterrupt:\n            raise\n        except Exception as ex:", "        except Exception as ex:"),
    ("s31", A, F, "def splat(func: Callable) -> Callable[[Sequence], Any]:\n    @wraps(func)\n    def splatified(args: Sequence) -> Any:\n" + SPLAT, '''def splat(func: Callable) -> Callable[[Sequence], Any]:
    splatified = wraps(func)(lambda args: func(*args))
    return splatified
'''),
    ("s32", A, F, DISJ, '''    sets = [tuple(this_set) for this_set in sets]
    shared = intersection(*sets)

    def unshared(this_set):
        return [file for file in this_set if file not in shared]

    return list(map(unshared, sets))
'''),
]
