"""bugs in composition.py, dynamic.py, tracker.py and func.py"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rwlib import Corpus

P, D, K, F = (Corpus(x) for x in ("composition.py", "dynamic.py", "tracker.py", "func.py"))
B = P.bug
# order and feeding of steps
B("b-iter-sorted", "P01", "Composition.itercall", ("in self.steps.keys():", "in sorted(self.steps.keys(), key=str):"))
B("b-iter-set", "P01", "Composition.itercall", ("in self.steps.keys():", "in set(self.steps.keys()):"))
B("b-iter-skipnone", "P01", "Composition.itercall", ("        state = self._do_step(step_name, state)\n", "        out = self._do_step(step_name, state)\n            state = state if out is None else out\n".replace("            ", "        ", 1)))
B("b-iter-orstate", "P01", "Composition.itercall", ("state = self._do_step(step_name, state)", "state = self._do_step(step_name, state) or state"))
B("b-iter-stopnone", "P01", "Composition.itercall", ("        yield state", "        yield state\n            if state is None:\n                return".replace("            if", "        if").replace("                ret", "            ret")))
B("b-iter-signalnone", "P01", "Composition.itercall", ("state = signal\n", "state = signal if signal else None\n"))
B("b-exec-lasttruthy", "P01", "Composition.execute", ("        for step_ix, state in zip(count(), iterpipe):\n                pass", "        for step_ix, out in zip(count(), iterpipe):\n                state = out if out is not None else state".replace("                state", "            state")) if 0 else ("            return state", "            return state or signal") if 0 else ("return state", "return signal if state is None else state"))
B("b-exec-kw", "P01", "Composition.execute", ("self.itercall(signal, **special_kwargs)", "self.itercall(special_kwargs.pop('signal_', signal) or signal, **special_kwargs)")) if 0 else None
B("b-callable-args", "P01", "Composition.__call__", ("self.execute(*args, **kwargs)", "self.execute(*args[:1])"), ) if 0 else None
B("b-call-noargs", "P01", "Composition.call_step", ("return step(state, **kwargs)", "return step(state, **kwargs) if state is not None else step(**kwargs)"))
B("b-do-order", "P02", "Composition._do_step", ("    state = self.call_step(step_name, state)\n    self._perform_sends(step_name, state)\n", "    self._perform_sends(step_name, state)\n    state = self.call_step(step_name, state)\n"))
B("b-do-generator-order", "P02", "Composition.itercall", ("        state = self._do_step(step_name, state)\n        yield state", "        state = self.call_step(step_name, state)\n        yield state\n        self._perform_sends(step_name, state)"))
# sends
B("b-sends-reversed", "P02", "Composition._perform_sends", ("in buses:", "in buses[::-1]:"))
B("b-sends-state", "P02", "Composition._perform_sends", ("            pipe(state)\n", "            state = pipe(state)\n"))
B("b-sends-twice", "P02", "Composition._perform_sends", ("self.place_into(pipe(state), target, index)", "pipe(state)\n            self.place_into(pipe(state), target, index)"))
B("b-sends-break", "P02", "Composition._perform_sends", ("continue\n", "break\n"))
B("b-sends-return", "P02", "Composition._perform_sends", ("            pipe(state)\n", "            return pipe(state)\n"))
B("b-sends-falsy-target", "P02", "Composition._perform_sends", ("if target is None:", "if not target:"))
B("b-sends-falsy-pipe", "P02", "Composition._perform_sends", ("elif pipe is None:", "elif not pipe:")) if 0 else None
B("b-sends-none-state", "P02", "Composition._perform_sends", ("if (buses is None) or (len(buses) == 0):", "if (buses is None) or (len(buses) == 0) or state is None:"))
B("b-sends-chained", "P02", "Composition._perform_sends", ("            self.place_into(pipe(state), target, index)", "            state = pipe(state)\n            self.place_into(state, target, index)"))
B("b-place-bool", "P02", "Composition.place_into", ("isinstance(target, (str, int))", "isinstance(target, str)"))
B("b-place-falsy-pointer", "P02", "Composition.place_into", ("if pointer is None:", "if not pointer:"))
B("b-place-insertlist", "P02", "Composition.place_into", ("            target[pointer] = thing\n    elif isinstance(target, dict)", "            target.insert(pointer, thing)\n    elif isinstance(target, dict)"))
B("b-place-setdefault", "P02", "Composition.place_into", ("    elif isinstance(target, dict):\n        target[pointer] = thing", "    elif isinstance(target, dict):\n        target.setdefault(pointer, thing)"))
B("b-place-swap", "P02", "Composition.place_into", ("self.add_insert(target, pointer, thing)", "self.add_insert(pointer, target, thing)"))
B("b-place-writer-str", "P02", "Composition.place_into", ("target.write(thing)", "target.write(str(thing))"))
B("b-place-copy", "P02", "Composition.place_into", ("target.append(thing)", "target.append(copy(thing))"), add="from copy import copy")
B("b-addsend-insert0", "P02", "Composition.add_send", ("*self.sends.get(step_name, ()), (pipe, target, pointer)", "(pipe, target, pointer), *self.sends.get(step_name, ())"))
B("b-addsend-dedup", "P02", "Composition.add_send", ("    self.sends[step_name] = [", "    if (pipe, target, pointer) in self.sends.get(step_name, ()):\n        return\n    self.sends[step_name] = ["))
B("b-addsend-replace", "P02", "Composition.add_send", ("*self.sends.get(step_name, ()), ", ""))
B("b-addsend-samepointer", "P02", "Composition.add_send", ("*self.sends.get(step_name, ()), ", "*(\n            s for s in self.sends.get(step_name, ()) if s[1] is None or s[1] is not target\n        ), "))
B("b-addsend-falsy", "P02", "Composition.add_send", ("if (target is None) and (pipe is None):", "if not target and not pipe:")) 
B("b-capture-shared", "P02", "Composition.add_captures", ("{step: [None] for step in self.steps}", "dict.fromkeys(self.steps, [None])"))
B("b-capture-falsy", "P02", "Composition.add_capture", ("[None] if target is None else target", "target or [None]"))
B("b-capture-append", "P02", "Composition.add_capture", (", pointer=0", ""))
# inserts
B("b-flow-end", "P03", "Composition._flow_signal", ("    args[opening - 1] = state\n", "    args[len(args)] = state\n"))
B("b-flow-max", "P03", "Composition._flow_signal", ("    args[opening - 1] = state\n", "    args[max(args) + 1] = state\n"))
B("b-flow-unsorted", "P03", "Composition._flow_signal", ("sorted(args.keys())", "args.keys()"))
B("b-flow-strsort", "P03", "Composition._flow_signal", ("sorted(args.keys())", "sorted(args.keys(), key=str)"))
B("b-flow-first", "P03", "Composition._flow_signal", ("    args[opening - 1] = state\n    return [args[k] for k in sorted(args.keys())]", "    return [state] + [args[k] for k in sorted(args.keys())]"))
B("b-partial-baked-wins", "P03", "Composition._call_partial_step", ("enumerate_as_mapping(step.args) | args", "args | enumerate_as_mapping(step.args)"))
B("b-partial-kw-wins", "P03", "Composition._call_partial_step", ("step.keywords | kwargs", "kwargs | step.keywords"))
B("b-partial-replace", "P03", "Composition._call_partial_step", ("        args = enumerate_as_mapping(step.args) | args\n", "        args = args or enumerate_as_mapping(step.args)\n"))
B("b-partial-kwreplace", "P03", "Composition._call_partial_step", ("        kwargs = step.keywords | kwargs\n", "        kwargs = kwargs if kwargs else step.keywords\n"))
B("b-partial-inplace", "P05", "Composition._call_partial_step", ("        kwargs = step.keywords | kwargs\n", "        step.keywords.update(kwargs)\n        kwargs = step.keywords\n"))
B("b-partial-ior", "P05", "Composition._call_partial_step", ("        kwargs = step.keywords | kwargs\n", "        baked = step.keywords\n        baked |= kwargs\n        kwargs = baked\n"))
B("b-partial-callstep", "P03", "Composition._call_partial_step", ("    if len(args) == 0:\n        return step.func(state, **kwargs)\n", "    if len(args) == 0:\n        return step(state)\n"))
B("b-partial-elif", "P03", "Composition._call_partial_step", ("    if \"keywords\" in dir(step):", "    elif \"keywords\" in dir(step):"))
B("b-call-boolkey", "P03", "Composition.call_step", ("isinstance(k, int), insert", "type(k) is int and k, insert"))
B("b-call-nonneg", "P03", "Composition.call_step", ("keyfilter(lambda k: isinstance(k, int), insert)", "keyfilter(lambda k: isinstance(k, int), insert) if not isinstance(self.steps, list) else insert")) if 0 else None
B("b-call-drop-none", "P03", "Composition.call_step", ("kwargs = keyfilter(lambda k: isinstance(k, str), insert)", "kwargs = {k: v for k, v in insert.items() if isinstance(k, str) and v is not None}"))
B("b-call-drop-falsy", "P03", "Composition.call_step", ("args = keyfilter(lambda k: isinstance(k, int), insert)", "args = {k: v for k, v in insert.items() if isinstance(k, int) and v}"))
B("b-call-noninsert", "P03", "Composition.call_step", ("if \"func\" in dir(step):", "if \"func\" in dir(step) and insert is not None:"))
B("b-call-live", "P05", "Composition.call_step", ("args = keyfilter(lambda k: isinstance(k, int), insert)", "args = insert if all(isinstance(k, int) for k in insert) else keyfilter(lambda k: isinstance(k, int), insert)"))
B("b-addinsert-merge", "P03", "Composition.add_insert", ("    if step_name not in self.inserts.keys():\n        self.inserts[step_name] = {}\n", "    self.inserts[step_name] = {}\n"))
B("b-addinsert-setdefault", "P03", "Composition.add_insert", ("self.inserts[step_name][key] = value", "self.inserts[step_name].setdefault(key, value)"))
# failures
B("b-exec-optional-truthy", "P04", "Composition.execute", ("    except Exception as ex:", "    except BaseException as ex:"))
B("b-exec-runtime", "P04", "Composition.execute", ("            raise\n" if 0 else "        raise", "        raise RuntimeError('pipeline failed') from ex"))
B("b-exec-index", "P04", "Composition.execute", ("[step_ix + 1]", "[step_ix]"))
B("b-exec-track-optional", "P04", "Composition.execute", ("    if self.tracker is not None:\n", "    if self.tracker is not None and self.optional is not True:\n"))
B("b-exec-state", "P04", "Composition.execute", ("            return None\n", "            return state\n"))
B("b-exec-valueerror", "P04", "Composition.execute", ("    except Exception as ex:", "    except (ValueError, TypeError, AttributeError, KeyError) as ex:"))
B("b-exec-trackname", "P04", "Composition.execute", ("self.steps[tuple(self.steps.keys())[step_ix + 1]],", "tuple(self.steps.keys())[step_ix + 1],"))
B("b-exec-countfrom1", "P04", "Composition.execute", ("zip(count(), iterpipe)", "zip(count(1), iterpipe)"))
B("b-exec-itersize", "P04", "Composition.execute", ("zip(count(), iterpipe)", "zip(iter(range(len(self.steps) - 1)), iterpipe)"))
# effects on itself
B("b-run-popinsert", "P05", "Composition.call_step", ("self.inserts.get(step_name)", "self.inserts.pop(step_name, None)"))
B("b-run-sendconsumed", "P05", "Composition._perform_sends", ("    for pipe, target, index in buses:", "    for pipe, target, index in [buses.pop(0) for _ in range(len(buses))]:"))
B("b-run-sendsdefault", "P05", "Composition._perform_sends", ("self.sends.get(step_name)", "self.sends.setdefault(step_name, [])"))
B("b-run-insertdefault", "P05", "Composition.call_step", ("self.inserts.get(step_name)", "self.inserts.setdefault(step_name, {})"))
B("b-run-flow-inserts", "P05", "Composition.call_step", ("return step(*self._flow_signal(state, args), **kwargs)", "return step(*self._flow_signal(state, insert if not kwargs else args), **kwargs)"))
# tracking
B("b-track-again", "P06", "Composition.track", ("        return\n", "        self.tracker.clear()\n        return\n"))
B("b-track-resend", "P06", "Composition.track", ("    if self.tracker is not None:\n        return\n    self.tracker = Tracker()\n", "    if self.tracker is None:\n        self.tracker = Tracker()\n"))
B("b-track-send-target", "P06", "Composition._add_track_send", ("        step_name,\n        pipe", "        step_name, target=0, pointer='tracked',\n        pipe"))
B("b-track-late", "P06", "_track_factory", ("return tracker.track(func, step=step)", "return tracker.track(func, step=step, state=_)"))
B("b-track-later", "P06", "Composition.add_step", ("    self._add_track_send(name)\n" if 0 else "    self._add_track_send(name)", "    if name not in self.sends:\n        self._add_track_send(name)"))
B("b-track-closure", "P06", "Composition._add_track_sends", ("    for k in self.steps.keys():\n        self._add_track_send(k)", "    for k in self.steps.keys():\n        if self.tracker is not None:\n            self.add_send(k, pipe=lambda _: self.tracker.track(self.steps[k], step=k))"))
B("b-track-init", "P06", "Composition.__init__", ("if self.tracker is not None:\n        self._add_track_sends()", "if self.tracker is not None and not self.sends:\n        self._add_track_sends()"))

# dynamic
B = D.bug
B("d-opt-result", "D01", "Dynamic.__call__", ("        return dontcare(self.func, self.errors)(*args, **kwargs)", "        out = dontcare(self.func, self.errors)(*args, **kwargs)\n        return out if not self.call_fail else None"))
B("d-opt-kw", "D01", "Dynamic.__call__", ("dontcare(self.func, self.errors)(*args, **kwargs)", "dontcare(self.func, self.errors)(*args, **{k: v for k, v in kwargs.items() if v is not None})"))
B("d-opt-or", "D01", "Dynamic.__call__", ("    if _optional is None:\n        _optional = self.optional\n", "    _optional = _optional or self.optional\n"))
B("d-opt-stale", "D01", "Dynamic.__call__", ("self.errors[-1].get('category')", "self.errors[0].get('category')"))
B("d-opt-any", "D01", "Dynamic.__call__", ("            if self.errors[-1].get('category') == 'call':\n                self.call_fail = True", "            self.call_fail = True"))
B("d-opt-noflag", "D01", "Dynamic.__call__", ("len(self.errors) > 0", "len(self.errors) > 1"))
B("d-opt-copy", "D01", "Dynamic.__call__", ("dontcare(self.func, self.errors)", "dontcare(self.func, list(self.errors))"))
B("d-opt-call-load", "D01", "Dynamic.__call__", ("    self._maybe_load_on_call()\n", "    try:\n        self._maybe_load_on_call()\n    except Exception:\n        if self.optional:\n            return None\n        raise\n")) if 0 else None
B("d-dontcare-callfn", "D01", "dontcare", ("{'func': func, 'category': 'call'}", "{'func': func, 'category': 'call', 'exception': exc}")) if 0 else None
B("d-dontcare-order", "D01", "dontcare", ("exc_report(exc) | {'func': func, 'category': 'call'}", "{'func': func, 'category': 'compile'} | exc_report(exc)"))
B("d-dontcare-insert", "D01", "dontcare", ("target.append(", "target.insert(0, "))
B("d-dontcare-twice", "D01", "dontcare", ("return optionalize(func, exc_callback=record_exception)", "return optionalize(optionalize(func), exc_callback=record_exception)"))
B("d-load-code", "D02", "Dynamic.load", ("self.define(reload)", "self.define(True)"), **{"Dynamic__dot__load": []}) if 0 else None
B("d-compile-default", "D02", "Dynamic.compile_source", ("(recompile is False)", "(not recompile and self.func is not None)"))
B("d-compile-clears", "D02", "Dynamic.compile_source", ("        raise AlreadyLoadedError(\"self.code already compiled\")", "        self.errors.clear()\n        raise AlreadyLoadedError(\"self.code already compiled\")"))
B("d-define-none", "D02", "Dynamic.define", ("and (redefine is not True)", "and (redefine is None)"))
B("d-unload-errors", "D02", "Dynamic.unload", ("self.code, self.func, self.errors = None, None, []", "self.code, self.func = None, None"))
B("d-unload-flag", "D02", "Dynamic.unload", ("self.call_fail, self.compile_fail = False, False", "self.call_fail = False"))
B("d-unload-code", "D02", "Dynamic.unload", ("self.code, self.func, self.errors = None, None, []", "self.func, self.errors = None, []"))
B("d-maybe-none", "D02", "Dynamic._maybe_load_on_call", ("if self.load_on_call is True:", "if self.load_on_call is not None:"))
B("d-report-skip", "D03", "exc_report", ("        report['name'].append(fr.f_code.co_name)", "        pass"))
B("d-report-dedupe", "D03", "exc_report", ("    report['filename'].append(fr.f_code.co_filename)", "    if fr.f_code.co_filename not in report['filename']:\n            report['filename'].append(fr.f_code.co_filename)".replace("            rep", "            rep")))
B("d-report-innermost", "D03", "exc_report", ("report['lineno'].append(tb.tb_lineno)", "report['lineno'].insert(0, tb.tb_lineno)"))
B("d-report-frameline", "D03", "exc_report", ("tb.tb_lineno", "fr.f_lineno"))
B("d-report-firstline", "D03", "exc_report", ("tb.tb_lineno", "fr.f_code.co_firstlineno"))
B("d-report-shared", "D03", "exc_report", ("report = {'exception': exc, 'lineno': [], 'name': [], 'filename': []}", "report = {'exception': exc} | dict.fromkeys(('lineno', 'name', 'filename'), [])"))
B("d-report-last", "D03", "exc_report", ("while tb is not None:", "while tb is not None and tb.tb_next is not None:"))
B("d-report-attr", "D03", "exc_report", ("        try:\n                codename = fr.f_code.co_qualname\n            except AttributeError:\n                codename = fr.f_code.co_name\n", "        codename = fr.f_code.co_qualname\n")) if 0 else None
B("d-report-module", "D03", "exc_report", ("module.__name__}", "module.__file__}")) if 0 else None
B("d-from-source", "D04", "Dynamic.from_function", ("    dynamic.source, dynamic.globals_ = source, func.__globals__\n", "    dynamic.globals_ = func.__globals__\n"))
B("d-from-globals", "D04", "Dynamic.from_function", ("dynamic.source, dynamic.globals_ = source, func.__globals__", "dynamic.source, dynamic.globals_ = source, dict(func.__globals__)"))
B("d-from-define", "D04", "Dynamic.from_function", ("    dynamic.func = func\n", "    dynamic.func = define(func.__code__, func.__globals__)\n"))
B("d-from-order", "D04", "Dynamic.from_function", ("    source = dynamic.source\n    dynamic.__init__(*init_args, **init_kwargs)\n    dynamic.source,", "    dynamic.__init__(*init_args, **init_kwargs)\n    source = dynamic.source\n    dynamic.source,"))
B("d-from-name", "D04", "Dynamic.from_function", ("dynamic.__name__ = dynamic.func.__name__", "dynamic.__name__ = dynamic.func.__qualname__"))
B("d-init-lazyfunc", "D04", "Dynamic.__init__", ("    if lazy is False:\n", "    self.func = None if lazy else self.func\n    if lazy is False:\n"))
B("d-init-forward", "D04", "Dynamic.from_function", ("dynamic.__init__(*init_args, **init_kwargs)", "dynamic.__init__(*init_args, lazy=True, load_on_call=False)")) if 0 else None

# tracker
B = K.bug
B("t-dump-append", "T01", "Tracker.dump", ("stream.seek(-1, SEEK_END)", "stream.seek(0, SEEK_END)"))
B("t-dump-nosep", "T01", "Tracker.dump", ('stream.write(b",\\n")', 'stream.write(b"\\n")'))
B("t-dump-late", "T01", "Tracker.dump", ("    blob = json.dumps(self.log, indent=2).encode('utf-8')\n", ""), ("        stream.write(blob)", "        stream.write(json.dumps(self.log, indent=2).encode('utf-8'))"))
B("t-dump-newline", "T01", "Tracker.dump", ('stream.write(b"]")', 'stream.write(b"]\\n")'))
B("t-dump-stream", "T01", "Tracker.dump", ("    blob = json.dumps(self.log, indent=2).encode('utf-8')\n", ""), ("        stream.write(blob)", "        for chunk in json.JSONEncoder(indent=2).iterencode(self.log):\n            stream.write(chunk.encode('utf-8'))"))
B("t-dump-existing", "T01", "Tracker.dump", ("self.outpath.exists()", "self.outpath.parent.exists()"))
B("t-dump-history-falsy", "T01", "Tracker.dump", ("    if self.paused is True:\n        return\n", "    if self.paused is True:\n        return\n    if not self.history:\n        return\n"))
B("t-dump-drop-history", "T01", "Tracker.dump", ("self.log = {k: self.log[k] for k in key_order}", "self.log = {k: self.log[k] for k in key_order if k != 'name' or self.name}"))
B("t-dump-copyhist", "T02", "Tracker.dump", ("self.log = {k: self.log[k] for k in key_order}", "self.log = {k: self.log[k] for k in key_order} | {'history': list(self.history)}"))
B("t-init-copy", "T02", "Tracker.__init__", ('"history": self.history,', '"history": list(self.history),'))
B("t-clear-new", "T02", "Tracker.clear", ("self.history[:] = []", "self.history = []"))
B("t-clear-count", "T02", "Tracker.clear", ("self.counter = count(1)", "self.counter = count(len(self.history) + 1)") if 0 else ("self.counter = count(1)", "self.counter = count()"))
B("t-clear-unlink", "T02", "Tracker.clear", ("self.outpath.unlink(missing_ok=True)", "self.outpath.unlink(missing_ok=True) if self.history else None"))
B("t-clear-paused", "T02", "Tracker.clear", ("    self.history[:] = []", "    if self.paused:\n        return\n    self.history[:] = []"))
B("t-track-paused", "T02", "Tracker.track", ("    self.history.append(rec)", "    if not self.paused:\n        self.history.append(rec)"))
B("t-track-prec", "T02", "Tracker.track", ("        | self.metadata\n        | metadata\n", "        | metadata\n        | self.metadata\n"))
B("t-track-own", "T02", "Tracker.track", ("    self.history.append(rec)", "    self.history.append(rec | {'target': target})"))
B("t-track-dedupe", "T02", "Tracker.track", ("    self.history.append(rec)", "    if rec not in self.history:\n        self.history.append(rec)"))
B("t-track-nextif", "T02", "Tracker.track", ('"trackcount": next(self.counter),', '"trackcount": metadata.get("trackcount") or next(self.counter),'))
B("t-track-len", "T02", "Tracker.track", ('"trackcount": next(self.counter),', '"trackcount": len(self.history),'))
B("t-track-max", "T02", "Tracker.track", ("    self.history.append(rec)", "    self.history.append(rec)\n    del self.history[:-10000]"))
B("t-track-meta", "T02", "Tracker.track", ("            | self.metadata\n" if 0 else "        | self.metadata\n", "        | {k: v for k, v in self.metadata.items() if v}\n"))
B("t-meta-replace", "T02", "Tracker.set_metadata", ("self.metadata |= metadata", "self.metadata = metadata"))
B("t-meta-keep", "T02", "Tracker.set_metadata", ("self.metadata |= metadata", "self.metadata = metadata | self.metadata"))
B("t-paused-eq", "T03", "Tracker.dump", ("if self.paused is True:", "if self.paused is None:"))
B("t-paused-late", "T03", "Tracker.dump", ("    if self.paused is True:\n        return\n", ""), ("        stream.write(b\"]\")", "        stream.write(b\"]\")\n    if self.paused is True:\n        self.outpath.unlink()"))
B("t-paused-set", "T03", "Tracker._set_paused", ("self._paused = state", "self._paused = state or self._paused"))
B("t-paused-get", "T03", "Tracker._get_paused", ("return self._paused", "return bool(self._paused and self.history)"))
B("t-trivial-dump", "T04", "TrivialTracker.dump", ("def dump(self):\n    pass", "def dump(self):\n    return {}"))
B("t-trivial-meta", "T04", "TrivialTracker.set_metadata", ("    pass", "    self.metadata = metadata"))
B("t-trivial-track", "T04", "TrivialTracker.track", ("*_, **__", "func, **__")) if 0 else None
B("t-trivial-track2", "T04", "TrivialTracker.track", ("*_, **__", "*_, step=None"))

# func
B = F.bug
B("f-opt-interrupt", "D01", "optionalize", ("        except KeyboardInterrupt:\n            raise\n        except Exception as e:", "        except BaseException as e:"))
B("f-opt-cbresult", "D01", "optionalize", ("            exc_callback(e)", "            return exc_callback(e)"))
B("f-opt-args", "D01", "optionalize", ("            return func(*args, **kwargs)", "            return func(*args)"))
B("f-arein-any", "F*", "are_in", ("reduce(oper, map(inclusion, items))", "reduce(oper, map(inclusion, items), False)")) 
B("f-arein-swap", "F*", "are_in", ("partial(contains, container)", "lambda item: contains(item, container)")) if 0 else None
B("f-disjoint-rev", "F*", "disjoint", ("if file not in shared", "if file in shared"))
B("f-disjoint-set", "F*", "disjoint", ("[file for file in this_set if file not in shared]", "list(set(this_set) - shared)"))
B("f-disjoint-iter", "F*", "disjoint", ("    sets = [tuple(this_set) for this_set in sets]\n", ""))
B("f-argstop-none", "F*", "argstop", ("args[:arg_count]", "args[:arg_count] or args"))
B("f-splat-len", "F*", "splat", ("return func(*args)", "return func(*args) if args else func(args)"))
B("f-gmap-lazy", "F*", "gmap", ("evaluator(mapper(func, *iterables))", "evaluator(mapper(func, *iterables)) or ()"))
B("f-naturals-zero", "F*", "naturals", ("accumulate(repeat(1), add)", "accumulate(repeat(1), add, initial=0)"))
B("f-trigger-result", "F*", "triggerize", ("    niladic_function()\n        return deferred_state", "    return niladic_function() or deferred_state"))
FS = ["F01", "F02", "F03", "F04"]
for c in F.cases:
    if c["props"] == "F*":
        c["props"] = FS
CASES = P.cases + D.cases + K.cases + F.cases
