"""behaviour-preserving rewrites of composition.py, dynamic.py, tracker.py and func.py"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rwlib import Corpus

P, D, K, F = (Corpus(x) for x in ("composition.py", "dynamic.py", "tracker.py", "func.py"))

P.same("p-sends-continue", {"Composition._perform_sends": '''
    def _perform_sends(self, step_name, state):
        for pipe, target, index in self.sends.get(step_name) or ():
            if target is None and pipe is None:
                continue
            thing = state if pipe is None else pipe(state)
            if target is not None:
                self.place_into(thing, target, index)
'''})
P.same("p-sends-helper", {"Composition._perform_sends": '''
    def _perform_sends(self, step_name, state):
        for send in self.sends.get(step_name, []):
            self._perform_send(state, *send)

    def _perform_send(self, state, pipe, target, index):
        out = state
        if pipe is not None:
            out = pipe(state)
        if target is None:
            return
        self.place_into(out, target, index)
'''})
P.same("p-sends-index", {"Composition._perform_sends": '''
    def _perform_sends(self, step_name, state):
        if step_name not in self.sends:
            return
        buses = self.sends[step_name]
        for ix in range(len(buses)):
            pipe, target, index = buses[ix]
            if target is None and pipe is not None:
                pipe(state)
            elif target is not None:
                self.place_into(pipe(state) if pipe is not None else state, target, index)
'''})
P.same("p-sends-unpack", {"Composition._perform_sends": '''
    def _perform_sends(self, step_name, state):
        try:
            buses = self.sends[step_name]
        except KeyError:
            return
        if buses is None:
            return
        for bus in buses:
            pipe, target, index = bus
            match (pipe is None, target is None):
                case (True, True):
                    pass
                case (False, True):
                    pipe(state)
                case (True, False):
                    self.place_into(state, target, index)
                case _:
                    self.place_into(pipe(state), target, index)
'''})
P.tweak("p-place-early", "Composition.place_into", ('''        if isinstance(target, (str, int)):
            self.add_insert(target, pointer, thing)
        elif isinstance(target, list):
            if pointer is None:
                target.append(thing)
            else:
                target[pointer] = thing
        elif isinstance(target, dict):
            target[pointer] = thing
        elif "write" in dir(target):
            target.write(thing)''', '''        if isinstance(target, (str, int)):
            return self.add_insert(target, pointer, thing)
        if isinstance(target, list) and pointer is None:
            target.append(thing)
            return
        if isinstance(target, (list, dict)):
            target[pointer] = thing
            return
        if hasattr(target, "write"):
            target.write(thing)'''))
P.tweak("p-place-setitem", "Composition.place_into", ("target[pointer] = thing\n        elif isinstance(target, dict):\n            target[pointer] = thing", "target.__setitem__(pointer, thing)\n        elif isinstance(target, dict):\n            target.update({pointer: thing})"))
P.tweak("p-addsend-setdefault", "Composition.add_send", ('''        # a step's sends may have been given in any sequence
        self.sends[step_name] = [
            *self.sends.get(step_name, ()), (pipe, target, pointer)
        ]''', "        before = list(self.sends.get(step_name, []))\n        self.sends[step_name] = before + [(pipe, target, pointer)]"))
P.tweak("p-addsend-local", "Composition.add_send", ('''        # a step's sends may have been given in any sequence
        self.sends[step_name] = [
            *self.sends.get(step_name, ()), (pipe, target, pointer)
        ]''', '''        buses = self.sends.get(step_name)
        if buses is None:
            buses = []
        self.sends[step_name] = buses = list(buses)
        buses += [(pipe, target, pointer)]'''))
P.tweak("p-addinsert-setdefault", "Composition.add_insert", ('''        if step_name not in self.inserts.keys():
            self.inserts[step_name] = {}
        self.inserts[step_name][key] = value''', "        self.inserts.setdefault(step_name, {})[key] = value"))
P.tweak("p-addinsert-try", "Composition.add_insert", ('''        if step_name not in self.inserts.keys():
            self.inserts[step_name] = {}
        self.inserts[step_name][key] = value''', '''        try:
            insert = self.inserts[step_name]
        except KeyError:
            insert = {}
            self.inserts[step_name] = insert
        insert[key] = value'''))
P.same("p-flow-while", {"Composition._flow_signal": '''
    @staticmethod
    def _flow_signal(state, args):
        opening = 0
        while opening in args:
            opening += 1
        args[opening] = state
        return [args[k] for k in sorted(args)]
'''})
P.same("p-flow-next", {"Composition._flow_signal": '''
    @staticmethod
    def _flow_signal(state, args):
        opening = next(i for i in count() if i not in args)
        placed = {**args, opening: state}
        return [v for _, v in sorted(placed.items(), key=lambda kv: kv[0])]
'''})
P.same("p-flow-for", {"Composition._flow_signal": '''
    @staticmethod
    def _flow_signal(state, args):
        for position in count():
            if position not in args:
                break
        args[position] = state
        return list(map(args.get, sorted(args)))
'''})
P.same("p-flow-range", {"Composition._flow_signal": '''
    @staticmethod
    def _flow_signal(state, args):
        opening = next(i for i in range(len(args) + 1) if i not in args)
        args = args | {opening: state}
        return [args[k] for k in sorted(args.keys())]
'''})
P.same("p-partial-inline", {"Composition._call_partial_step": '''
    def _call_partial_step(self, state, step, args, kwargs):
        baked = enumerate_as_mapping(step.args) if hasattr(step, "args") else {}
        keywords = step.keywords if hasattr(step, "keywords") else {}
        args, kwargs = {**baked, **args}, {**keywords, **kwargs}
        positional = self._flow_signal(state, args) if args else [state]
        return step.func(*positional, **kwargs)
'''})
P.same("p-partial-merge-loop", {"Composition._call_partial_step": '''
    def _call_partial_step(self, state, step, args, kwargs):
        attrs = dir(step)
        if "args" in attrs:
            merged = dict(enumerate(step.args))
            merged.update(args)
            args = merged
        if "keywords" in attrs:
            merged = dict(step.keywords)
            for k, v in kwargs.items():
                merged[k] = v
            kwargs = merged
        func = step.func
        if not args:
            return func(state, **kwargs)
        return func(*self._flow_signal(state, args), **kwargs)
'''})
P.same("p-call-comp", {"Composition.call_step": '''
    def call_step(self, step_name, state):
        step = self.steps[step_name]
        insert = self.inserts.get(step_name) or {}
        args = {k: v for k, v in insert.items() if isinstance(k, int)}
        kwargs = {k: v for k, v in insert.items() if isinstance(k, str)}
        if "func" in dir(step):
            return self._call_partial_step(state, step, args, kwargs)
        positional = self._flow_signal(state, args) if args else (state,)
        return step(*positional, **kwargs)
'''})
P.same("p-call-loop", {"Composition.call_step": '''
    def call_step(self, step_name, state):
        step, insert = self.steps[step_name], self.inserts.get(step_name)
        args, kwargs = {}, {}
        if insert is not None:
            for key, value in insert.items():
                if isinstance(key, int):
                    args[key] = value
                elif isinstance(key, str):
                    kwargs[key] = value
        if hasattr(step, "func"):
            return self._call_partial_step(state, step, args, kwargs)
        if len(args) > 0:
            return step(*self._flow_signal(state, args), **kwargs)
        return step(state, **kwargs)
'''})
P.same("p-iter-inline", {"Composition.itercall": '''
    def itercall(self, signal=None, **special_kwargs):
        self._bind_special_runtime_kwargs(special_kwargs)
        for step_name in self.steps:
            signal = self._do_step(step_name, signal)
            yield signal
'''})
P.same("p-iter-items", {"Composition.itercall": '''
    def itercall(self, signal=None, **special_kwargs):
        self._bind_special_runtime_kwargs(special_kwargs)
        state = signal
        for step_name, _ in self.steps.items():
            state = self.call_step(step_name, state)
            self._perform_sends(step_name, state)
            yield state
'''})
P.same("p-exec-enum", {"Composition.execute": '''
    def execute(self, signal=None, **special_kwargs):
        done, state = 0, None
        try:
            for state in self.itercall(signal, **special_kwargs):
                done += 1
        except Exception as ex:
            if self.tracker is not None:
                names = list(self.steps)
                self.tracker.track(self.steps[names[done]], **exc_report(ex))
            if self.optional is not True:
                raise
            return None
        return state
'''})
P.same("p-exec-fail-helper", {"Composition.execute": '''
    def execute(self, signal=None, **special_kwargs):
        step_ix = -1
        try:
            state = None
            for step_ix, state in enumerate(self.itercall(signal, **special_kwargs)):
                pass
            return state
        except Exception as ex:
            self._note_failure(step_ix + 1, ex)
            if self.optional is True:
                return None
            raise

    def _note_failure(self, step_ix, ex):
        if self.tracker is None:
            return
        failed = tuple(self.steps.values())[step_ix]
        self.tracker.track(failed, **exc_report(ex))
'''})
P.same("p-exec-reraise", {"Composition.execute": '''
    def execute(self, signal=None, **special_kwargs):
        """execute the pipeline, initializing it with signal."""
        step_ix = -1
        state = None
        try:
            for step_ix, state in enumerate(self.itercall(signal, **special_kwargs)):
                continue
        except Exception as ex:
            if self.tracker:
                pass
            if self.tracker is not None:
                step_name = self.index[step_ix + 1]
                self.tracker.track(self.steps[step_name], **exc_report(ex))
            if self.optional is True:
                return None
            raise ex
        else:
            return state
'''})
P.same("p-track-lambda", {"_track_factory": '''
    def _track_factory(tracker, step, func):
        return lambda _: tracker.track(func, step=step)
'''}) if False else None
P.tweak("p-captures-loop", "Composition.add_captures", ('''        self.captures = {step: [None] for step in self.steps}
        for k, v in self.captures.items():
            self.add_capture(k, v)''', '''        self.captures = {}
        for step in self.steps:
            self.captures[step] = [None]
            self.add_capture(step, self.captures[step])'''))
P.tweak("p-capture-if", "Composition.add_capture", ("        target = [None] if target is None else target\n", "        if target is None:\n            target = [None]\n"))
P.tweak("p-tracksends-tuple", "Composition._add_track_sends", ("for k in self.steps.keys():\n            self._add_track_send(k)", "if self.tracker is None:\n            return\n        for step_name in tuple(self.steps):\n            self._add_track_send(step_name)"))
P.tweak("p-tracksend-direct", "Composition._add_track_send", ('''        self.add_send(
            step_name,
            pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
        )''', '''        pipe = _track_factory(self.tracker, step_name, self.steps[step_name])
        self.add_send(step_name, pipe)'''))
P.tweak("p-addstep-order", "Composition.add_step", ('''        if name is None:
            name = len(self.steps) + 1
        self.steps[name] = step''', '''        name = len(self.steps) + 1 if name is None else name
        self.steps |= {name: step}'''))
P.tweak("p-addstep-update", "Composition.add_step", ("self.steps[name] = step", "self.steps.update({name: step})"))
P.tweak("p-init-name", "Composition.__init__", ('''        self.name = "untitled Composition" if name is None else name
''', '''        if name is None:
            name = "untitled Composition"
        self.name = name
'''), ('''        if steps is None:
            steps = [identity]
        self.steps = enumerate_as_mapping(steps)''', '''        self.steps = enumerate_as_mapping([identity] if steps is None else steps)'''))

# dynamic
D.same("d-call-flat", {"Dynamic.__call__": '''
    def __call__(self, *args, _optional=None, **kwargs):
        self._maybe_load_on_call()
        optional = self.optional if _optional is None else _optional
        if optional is False:
            return self.func(*args, **kwargs)
        before = len(self.errors)
        try:
            return dontcare(self.func, self.errors)(*args, **kwargs)
        finally:
            if self.errors and self.errors[-1].get('category') == 'call':
                self.call_fail = True
'''}) 
D.same("d-call-inline", {"Dynamic.__call__": '''
    def __call__(self, *args, _optional=None, **kwargs):
        self._maybe_load_on_call()
        if _optional is None:
            _optional = self.optional
        if _optional is False:
            return self.func(*args, **kwargs)
        wrapped = dontcare(self.func, self.errors)
        try:
            result = wrapped(*args, **kwargs)
        finally:
            if len(self.errors) != 0 and self.errors[-1].get('category') == 'call':
                self.call_fail = True
        return result
'''})
D.same("d-dontcare-local", {"dontcare": '''
    def dontcare(func, target):
        def record_exception(exc):
            report = exc_report(exc)
            report['func'] = func
            report['category'] = 'call'
            target.append(report)

        return optionalize(func, record_exception)
'''})
D.same("d-dontcare-merge", {"dontcare": '''
    def dontcare(func, target):
        def record_exception(exc):
            target.append({**exc_report(exc), 'func': func, 'category': 'call'})

        return optionalize(func, exc_callback=record_exception)
'''})
D.same("d-report-for", {"exc_report": '''
    def exc_report(exc, stringify_exception=True):
        if exc is None:
            return {}
        lineno, names, filenames = [], [], []
        tb = exc.__traceback__
        while tb is not None:
            code = tb.tb_frame.f_code
            module = getmodule(tb.tb_frame)
            if module is None:
                names.append(code.co_name)
            else:
                codename = getattr(code, "co_qualname", code.co_name)
                names.append(f'{module.__name__}.{codename}')
            lineno.append(tb.tb_lineno)
            filenames.append(code.co_filename)
            tb = tb.tb_next
        return {
            'exception': f"{type(exc)}: {exc}" if stringify_exception is not False else exc,
            'lineno': lineno, 'name': names, 'filename': filenames,
        }
'''})
D.same("d-report-helper", {"exc_report": '''
    def exc_report(exc, stringify_exception=True):
        if exc is None:
            return {}
        tb = exc.__traceback__
        exc = exc if stringify_exception is False else f"{type(exc)}: {exc}"
        report = {'exception': exc, 'lineno': [], 'name': [], 'filename': []}
        while tb is not None:
            _describe_frame(report, tb)
            tb = tb.tb_next
        return report


    def _describe_frame(report, tb):
        fr = tb.tb_frame
        module = getmodule(fr)
        name = fr.f_code.co_name
        if module is not None:
            if hasattr(fr.f_code, "co_qualname"):
                name = fr.f_code.co_qualname
            name = f'{module.__name__}.{name}'
        report['name'].append(name)
        report['lineno'].append(tb.tb_lineno)
        report['filename'].append(fr.f_code.co_filename)
'''})
D.same("d-load-inline", {"Dynamic.load": '''
    def load(self, reload=False):
        if reload is False:
            if self.func is not None:
                raise AlreadyLoadedError("self.func already loaded")
        self.compile_source(recompile=reload)
        self.define(redefine=reload)
'''})
D.same("d-compile-order", {"Dynamic.compile_source": '''
    def compile_source(self, recompile=True):
        if self.code is not None and recompile is False:
            raise AlreadyLoadedError("self.code already compiled")
        try:
            code = compile_source(self.source)
        except Exception as ex:
            report = exc_report(ex)
            report['category'] = 'compile'
            self.errors.append(report)
            self.compile_fail = True
        else:
            self.code = code
'''})
D.same("d-define-order", {"Dynamic.define": '''
    def define(self, redefine=False):
        if redefine is not True and self.func is not None:
            raise AlreadyLoadedError("self.func already defined")
        func = define(self.code, self.globals_)
        self.func, self.__signature__, self.__name__ = func, signature(func), func.__name__
'''})
D.same("d-unload-lines", {"Dynamic.unload": '''
    def unload(self):
        self.call_fail = self.compile_fail = False
        self.code = self.func = None
        self.errors = []
        self.__name__ = type(self).__name__
        self.__signature__ = None
'''})
D.same("d-maybe-invert", {"Dynamic._maybe_load_on_call": '''
    def _maybe_load_on_call(self, reload=False):
        if self.func is None:
            if self.load_on_call is not True:
                raise UnreadyError("No loaded function.")
            self.load(reload)
'''})
D.same("d-from-split", {"Dynamic.from_function": '''
    @classmethod
    def from_function(cls, func, *init_args, **init_kwargs):
        dynamic = super().__new__(cls)
        try:
            source = getsource(func)
        except TypeError:
            func = func.__call__
            source = getsource(func)
        dynamic.source, dynamic.code, dynamic.func = source, func.__code__, func
        dynamic.__signature__ = signature(func)
        dynamic.__name__ = func.__name__
        dynamic.__init__(*init_args, **init_kwargs)
        dynamic.source = source
        dynamic.globals_ = func.__globals__
        return dynamic
'''})
D.same("d-init-suppress", {"Dynamic.__init__": '''
    def __init__(self, source=None, globals_=None, optional=False, lazy=False, load_on_call=True):
        self.source, self.globals_ = source, globals_
        self.errors = []
        self.optional, self.lazy, self.load_on_call = optional, lazy, load_on_call
        self.call_fail = self.compile_fail = False
        if lazy is not False:
            return
        with suppress(AlreadyLoadedError):
            self.load()
'''}, add="from contextlib import suppress")
D.same("d-codechild-loop", {"get_codechild": '''
    def get_codechild(code, ix=0):
        return [c for c in code.co_consts if isinstance(c, CodeType)][ix]
'''})

# tracker
K.same("t-track-target", {"Tracker.track": '''
    def track(self, func, **metadata):
        target = func.__name__ if hasattr(func, "__name__") else str(func)
        info = getframeinfo(currentframe().f_back)
        rec = {
            "target": target,
            "caller": info.function,
            "lineno": info.lineno,
            "trackcount": next(self.counter),
        }
        rec.update(self.metadata)
        rec.update(metadata)
        self.history.append(rec)
'''})
K.same("t-track-star", {"Tracker.track": '''
    def track(self, func, **metadata):
        target = getattr(func, "__name__", None)
        if "__name__" not in dir(func):
            target = str(func)
        info = getframeinfo(currentframe().f_back)
        number = next(self.counter)
        self.history += [{
            "target": target, "caller": info.function, "lineno": info.lineno,
            "trackcount": number, **self.metadata, **metadata,
        }]
'''})
K.same("t-clear-del", {"Tracker.clear": '''
    def clear(self):
        self.counter = count(1)
        del self.history[:]
        self.outpath.unlink(missing_ok=True)
'''})
K.same("t-clear-clear", {"Tracker.clear": '''
    def clear(self):
        if self.outpath.exists():
            self.outpath.unlink()
        self.history.clear()
        self.counter = count(start=1)
'''})
K.same("t-dump-split", {"Tracker.dump": '''
    def dump(self):
        if self.paused is True:
            return
        self.log["write_timestamp"] = dt.datetime.now().isoformat()
        self.log = dict(sorted(self.log.items(), key=lambda kv: "history" in kv[0]))
        blob = json.dumps(self.log, indent=2).encode('utf-8')
        if self.outpath.exists():
            with self.outpath.open("rb+") as stream:
                stream.seek(-1, SEEK_END)
                stream.write(b",\\n" + blob + b"]")
        else:
            with self.outpath.open("wb") as stream:
                stream.write(b"[" + blob + b"]")
'''})
K.same("t-dump-helper", {"Tracker.dump": '''
    def dump(self):
        if self.paused is True:
            return
        self._write_blob(self._serialize())

    def _serialize(self):
        self.log["write_timestamp"] = dt.datetime.now().isoformat()
        key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
        self.log = {k: self.log[k] for k in key_order}
        return json.dumps(self.log, indent=2).encode()

    def _write_blob(self, blob):
        existing = self.outpath.exists()
        with open(self.outpath, "rb+" if existing else "wb") as stream:
            if existing:
                stream.seek(-1, 2)
            stream.write((b",\\n" if existing else b"[") + blob + b"]")
'''})
K.same("t-dump-unpaused", {"Tracker.dump": '''
    def dump(self):
        if self.paused is not True:
            self.log["write_timestamp"] = dt.datetime.now().isoformat()
            history = self.log.pop("history")
            self.log["history"] = history
            blob = json.dumps(self.log, indent=2).encode('utf-8')
            mode = "rb+" if self.outpath.exists() else "wb"
            with self.outpath.open(mode) as stream:
                if mode == "wb":
                    stream.write(b"[")
                else:
                    stream.seek(-1, SEEK_END)
                    stream.write(b",\\n")
                stream.write(blob)
                stream.write(b"]")
'''})
K.tweak("t-meta-update", "Tracker.set_metadata", ("self.metadata |= metadata", "self.metadata.update(metadata)"))
K.tweak("t-meta-loop", "Tracker.set_metadata", ("self.metadata |= metadata", "for key, value in metadata.items():\n        self.metadata[key] = value"))
K.tweak("t-init-order", "Tracker.__init__", ('''    self.history, self.metadata, self.counter = [], {}, count(1)
''', '''    self.history = []
    self.metadata = {}
    self.counter = count(1)
'''), ('''    if identifier != "":
        identifier = f"{identifier}_"
''', '''    prefix = f"{identifier}_" if identifier else ""
'''), ('f"{identifier}{self.name}.json"', 'f"{prefix}{self.name}.json"'))

# func
F.same("f-optional-else", {"optionalize": '''
    def optionalize(func, exc_callback=zero):
        @wraps(func)
        def optionally(*args, **kwargs):
            try:
                result = func(*args, **kwargs)
            except Exception as e:
                exc_callback(e)
                return None
            return result
        return optionally
'''})
F.same("f-argstop", {"argstop": '''
    def argstop(func, arg_count=0, unpack=True):
        @wraps(func)
        def stopargs(*args, **kwargs):
            if unpack is True and len(args) == 1:
                (args,) = args
            return func(*args[:arg_count], **kwargs)

        return stopargs
'''})
F.same("f-disjoint", {"disjoint": '''
    def disjoint(*sets):
        frozen = [tuple(this_set) for this_set in sets]
        shared = intersection(*frozen)
        out = []
        for this_set in frozen:
            out.append([item for item in this_set if item not in shared])
        return out
'''})
F.same("f-intersection", {"intersection": '''
    def intersection(*iterables):
        return reduce(and_, map(set, iterables))
'''})
F.same("f-intersection-loop", {"intersection": '''
    def intersection(*iterables):
        first, *rest = iterables
        shared = set(first)
        for iterable in rest:
            shared &= set(iterable)
        return shared
'''})
F.same("f-arein", {"are_in": '''
    def are_in(items, oper=and_):
        def in_it(container):
            return reduce(oper, [item in container for item in items])

        return in_it
'''})
F.same("f-naturals", {"naturals": '''
    def naturals():
        from itertools import count
        return count(1)
'''})
F.same("f-trigger", {"triggerize": '''
    def triggerize(niladic_function):
        @wraps(niladic_function)
        def trigger(deferred_state=None):
            _ = niladic_function()
            return deferred_state

        return trigger
'''})
F.same("f-gmap", {"gmap": '''
    def gmap(func, *iterables, mapper=map, evaluator=tuple):
        mapped = mapper(func, *iterables)
        return evaluator(mapped)
'''})
F.same("f-filtern", {"filtern": '''
    def filtern(func, iterable):
        for item in filter(func, iterable):
            return item
        raise StopIteration
'''})
F.same("f-catch", {"catch_interaction": '''
    def catch_interaction(noninteractive, func, *args, _default="", **kwargs):
        return _default if noninteractive else func(*args, **kwargs)
'''})
CASES = P.cases + D.cases + K.cases + F.cases
