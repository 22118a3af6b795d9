F = "composition.py"
DO = '''        state = self.call_step(step_name, state)
        self._perform_sends(step_name, state)
        return state
'''
ITER = '''        state = signal
        for step_name in self.steps.keys():
            state = self._do_step(step_name, state)
            yield state
'''
EXE = '''        step_ix = -1
        try:
            iterpipe = self.itercall(signal, **special_kwargs)
            state = None
            for step_ix, state in zip(count(), iterpipe):
                pass
            return state
'''
FLOW = '''        opening = first(
            filter(lambda integer: integer - 1 not in args.keys(), naturals())
        )
        args[opening - 1] = state
        return [args[k] for k in sorted(args.keys())]
'''
PART = '''        if "args" in dir(step):
            args = enumerate_as_mapping(step.args) | args
        if "keywords" in dir(step):
            kwargs = step.keywords | kwargs
        if len(args) == 0:
            return step.func(state, **kwargs)
        return step.func(*self._flow_signal(state, args), **kwargs)
'''
CALL = '''        if insert is None:
            args, kwargs = {}, {}
        else:
            args = keyfilter(lambda k: isinstance(k, int), insert)
            kwargs = keyfilter(lambda k: isinstance(k, str), insert)
        if "func" in dir(step):
            return self._call_partial_step(state, step, args, kwargs)
        if len(args) == 0:
            return step(state, **kwargs)
        return step(*self._flow_signal(state, args), **kwargs)
'''
SENDS = '''        buses = self.sends.get(step_name)
        if (buses is None) or (len(buses) == 0):
            return
        for pipe, target, index in buses:
            if target is None:
                if pipe is None:
                    continue
                pipe(state)
            elif pipe is None:
                self.place_into(state, target, index)
            else:
                self.place_into(pipe(state), target, index)
'''
EXC = '''        except Exception as ex:
            if self.tracker is not None:
                self.tracker.track(
                    self.steps[tuple(self.steps.keys())[step_ix + 1]],
                    **exc_report(ex)
                )
            if self.optional is True:
                return None
            raise
'''
PLACE = '''        if isinstance(target, (str, int)):
            self.add_insert(target, pointer, thing)
        elif isinstance(target, list):
            if pointer is None:
                target.append(thing)
            else:
                target[pointer] = thing
        elif isinstance(target, dict):
            target[pointer] = thing
        elif "write" in dir(target):
            target.write(thing)
'''
P = ["P01", "P02", "P03", "P04", "P05", "P06", "P07"]
BUGS = [
 ("c1", "P01", F, "for step_name in self.steps.keys():\n            state", "for step_name in sorted(self.steps.keys(), key=str):\n            state"),
 ("c2", "P01", F, DO, "        out = self.call_step(step_name, state)\n        self._perform_sends(step_name, out)\n        return state if out is None else out\n"),
 ("c3", "P01", F, ITER, ITER.replace("yield state", "if state is None:\n                return\n            yield state")),
 ("c4", "P01", F, ITER, ITER.replace("state = self._do_step(step_name, state)", "state = self._do_step(step_name, signal)")),
 ("c5", "P01", F, EXE, EXE.replace("            for step_ix, state in zip(count(), iterpipe):\n                pass\n            return state", "            for step_ix, out in zip(count(), iterpipe):\n                if out is not None:\n                    state = out\n            return state")),
 ("c6", "P01", F, EXE, EXE.replace("zip(count(), iterpipe)", "zip(range(2), iterpipe)")),
 ("c6b", "P01", F, EXE, EXE.replace("zip(count(), iterpipe)", "zip(range(len(set(self.steps.values()))), iterpipe)")),
 ("c7", "P01", F, "return self.execute(*args, **kwargs)", "return list(self.itercall(*args, **kwargs))"),
 ("c8", "P01", F, "self.steps[name] = step\n        self._add", "self.steps.pop(name, None)\n        self.steps[name] = step\n        self._add"),
 ("s1", "P02", F, SENDS, SENDS.replace("target is None", "not target")),
 ("s2", "P02", F, SENDS, SENDS.replace("in buses:", "in reversed(buses):")),
 ("s3", "P02", F, SENDS, SENDS.replace("self.place_into(pipe(state), target, index)", "pipe(state)\n                self.place_into(state, target, index)")),
 ("s4", "P02", F, SENDS, SENDS.replace("                pipe(state)\n            elif", "                state = pipe(state)\n            elif")),
 ("s4b", "P02", F, SENDS + '''
    def add_captures''', SENDS.replace("                pipe(state)\n            elif", "                state = pipe(state)\n            elif") + "        return state\n\n    def add_captures", (F, DO, DO.replace("self._perform", "state = self._perform"))),
 ("s5", "P02", F, DO, "        self._perform_sends(step_name, state)\n        return self.call_step(step_name, state)\n"),
 ("s6", "P02", F, PLACE, PLACE.replace("pointer is None", "not pointer")),
 ("s6b", "P02", F, PLACE, PLACE.replace("if pointer is None:\n                target.append", "if pointer is None or pointer >= 2:\n                target.append")),
 ("s7", "P02", F, PLACE, PLACE.replace("isinstance(target, (str, int))", "isinstance(target, str)")),
 ("s8", "P02", F, PLACE, PLACE.replace("        elif \"write\" in dir(target):\n            target.write(thing)\n", "        elif \"write\" in dir(target):\n            target.write(str(thing))\n")),
 ("s9", "P02", F, SENDS, SENDS.replace("            elif pipe is None:\n                self.place_into(state, target, index)\n", "            elif pipe is None:\n                self.place_into(state, target, index)\n                return\n")),
 ("s10", "P02", F, "            *self.sends.get(step_name, ()), (pipe, target, pointer)\n        ]", "            *self.sends.get(step_name, ())\n        ]\n        if (pipe, target, pointer) not in self.sends[step_name]:\n            self.sends[step_name].insert(0, (pipe, target, pointer))"),
 ("s11", "P02", F, ITER, "        state = signal\n        for step_name in self.steps.keys():\n            state = self.call_step(step_name, state)\n            yield state\n            self._perform_sends(step_name, state)\n"),
 ("s12", "P02", F, "        self.add_send(step_name, target=target, pointer=0)", "        self.add_send(step_name, target=target)"),
 ("s13", "P02", F, "        target = [None] if target is None else target\n", "        target = [None]\n"),
 ("i1", "P03", F, PART, PART.replace("enumerate_as_mapping(step.args) | args", "args | enumerate_as_mapping(step.args)")),
 ("i2", "P03", F, PART, PART.replace("step.keywords | kwargs", "kwargs | step.keywords")),
 ("i3", "P03", F, FLOW, FLOW.replace("for k in sorted(args.keys())", "for k in args.keys()")),
 ("i4", "P03", F, FLOW, "        return [state] + [args[k] for k in sorted(args.keys())]\n"),
 ("i5", "P03", F, CALL, CALL.replace('if len(args) == 0:\n            return step(state, **kwargs)', 'if len(args) == 0 and not kwargs:\n            return step(state)\n        if not args:\n            return step(state)')),
 ("i6", "P03", F, PART, PART.replace("        if len(args) == 0:\n", "        if len(args) <= 1:\n")),
 ("i7", "P03", F, FLOW, FLOW.replace("args[opening - 1] = state", "args[len(args)] = state")),
 ("i8", "P03", F, CALL, CALL.replace("lambda k: isinstance(k, int)", "lambda k: isinstance(k, int) and k > 0")),
 ("i9", "P03", F, "        self.inserts[step_name][key] = value", "        self.inserts[step_name].setdefault(key, value)"),
 ("i10", "P03", F, PART, PART.replace("step.func(*self", "step(*self")),
 ("e1", "P04", F, EXC, EXC.replace("except Exception", "except BaseException")),
 ("e2", "P04", F, EXC, EXC.replace("return None\n", "return state\n")),
 ("e3", "P04", F, EXC, EXC.replace("step_ix + 1", "step_ix")),
 ("e4", "P04", F, EXC, EXC.replace("            raise\n", "            raise RuntimeError(str(ex)) from ex\n")),
 ("e5", "P04", F, EXC, EXC.replace("self.optional is True", "self.optional is True or self.tracker is not None")),
 ("e6", "P04", F, SENDS, SENDS.replace("                pipe(state)\n            elif", "                try:\n                    pipe(state)\n                except Exception:\n                    continue\n            elif")),
 ("e7", "P04", F, EXC, EXC.replace("            if self.tracker is not None:\n", "            if self.tracker is not None and self.optional:\n")),
 ("e8", "P04", F, EXE + EXC, EXE.replace("zip(count(), iterpipe)", "zip(iterpipe, count())").replace("step_ix, state in", "state, step_ix in") + EXC.replace("step_ix + 1", "step_ix + 2")),
 ("e9", "P04", F, EXC, EXC.replace("            raise\n", "            if not self.optional:\n                raise\n            return self.itercall\n")),
 ("m1", "P05", F, CALL, CALL.replace("args = keyfilter(lambda k: isinstance(k, int), insert)", "args = insert if all(isinstance(k, int) for k in insert) else keyfilter(lambda k: isinstance(k, int), insert)")),
 ("m2", "P05", F, PART, PART.replace("kwargs = step.keywords | kwargs", "step.keywords.update(kwargs)\n            kwargs = step.keywords")),
 ("m3", "P05", F, CALL, CALL.replace("        if insert is None:", "        self.inserts.pop(step_name, None)\n        if insert is None:")),
 ("m4", "P05", F, SENDS, SENDS.replace("for pipe, target, index in buses:", "while buses:\n            pipe, target, index = buses.pop(0)")),
 ("m5", "P05", F, "buses = self.sends.get(step_name)", "buses = self.sends.setdefault(step_name, [])"),
 ("m6", "P05", F, "step, insert = self.steps[step_name], self.inserts.get(step_name)", "step, insert = self.steps[step_name], self.inserts.setdefault(step_name, {})"),
 ("t1", "P06", F, "        self.steps[name] = step\n        self._add_track_send(name)", "        if name not in self.steps:\n            self.steps[name] = step\n        self.steps[name] = step\n"),
 ("t2", "P06", F, "        if self.tracker is not None:\n            return\n        self.tracker = Tracker()", "        if self.tracker is None:\n            self.tracker = Tracker()"),
 ("t3", "P06", F, "    def track(_):\n        return tracker.track(func, step=step)", "    def track(_):\n        tracker.track(func, step=step)\n        return tracker.track(func, step=step)"),
 ("t4", "P06", F, "            pipe=_track_factory(self.tracker, step_name, self.steps[step_name])", "            pipe=_track_factory(self.tracker, step_name, self.steps[step_name]),\n            target=step_name, pointer='tracked'"),
 ("t5", "P06", F, '''        for k in self.steps.keys():
            self._add_track_send(k)''', '''        for k in self.steps.keys():
            self.add_send(k, pipe=lambda _: self.tracker.track(self.steps[k], step=k))'''),
 ("t6", "P06", F, "        if self.tracker is None:\n            return\n        self.add_send(", "        if not self.tracker:\n            return\n        if step_name in self.sends:\n            return\n        self.add_send("),
]
SAME = [
 ("ra", P, F, DO, "        result = self.call_step(step_name, state)\n        self._perform_sends(step_name, result)\n        return result\n"),
 ("rb", P, F, ITER, "        state = signal\n        for step_name in tuple(self.steps):\n            state = self.call_step(step_name, state)\n            self._perform_sends(step_name, state)\n            yield state\n"),
 ("rc", P, F, EXE, EXE.replace("            for step_ix, state in zip(count(), iterpipe):\n                pass\n            return state", "            for state in iterpipe:\n                step_ix += 1\n            return state")),
 ("rd", P, F, EXE, EXE.replace("            for step_ix, state in zip(count(), iterpipe):\n                pass\n            return state", "            for step_ix, state in enumerate(iterpipe):\n                continue\n            return state")),
 ("re", P, F, SENDS, '''        for pipe, target, index in self.sends.get(step_name) or ():
            output = state if pipe is None else pipe(state)
            if target is not None:
                self.place_into(output, target, index)
'''),
 ("rf", P, F, FLOW, '''        position = 0
        while position in args:
            position += 1
        filled = {**args, position: state}
        return [value for _, value in sorted(filled.items(), key=lambda kv: kv[0])]
'''),
 ("rg", P, F, FLOW, '''        opening = next(ix for ix in range(len(args) + 1) if ix not in args)
        filled = dict(args)
        filled[opening] = state
        return [filled[k] for k in sorted(filled)]
'''),
 ("rh", P, F, CALL, '''        insert = {} if insert is None else insert
        args = {k: v for k, v in insert.items() if isinstance(k, int)}
        kwargs = {k: v for k, v in insert.items() if isinstance(k, str)}
        if hasattr(step, "func"):
            return self._call_partial_step(state, step, args, kwargs)
        if not args:
            return step(state, **kwargs)
        return step(*self._flow_signal(state, args), **kwargs)
'''),
 ("ri", P, F, PART, '''        baked = getattr(step, "args", ())
        args = {**dict(enumerate(baked)), **args}
        kwargs = {**getattr(step, "keywords", {}), **kwargs}
        return step.func(*self._flow_signal(state, args), **kwargs)
'''),
 ("rj", P, F, PLACE, '''        if isinstance(target, str) or isinstance(target, int):
            self.add_insert(target, pointer, thing)
            return
        if isinstance(target, list) and pointer is None:
            target.append(thing)
            return
        if isinstance(target, (list, dict)):
            target[pointer] = thing
            return
        if hasattr(target, "write"):
            target.write(thing)
'''),
 ("rk", P, F, EXC, '''        except Exception as ex:
            tracker = self.tracker
            if tracker is not None:
                names = list(self.steps)
                failed = self.steps[names[step_ix + 1]]
                tracker.track(failed, **exc_report(ex))
            if self.optional is not True:
                raise
            return None
'''),
 ("rl", P, F, EXE + EXC, '''        done = 0
        state = None
        try:
            for state in self.itercall(signal, **special_kwargs):
                done += 1
        except Exception as ex:
            self._record_failure(done, ex)
            if self.optional is True:
                return None
            raise
        return state

    def _record_failure(self, done, ex):
        if self.tracker is None:
            return
        step = list(self.steps.values())[done]
        self.tracker.track(step, **exc_report(ex))
'''),
 ("rm", P, F, "        self.sends[step_name] = [\n            *self.sends.get(step_name, ()), (pipe, target, pointer)\n        ]", "        self.sends[step_name] = list(self.sends.get(step_name, ())) + [(pipe, target, pointer)]"),
 ("rn", P, F, "        if step_name not in self.inserts.keys():\n            self.inserts[step_name] = {}\n        self.inserts[step_name][key] = value", "        self.inserts.setdefault(step_name, {})[key] = value"),
 ("ro", P, F, "    def track(_):\n        return tracker.track(func, step=step)\n\n    return track", "    return lambda _: tracker.track(func, step=step)"),
 ("rp", P, F, '''        for k in self.steps.keys():
            self._add_track_send(k)''', '''        for step_name in list(self.steps):
            self._add_track_send(step_name)'''),
 ("rq", P, F, '''        self.captures = {step: [None] for step in self.steps}
        for k, v in self.captures.items():
            self.add_capture(k, v)''', '''        self.captures = {}
        for step in self.steps:
            holder = [None]
            self.captures[step] = holder
            self.add_capture(step, holder)'''),
]
