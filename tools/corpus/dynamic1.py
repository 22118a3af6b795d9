F = "dynamic.py"
G = "func.py"
BUGS = [
 ("d1a", "D01", F, "return dontcare(self.func, self.errors)(*args, **kwargs)", "return dontcare(self.func, list(self.errors))(*args, **kwargs)"),
 ("d1b", "D01", F, "        if _optional is None:\n            _optional = self.optional", "        _optional = _optional or self.optional"),
 ("d1c", "D01", F, "                if self.errors[-1].get('category') == 'call':\n                    self.call_fail = True", "                self.call_fail = True"),
 ("d1d", "D01", G, "        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)", "        except BaseException as e:\n            exc_callback(e)"),
 ("d1e", "D01", G, "            exc_callback(e)\n", "            exc_callback(e)\n            raise\n"),
 ("d1f", "D01", G, "            exc_callback(e)\n", "            return exc_callback(e) or e\n"),
 ("d1g", "D01", F, "if _optional is False:", "if not self.optional:"),
 ("d1h", "D01", F, "if self.errors[-1].get('category') == 'call':", "if self.errors[0].get('category') == 'call':"),
 ("d1i", "D01", F, "            return self.func(*args, **kwargs)\n        try:", "            return self.func(*args)\n        try:"),
 ("d1j", "D01", F, "        target.append(exc_report(exc) | {'func': func, 'category': 'call'})", "        target[:] = [exc_report(exc) | {'func': func, 'category': 'call'}]"),
 ("d1k", "D01", G, "            return func(*args, **kwargs)\n        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)", "            return func(*args, **kwargs)\n        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)\n            return func(*args, **kwargs)"),
 ("d1l", "D01", F, "'category': 'call'}", "'category': 'runtime'}"),
 ("d1m", "D01", G, "        except Exception as e:\n            exc_callback(e)\n    return optionally", "        except (ValueError, TypeError) as e:\n            exc_callback(e)\n    return optionally"),
 ("d2b", "D02", F, "if (reload is False) and (self.func is not None):", "if (reload is False) and (self.func is None):"),
 ("d2c", "D02", F, "if (self.func is not None) and (redefine is not True):", "if (self.func is not None) and (redefine is None):"),
 ("d2d", "D02", F, "        if (recompile is False) and (self.code is not None):\n            raise AlreadyLoadedError(\"self.code already compiled\")\n", ""),
 ("d2e", "D02", F, "        self.code, self.func, self.errors = None, None, []", "        self.func, self.errors = None, []"),
 ("d2f", "D02", F, "self.call_fail, self.compile_fail = False, False", "self.call_fail = False"),
 ("d2g", "D02", F, "        if self.load_on_call is True:\n            return self.load(reload)", "        if self.load_on_call is not None:\n            return self.load(reload)"),
 ("d2h", "D02", F, "        if self.func is not None:\n            return\n        if self.load_on_call", "        if self.func is not None and self.lazy is False:\n            return\n        if self.load_on_call"),
 ("d2i", "D02", F, "        self._maybe_load_on_call()\n", "        self._maybe_load_on_call(True)\n        self.load(True)\n"),
 ("d2j", "D02", F, "        self.compile_source(reload)\n        self.define(reload)", "        self.compile_source(reload)\n        self.define()"),
 ("d2k", "D02", F, "        self.code, self.func, self.errors = None, None, []", "        self.source, self.code, self.func, self.errors = None, None, None, []"),
 ("d2l", "D02", F, "        self.__name__ = self.__class__.__name__\n        self.__signature__ = None", "        self.globals_ = None\n        self.__name__ = self.__class__.__name__\n        self.__signature__ = None"),
 ("d2m", "D02", F, "        if (self.func is not None) and (redefine is not True):\n            raise AlreadyLoadedError(\"self.func already defined\")\n        self.func = define(self.code, self.globals_)", "        func, self.func = self.func, define(self.code, self.globals_)\n        if (func is not None) and (redefine is not True):\n            raise AlreadyLoadedError(\"self.func already defined\")"),
 ("d2n", "D02", F, "self.func = define(self.code, self.globals_)", "self.func = define(self.code)"),
 ("d2o", "D02", F, "raise UnreadyError(\"No loaded function.\")", "return None"),
 ("d3a", "D03", F, "tb.tb_lineno", "tb.tb_frame.f_lineno"),
 ("d3b", "D03", F, "        else:\n            report['name'].append(fr.f_code.co_name)\n", ""),
 ("d3c", "D03", F, "            report['name'].append(f'{module.__name__}.{codename}')", "            report['name'].append(module.__name__)\n            report['name'].append(codename)"),
 ("d3d", "D03", F, "report['lineno'].append(tb.tb_lineno)", "report['lineno'].insert(0, tb.tb_lineno)"),
 ("d3e", "D03", F, "    tb = exc.__traceback__\n", "    tb = exc.__traceback__.tb_next\n"),
 ("d3f", "D03", F, "    while tb is not None:", "    while tb.tb_next is not None:"),
 ("d3g", "D03", F, "        report['filename'].append(fr.f_code.co_filename)", "        if fr.f_code.co_filename not in report['filename']:\n            report['filename'].append(fr.f_code.co_filename)"),
 ("d3h", "D03", F, "    if exc is None:\n        return {}\n", "    if exc is None:\n        return {'exception': None, 'lineno': [], 'name': [], 'filename': []}\n"),
 ("d3i", "D03", F, "            try:\n                codename = fr.f_code.co_qualname\n            except AttributeError:\n                codename = fr.f_code.co_name\n            report['name'].append(f'{module.__name__}.{codename}')", "            try:\n                codename = fr.f_code.co_qualname\n                report['name'].append(f'{module.__name__}.{codename}')\n            except AttributeError:\n                pass"),
 ("d3j", "D03", F, "        tb = tb.tb_next\n    return", "        tb = tb.tb_next\n        if len(report['lineno']) >= 2:\n            break\n    return"),
 ("d3k", "D03", F, "report['lineno'].append(tb.tb_lineno)", "report['lineno'].append(fr.f_code.co_firstlineno)"),
 ("d4a", "D04", F, "dynamic.source, dynamic.globals_ = source, func.__globals__", "dynamic.source = source"),
 ("d4b", "D04", F, "dynamic.source, dynamic.globals_ = source, func.__globals__", "dynamic.globals_ = func.__globals__"),
 ("d4c", "D04", F, "        dynamic.func = func\n", "        dynamic.func = define(func.__code__, func.__globals__)\n"),
 ("d4d", "D04", F, "        dynamic.__init__(*init_args, **init_kwargs)\n", ""),
 ("d4e", "D04", F, "dynamic.source, dynamic.globals_ = source, func.__globals__", "dynamic.source, dynamic.globals_ = source, dict(func.__globals__)"),
 ("d4f", "D04", F, "        dynamic.__name__ = dynamic.func.__name__\n        source", "        dynamic.__name__ = dynamic.func.__qualname__\n        source"),
 ("d4g", "D04", F, "            func = func.__call__\n            dynamic.source = getsource(func)", "            dynamic.source = getsource(func.__call__)"),
]
SAME = [
 ("s1", ["D01", "D02", "D04"], F, "        try:\n            return dontcare(self.func, self.errors)(*args, **kwargs)\n        finally:\n            if len(self.errors) > 0:\n                if self.errors[-1].get('category') == 'call':\n                    self.call_fail = True",
  "        before = len(self.errors)\n        result = dontcare(self.func, self.errors)(*args, **kwargs)\n        if len(self.errors) > before:\n            self.call_fail = True\n        return result"),
 ("s2", ["D01"], F, "        try:\n            return dontcare(self.func, self.errors)(*args, **kwargs)\n        finally:\n            if len(self.errors) > 0:\n                if self.errors[-1].get('category') == 'call':\n                    self.call_fail = True",
  "        try:\n            return self.func(*args, **kwargs)\n        except Exception as ex:\n            self.errors.append(exc_report(ex) | {'func': self.func, 'category': 'call'})\n            self.call_fail = True\n            return None"),
 ("s3", ["D01"], G, "        except KeyboardInterrupt:\n            raise\n        except Exception as e:\n            exc_callback(e)\n", "        except Exception as e:\n            exc_callback(e)\n            return None\n"),
 ("s4", ["D02"], F, "        if (reload is False) and (self.func is not None):\n            raise AlreadyLoadedError(\"self.func already loaded\")\n        self.compile_source(reload)", "        if not reload and self.is_loaded():\n            raise AlreadyLoadedError(\"self.func already loaded\")\n        self.compile_source(recompile=reload)",
  (F, "    def define(self, redefine", "    def is_loaded(self):\n        return self.func is not None\n\n    def define(self, redefine")),
 ("s5", ["D02"], F, "        self.call_fail, self.compile_fail = False, False\n        self.code, self.func, self.errors = None, None, []", "        self.errors = []\n        for flag in ('call_fail', 'compile_fail'):\n            setattr(self, flag, False)\n        self.func = self.code = None"),
 ("s6", ["D03"], F, "    while tb is not None:\n        fr = tb.tb_frame", "    for tb in _entries(tb):\n        fr = tb.tb_frame",
   (F, "        del fr  # taking excessive care here\n        tb = tb.tb_next\n", "        del fr  # taking excessive care here\n"),
   (F, "def exc_report(", "def _entries(tb):\n    while tb is not None:\n        yield tb\n        tb = tb.tb_next\n\n\ndef exc_report(")),
 ("s7", ["D03"], F, "        if (module := getmodule(fr)) is not None:\n            try:\n                codename = fr.f_code.co_qualname\n            except AttributeError:\n                codename = fr.f_code.co_name\n            report['name'].append(f'{module.__name__}.{codename}')\n        else:\n            report['name'].append(fr.f_code.co_name)\n", "        report['name'].append(_frame_name(fr))\n",
   (F, "def exc_report(", "def _frame_name(fr):\n    module = getmodule(fr)\n    if module is None:\n        return fr.f_code.co_name\n    codename = getattr(fr.f_code, 'co_qualname', fr.f_code.co_name)\n    return f'{module.__name__}.{codename}'\n\n\ndef exc_report(")),
 ("s8", ["D03"], F, "    report = {'exception': exc, 'lineno': [], 'name': [], 'filename': []}\n", "    linenos, names, filenames = [], [], []\n",
   (F, "report['name'].append(f'{m", "names.append(f'{m"), (F, "report['name'].append(fr", "names.append(fr"), (F, "report['lineno'].append", "linenos.append"), (F, "report['filename'].append", "filenames.append"),
   (F, "    return report\n", "    return {\n        'exception': exc,\n        'lineno': linenos,\n        'name': names,\n        'filename': filenames,\n    }\n")),
 ("s9", ["D04", "D02"], F, "        source = dynamic.source\n        dynamic.__init__(*init_args, **init_kwargs)\n        dynamic.source, dynamic.globals_ = source, func.__globals__\n", "        return cls._reinit(dynamic, func, init_args, init_kwargs)\n\n    @staticmethod\n    def _reinit(dynamic, func, init_args, init_kwargs):\n        source = dynamic.source\n        dynamic.__init__(*init_args, **init_kwargs)\n        dynamic.source = source\n        dynamic.globals_ = func.__globals__\n"),
 ("s10", ["D02", "D01"], F, "        if self.func is not None:\n            return\n        if self.load_on_call is True:\n            return self.load(reload)\n        raise UnreadyError(\"No loaded function.\")", "        if self.func is None:\n            if self.load_on_call is not True:\n                raise UnreadyError(\"No loaded function.\")\n            self.load(reload)"),
 ("s11", ["D02"], F, "        try:\n            self.code = compile_source(self.source)\n        except KeyboardInterrupt:\n            raise\n        except Exception as ex:\n            self.errors.append(exc_report(ex) | {'category': 'compile'})\n            self.compile_fail = True\n", "        try:\n            code = compile_source(self.source)\n        except Exception as ex:\n            report = exc_report(ex)\n            report['category'] = 'compile'\n            self.errors.append(report)\n            self.compile_fail = True\n        else:\n            self.code = code\n"),
]
