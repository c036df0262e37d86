# -*- coding: utf-8 -*-
"""Module-level state of the code under test is put back before every path, so that one path (or replay) cannot
influence the next one; within one path it is left alone, so leaks between operations still show."""
import types
from .values import SDict, SSet


class Snapshot(object):
    def __init__(self, modules):
        self.items = []          # (container, saved contents)
        self.attrs = []          # (namespace owner, saved dict)
        self.cached = []         # functools caches, cleared
        seen = set()
        for m in modules:
            self._ns(m.__dict__, seen, m.__name__)
            self.attrs.append((m, dict(m.__dict__)))

    def _ns(self, d, seen, modname):
        for k, v in list(d.items()):
            if k.startswith('__') and k.endswith('__') and k not in ('__fields__', '__children__', '__internal__',
                                                                     '__attributes__', '__renamed__'):
                continue
            self._val(v, seen, modname)

    def _val(self, v, seen, modname):
        if id(v) in seen:
            return
        t = type(v)
        if t in (dict, list, set):
            seen.add(id(v))
            self.items.append((v, v.copy()))
            for x in (v.values() if t is dict else v):
                self._val(x, seen, modname)
        elif isinstance(v, SDict):
            seen.add(id(v))
            self.items.append((v, v.copy()))
            if v._e is None:
                for x in v._d.values():
                    self._val(x, seen, modname)
        elif isinstance(v, SSet):
            seen.add(id(v))
            self.items.append((v, v.copy()))
        elif isinstance(v, type):
            if getattr(v, '__module__', '').startswith('pyopenapi'):
                seen.add(id(v))
                self.attrs.append((v, dict(v.__dict__)))
                self._ns(v.__dict__, seen, modname)
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or '').startswith('pyopenapi'):
                seen.add(id(v))
                for x in v.__defaults__ or ():
                    self._val(x, seen, modname)
                for x in (v.__kwdefaults__ or {}).values():
                    self._val(x, seen, modname)
                for c in v.__closure__ or ():
                    try:
                        self._val(c.cell_contents, seen, modname)
                    except ValueError:
                        pass
        elif isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._val(f, seen, modname)
        elif isinstance(v, (staticmethod, classmethod)):
            self._val(v.__func__, seen, modname)
        elif hasattr(v, 'cache_clear'):
            seen.add(id(v))
            self.cached.append(v)
        elif (getattr(type(v), '__module__', '') or '').startswith('pyopenapi') and hasattr(v, '__dict__'):
            seen.add(id(v))
            self.attrs.append((v, dict(v.__dict__)))
            for x in v.__dict__.values():
                self._val(x, seen, modname)

    def restore(self):
        for c, saved in self.items:
            t = type(c)
            if t is list:
                if len(c) != len(saved) or any(a is not b for a, b in zip(c, saved)):
                    c[:] = saved
            elif t is dict:
                if len(c) != len(saved) or any(c.get(k, c) is not x for k, x in saved.items()):
                    c.clear()
                    c.update(saved)
            elif t is set:
                if c != saved:
                    c.clear()
                    c.update(saved)
            elif isinstance(c, SDict):
                if c._e is not None or saved._e is not None or len(c._d) != len(saved._d) or \
                        any(c._d.get(k, c) is not x for k, x in saved._d.items()):
                    n = saved.copy()
                    c._d, c._e = n._d, n._e
            elif isinstance(c, SSet):
                n = saved.copy()
                c._l, c._n, c._anysym = n._l, n._n, n._anysym
        for o, saved in self.attrs:
            d = o.__dict__
            if len(d) != len(saved) or any(d.get(k, o) is not x for k, x in saved.items()):
                for k in list(d):
                    if k not in saved:
                        try:
                            delattr(o, k)
                        except (AttributeError, TypeError):
                            pass
                for k, x in saved.items():
                    if d.get(k, o) is not x:
                        try:
                            setattr(o, k, x)
                        except (AttributeError, TypeError):
                            pass
        for f in self.cached:
            f.cache_clear()
