"""Module- and class-level state of the code under test: remembered at import, put back before every path, so that
each path (and each replayed input) starts from a freshly imported package."""
import collections
import copy
import functools
import itertools
import sys
import types
import weakref

_KEEP = (list, dict, set, collections.deque)
_WEAK = (weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)
_bound = []             # (namespace-like, names at import)
_held = []              # (container, contents at import)
_cells = []             # (cell, value at import)
_funcs = []             # functions with attributes
_caches = []            # functools caches
_weak = []              # weak containers, empty at import
_seen = set()
_mods = set()


class _Ns(object):
    """vars() of a module, class, function or object: the entries at import and how to put them back."""

    def __init__(self, obj):
        self.obj = obj
        self.was = dict(vars(obj))
        self.counts = {k: copy.copy(v) for k, v in self.was.items() if isinstance(v, itertools.count)}

    def restore(self):
        for k, v in self.counts.items():
            self.was[k] = copy.copy(v)
        now = vars(self.obj)
        if len(now) == len(self.was) and all(now.get(k, self) is v for k, v in self.was.items()):
            return
        for k in list(now):
            if k not in self.was:
                self.drop(k)
        for k, v in self.was.items():
            if now.get(k, self) is not v:
                self.put(k, v)

    def drop(self, k):
        if isinstance(self.obj, type):
            delattr(self.obj, k)
        else:
            vars(self.obj).pop(k, None)

    def put(self, k, v):
        if isinstance(self.obj, type):
            setattr(self.obj, k, v)
        else:
            vars(self.obj)[k] = v


def _walk(v, mod, depth=0):
    if id(v) in _seen or depth > 8:
        return
    if isinstance(v, _KEEP):
        _seen.add(id(v))
        _held.append((v, list(v.items()) if isinstance(v, dict) else list(v)))
        for x in (list(v.values()) if isinstance(v, dict) else list(v)):
            _walk(x, mod, depth + 1)
    elif isinstance(v, _WEAK):
        if not len(v):
            _seen.add(id(v))
            _weak.append(v)
    elif isinstance(v, tuple):
        for x in v:
            _walk(x, mod, depth + 1)
    elif isinstance(v, (staticmethod, classmethod)):
        _walk(v.__func__, mod, depth + 1)
    elif isinstance(v, property):
        for f in (v.fget, v.fset, v.fdel):
            _walk(f, mod, depth + 1)
    elif isinstance(v, functools._lru_cache_wrapper):
        _seen.add(id(v))
        _caches.append(v)
        _walk(v.__wrapped__, mod, depth + 1)
    elif isinstance(v, functools.partial):
        _walk(v.func, mod, depth + 1)
        _walk(v.args, mod, depth + 1)
        _walk(v.keywords, mod, depth + 1)
    elif isinstance(v, types.FunctionType):
        if not str(v.__module__).startswith('pyNTM'):
            return
        _seen.add(id(v))
        _bound.append(_Ns(v))
        for x in list(vars(v).values()):
            _walk(x, mod, depth + 1)
        _walk(v.__defaults__ or (), mod, depth + 1)
        _walk(v.__kwdefaults__ or {}, mod, depth + 1)
        for cell in v.__closure__ or ():
            try:
                x = cell.cell_contents
            except ValueError:
                continue
            _cells.append((cell, x))
            _walk(x, mod, depth + 1)
    elif isinstance(v, type):
        if not str(v.__module__).startswith('pyNTM'):
            return
        _seen.add(id(v))
        _bound.append(_Ns(v))
        for k, x in list(vars(v).items()):
            if k not in ('__dict__', '__weakref__', '__doc__'):
                _walk(x, mod, depth + 1)
    elif str(type(v).__module__).startswith('pyNTM') and hasattr(v, '__dict__'):
        _seen.add(id(v))
        _bound.append(_Ns(v))
        for x in list(vars(v).values()):
            _walk(x, mod, depth + 1)


def remember():
    """Record the state of package modules not yet recorded."""
    for name, m in list(sys.modules.items()):
        if (name == 'pyNTM' or name.startswith('pyNTM.')) and name not in _mods and m is not None:
            _mods.add(name)
            _bound.append(_Ns(m))
            for k, v in list(vars(m).items()):
                if k not in ('__builtins__', '__spec__', '__loader__', '__path__', '__cached__'):
                    _walk(v, m)


def reset():
    """As freshly imported."""
    remember()
    for b in _bound:
        b.restore()
    for cell, x in _cells:
        if cell.cell_contents is not x:
            cell.cell_contents = x
    for v, was in _held:
        if isinstance(v, dict):
            now = list(v.items())
            if len(now) != len(was) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(now, was)):
                v.clear()
                for k, x in was:
                    v[k] = x
        else:
            now = list(v)
            if len(now) != len(was) or any(a is not b for a, b in zip(now, was)):
                v.clear()
                (v.update if isinstance(v, set) else v.extend)(was)
    for f in _caches:
        f.cache_clear()
    for w in _weak:
        w.clear()
