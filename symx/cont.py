"""Sets and dicts that honour equality of symbolic keys: Python looks keys up by hash first, and a symbolic number cannot have the hash
of every value it may take.  Containers that the code under test builds resolve such keys by comparing them with the ones present."""
import collections

from . import core

_PLAIN = (str, int, float)


def _sym(k):
    t = type(k)
    if t is core.SymNum or t is core.SymStr:
        return True
    if t is tuple or t is frozenset:
        return any(_sym(x) for x in k)
    return False


def _kind(k):
    t = type(k)
    if t is core.SymNum or t in (int, float, bool) or t is core.SymBool:
        return 'n'
    if t is core.SymStr or t is str:
        return 's'
    if t is tuple:
        return tuple(_kind(x) for x in k)
    return 'o'


class _Sym(object):
    """Key resolution; _s: does the container hold symbolic keys?"""

    def _key(self, k):
        if self._s or _sym(k):
            kind = _kind(k)
            if kind == 'o':
                return k
            ks = _sym(k)
            for x in self._raw():
                if x is k:
                    return x
            for x in self._raw():
                if _kind(x) == kind and (ks or _sym(x)) and x == k:
                    return x
        return k

    def _new(self, k):
        k = self._key(k)
        if not self._s and _sym(k):
            self._s = True
        return k


class SDict(dict, _Sym):
    _s = False

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a:
            src = a[0]
            if type(src) is dict and not any(type(x) in (core.SymNum, core.SymStr, tuple) for x in src):
                dict.update(self, src)
            else:
                self.update(src)
        if k:
            dict.update(self, k)

    def _raw(self):
        return list(dict.__iter__(self))

    def __setitem__(self, k, v):
        dict.__setitem__(self, self._new(k), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, self._key(k))

    def __delitem__(self, k):
        dict.__delitem__(self, self._key(k))

    def __contains__(self, k):
        return dict.__contains__(self, self._key(k))

    def get(self, k, d=None):
        return dict.get(self, self._key(k), d)

    def setdefault(self, k, d=None):
        return dict.setdefault(self, self._new(k), d)

    def pop(self, k, *d):
        return dict.pop(self, self._key(k), *d)

    def update(self, *a, **k):
        for src in a + ((k,) if k else ()):
            for x, v in (src.items() if hasattr(src, 'keys') else src):
                self[x] = v

    def copy(self):
        return SDict(self)

    @classmethod
    def fromkeys(cls, keys, v=None):
        d = SDict()
        for k in keys:
            d[k] = v
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if not (self._s or getattr(o, '_s', False)):
            return dict.__eq__(self, o)
        a, b = (self, o) if isinstance(o, SDict) else (self, SDict(o))
        return len(a) == len(b) and all(k in b and b[k] == v for k, v in a.items())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        d = SDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __reduce__(self):
        return (SDict, (dict(self),))


class SDefault(SDict):
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        SDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = self.default_factory()
        return v

    def copy(self):
        return SDefault(self.default_factory, self)

    def __reduce__(self):
        return (SDefault, (self.default_factory, dict(self)))


class SCounter(SDict):
    def __init__(self, src=(), **k):
        SDict.__init__(self)
        self.update(src, **k)

    def __missing__(self, k):
        return 0

    def update(self, src=(), **k):
        for x, n in (src.items() if hasattr(src, 'keys') else ((y, 1) for y in src)):
            self[x] = self[x] + n
        for x, n in k.items():
            self[x] = self[x] + n

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda kv: kv[1], reverse=True)[:n]

    def elements(self):
        return (k for k, n in self.items() for _ in range(n))

    def copy(self):
        return SCounter(self)


class _SSet(_Sym):
    _s = False

    def __init__(self, src=()):
        self._fill(src)

    def _raw(self):
        return list(self.BASE.__iter__(self))

    def __contains__(self, k):
        return self.BASE.__contains__(self, self._key(k))

    def _fast(self, others):
        return not self._s and not any(getattr(o, '_s', False) if isinstance(o, (set, frozenset)) else True for o in others)

    def union(self, *others):
        r = SSet(self)
        for o in others:
            r.update(o)
        return r._as(type(self))

    def intersection(self, *others):
        keep = list(self)
        for o in others:
            o = o if isinstance(o, _SSet) else SSet(o)
            keep = [x for x in keep if x in o]
        return SSet(keep)._as(type(self))

    def difference(self, *others):
        keep = list(self)
        for o in others:
            o = o if isinstance(o, _SSet) else SSet(o)
            keep = [x for x in keep if x not in o]
        return SSet(keep)._as(type(self))

    def symmetric_difference(self, o):
        o = o if isinstance(o, _SSet) else SSet(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = o if isinstance(o, _SSet) else SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def copy(self):
        return self._as(type(self), True)

    def _as(self, cls, copy=False):
        return self if type(self) is cls and not copy else cls(self)

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __ror__(self, o):
        return SSet(o).union(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rand__(self, o):
        return SSet(o).intersection(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rsub__(self, o):
        return SSet(o).difference(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rxor__(self, o):
        return SSet(o).symmetric_difference(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __le__(self, o):
        return self.issubset(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        if self._fast((o,)):
            return self.BASE.__eq__(self, o)
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __reduce__(self):
        return (type(self), (list(self),))


class SSet(_SSet, set):
    BASE = set
    __hash__ = None

    def _fill(self, src):
        if type(src) is SSet and not src._s or type(src) is set:
            if not any(type(x) in (core.SymNum, core.SymStr, tuple) for x in src):
                set.update(self, src)
                return
        self.update(src)

    def add(self, k):
        set.add(self, self._new(k))

    def discard(self, k):
        set.discard(self, self._key(k))

    def remove(self, k):
        set.remove(self, self._key(k))

    def pop(self):
        return set.pop(self)

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        keep = self.intersection(*others)
        for x in list(self):
            if x not in keep:
                set.discard(self, x)

    def symmetric_difference_update(self, o):
        r = self.symmetric_difference(o)
        set.clear(self)
        self.update(r)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class SFrozen(_SSet, frozenset):
    BASE = frozenset

    def __new__(cls, src=()):
        s = SSet(src)
        r = frozenset.__new__(cls, list(s))
        r._s = s._s
        return r

    def _fill(self, src):
        pass

    def __hash__(self):
        return 15485863 if self._s else frozenset.__hash__(self)

    def __reduce__(self):
        return (SFrozen, (list(self),))


class _ContMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.REAL)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.REAL)

    def __eq__(cls, o):
        return o is cls or o is cls.REAL or o is cls.CONT

    def __hash__(cls):
        return hash(cls.REAL)

    def __call__(cls, *a, **k):
        return cls.CONT(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls.CONT, n)

    def __repr__(cls):
        return repr(cls.REAL)


class SetT(metaclass=_ContMeta):
    REAL, CONT = set, SSet


class DictT(metaclass=_ContMeta):
    REAL, CONT = dict, SDict


class FrozenT(metaclass=_ContMeta):
    REAL, CONT = frozenset, SFrozen


TYPES = {SSet: SetT, set: SetT, SDict: DictT, dict: DictT, SFrozen: FrozenT, frozenset: FrozenT}


def fake_collections():
    import types
    m = types.ModuleType('collections')
    for n in dir(collections):
        if not n.startswith('__'):
            setattr(m, n, getattr(collections, n))
    m.defaultdict, m.Counter, m.OrderedDict = SDefault, SCounter, SDict
    m.abc = collections.abc
    return m
