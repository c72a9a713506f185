"""Loads pyNTM from /repo's working tree: `load(symbolic=True)` with the engine's builtins, or plainly (for replay)."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import random as _random
import string as _string
import sys
import types

from . import cont, core, fakedash, state

REPO = os.environ.get('SYMX_REPO', '/repo')
ENCODED = {}            # module -> number of functions read (evidence)


# ------------------------------------------------------------------------------------------------ text helpers
def _has_sym(x):
    return type(x) in (core.SymNum, core.SymStr) or (type(x) in (list, tuple) and any(_has_sym(y) for y in x)) or \
        (isinstance(x, dict) and any(_has_sym(y) for y in x.values()))


def _join_parts(parts):
    """parts: python objects already formatted (str or SymStr)."""
    if any(type(p) is core.SymStr for p in parts):
        out = []
        for p in parts:
            out.extend(p.parts if type(p) is core.SymStr else [p])
        return core.SymStr(core._merge(out))
    return ''.join(parts)


def _fmt1(v, conv, spec):
    if conv == 'r':
        v = repr(v) if type(v) is not core.SymStr else core.SymStr(core._merge(["'"] + v.parts + ["'"]))
    elif conv == 's':
        v = v if type(v) is core.SymStr else str(v)
    if type(v) is core.SymStr and not spec:
        return v
    return format(v, spec)


def symx_mod(a, b):
    if isinstance(a, str) and type(a) is str:
        args = b if type(b) is tuple else (b,)
        if type(b) is not dict and any(type(x) in (core.SymNum, core.SymStr) for x in args):
            out, i, n = [], 0, 0
            while i < len(a):
                j = a.find('%', i)
                if j < 0:
                    out.append(a[i:])
                    break
                out.append(a[i:j])
                k = j + 1
                while a[k] not in 'diouxXeEfFgGcrsa%':
                    k += 1
                spec = a[j + 1:k + 1]
                i = k + 1
                if spec == '%':
                    out.append('%')
                    continue
                v = args[n]
                n += 1
                if type(v) is core.SymStr and spec in ('s', 'r'):
                    out.append(_fmt1(v, spec, ''))
                elif type(v) is core.SymNum:
                    if spec in ('s', 'r'):
                        out.append(str(v))
                    elif spec in ('d', 'i'):
                        out.append(str(core.ctx().trunc(v)))
                    elif spec.endswith('f'):
                        out.append(format(v, spec if spec != 'f' else '.6f'))
                    else:
                        out.append(('%' + spec) % core.ctx().concretize(v))
                else:
                    out.append(('%' + spec) % (v,))
            return _join_parts(out)
    return a % b


def symx_fstr(parts):
    return _join_parts([p if type(p) is str else _fmt1(*p) for p in parts])


STR_METHODS = {'startswith', 'endswith', 'replace', 'split', 'rsplit', 'partition', 'rpartition', 'find', 'rfind', 'index', 'count', 'removeprefix',
               'removesuffix', 'strip', 'lstrip', 'rstrip'}


def symx_in(a, b):
    if type(b) is str and (type(a) is core.SymStr or '\u27e6' in b):
        return core.ctx().strtoken(b).__contains__(a)
    return a in b


def symx_method(obj, name, args, kwargs):
    if name in STR_METHODS:
        if type(obj) is str:
            if '\u27e6' in obj and core.ctx().untoken(obj) is None:
                obj = core.ctx().strtoken(obj)
            elif name in ('startswith', 'endswith') and len(args) == 1 and not kwargs and type(args[0]) is core.SymStr:
                obj = core.SymStr([obj])
            else:
                args = [core.plain_str(x) for x in args]
        return getattr(obj, name)(*args, **kwargs)
    if type(obj) is str and (any(type(x) is core.SymStr for x in args) or any(type(x) is core.SymStr for x in kwargs.values()) or
                             (name == 'join' and args and not isinstance(args[0], str))):
        if name == 'join':
            seq = list(args[0])
            if any(type(x) is core.SymStr for x in seq):
                parts = []
                for i, x in enumerate(seq):
                    if i:
                        parts.append(obj)
                    parts.append(x)
                return _join_parts(parts)
            return obj.join(seq)
        parts, auto = [], 0
        for lit, field, spec, conv in _string.Formatter().parse(obj):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                field, auto = str(auto), auto + 1
            base = field.split('.')[0].split('[')[0]
            v = args[int(base)] if base.isdigit() else kwargs[base]
            rest = field[len(base):]
            if rest.startswith('.'):
                for at in rest[1:].split('.'):
                    v = getattr(v, at)
            parts.append(_fmt1(v, conv, spec))
        return _join_parts(parts)
    return getattr(obj, name)(*args, **kwargs)


def symx_tok(v):
    """What __str__ or __repr__ returns: a real string, naming any symbolic one by its token."""
    return core.ctx().stoken(v) if type(v) is core.SymStr else v


class _Returns(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is not None:
            n.value = ast.Call(ast.Name('__symx_tok__', ast.Load()), [n.value], [])
        return n

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef


class Transform(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in ('__str__', '__repr__', '__format__'):
            n.body = [_Returns().visit(x) for x in n.body]
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__symx_mod__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and (n.func.attr in ('format', 'join') or n.func.attr in STR_METHODS) and \
                not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            return ast.copy_location(ast.Call(
                ast.Name('__symx_method__', ast.Load()),
                [n.func.value, ast.Constant(n.func.attr), ast.Tuple(n.args, ast.Load()),
                 ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return n
        r = ast.Call(ast.Name('__symx_in__', ast.Load()), [n.left, n.comparators[0]], [])
        return ast.copy_location(r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r), n)

    def _wrap(self, n, f):
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n], []), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        if n.keys and all(k is not None for k in n.keys):           # as pairs: keys meet in the symbolic dict first
            pairs = ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())
            return ast.copy_location(ast.Call(ast.Name('__symx_dict__', ast.Load()), [pairs], []), n)
        return self._wrap(n, '__symx_dict__')

    def visit_Set(self, n):
        self.generic_visit(n)
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self._wrap(n, '__symx_set__')
        return ast.copy_location(ast.Call(ast.Name('__symx_set__', ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._wrap(ast.GeneratorExp(n.elt, n.generators), '__symx_set__')

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._wrap(ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators), '__symx_dict__')

    def visit_JoinedStr(self, n):
        elts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                elts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                elts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name('__symx_fstr__', ast.Load()), [ast.List(elts, ast.Load())], []), n)


# ------------------------------------------------------------------------------------------------ builtins
class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.REAL)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.REAL)

    def __eq__(cls, o):
        return o is cls or o is cls.REAL

    def __hash__(cls):
        return hash(cls.REAL)

    def __call__(cls, *a, **k):
        return cls.CONV(*a, **k)

    def __getattr__(cls, n):
        return getattr(cls.REAL, n)

    def __repr__(cls):
        return repr(cls.REAL)


def _to_float(x=0.0):
    if type(x) is core.SymNum:
        return core.SymNum(x.d, x.k, True)
    if type(x) is core.SymBool:
        return float(bool(x))
    if isinstance(x, str) and '\u27e6' in x:
        v = core.ctx().untoken(x)
        if v is None:
            raise ValueError('could not convert string to float: %r' % x)
        return core.SymNum(v.d, v.k, True)
    return float(x)


def _to_int(x=0, *a):
    if type(x) is core.SymNum:
        return core.ctx().trunc(x)
    if type(x) is core.SymBool:
        return int(bool(x))
    if isinstance(x, str) and '\u27e6' in x:
        v = core.ctx().untoken(x)
        if v is None or v.fl:
            raise ValueError('invalid literal for int() with base 10: %r' % x)
        return v
    return int(x, *a)


class FloatT(metaclass=_NumMeta):
    REAL = float
    CONV = staticmethod(_to_float)


class IntT(metaclass=_NumMeta):
    REAL = int
    CONV = staticmethod(_to_int)


def _type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t is core.SymNum:
        return FloatT if x.fl else IntT
    if t is core.SymBool:
        return bool
    if t is core.SymStr:
        return str
    return FloatT if t is float else IntT if t is int else cont.TYPES.get(t, t)


def _sym_random(rnd):
    """Stand-in for the random module: every outcome of a selection is explored."""
    m = types.ModuleType('random')
    for n in dir(_random):
        if not n.startswith('__'):
            setattr(m, n, getattr(_random, n))

    def choice(seq):
        return seq[rnd(len(seq))]

    def randrange(a, b=None):
        if b is None:
            a, b = 0, a
        return a + rnd(b - a)

    def shuffle(x):
        for i in range(len(x) - 1):
            j = i + rnd(len(x) - i)
            x[i], x[j] = x[j], x[i]

    def sample(seq, k):
        seq = list(seq)
        out = []
        for _ in range(k):
            out.append(seq.pop(rnd(len(seq))))
        return out

    m.choice, m.randrange, m.shuffle, m.sample = choice, randrange, shuffle, sample
    m.randint = lambda a, b: a + rnd(b - a + 1)
    m.choices = lambda seq, k=1: [seq[rnd(len(seq))] for _ in range(k)]
    return m


VFILES = {}             # virtual files of the current path: name -> text


class _VFile(object):
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def readlines(self):
        return self.text.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _open(name, mode='r', *a, **k):
    if name in VFILES:
        return _VFile(VFILES[name])
    if any(ch in mode for ch in 'wax+'):
        raise OSError('writing files is not allowed here: %s' % name)
    return open(name, mode, *a, **k)


OUT = []                # what the code under test printed while recording
RECORD = [False]


def _print(*a, sep=' ', end='\n', **k):
    if RECORD[0]:
        OUT.append((' ' if sep is None else sep).join(str(x) for x in a) + ('\n' if end is None else end))


def _pprint(x, *a, **k):
    if RECORD[0]:
        OUT.append(repr(x) + '\n')


def printed(fn, *a):
    """What fn prints."""
    del OUT[:]
    RECORD[0] = True
    try:
        fn(*a)
    finally:
        RECORD[0] = False
    return ''.join(OUT)


def _current():
    """The context in force: symbolic or concrete."""
    return core.ctx() or CONCRETE[0]


CONCRETE = [None]


def _rnd(n):
    if n <= 0:
        raise IndexError('Cannot choose from an empty sequence')
    return _current().choose(n)


def make_builtins(symbolic):
    b = dict(vars(builtins))
    real_import = builtins.__import__
    fake_random = _sym_random(_rnd)
    fake_pprint = types.ModuleType('pprint')
    fake_pprint.pprint = fake_pprint.pp = _pprint
    fake_pprint.pformat = repr

    fakes = fakedash.modules(symbolic)
    fake_coll = cont.fake_collections()

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name == 'random':
            return fake_random
        if symbolic and level == 0 and name == 'collections':
            return fake_coll
        if level == 0 and name == 'pprint':
            return fake_pprint
        if level == 0 and name in fakes:
            return fakes[name if fromlist else name.split('.')[0]]
        return real_import(name, globals, locals, fromlist, level)

    b['__import__'] = imp
    b['print'] = _print
    b['open'] = _open
    if symbolic:
        b['float'], b['int'], b['type'] = FloatT, IntT, _type
        b['__symx_mod__'], b['__symx_fstr__'], b['__symx_method__'] = symx_mod, symx_fstr, symx_method
        b['__symx_tok__'] = symx_tok
        b['__symx_in__'] = symx_in
        b['set'], b['dict'], b['frozenset'] = cont.SetT, cont.DictT, cont.FrozenT
        b['__symx_set__'], b['__symx_dict__'] = cont.SSet, cont.SDict
    return b


def serial_hash(self):
    h = self.__dict__.get('_symx_h')
    if h is None:
        h = self.__dict__['_symx_h'] = _current().serial_hash()
    return h


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg, symbolic, bi):
        self.path, self.ispkg, self.symbolic, self.bi = path, ispkg, symbolic, bi

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = open(self.path, encoding='utf-8').read()
        tree = ast.parse(src, self.path)
        ENCODED[module.__name__] = sorted(n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef))
        if self.symbolic:
            tree = ast.fix_missing_locations(Transform().visit(tree))
        module.__dict__['__builtins__'] = self.bi
        exec(compile(tree, self.path, 'exec'), module.__dict__)
        for v in list(vars(module).values()):
            if isinstance(v, type) and v.__module__ == module.__name__ and v.__hash__ is object.__hash__ \
                    and not issubclass(v, BaseException):
                v.__hash__ = serial_hash


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.bi = make_builtins(symbolic)

    def find_spec(self, name, path=None, target=None):
        if name != 'pyNTM' and not name.startswith('pyNTM.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        ispkg = os.path.isdir(base)
        f = os.path.join(base, '__init__.py') if ispkg else base + '.py'
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(
            name, f, loader=_Loader(f, ispkg, self.symbolic, self.bi),
            submodule_search_locations=[base] if ispkg else None)


def load(symbolic):
    """Import pyNTM; returns a namespace of its classes."""
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(symbolic))
    import pyNTM
    from pyNTM import (circuit, demand, exceptions, flex_model, interface, master_model, node, performance_model, rsvp,
                       srlg, utilities)
    ns = types.SimpleNamespace(
        pkg=pyNTM, Circuit=circuit.Circuit, Demand=demand.Demand, ModelException=exceptions.ModelException,
        FlexModel=flex_model.FlexModel, Parallel_Link_Model=flex_model.Parallel_Link_Model, Interface=interface.Interface,
        Node=node.Node, PerformanceModel=performance_model.PerformanceModel, Model=performance_model.Model,
        RSVP_LSP=rsvp.RSVP_LSP, SRLG=srlg.SRLG, utilities=utilities, VFILES=VFILES)
    state.remember()
    core.BEFORE_PATH.append(state.reset)
    return ns


def load_weathermap():
    from pyNTM import weathermap
    state.remember()
    return weathermap


def json_of(symbolic):
    return fakedash.modules(symbolic).get('json') or fakedash._json
