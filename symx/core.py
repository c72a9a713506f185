"""symx: a small symbolic-execution engine for Python code, deciding branches with z3.

Numbers of the program under test are `SymNum` proxies (linear forms over SMT atoms, exact rationals); truth values of
comparisons are `SymBool`; Python asks for their truth with `bool()`, which is a *branch*: both sides are tried when z3
finds both satisfiable under the path condition.  Paths are explored depth first by re-execution; the z3 assertion
stack is shared between consecutive paths.
"""
import itertools
import math
import os
import sys
import time
from fractions import Fraction

from . import zpath
zpath.setup()
import z3  # noqa: E402

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)        # models of non-linear constraints may hold rationals of thousands of digits

F0 = Fraction(0)
F1 = Fraction(1)
HALF = Fraction(1, 2)
TOL = Fraction(1, 10000)          # tolerance of approximate equality in assertions (symbolic side)

_CTX = None                        # the context of the path being executed


def ctx():
    return _CTX


class Abort(BaseException):
    """Ends the current path (infeasible, finished early, or out of budget)."""


UNEXPECTED = 'unexpected exception'


class EngineError(Exception):
    pass


class Infeasible(Abort):
    pass


class Stop(Abort):
    pass


# ----------------------------------------------------------------------------------------------- z3 caches (per process)
_zvars = {}
_zcons = {}


def zvar(name, sort):
    k = (name, sort)
    v = _zvars.get(k)
    if v is None:
        v = _zvars[k] = (z3.Int(name) if sort == 'i' else z3.Real(name) if sort == 'r' else
                         z3.Bool(name) if sort == 'b' else z3.String(name))
    return v


class Atom(object):
    __slots__ = ('name', 'sort', 'lo', 'hi', 'evalf', 'z')

    def __init__(self, name, sort, lo=None, hi=None, evalf=None):
        self.name, self.sort, self.lo, self.hi, self.evalf = name, sort, lo, hi, evalf
        self.z = zvar(name, sort)

    def __repr__(self):
        return self.name


def _z3frac(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


# ----------------------------------------------------------------------------------------------- formulas
class SymBool(object):
    """Formula tree: ('c', bool) | ('l', kind, vec, c) literal | ('b', atom) | ('n', f) | ('a', [f]) | ('o', [f]) | ('z', z3expr)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        if self.t[0] == 'c':
            return self.t[1]
        return _CTX.branch(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __xor__(self, o):
        return Or(And(self, Not(o)), And(Not(self), o))

    def __eq__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return Or(And(self, o), And(Not(self), Not(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return 'SymBool'


TRUE = SymBool(('c', True))
FALSE = SymBool(('c', False))


def tob(x):
    if type(x) is SymBool:
        return x
    if type(x) is SymNum:
        return Not(x == 0)
    return TRUE if x else FALSE


def And(*xs):
    if len(xs) == 1 and type(xs[0]) in (list, tuple):
        xs = xs[0]
    out = []
    for x in xs:
        x = tob(x)
        if x.t[0] == 'c':
            if not x.t[1]:
                return FALSE
            continue
        if x.t[0] == 'a':
            out.extend(x.t[1])
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else SymBool(('a', out))


def Or(*xs):
    if len(xs) == 1 and type(xs[0]) in (list, tuple):
        xs = xs[0]
    out = []
    for x in xs:
        x = tob(x)
        if x.t[0] == 'c':
            if x.t[1]:
                return TRUE
            continue
        if x.t[0] == 'o':
            out.extend(x.t[1])
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else SymBool(('o', out))


_NEG = {'le': 'gt', 'gt': 'le', 'ge': 'lt', 'lt': 'ge', 'eq': 'ne', 'ne': 'eq'}


def Not(x):
    x = tob(x)
    t = x.t
    if t[0] == 'c':
        return FALSE if t[1] else TRUE
    if t[0] == 'n':
        return t[1]
    if t[0] == 'l':
        _, kind, vec, c = t
        if _vec_is_int(vec):
            if kind == 'le':
                return SymBool(('l', 'ge', vec, c + 1))
            if kind == 'ge':
                return SymBool(('l', 'le', vec, c - 1))
        return SymBool(('l', _NEG[kind], vec, c))
    if t[0] == 'a':
        return Or(*[Not(y) for y in t[1]])
    if t[0] == 'o':
        return And(*[Not(y) for y in t[1]])
    return SymBool(('n', x))


def Implies(a, b):
    return Or(Not(a), b)


def _vec_is_int(vec):
    for a, _ in vec:
        if a.sort != 'i':
            return False
    return True


def zlit(t):
    """z3 expression of a literal (cached)."""
    key = (t[1], tuple((a.name, a.sort, c) for a, c in t[2]), t[3])
    e = _zcons.get(key)
    if e is None:
        _, kind, vec, c = t
        allint = _vec_is_int(vec)
        terms = []
        for a, k in vec:
            v = a.z
            if not allint and a.sort == 'i':
                v = z3.ToReal(v)
            terms.append(v if k == 1 else (-v if k == -1 else (int(k) if allint else z3.Q(k.numerator, k.denominator)) * v))
        lhs = terms[0] if len(terms) == 1 else z3.Sum(terms)
        rhs = z3.IntVal(int(c)) if allint else z3.RealVal(str(c))
        e = {'le': lambda: lhs <= rhs, 'ge': lambda: lhs >= rhs, 'lt': lambda: lhs < rhs, 'gt': lambda: lhs > rhs,
             'eq': lambda: lhs == rhs, 'ne': lambda: lhs != rhs}[kind]()
        if len(_zcons) > 200000:
            _zcons.clear()
        _zcons[key] = e
    return e


def zform(x):
    t = x.t
    k = t[0]
    if k == 'l':
        return zlit(t)
    if k == 'c':
        return z3.BoolVal(t[1])
    if k == 'b':
        return t[1].z
    if k == 'n':
        return z3.Not(zform(t[1]))
    if k == 'a':
        return z3.And([zform(y) for y in t[1]])
    if k == 'o':
        return z3.Or([zform(y) for y in t[1]])
    return t[1]


# ----------------------------------------------------------------------------------------------- comparisons
def compare(op, a, b):
    """a op b for SymNum/number operands; op in '<','<=','=='"""
    d, k = _sub(a, b)
    if not d:
        r = k < 0 if op == '<' else k <= 0 if op == '<=' else k == 0
        return TRUE if r else FALSE
    items = sorted(d.items(), key=lambda it: it[0].name)
    allint = True
    num = 0
    den = 1
    for at, c in items:
        if at.sort != 'i':
            allint = False
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    s = Fraction(num, den)
    if items[0][1] < 0:
        s = -s
    vec = tuple((at, c / s) for at, c in items)
    c = -k / s
    if op == '==':
        if allint and c.denominator != 1:
            return FALSE
        return SymBool(('l', 'eq', vec, c))
    if s > 0:
        kind = 'lt' if op == '<' else 'le'
    else:
        kind = 'gt' if op == '<' else 'ge'
    if allint:
        if kind == 'lt':
            kind, c = 'le', Fraction(math.ceil(c) - 1)
        elif kind == 'gt':
            kind, c = 'ge', Fraction(math.floor(c) + 1)
        elif kind == 'le':
            c = Fraction(math.floor(c))
        else:
            c = Fraction(math.ceil(c))
    return SymBool(('l', kind, vec, c))


def _num(x):
    """(dict, const) of an operand, or None if it is not a finite number."""
    if type(x) is SymNum:
        return x.d, x.k
    if type(x) is int:
        return {}, Fraction(x)
    if type(x) is bool:
        return {}, Fraction(int(x))
    if type(x) is float:
        if x != x or x in (math.inf, -math.inf):
            return None
        return {}, flt(x)
    if type(x) is Fraction:
        return {}, x
    return None


_fltc = {}


def flt(x):
    """Meaning of a float: the simplest fraction that rounds to it (1/3 for 1.0 / 3), else its decimal notation (0.1 is 1/10)."""
    r = _fltc.get(x)
    if r is None:
        if x != x:
            return x
        r = Fraction(x).limit_denominator(5000)
        if float(r) != x:
            r = Fraction(repr(x))
        if len(_fltc) > 100000:
            _fltc.clear()
        _fltc[x] = r
    return r


def _sub(a, b):
    da, ka = _num(a)
    db, kb = _num(b)
    if not db:
        return da, ka - kb
    d = dict(da)
    for at, c in db.items():
        n = d.get(at, F0) - c
        if n:
            d[at] = n
        else:
            d.pop(at, None)
    return d, ka - kb


class SymNum(object):
    __slots__ = ('d', 'k', 'fl')

    def __init__(self, d, k, fl):
        self.d, self.k, self.fl = d, k, fl

    # numbers look like int or float to isinstance()
    @property
    def __class__(self):
        return float if self.fl else int

    def __hash__(self):
        return 7919

    def _isfl(self, o):
        return self.fl or type(o) is float or (type(o) is SymNum and o.fl) or (type(o) is Fraction)

    # ---- comparisons
    def _cmp(self, op, o, swap=False):
        if _num(o) is None:
            if type(o) is float:      # inf / nan
                if o != o:
                    return False
                big = o > 0
                return {'<': big if not swap else not big, '<=': big if not swap else not big, '==': False}[op]
            if type(o) is SymBool:
                o = int(bool(o))
            else:
                return NotImplemented
        return compare(op, o, self) if swap else compare(op, self, o)

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('<', o, True)

    def __ge__(self, o):
        return self._cmp('<=', o, True)

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        r = self._cmp('==', o)
        return r if r is NotImplemented else Not(r)

    def __bool__(self):
        return bool(Not(compare('==', self, 0)))

    # ---- arithmetic
    def __add__(self, o):
        n = _num(o)
        if n is None:
            return self._odd(o, '+')
        d = dict(self.d)
        for at, c in n[0].items():
            v = d.get(at, F0) + c
            if v:
                d[at] = v
            else:
                d.pop(at, None)
        return SymNum(d, self.k + n[1], self._isfl(o))

    __radd__ = __add__

    def __neg__(self):
        return SymNum({a: -c for a, c in self.d.items()}, -self.k, self.fl)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _num(o) is None:
            return self._odd(o, '-')
        d, k = _sub(self, o)
        return SymNum(d, k, self._isfl(o))

    def __rsub__(self, o):
        if _num(o) is None:
            return NotImplemented
        d, k = _sub(o, self)
        return SymNum(d, k, self._isfl(o))

    def _odd(self, o, op):
        if type(o) is float and op in '+-':
            return o if op == '+' else -o
        return NotImplemented

    def _scale(self, c, fl):
        if not c:
            return SymNum({}, F0, fl)
        return SymNum({a: v * c for a, v in self.d.items()}, self.k * c, fl)

    def __mul__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        fl = self._isfl(o)
        if not n[0]:
            return self._scale(n[1], fl)
        if not self.d:
            return o._scale(self.k, fl)
        return _CTX.product(self, o, fl)

    __rmul__ = __mul__

    def __truediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if not n[0]:
            if not n[1]:
                raise ZeroDivisionError('division by zero')
            return self._scale(1 / n[1], True)
        if bool(compare('==', o, 0)):
            raise ZeroDivisionError('division by zero')
        return _CTX.quotient(self, o)

    def __rtruediv__(self, o):
        if _num(o) is None:
            return NotImplemented
        if not self.d:
            if not self.k:
                raise ZeroDivisionError('division by zero')
            return const(_num(o)[1] / self.k, True)
        if bool(compare('==', self, 0)):
            raise ZeroDivisionError('division by zero')
        return _CTX.quotient(const(_num(o)[1], self._isfl(o)), self)

    def _floordiv(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if n[0]:
            o = _CTX.concretize(o)
            n = _num(o)
        if not n[1]:
            raise ZeroDivisionError('integer division or modulo by zero')
        q = self._scale(1 / n[1], True)
        r = _CTX.floor(q)
        r = SymNum(r.d, r.k, self._isfl(o))
        return r

    def __floordiv__(self, o):
        return self._floordiv(o)

    def __rfloordiv__(self, o):
        return o // _CTX.concretize(self)

    def __mod__(self, o):
        q = self._floordiv(o)
        if q is NotImplemented:
            return q
        return self - q * (o if _num(o) and not _num(o)[0] else _CTX.concretize(o))

    def __rmod__(self, o):
        return o % _CTX.concretize(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, e):
        if type(e) is int and e >= 0:
            r = 1
            for _ in range(e):
                r = self * r
            return r
        return _CTX.concretize(self) ** e

    def __abs__(self):
        return -self if self < 0 else self

    def __round__(self, n=None):
        r = _CTX.round(self, 0 if n is None else n)
        return SymNum(r.d, r.k, self.fl and n is not None)

    def __trunc__(self):
        return _CTX.trunc(self)

    def __floor__(self):
        return _CTX.floor(self)

    def __ceil__(self):
        return -_CTX.floor(-self)

    def is_integer(self):
        return self == _CTX.floor(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # ---- conversions that C code insists on: concretise (under-approximation, recorded)
    def __float__(self):
        return float(_CTX.concretize(self))

    def __int__(self):
        return int(_CTX.concretize(self))

    def __index__(self):
        if self.fl:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(_CTX.concretize(self))

    # ---- text: an opaque token from which float()/int() recover the value
    def __str__(self):
        return _CTX.token(self, '')

    __repr__ = __str__

    def __format__(self, spec):
        return _CTX.token(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError('symbolic value cannot be pickled')


def const(k, fl=False):
    return SymNum({}, Fraction(k), fl)


def is_sym(x):
    return type(x) is SymNum


# ----------------------------------------------------------------------------------------------- SymStr
class SymStr(object):
    """A z3 string.  Only equality, concatenation and formatting are supported symbolically (see strfmt)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts          # list of python str / Atom of sort 's'

    @property
    def __class__(self):
        return str

    def z(self):
        ps = [z3.StringVal(p) if isinstance(p, str) else p.z for p in self.parts]
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def _o(self, o):
        if type(o) is SymStr:
            return o
        if type(o) is str:
            return _CTX.strtoken(o) if '\u27e6' in o else SymStr([o])
        return None

    def __eq__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        if _pkey(self.parts) == _pkey(o.parts):
            return TRUE
        return SymBool(('z', self.z() == o.z()))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return 104729

    def __add__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymStr(_merge(self.parts + o.parts))

    def __radd__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymStr(_merge(o.parts + self.parts))

    def __lt__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymBool(('z', self.z() < o.z()))

    def __gt__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymBool(('z', o.z() < self.z()))

    def __le__(self, o):
        return Not(self > o)

    def __ge__(self, o):
        return Not(self < o)

    def __contains__(self, sub):
        o = self._o(sub)
        return bool(SymBool(('z', z3.Contains(self.z(), o.z()))))

    def __bool__(self):
        return bool(SymBool(('z', z3.Length(self.z()) > 0)))

    def __str__(self):
        return _CTX.stoken(self)

    __repr__ = __str__

    def __format__(self, spec):
        return _CTX.stoken(self)

    def __len__(self):
        return len(_CTX.concretize_str(self))

    def __iter__(self):
        return iter(_CTX.concretize_str(self))

    def __getitem__(self, i):
        return _CTX.concretize_str(self)[i]

    def __mul__(self, n):
        return _CTX.concretize_str(self) * n

    __rmul__ = __mul__

    def _affix(self, o, args, fn, name):
        if type(o) is tuple:
            return any(self._affix(x, args, fn, name) for x in o)
        x = self._o(o)
        if x is None or args:
            return getattr(_CTX.concretize_str(self), name)(plain_str(o), *args)
        return bool(SymBool(('z', fn(x.z(), self.z()))))

    def startswith(self, o, *args):
        return self._affix(o, args, z3.PrefixOf, 'startswith')

    def endswith(self, o, *args):
        return self._affix(o, args, z3.SuffixOf, 'endswith')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(_CTX.concretize_str(self), n)
        return lambda *a, **k: f(*[plain_str(x) for x in a], **{y: plain_str(x) for y, x in k.items()})

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def plain_str(x):
    """The value of a symbolic string (one path each), for methods of plain strings."""
    if type(x) is SymStr:
        return _CTX.concretize_str(x)
    if type(x) is tuple and any(type(y) is SymStr for y in x):
        return tuple(plain_str(y) for y in x)
    return x


def _pkey(parts):
    return tuple(p if isinstance(p, str) else ('atom', p.name) for p in parts)


def _merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return out or ['']


# ----------------------------------------------------------------------------------------------- exploration
class Stats(object):
    FIELDS = ('paths', 'infeasible', 'decisions', 'queries', 'asserts', 'assert_queries', 'unknown', 'concretized', 'solver_s',
              'structural', 'pruned', 'fresh')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


BEFORE_PATH = []        # called before every path: puts module-level state of the code under test back


class Explorer(object):
    """Explores one harness case.  run(task) -> leftover tasks; a task is (decision prefix, model) or None for the root."""

    def __init__(self, fn, timeout_ms=1000):
        self.fn = fn
        self.timeout_ms = timeout_ms
        self.solver = z3.SimpleSolver() if os.environ.get('SYMX_SIMPLE') else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stats = Stats()
        self.stack = []              # one entry per event already asserted: ('d' | 'a', key)
        self.violations = []
        self.samples = []
        self.want_samples = 1
        self.labels = {}
        self.notes = {}

    def reset_solver(self):
        self.solver.reset()
        self.solver.set('timeout', self.timeout_ms)
        self.stack = []

    def explore(self, tasks, max_s=3.0, max_paths=10 ** 9):
        """tasks: list used as a stack.  Returns what is left of it."""
        t0 = time.time()
        n = 0
        self.reset_solver()
        self.shared = 0
        while tasks and n < max_paths and (n == 0 or time.time() - t0 < max_s):
            prefix, model = tasks.pop()
            self.run_path(prefix, model, tasks)
            n += 1
            if len(self.violations) >= 12:
                tasks.clear()
        return tasks

    def run_path(self, prefix, model, out):
        global _CTX
        for f in BEFORE_PATH:
            f()
        c = Ctx(self, prefix, model, out)
        _CTX = c
        try:
            c.sync()
            self.fn(c)
            c.finish()
        except Infeasible:
            self.stats.infeasible += 1
        except Abort:
            pass
        except (RecursionError, MemoryError, EngineError):
            raise
        except Exception as e:
            # the real code or the harness raised where the harness does not expect it: a counterexample if the plain code does so too
            c.raised(e)
        finally:
            self.stats.paths += 1
            c.done = True
            _CTX = None


class Ctx(object):
    mode = 'sym'

    def __init__(self, ex, prefix, model, out):
        self.ex = ex
        self.solver = ex.solver
        self.stats = ex.stats
        self.prefix = prefix           # list of decisions: (taken, both_feasible)
        self.pos = 0                   # position in prefix
        self.trace = []                # decisions made
        self.model = dict(model) if model is not None else None
        self.model_ok = model is not None
        self.pending_model = self.model
        self.out = out
        self.events = 0
        self.stale = False
        self.bounds = {}
        self.litcache = {}
        self.rounds = []               # (argument, atom) of the roundings so far
        self.nl = []                   # definitions the solver does not see at first: (simplified, exact)
        self.forms = []                # path condition as formulas
        self.atoms = {}
        self.tokens = {}
        self.inputs = {}               # name -> atom / choice value (for replay)
        self.choices = {}
        self.nchoice = 0
        self.serial = 0
        self.dead = False
        self.done = False
        self.obs = []
        self.failed_labels = set()
        self.reached = 0

    # ---------------------------------------------------------------- solver stack synchronisation
    def sync(self):
        """Pop the solver to the longest shared prefix of decisions."""
        ex = self.ex
        old = ex.stack                  # list of (kind, payload)
        n = 0
        # old decisions in order
        di = 0
        keep = 0
        for i, (kind, payload) in enumerate(old):
            if kind == 'd':
                if di < len(self.prefix) and tuple(self.prefix[di][:2]) == payload:
                    di += 1
                    keep = i + 1
                else:
                    break
            else:
                keep = i + 1
        # drop every event from `keep` on
        pops = sum(1 for kind, p in old[keep:] if kind == 'd')
        # assertions after the last kept decision stay only if nothing is popped under them
        if pops:
            self.solver.pop(pops)
        del old[keep:]
        self.shared = keep
        if not old and not pops:
            pass

    def _event(self, kind, payload, z):
        """Assert z (if not None) as the next event, unless the solver already has it."""
        i = self.events
        self.events += 1
        st = self.ex.stack
        if i < self.shared:
            if st[i] != (kind, payload):
                raise EngineError('non-deterministic re-execution: event %d is %r, was %r' % (i, (kind, payload), st[i]))
            return
        if kind == 'd':
            self.solver.push()
        if z is not None:
            self.solver.add(z)
        st.append((kind, payload))

    def _solve(self, extra):
        """(result, z3 model) of the asserted constraints and extra; a fresh solver is tried when the incremental one gives up."""
        s = self.solver
        if extra:
            s.push()
            s.add(*extra)
        r = s.check()
        zm = s.model() if r == z3.sat else None
        if r == z3.unknown:
            f = z3.Solver()
            f.set('timeout', 20000)
            f.add(*s.assertions())
            self.stats.fresh += 1
            r = f.check()
            zm = f.model() if r == z3.sat else None
            if r == z3.unknown and os.environ.get('SYMX_DUMP'):
                import traceback
                k = '%s/%d-%d' % (os.environ['SYMX_DUMP'], os.getpid(), self.stats.fresh)
                open(k + '.smt2', 'w').write(f.to_smt2())
                open(k + '.txt', 'w').write(''.join(traceback.format_stack()[-14:]))
        if extra:
            s.pop()
        return r, zm

    def _check(self, *forms):
        """Satisfiability of the path condition and the formulas.  Products and quotients of inputs and rounding ties (self.nl)
        are left out at first: unsat without them is unsat; a model is repaired by computing them and kept if everything still
        holds; only otherwise is the solver asked with the exact definitions (first without ties)."""
        t = time.time()
        self.stats.queries += 1
        extra = [zform(f) for f in forms]
        r, zm = self._solve(extra)
        m = None
        if r == z3.sat:
            m = self._extract(zm, bool(self.nl))
        if r != z3.unsat and self.nl and (m is None or not all(self._bval_in(f, m) for f in itertools.chain(forms, self.forms))):
            m = None
            for k in (0, 1):
                r, zm = self._solve(extra + [z[k] for z in self.nl])
                if r == z3.sat:
                    m = self._extract(zm, True)
                    break
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _extract(self, zm, recompute=False):
        out = {}
        for a in self.atoms.values():
            if recompute and a.evalf is not None:
                continue
            v = zm[a.z]
            if a.sort == 'b':
                out[a.name] = bool(z3.is_true(v)) if v is not None else False
            elif a.sort == 's':
                out[a.name] = v.as_string() if v is not None else ''
            else:
                f = _z3frac(v) if v is not None else None
                if f is not None:
                    out[a.name] = f
        self._complete(out)
        return out

    def _complete(self, out):
        """Values for atoms the model does not mention (unconstrained): within their bounds."""
        for a in self.atoms.values():
            if a.name not in out and a.evalf is None:
                out[a.name] = a.lo if a.lo is not None else (a.hi if a.hi is not None else F0)
        for a in self.atoms.values():
            if a.name not in out and a.evalf is not None:
                out[a.name] = a.evalf(out)

    def _ensure_model(self):
        if not self.model_ok:
            r, m = self._check()
            if r == z3.unsat:
                self._die(Infeasible)
            if r == z3.unknown:
                self._die(Stop)
            self.model = m
            self.model_ok = True

    def _die(self, cls):
        self.dead = cls
        raise cls()

    def _alive(self):
        if self.dead:
            raise self.dead()
        if self.done:
            raise Stop()

    # ---------------------------------------------------------------- evaluation under the current model
    def aval(self, a):
        v = self.model.get(a.name)
        if v is None:
            if a.evalf is not None:
                v = a.evalf(self.model)
            elif a.sort == 'b':
                v = False
            elif a.sort == 's':
                v = ''
            else:
                v = a.lo if a.lo is not None else (a.hi if a.hi is not None else F0)
            self.model[a.name] = v
        return v

    def nval(self, x):
        if type(x) is not SymNum:
            return _num(x)[1]
        v = x.k
        for a, c in x.d.items():
            v += c * self.aval(a)
        return v

    def bval(self, x):
        t = x.t
        k = t[0]
        if k == 'l':
            v = F0
            for a, c in t[2]:
                v += c * self.aval(a)
            c = t[3]
            kind = t[1]
            return (v <= c if kind == 'le' else v >= c if kind == 'ge' else v < c if kind == 'lt' else v > c if kind == 'gt'
                    else v == c if kind == 'eq' else v != c)
        if k == 'c':
            return t[1]
        if k == 'b':
            return self.aval(t[1])
        if k == 'n':
            return not self.bval(t[1])
        if k == 'a':
            return all(self.bval(y) for y in t[1])
        if k == 'o':
            return any(self.bval(y) for y in t[1])
        subs = []
        for a in self.atoms.values():
            if a.sort == 's':
                subs.append((a.z, z3.StringVal(self.aval(a))))
        r = z3.simplify(z3.substitute(t[1], *subs))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    # ---------------------------------------------------------------- quick decisions by bounds
    def _interval(self, vec):
        b = self.bounds.get(vec)
        lo, los, hi, his = b if b is not None else (None, False, None, False)
        # interval arithmetic on atom bounds
        l2 = h2 = F0
        for a, c in vec:
            ab = self.bounds.get(((a, F1),)) if len(vec) > 1 else None
            alo, ahi = a.lo, a.hi
            if ab is not None:
                if ab[0] is not None and (alo is None or ab[0] > alo):
                    alo = ab[0]
                if ab[2] is not None and (ahi is None or ab[2] < ahi):
                    ahi = ab[2]
            x, y = (alo, ahi) if c > 0 else (ahi, alo)
            l2 = None if (x is None or l2 is None) else l2 + c * x
            h2 = None if (y is None or h2 is None) else h2 + c * y
        if l2 is not None and (lo is None or l2 > lo):
            lo, los = l2, False
        if h2 is not None and (hi is None or h2 < hi):
            hi, his = h2, False
        return lo, los, hi, his

    def quick(self, t):
        kind, vec, c = t[1], t[2], t[3]
        lo, los, hi, his = self._interval(vec)
        if kind == 'le':
            if hi is not None and hi <= c:
                return True
            if lo is not None and (lo > c or (lo == c and los)):
                return False
        elif kind == 'lt':
            if hi is not None and (hi < c or (hi == c and his)):
                return True
            if lo is not None and lo >= c:
                return False
        elif kind == 'ge':
            if lo is not None and lo >= c:
                return True
            if hi is not None and (hi < c or (hi == c and his)):
                return False
        elif kind == 'gt':
            if lo is not None and (lo > c or (lo == c and los)):
                return True
            if hi is not None and hi <= c:
                return False
        else:
            r = None
            if (lo is not None and (lo > c or (lo == c and los))) or (hi is not None and (hi < c or (hi == c and his))):
                r = False
            elif lo is not None and lo == hi == c:
                r = True
            elif (vec, c) in self.litcache:
                r = False
            if r is not None:
                return r if kind == 'eq' else not r
        return None

    def learn(self, x):
        """Record a literal known to hold."""
        t = x.t
        if t[0] == 'a':
            for y in t[1]:
                self.learn(y)
            return
        if t[0] != 'l':
            return
        kind, vec, c = t[1], t[2], t[3]
        lo, los, hi, his = self.bounds.get(vec, (None, False, None, False))
        if kind in ('le', 'lt', 'eq'):
            s = kind == 'lt'
            if hi is None or c < hi or (c == hi and s):
                hi, his = c, s
        if kind in ('ge', 'gt', 'eq'):
            s = kind == 'gt'
            if lo is None or c > lo or (c == lo and s):
                lo, los = c, s
        if kind == 'ne':
            self.litcache[(vec, c)] = False
            if _vec_is_int(vec):
                if lo is not None and lo == c:
                    lo = c + 1
                if hi is not None and hi == c:
                    hi = c - 1
        self.bounds[vec] = (lo, los, hi, his)

    # ---------------------------------------------------------------- branching
    def branch(self, f):
        t = f.t
        if t[0] == 'c':
            return t[1]
        self._alive()
        if t[0] == 'l':
            q = self.quick(t)
            if q is not None:
                return q
        if self.pos < len(self.prefix):
            taken, both = self.prefix[self.pos][:2]
            self.pos += 1
            g = f if taken else Not(f)
            self._take(taken, both, g)
            return taken
        self._ensure_model()
        taken = self.bval(f)
        if taken is None:
            r, m = self._check(f)
            taken = r == z3.sat
        other = Not(f) if taken else f
        r, m = self._check(other)
        both = r == z3.sat
        if both:
            self.out.append((self.trace + [(not taken, True)], m))
        g = f if taken else Not(f)
        self._take(taken, both, g)
        return taken

    def _take(self, taken, both, g):
        self.trace.append((taken, both))
        self.stats.decisions += 1
        if both:
            self._event('d', (taken, both), zform(g))
        else:
            # implied by the path condition: nothing to assert, but the event keeps the stack aligned
            self._event('d', (taken, both), None)
        self.forms.append(g)
        self.learn(g)

    def assume(self, f):
        """Constrain the inputs from here on."""
        self._alive()
        f = tob(f)
        if f.t[0] == 'c':
            if not f.t[1]:
                self._die(Infeasible)
            return
        if f.t[0] == 'l':
            q = self.quick(f.t)
            if q is True:
                return
        self._event('a', None, zform(f))
        self.forms.append(f)
        self.learn(f)
        if self.model_ok and self.pos >= len(self.prefix):
            v = self.bval(f)
            if v is not True:
                self.model_ok = False
        elif self.model_ok:
            # still replaying a prefix: the stored model satisfies everything of the prefix
            pass
        else:
            self.model_ok = False

    def define(self, f):
        """Definitional constraint of a fresh atom whose evalf agrees with it (the model stays valid)."""
        self._event('a', None, zform(tob(f)))

    # ---------------------------------------------------------------- atoms and inputs
    def atom(self, name, sort, lo=None, hi=None, evalf=None):
        a = self.atoms.get(name)
        if a is None:
            lo = None if lo is None else Fraction(lo)
            hi = None if hi is None else Fraction(hi)
            a = self.atoms[name] = Atom(name, sort, lo, hi, evalf)
            cs = []
            if lo is not None:
                cs.append(a.z >= (int(lo) if sort == 'i' else z3.RealVal(str(lo))))
            if hi is not None:
                cs.append(a.z <= (int(hi) if sort == 'i' else z3.RealVal(str(hi))))
            if cs:
                self._event('a', None, z3.And(cs) if len(cs) > 1 else cs[0])
        return a

    def int(self, name, lo=None, hi=None):
        a = self.atom(name, 'i', lo, hi)
        self.inputs[name] = ('int', a)
        return SymNum({a: F1}, F0, False)

    def real(self, name, lo=None, hi=None):
        a = self.atom(name, 'r', lo, hi)
        self.inputs[name] = ('real', a)
        return SymNum({a: F1}, F0, True)

    def dec(self, name, lo=None, hi=None, step=10, fl=True):
        """A decimal: an integer number of 1/step."""
        a = self.atom(name, 'i', None if lo is None else lo * step, None if hi is None else hi * step)
        self.inputs[name] = ('dec', a, step)
        return SymNum({a: Fraction(1, step)}, F0, fl)

    def str(self, name, minlen=1, maxlen=4, alphabet='ab-'):
        a = self.atom(name, 's')
        self.inputs[name] = ('str', a)
        re = z3.Union(*[z3.Re(ch) for ch in alphabet]) if len(alphabet) > 1 else z3.Re(alphabet)
        self._event('a', None, z3.InRe(a.z, z3.Loop(re, minlen, maxlen)))
        if self.pos >= len(self.prefix):
            self.model_ok = False
        return SymStr([a])

    def flag(self, name):
        """A symbolic boolean as a formula (no fork)."""
        a = self.atom(name, 'b')
        self.inputs[name] = ('bool', a)
        return SymBool(('b', a))

    def bool(self, name):
        """A concrete bool, both values explored."""
        r = bool(self.flag(name))
        return r

    def choose(self, n, name=None):
        """A concrete index in range(n), all explored.  Unnamed choices are numbered (random, ordering)."""
        if n <= 1:
            return 0
        if name is None:
            name = 'choice_%d' % self.nchoice
            self.nchoice += 1
        a = self.atom(name, 'i', 0, n - 1)
        self.inputs[name] = ('int', a)
        x = SymNum({a: F1}, F0, False)
        for i in range(n - 1):
            if x == i:
                return i
        return n - 1

    def pick(self, seq, name=None):
        seq = list(seq)
        return seq[self.choose(len(seq), name)]

    # ---------------------------------------------------------------- derived numbers
    @staticmethod
    def _fkey(x):
        return ','.join('%s*%s' % (c, a.name) for a, c in sorted(x.d.items(), key=lambda i: i[0].name)) + '+%s' % x.k

    def _evn(self, x):
        items, k = list(x.d.items()), x.k

        def ev(m):
            v = k
            for a, c in items:
                w = m.get(a.name)
                if w is None:
                    w = a.evalf(m) if a.evalf else (a.lo if a.lo is not None else (a.hi if a.hi is not None else F0))
                    m[a.name] = w
                v += c * w
            return v
        return ev

    def _on_grid(self, x, p):
        return (x.k * p).denominator == 1 and all(a.sort == 'i' and (c * p).denominator == 1 for a, c in x.d.items())

    def round(self, x, n):
        p = Fraction(10) ** n
        if not x.d:
            return const(round(x.k * p) / p, x.fl)
        if self._on_grid(x, p):
            return x
        self._alive()
        y = x._scale(p, True)
        # rounding commutes with adding integers: only the rest is rounded (ties: half-even on the rest)
        di = {a: c for a, c in y.d.items() if a.sort == 'i' and c.denominator == 1}
        ki = Fraction(math.floor(y.k))
        if di or ki:
            part = SymNum(di, ki, False)
            rest = SymNum({a: c for a, c in y.d.items() if a not in di}, y.k - ki, True)
            return (part + self.round(rest, 0))._scale(1 / p, x.fl)
        ev = self._evn(y)
        key = 'round(%s)' % self._fkey(y)
        new = key not in self.atoms
        a = self.atom(key, 'i', evalf=lambda m: Fraction(round(ev(m))))
        r = SymNum({a: F1}, F0, False)
        if new:
            a.lo, a.hi = self._ibounds(y, round)
            self._zbounds(a)
            h = self.atom(key + '/2', 'i', evalf=lambda m: Fraction(math.floor(Fraction(round(ev(m))) / 2)))
            even = compare('==', r, SymNum({h: Fraction(2)}, F0, False))
            d = y - r
            # ties: relaxed in the solver's assertions, exact in self.nl (see _check)
            self.define(And(compare('<=', d, HALF), compare('<=', -HALF, d)))
            noties = And(compare('<', d, HALF), compare('<', -HALF, d))
            self.nl.append((zform(noties), zform(Or(even, noties))))
            # rounding is monotone: spares the solver a search over integers
            for y2, r2 in self.rounds[-8:]:
                for u, v, ru, rv in ((y2, y, r2, r), (y, y2, r, r2)):
                    f = compare('<=', u, v)
                    if f.t[0] == 'c' and f.t[1] or f.t[0] == 'l' and self.quick(f.t) is True:
                        self.define(compare('<=', ru, rv))
                        break
            self.rounds.append((y, r))
        return r._scale(1 / p, x.fl)

    def _zbounds(self, a):
        cs = ([] if a.lo is None else [a.z >= int(a.lo)]) + ([] if a.hi is None else [a.z <= int(a.hi)])
        if cs:
            self._event('a', None, z3.And(cs))

    def _ibounds(self, y, f):
        lo = hi = y.k
        for a, c in y.d.items():
            l, h = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return (None if lo is None else Fraction(f(lo))), (None if hi is None else Fraction(f(hi)))

    def floor(self, x):
        if type(x) is not SymNum:
            return math.floor(x)
        if not x.d:
            return const(math.floor(x.k))
        if self._on_grid(x, 1):
            return SymNum(x.d, x.k, False)
        self._alive()
        di = {a: c for a, c in x.d.items() if a.sort == 'i' and c.denominator == 1}
        ki = Fraction(math.floor(x.k))
        if di or ki:
            r = self.floor(SymNum({a: c for a, c in x.d.items() if a not in di}, x.k - ki, True))
            return SymNum(di, ki, False) + r
        ev = self._evn(x)
        key = 'floor(%s)' % self._fkey(x)
        new = key not in self.atoms
        a = self.atom(key, 'i', evalf=lambda m: Fraction(math.floor(ev(m))))
        r = SymNum({a: F1}, F0, False)
        if new:
            a.lo, a.hi = self._ibounds(x, math.floor)
            self._zbounds(a)
            self.define(And(compare('<=', r, x), compare('<', x - r, 1)))
        return r

    def trunc(self, x):
        if type(x) is not SymNum:
            return math.trunc(x)
        if not x.fl:
            return x
        if x >= 0:
            return self.floor(x)
        return -self.floor(-x)

    def product(self, x, y, fl):
        self._alive()
        kx, ky = self._fkey(x), self._fkey(y)
        if ky < kx:
            x, y, kx, ky = y, x, ky, kx
        key = 'mul(%s|%s)' % (kx, ky)
        ex, ey = self._evn(x), self._evn(y)
        new = key not in self.atoms
        allint = self._on_grid(x, 1) and self._on_grid(y, 1)
        a = self.atom(key, 'i' if allint else 'r', evalf=lambda m: ex(m) * ey(m))
        if new:
            z = a.z == self._zn(x, allint) * self._zn(y, allint)
            self.nl.append((z, z))
        return SymNum({a: F1}, F0, fl)

    def quotient(self, x, y):
        self._alive()
        key = 'div(%s|%s)' % (self._fkey(x), self._fkey(y))
        ex, ey = self._evn(x), self._evn(y)
        new = key not in self.atoms
        a = self.atom(key, 'r', evalf=lambda m: (ex(m) / ey(m) if ey(m) else F0))
        if new:
            z = a.z * self._zn(y, False) == self._zn(x, False)
            self.nl.append((z, z))
        return SymNum({a: F1}, F0, True)

    def _zn(self, x, allint):
        ts = []
        for a, c in x.d.items():
            v = a.z if (allint or a.sort == 'r') else z3.ToReal(a.z)
            ts.append(v if c == 1 else (int(c) if allint else z3.Q(c.numerator, c.denominator)) * v)
        if x.k or not ts:
            ts.append(z3.IntVal(int(x.k)) if allint else z3.RealVal(str(x.k)))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def ite(self, cond, x, y):
        """Number equal to x if cond else y, without forking."""
        cond = tob(cond)
        if cond.t[0] == 'c':
            return x if cond.t[1] else y
        self.nite = getattr(self, 'nite', 0) + 1
        sx, sy = (v if type(v) is SymNum else const(*_constfl(v)) for v in (x, y))
        isint = self._on_grid(sx, 1) and self._on_grid(sy, 1)
        ex, ey = self._evn(sx), self._evn(sy)
        a = self.atom('ite_%d' % self.nite, 'i' if isint else 'r',
                      evalf=lambda m: ex(m) if self._bval_in(cond, m) else ey(m))
        r = SymNum({a: F1}, F0, sx.fl or sy.fl)
        self.define(And(Or(Not(cond), compare('==', r, sx)), Or(cond, compare('==', r, sy))))
        return r

    def _bval_in(self, f, m):
        old = self.model
        self.model = m
        try:
            return self.bval(f)
        finally:
            self.model = old

    def concretize(self, x):
        """A concrete value of x (recorded as an under-approximation unless x is already determined)."""
        if type(x) is not SymNum:
            return x
        if not x.d:
            v = x.k
        else:
            self._alive()
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][2] if len(self.prefix[self.pos]) > 2 else None
                self.pos += 1
            else:
                self._ensure_model()
                v = self.nval(x)
                r, _ = self._check(Not(compare('==', x, v)))
                if r != z3.unsat:
                    self.stats.concretized += 1
            self.trace.append((True, True, v))
            eq = compare('==', x, v)
            self._event('d', (True, True), zform(eq))
            self.forms.append(eq)
            self.learn(eq)
        if x.fl:
            return float(v)
        return int(v) if v.denominator == 1 else float(v)

    def concretize_str(self, s):
        self._alive()
        if all(isinstance(p, str) for p in s.parts):
            return ''.join(s.parts)
        for _ in range(64):          # the values of a short string, one path each
            if self.pos < len(self.prefix):
                e = self.prefix[self.pos]
                if len(e) < 3 or e[1]:
                    break
                v = e[2]
                self.pos += 1
            else:
                self._ensure_model()
                v = ''.join(p if isinstance(p, str) else self.aval(p) for p in s.parts)
            self.trace.append((True, False, v))
            self._event('d', (True, False), None)
            if self.branch(s == v):
                return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][2]
            self.pos += 1
        else:
            self._ensure_model()
            v = ''.join(p if isinstance(p, str) else self.aval(p) for p in s.parts)
            self.stats.concretized += 1
            if os.environ.get('SYMX_DEBUG_CONC'):
                import traceback
                print('concretized', v, [(os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_stack()[-6:-1]])
        self.trace.append((True, True, v))
        self._event('d', (True, True), s.z() == z3.StringVal(v))
        return v

    # ---------------------------------------------------------------- text tokens
    def token(self, x, spec):
        if not x.d and not spec:
            return repr(float(x.k)) if x.fl else str(int(x.k))
        y = x
        if spec:
            s = spec.rstrip('f')
            if spec.endswith('f') and s.startswith('.') and s[1:].isdigit():
                y = self.round(x, int(s[1:]))
                y = SymNum(y.d, y.k, True)
            elif spec == 'd':
                pass
            else:
                return format(self.concretize(x), spec)
        tok = '\u27e6%s%s\u27e7' % ('f' if y.fl else 'i', self._fkey(y))
        self.tokens[tok] = y
        return tok

    def untoken(self, s):
        return self.tokens.get(s.strip())

    def stoken(self, s):
        tok = '\u27e6s%s\u27e7' % '\x1f'.join(p if isinstance(p, str) else '\x1e' + p.name for p in s.parts)
        self.tokens[tok] = s
        return tok

    def strtoken(self, o):
        """Turn a plain str containing string tokens back into a SymStr."""
        parts = []
        i = 0
        while i < len(o):
            j = o.find('\u27e6', i)
            if j < 0:
                parts.append(o[i:])
                break
            e = o.index('\u27e7', j)
            parts.append(o[i:j])
            t = self.tokens.get(o[j:e + 1])
            if type(t) is SymStr:
                parts.extend(t.parts)
            else:
                parts.append(o[j:e + 1])
            i = e + 1
        return SymStr(_merge([p for p in parts if p != '']))

    # ---------------------------------------------------------------- assertions
    def check(self, cond, label, detail=None):
        """Assert cond for every value of the path."""
        self._alive()
        self.reached += 1
        self.stats.asserts += 1
        lab = self.ex.labels
        lab[label] = lab.get(label, 0) + 1
        cond = tob(cond)
        if cond.t[0] == 'c' and cond.t[1]:
            return
        if self.pos < len(self.prefix):
            return                       # already decided on the path this one branched off from
        if cond.t[0] == 'l' and self.quick(cond.t) is True:
            return
        self._ensure_model()
        neg = Not(cond)
        models = []
        self.stats.assert_queries += 1
        r, m = self._check(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            return
        if label in self.failed_labels:
            return
        self.failed_labels.add(label)
        models.append(m)
        extra = [zform(neg)] + [z[1] for z in self.nl]
        nice = self._nice_models(extra)
        models = nice + models
        self.ex.violations.append({'label': label, 'inputs': [self.extract_inputs(mm) for mm in models], 'detail': detail})

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def raised(self, e):
        import traceback
        if len(self.prefix) > self.pos:
            return                       # reported on the path this one branched off from
        tb = traceback.extract_tb(e.__traceback__)
        detail = '%s: %s at %s' % (type(e).__name__, str(e)[:300], ['%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-5:]])
        self.fail(UNEXPECTED, detail)

    def _nice_models(self, extra):
        """Other models of the same violation (integral, small), easier to replay with floats."""
        out = []
        goals = []
        for nm, inp in self.inputs.items():
            if inp[0] == 'real':
                goals.append(z3.IsInt(inp[1].z))
        self.solver.push()
        self.solver.add(*extra)
        try:
            if goals:
                self.solver.push()
                self.solver.add(*goals)
                if self.solver.check() == z3.sat:
                    out.append(self._extract(self.solver.model()))
                self.solver.pop()
            # well away from the ties of the roundings, which binary floats may decide the other way
            if not out and self.rounds:
                m = Fraction(3, 10)
                self.solver.push()
                self.solver.add(*[zform(And(compare('<=', y - r, m), compare('<=', -m, y - r))) for y, r in self.rounds])
                if self.solver.check() == z3.sat:
                    out.append(self._extract(self.solver.model()))
                self.solver.pop()
            # separate real inputs from the boundary a little: different values
            cur = out[-1] if out else None
            if cur and any(v is not None and v.denominator != 1 for v in (cur.get(inp[1].name) for inp in self.inputs.values() if inp[0] == 'real')):
                cur = None
            for _ in range(2):
                if cur is None:
                    break
                diff = [inp[1].z != int(cur[inp[1].name]) for nm, inp in self.inputs.items()
                        if inp[0] in ('int', 'dec', 'real') and cur.get(inp[1].name) is not None
                        and cur[inp[1].name].denominator == 1 and not nm.startswith('choice')]
                if not diff:
                    break
                self.solver.push()
                self.solver.add(z3.Or(diff), *goals)
                r = self.solver.check()
                cur = self._extract(self.solver.model()) if r == z3.sat else None
                self.solver.pop()
                if cur:
                    out.append(cur)
        finally:
            self.solver.pop()
        return out

    def extract_inputs(self, m):
        out = {}
        for nm, inp in self.inputs.items():
            a = inp[1]
            v = m.get(a.name)
            if v is None:
                v = a.evalf(m) if a.evalf else (False if a.sort == 'b' else '' if a.sort == 's' else (a.lo or a.hi or F0))
            if inp[0] == 'dec':
                v = v / inp[2]
            out[nm] = [inp[0], v if isinstance(v, (bool, str)) else str(v)]
        return out

    # approximate / exact relations usable in both modes
    def eq(self, a, b, tol=TOL):
        """a equals b up to tol (numbers)."""
        if type(a) is not SymNum and type(b) is not SymNum:
            na, nb = _num(a), _num(b)
            if na is None or nb is None:
                return tob(a == b)
            return tob(abs(na[1] - nb[1]) <= tol)
        if _num(a) is None or _num(b) is None:
            return FALSE
        d, k = _sub(a, b)
        if not d:
            return tob(abs(k) <= tol)
        x = SymNum(d, k, True)
        return And(compare('<=', x, Fraction(tol)), compare('<=', -Fraction(tol), x))

    def le(self, a, b, tol=TOL):
        if _num(a) is None or _num(b) is None:
            return FALSE
        return tob(compare('<=', a, (b if type(b) is SymNum else const(_num(b)[1])) + Fraction(tol)))

    @staticmethod
    def isnum(x):
        return _num(x) is not None

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, label):
        """Reachability witness."""
        n = self.ex.notes
        n[label] = n.get(label, 0) + 1

    def serial_hash(self):
        self.serial += 1
        return self.serial

    def finish(self):
        self._alive()
        ex = self.ex
        if ex.want_samples > 0 and self.obs and not self.failed_labels:
            self._ensure_model()
            ex.want_samples -= 1
            obs = [(n, self._show(v)) for n, v in self.obs]
            ex.samples.append({'inputs': self.extract_inputs(self.model), 'obs': obs})

    def _show(self, v):
        if type(v) is SymNum:
            return ['num', str(self.nval(v))]
        if type(v) in (int, float, Fraction):
            return ['num', str(_num(v)[1])]
        if type(v) is SymBool:
            return ['val', bool(self.bval(v))]
        if type(v) is SymStr:
            return ['val', ''.join(p if isinstance(p, str) else self.aval(p) for p in v.parts)]
        if type(v) in (list, tuple):
            return ['list', [self._show(x) for x in v]]
        return ['val', v if isinstance(v, (str, bool, type(None))) else repr(v)]


def _constfl(v):
    return _num(v)[1], type(v) is float


# operations on booleans usable in both modes
def sand(*xs):
    return And(*xs)
