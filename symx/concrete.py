"""Replay context: the same harness on the plain code, with the concrete values of a counterexample or sample."""
from fractions import Fraction

from . import load, state


class Done(BaseException):
    pass


class Skip(BaseException):
    """The concrete values fall outside an assumption (only possible through rounding of reals to floats)."""


def tonum(f):
    f = Fraction(f)
    return int(f) if f.denominator == 1 else float(f)


class ConcreteCtx(object):
    mode = 'concrete'

    def __init__(self, inputs):
        self.vals = inputs
        self.nchoice = 0
        self.serial = 0
        self.failures = []
        self.obs = []
        self.reached = 0

    def _get(self, name, default):
        v = self.vals.get(name)
        return default if v is None else v[1]

    def int(self, name, lo=None, hi=None):
        return int(Fraction(self._get(name, lo if lo is not None else 0)))

    def real(self, name, lo=None, hi=None):
        return tonum_f(self._get(name, lo if lo is not None else 0))

    def dec(self, name, lo=None, hi=None, step=10, fl=True):
        return tonum_f(self._get(name, lo if lo is not None else 0)) if fl else tonum(self._get(name, lo or 0))

    def str(self, name, minlen=1, maxlen=4, alphabet='ab-'):
        return self._get(name, alphabet[0] * minlen)

    def flag(self, name):
        return bool(self._get(name, False))

    bool = flag

    def choose(self, n, name=None):
        if n <= 1:
            return 0
        if name is None:
            name = 'choice_%d' % self.nchoice
            self.nchoice += 1
        return min(int(Fraction(self._get(name, 0))), n - 1)

    def pick(self, seq, name=None):
        seq = list(seq)
        return seq[self.choose(len(seq), name)]

    def assume(self, f):
        if not f:
            raise Skip()

    def ite(self, c, a, b):
        return a if c else b

    def round(self, x, n):
        return round(x, n)

    def check(self, cond, label, detail=None):
        self.reached += 1
        if not cond:
            self.failures.append((label, detail))

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    @staticmethod
    def isnum(x):
        return isinstance(x, (int, float)) and not isinstance(x, bool) and x == x

    def eq(self, a, b, tol=Fraction(1, 10000)):
        if not self.isnum(a) or not self.isnum(b):
            return a == b
        return abs(a - b) <= float(tol) * (1 - 1e-3) + 1e-9 * max(abs(a), abs(b), 1)

    def le(self, a, b, tol=Fraction(1, 10000)):
        if not self.isnum(a) or not self.isnum(b):
            return False
        return a <= b + float(tol) * (1 - 1e-3) + 1e-9 * max(abs(a), abs(b), 1)

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, label):
        pass

    def serial_hash(self):
        self.serial += 1
        return self.serial

    def finish(self):
        pass

    def show(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return ['val', v]
        if isinstance(v, (int, float)):
            return ['num', v]
        if isinstance(v, (list, tuple)):
            return ['list', [self.show(x) for x in v]]
        return ['val', repr(v)]


def tonum_f(v):
    f = Fraction(v)
    return float(f)


def run(fn, inputs):
    """Run a harness case concretely.  Returns the context."""
    state.reset()
    c = ConcreteCtx(inputs)
    load.CONCRETE[0] = c
    try:
        fn(c)
    except (Done, Skip):
        c.skipped = True
    finally:
        load.CONCRETE[0] = None
    return c


def same(a, b, tol=0):
    """Compare a symbolic observation (evaluated) with a concrete one."""
    if a[0] == 'list' and b[0] == 'list':
        return len(a[1]) == len(b[1]) and all(same(x, y, tol) for x, y in zip(a[1], b[1]))
    if a[0] == 'num' and b[0] == 'num':
        x, y = float(Fraction(a[1])), float(b[1])
        return abs(x - y) <= tol + 1e-6 * max(1, abs(x), abs(y))
    return a == b
