"""Small networks for the demonstrations."""
import contextlib
import io
import os
import sys
import tempfile

sys.path.insert(0, os.getcwd())
import pyNTM  # noqa: E402
from pyNTM import (FlexModel, PerformanceModel, Node, Interface, Demand, RSVP_LSP, ModelException)  # noqa: E402,F401

assert os.path.realpath(os.path.dirname(pyNTM.__file__)) == os.path.realpath(os.path.join(os.getcwd(), 'pyNTM')), pyNTM.__file__


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def net(cls, circuits, demands=(), lsps=(), nodes=''):
    """circuits: (a, b, cost[, capacity[, reverse cost]]); names are a>b#i; demands: (a, b, traffic[, name]);
    lsps: (a, b, name[, setup bandwidth[, metric]])"""
    ns = {}

    def node(n):
        return ns.setdefault(n, Node(n))
    ifs = set()
    for i, c in enumerate(circuits):
        a, b, cost = c[:3]
        cap = c[3] if len(c) > 3 else 1000
        rev = c[4] if len(c) > 4 else cost
        ifs.add(Interface('%s>%s#%d' % (a, b, i), cost, cap, node(a), node(b), i + 1))
        ifs.add(Interface('%s>%s#%d' % (b, a, i), rev, cap, node(b), node(a), i + 1))
    for n in nodes:
        node(n)
    ds = {Demand(node(d[0]), node(d[1]), *d[2:]) for d in demands}
    ls = {RSVP_LSP(node(x[0]), node(x[1]), *x[2:]) for x in lsps}
    return cls(ifs, set(ns.values()), ds, ls)


def sim(m):
    quiet(m.update_simulation)
    return m


def itf(m, name):
    [i] = [i for i in m.interface_objects if i.name == name]
    return i


def names(paths):
    return sorted(tuple(getattr(x, 'name', None) or x.lsp_name for x in p) for p in paths)


def loads(cls, text):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'model.csv')
        with open(p, 'w') as f:
            f.write(text)
        return quiet(cls.load_model_file, p)


def raises(f, *a, **k):
    try:
        quiet(f, *a, **k)
    except ModelException:
        return True
    except Exception:
        return False
    return False


def close(a, b, eps=1e-3):
    return abs(a - b) <= eps
