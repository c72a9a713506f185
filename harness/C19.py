"""C19: both model classes agree on networks without parallel links."""
from .common import *  # noqa

OBS_TOL = 0.31
FUNCTIONS = ['PerformanceModel.update_simulation', 'FlexModel.update_simulation', '_route_demands', '_route_lsps', '_update_interface_utilization',
             '_make_weighted_network_graph', '_make_weighted_network_graph_mdg', 'get_shortest_path', 'get_shortest_path_for_routed_lsp',
             'get_unrouted_demand_objects']
BOUNDS = ('single-link shapes of up to six nodes and eight circuits (C02) without IGP shortcuts; costs: every integer >= 1; capacities every '
          'integer in [1, 1000] or fixed; traffic every real >= 0; up to three LSPs with every setup bandwidth; RSVP state, reservable share and '
          'failures free where the case says so; with LSPs the paths of an LSP are compared where no two usable paths cost the same (and their '
          'cost otherwise); loads compared up to the rounding of the single-link model'
          '; 12 nodes/14 circuits and a 10-node ladder with one free cost or fixed costs')
REACH = ['agree', 'multipath', 'unrouted', 'lsp', 'unrouted lsp', 'on lsp', 'tie']


class Memo(object):
    """The same inputs for both models."""

    def __init__(self, c):
        self._c, self._m = c, {}

    def __getattr__(self, n):
        f = getattr(self._c, n)
        if n not in ('int', 'real', 'dec', 'bool', 'pick', 'choose'):
            return f

        def g(*a, **k):
            name = a[1] if n in ('pick', 'choose') else a[0]
            if name not in self._m:
                self._m[name] = f(*a, **k)
            return self._m[name]
        return g


def pname(d):
    """The paths of a demand as a list of tuples of names."""
    return sorted(tuple(('lsp ' + x.lsp_name) if is_lsp(x) else x.name for x in p) for p in d.path)


def compare(c, p, f, ties):
    for x, y in zip(p.lsps, f.lsps):
        if not c_same(c, lsp_up(x), lsp_up(y), 'both classes agree on whether an LSP is routed', (x, x.path, y.path)):
            return
        if lsp_up(x):
            c.reach('lsp')
            c.check(x.path['path_cost'] == y.path['path_cost'], 'both classes give an LSP a path of the same cost', repr_((x.path, y.path)))
            if not ties:
                c.check(names(x.path['interfaces']) == names(y.path['interfaces']), 'both classes give an LSP the same path', repr_((x.path, y.path)))
            c.check(c.eq(x.reserved_bandwidth, y.reserved_bandwidth, Fraction(11, 100) if ties == 'round' else Fraction(1, 10 ** 4)),
                    'both classes reserve the same for an LSP', repr_((x.reserved_bandwidth, y.reserved_bandwidth)))
            c.check(x.effective_metric(p.model) == y.effective_metric(f.model), 'both classes give an LSP the same metric')
        else:
            c.reach('unrouted lsp')
    tol = Fraction(1, 1000)
    for x, y in zip(p.demands, f.demands):
        if not c_same(c, routed(x), routed(y), 'both classes agree on whether a demand is routed', (x, x.path, y.path)):
            return
        tol += Fraction(12, 100)
        if not routed(x):
            c.reach('unrouted')
            continue
        a, b = pname(x), pname(y)
        if len(a) > 1:
            c.reach('multipath')
        if any(q.startswith('lsp ') for t in a for q in t):
            c.reach('on lsp')
        c.check(a == b, 'both classes route a demand over the same paths', repr_((a, b)))
        tol += Fraction(len(a), 10000)
    for x, y in zip(p.ifs, f.ifs):
        if x.failed:
            c.check(y.failed is True and not isnum(x.traffic) and x.traffic == y.traffic, 'both classes agree on failed interfaces', repr_((x.traffic, y.traffic)))
            continue
        c.check(y.failed is False, 'both classes agree on failed interfaces')
        if not ties or ties == 'round' or not p.lsps:
            c.check(c.eq(x.traffic, y.traffic, tol), 'both classes put the same traffic on an interface', repr_((x.name, x.traffic, y.traffic)))
            c.check(c.eq(x.reserved_bandwidth, y.reserved_bandwidth, Fraction(1, 100)), 'both classes reserve the same on an interface',
                    repr_((x.name, x.reserved_bandwidth, y.reserved_bandwidth)))
        c.observe(x.name, x.traffic)
    c.check(sorted(d.name for d in p.model.get_unrouted_demand_objects()) == sorted(d.name for d in f.model.get_unrouted_demand_objects()),
            'both classes list the same unrouted demands')
    c.reach('agree')


def c_same(c, a, b, label, d):
    c.check(a == b, label, repr_(d))
    return a == b


def mk(links, dem, lsps=(), failed=False, rsvp=None, cap=None, pct=None, symcost=True, cost=None, ties=False, grid=True, directed=False):
    """lsps: (ends, bandwidth or 'sym' or None)"""
    def h(c0):
        c = Memo(c0)
        nets = []
        for k, cls in enumerate((PERF, FLEX)):
            c0.serial = 0
            n = net(c, cls, links, cost=cost, symcost=symcost, failed='sym' if failed is True else failed or None, rsvp=rsvp,
                    cap=1000 if cap is None else (lambda i, l: c.int('cap_%d' % i, 1, 1000)) if cap == 'sym' else cap,
                    pct=(lambda i, l: c.int('pct_%d' % i, 1, 100)) if pct else None)
            for j, ab in enumerate(dem):
                d = add_demand(n, ab[0], ab[1], c.dec('traffic_%d' % j, 0, 2000) if lsps else c.real('traffic_%d' % j, 0), 'd%d' % j)
                d.__dict__['_symx_h'] = j + 1
            for j, (ab, bw) in enumerate(lsps):
                x = add_lsp(n, ab[0], ab[1], 'l%d' % j, c.dec('bw_%d' % j, 0, 1000) if bw == 'sym' else bw)
                x.__dict__['_symx_h'] = j + 1
            finish(n)
            nets.append(n)
        p, f = nets
        if lsps and not ties and cost is None:
            for ab in sorted(set(x[0] for x in lsps)):
                cs = [pcost(q) for q in simple_paths(up(p), p.nodes[ab[0]], p.nodes[ab[1]])]
                for i in range(len(cs)):
                    for j in range(i):
                        c0.assume(tob(cs[i] != cs[j]))
        if ties:
            c0.reach('tie')
        if not simulate(c0, p) or not simulate(c0, f):
            return
        compare(c0, p, f, ties)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = [
        ('line failures', mk('line3', ['AC', 'CA', 'AB'], failed=True, symcost=False)),
        ('triangle', mk('tri', ['AC', 'BC'], symcost=False)),
        ('triangle failures', mk('tri', ['AC', 'BA'], failed=True)),
        ('square', mk('square', ['AD'], symcost=False)),
        ('square two demands', mk('square', ['AD', 'BC'])),
        ('diamond', mk('diamond', ['AD'])),
        ('three routes', mk('three', ['AE'])),
        ('fan', mk('fan', ['AF'])),
        ('two parts', mk('two', ['AB', 'AC', 'CD'], failed=True)),
        ('big', mk('big', ['AL', 'LA', 'BK', 'GL'], failed='sym:2,9', cost=Free({6}))),
        ('ladder with LSPs', mk('ladder', ['AF', 'FA', 'BE'], lsps=[('AF', 'sym'), ('FA', None), ('BE', None)], cap=100, cost=lambda i, ab, d: (1, 2, 2, 1, 1, 2, 2, 2, 2, 2)[i])),
        ('LSP on a triangle', mk('tri', ['AC'], lsps=[('AC', 'sym')], cap='sym')),
        ('LSP without configured bandwidth', mk('tri', ['AC'], lsps=[('AC', None)], cap='sym')),
        ('LSP and RSVP states', mk('tri', ['AC'], lsps=[('AC', 'sym')], cap='sym', rsvp='sym2', cost=lambda i, ab, d: (1, 2, 7)[i])),
        ('LSP and shares', mk('tri', ['AC'], lsps=[('AC', 'sym')], cap=100, pct=True)),
        ('LSP and failures', mk('square', ['AD'], lsps=[('AD', 'sym')], cap=100, failed=True, cost=lambda i, ab, d: i + 1)),
        ('LSP ties', mk('tri', ['AC'], lsps=[('AC', 'sym')], cap='sym', ties=True)),
        ('two LSPs', mk('tri', ['AC'], lsps=[('AC', 'sym'), ('AC', 'sym')], cap=100, cost=lambda i, ab, d: (1, 2, 7)[i])),
        ('two groups', mk('tri', ['AC', 'BC'], lsps=[('AC', 'sym'), ('BC', 'sym')], cap=100, cost=lambda i, ab, d: (1, 2, 7)[i])),
        ('two LSPs without configured bandwidth', mk('tri', ['AC'], lsps=[('AC', None), ('AC', None)], cap=100, cost=lambda i, ab, d: (1, 2, 7)[i])),
        ('LSPs with traffic, and IGP demands', mk('square', ['AD', 'AB', 'BD'], lsps=[('AD', 10), ('AB', 20)], cap=100, cost=lambda i, ab, d: (1, 3, 2, 7)[i], failed=True)),
    ]
    out += [
        ('fan failures', mk('fan', ['AF'], failed=True)),
        ('diamonds in series', mk('bow', ['AG'])),
        ('diamond directed', mk('diamond', ['AD', 'DA'], symcost=False)),
        ('LSP on a diamond', mk('diamond', ['AD'], lsps=[('AD', 'sym')], cap='sym')),
        ('three LSPs', mk('tri', ['AC'], lsps=[('AC', 'sym')] * 3, cap=100, cost=lambda i, ab, d: (1, 2, 7)[i])),
        ('three LSPs without configured bandwidth', mk('square', ['AD'], lsps=[('AD', None)] * 3, cap=100, cost=lambda i, ab, d: (1, 3, 2, 7)[i])),
        ('three groups', mk('square', ['AD', 'BC'], lsps=[('AD', 'sym'), ('BC', 'sym'), ('AB', None)], cap=100, cost=lambda i, ab, d: (1, 3, 2, 7)[i])),
        ('two groups and failures', mk('diamond', ['AD', 'BC'], lsps=[('AD', 'sym'), ('BC', 'sym')], cap=100, failed=True, cost=lambda i, ab, d: (1, 3, 2, 7, 1)[i])),
        ('LSPs and capacities', mk('square', ['AD'], lsps=[('AD', 'sym'), ('AD', None)], cap='sym', cost=lambda i, ab, d: (1, 3, 2, 7)[i])),
    ]
    if deep:
        out += [
            ('k4', mk('k4', ['AD', 'BC'])),
            ('k4 directed', mk('k4', ['AD'], symcost=False)),
            ('LSP on k4', mk('k4', ['AD'], lsps=[('AD', 'sym')], cap=100, rsvp='sym', cost=lambda i, ab, d: (1, 3, 12, 7, 2, 5)[i])),
            ('two LSPs on a triangle, any cost', mk('tri', ['AC'], lsps=[('AC', 'sym'), ('AC', 'sym')], cap='sym')),
            ('two groups on a triangle, any cost', mk('tri', ['AC', 'BC'], lsps=[('AC', 'sym'), ('BC', None)], cap='sym')),
            ('three groups and failures', mk('diamond', ['AD', 'BC'], lsps=[('AD', 'sym'), ('BC', None), ('CA', 'sym')], cap=100, failed=True, cost=lambda i, ab, d: (1, 3, 2, 7, 1)[i])),
            ('grid', mk(['AB', 'BC', 'AD', 'BE', 'CF', 'DE', 'EF'], ['AF'])),
        ]
    return out
