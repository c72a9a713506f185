"""C03: interface load is the sum of the demands that cross it."""
from .common import *  # noqa

OBS_TOL = 0.31
FUNCTIONS = ['update_simulation', '_route_demands', '_update_interface_utilization', '_update_int_traffic_for_end_to_end_lsps',
             '_demand_traffic_per_int', '_demand_traffic_per_item', 'Interface.utilization', 'Interface.demands', 'Interface.lsps']
BOUNDS = ('up to three demands, up to three LSPs; traffic: every real in [0, 10^6]; capacity: every real in [1/100, 10^6]; costs: every '
          'integer >= 1 (per circuit); failed circuits where the case says so; single-link model up to 0.05+n*0.00005 per demand, '
          'utilization up to its rounding'
          '; beyond these, larger networks with one free cost: 12 nodes/14 circuits with seven demands, a 10-node ladder, a line of six with up to seven LSPs, up to 144 equal-cost paths in series, a line of twenty')
REACH = ['down', 'shared', 'idle', 'unrouted', 'via lsp', 'unrouted lsp']


def verify(c, n):
    want = {}
    tol = Fraction(1, 10000)
    users = {id(i): [] for i in n.ifs}
    for d in n.demands:
        if not routed(d):
            c.reach('unrouted')
            continue
        if n.cls is PERF:
            tol += Fraction(1, 20) + Fraction(len(d.path), 20000)
        elif any(is_lsp(it) for p in d.path for it in p):
            c.reach('via lsp')
            tol += Fraction(51, 1000) * len([it for p in d.path if len(p) > 1 for it in p if is_lsp(it)])
        for k, t in demand_load(d).items():
            want[k] = want.get(k, 0) + t
            users[k].append(d)
    for x in n.lsps:
        if not lsp_up(x):
            c.reach('unrouted lsp')
    for i in n.ifs:
        if i.failed:
            c.reach('down')
            c.check(isinstance(i.traffic, str) and i.traffic == 'Down', 'failed interface reports Down', repr_(i.traffic))
            c.check(isinstance(i.utilization, str) and i.utilization == 'Int is down', 'failed interface has no utilization', repr_(i.utilization))
            c.check(users[id(i)] == [], 'no demand uses a failed interface')
            c.check(i.demands(n.model) == [], 'no demand reported on a failed interface')
            continue
        if len(users[id(i)]) > 1:
            c.reach('shared')
        if not users[id(i)]:
            c.reach('idle')
        c.check(isnum(i.traffic), 'traffic is a number', repr_(i.traffic))
        c.check(c.eq(i.traffic, want.get(id(i), 0), tol), 'traffic is the sum over demands', repr_((i.name, i.traffic)))
        c.check(c.eq(i.utilization, i.traffic / i.capacity * 100, Fraction(51, 10000)), 'utilization is 100*traffic/capacity')
        c.check(same_objs(i.demands(n.model), users[id(i)]), 'demands on the interface', repr_(i.demands(n.model)))
        c.observe(i.name, i.traffic)


def mk(cls, links, dem, failed=False, symcost=True, lsps=(), cost=None, cap=True, order_=False, again=False, shortcuts='', ports=False):
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=symcost, failed='sym' if failed is True else failed or None,
                cap=(lambda i, ab: c.real('cap_%d' % i, Fraction(1, 100), 10 ** 6)) if cap is True else cap)
        for k, ab in enumerate(dem):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 6), 'd%d' % k)
        for k, (ab, bw, metric) in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=c.real('bw_%d' % k, 0, 10 ** 6) if bw == 'sym' else bw,
                    metric=c.int('metric_%d' % k, 1) if metric == 'sym' else metric)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        if ports:
            same_ports(n)
        finish(n)
        if simulate(c, n):
            if again:
                for d in n.demands:
                    d.traffic = c.real('again_%s' % d.name, 0, 10 ** 6)
                if not simulate(c, n):
                    return
            verify(c, n)
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' edge, three demands', mk(cls, 'edge', ['AB', 'AB', 'BA'])),
            (m + ' line', mk(cls, 'line3', ['AC', 'AB', 'BC'], failed=True)),
            (m + ' line, ports', mk(cls, 'line3', ['AC', 'AB', 'CB'], lsps=[('AB', 'sym', None), ('CB', None, None)], cost=1, cap=10 ** 7, ports=True)),
            (m + ' triangle', mk(cls, 'tri', ['AB', 'AC', 'CB'], failed=True)),
            (m + ' square', mk(cls, 'square', ['AD', 'BC', 'AB'])),
            (m + ' diamond', mk(cls, 'diamond', ['AD', 'AB'], failed=True, cost=1)),
            (m + ' square resimulated', mk(cls, 'square', ['AD', 'AB'], again=True)),
            (m + ' edge, auto LSP', mk(cls, 'edge', ['AB', 'AB'], lsps=[('AB', None, None)])),
            (m + ' triangle, configured LSPs', mk(cls, 'tri', ['AB', 'AB', 'AC'], cost=10, lsps=[('AB', 'sym', None), ('AC', 'sym', None)])),
            (m + ' square, two LSPs with metrics', mk(cls, 'square', ['AD', 'AD', 'AB'], cost=1,
                                                       lsps=[('AD', 1, 'sym'), ('AD', 1, 'sym')], cap=10 ** 7)),
            (m + ' edge, LSPs of equal metric', mk(cls, 'edge', ['AB', 'AB'], cost=1, lsps=[('AB', 'sym', 7), ('AB', 'sym', 7)])),
            (m + ' triangle, LSPs with metrics', mk(cls, 'tri', ['AB', 'AC'], cost=1, cap=100, lsps=[('AB', 'sym', 'sym'), ('AB', 'sym', 7)], failed=True)),
            (m + ' big', mk(cls, 'big', ['AL', 'LA', 'AL', 'GL', 'HJ', 'AG', 'BF'], failed='sym:9', cost=Free({6}), cap=1000)),
            (m + ' long LSPs', mk(cls, 'line6', ['AF', 'AF', 'BE', 'BE', 'AE'], cost=1, cap=10 ** 7,
                                  lsps=[('AF', 'sym', 'sym'), ('AF', 'sym', 'sym'), ('BE', None, None), ('BE', None, None), ('EA', 'sym', None)])),
            (m + ' many equal paths', mk(cls, 'chain', ['AP', 'PA', 'DM'], cost=Free({2}))),
            (m + ' a hundred equal paths', mk(cls, 'chain7', ['AV', 'VB'], cost=Free({2}))),
            (m + ' long line, many demands', mk(cls, 'line20', ['AT', 'TB'] + ['CR'] * 20 + ['SD'] * 5, cost=1, lsps=[('CR', 'sym', None), ('AT', None, None)], cap=10 ** 9)),
            (m + ' ladder, LSPs', mk(cls, 'ladder', ['AF', 'FA', 'BJ'], failed='sym:2', cost=Free({0}), cap=10 ** 7, lsps=[('AF', 'sym', None), ('FA', None, None)])),
            (m + ' line, LSPs in sequence', mk(cls, 'line3', ['AC', 'AB', 'BC'], lsps=[('AC', 'sym', None), ('AB', 'sym', None)], cost=1)),
        ]
        if deep:
            out += [
                (m + ' k4', mk(cls, 'k4', ['AD', 'BC', 'AB'])),
                (m + ' diamond failures free', mk(cls, 'diamond', ['AD', 'CB', 'AB'], failed=True)),
                (m + ' fan', mk(cls, 'fan', ['AF', 'BF', 'AE'])),
                (m + ' square, three LSPs', mk(cls, 'square', ['AD', 'AD', 'BD'], lsps=[('AD', 'sym', 'sym'), ('AD', None, None), ('BD', 'sym', None)], cost=1)),
                (m + ' square failures, LSPs', mk(cls, 'square', ['AD', 'AB'], failed=True, lsps=[('AD', 'sym', None), ('AB', None, None)])),
            ]
    out += [
        ('flex shortcuts in a row', mk(FLEX, 'line4', ['AD', 'BD'], lsps=[('AB', 'sym', None), ('BC', None, None)], shortcuts='AB', cap=10 ** 7, ports=True)),
        ('flex shortcuts, long line', mk(FLEX, 'line6', ['AF', 'BE', 'CF'], lsps=[('CD', None, 'sym'), ('CD', None, 'sym'), ('AB', None, None), ('EF', None, None)], shortcuts='ACE', cap=10 ** 7, cost=2)),
        ('flex a hundred parallel paths', mk(FLEX, 'par664', ['AD', 'DB'], cost=Free({3}))),
        ('flex par3', mk(FLEX, 'par3', ['AB', 'AB', 'BA'])),
        ('flex par22', mk(FLEX, 'par22', ['AC', 'AB', 'BC'])),
        ('flex partri', mk(FLEX, 'partri', ['AC', 'AB'], failed=True)),
        ('flex par2 LSP', mk(FLEX, 'par2', ['AB', 'AB'], lsps=[('AB', 'sym', None), ('AB', 'sym', None)], cost=1)),
    ]
    if deep:
        out += [('flex partri2', mk(FLEX, 'partri2', ['AC', 'AB', 'CB'], failed=True)),
                ('flex par22 LSPs', mk(FLEX, 'par22', ['AC', 'AB', 'AC'], lsps=[('AC', 'sym', None), ('AB', 'sym', None)], cost=1, failed=True))]
    return out
