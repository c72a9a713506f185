"""C02: ECMP splits a demand evenly at every hop and conserves it."""
from .common import *  # noqa

OBS_TOL = 0.31
FUNCTIONS = ['update_simulation', '_route_demands', '_update_interface_utilization', '_demand_traffic_per_int', '_demand_traffic_per_item',
             '_find_unique_next_hops', '_lsp_routed_demand_path_detail', 'path_detail', '_update_int_traffic_for_end_to_end_lsps']
BOUNDS = ('one or two demands; traffic: every real >= 0; costs: every integer >= 1; <=7 nodes, <=8 circuits, <=3 parallel circuits; '
          'single-link model compared up to its rounding (per-path 1e-4, per demand and interface 0.1)'
          '; beyond these, larger networks with one or two free costs: 12 nodes/14 circuits, a 10-node ladder, up to 144 equal-cost paths in series, a line of twenty, 18 two-hop routes, 20 parallel links, five pairs of parallel links in series, up to twenty LSPs on a line of six')
REACH = ['split 2', 'split 3', 'uneven', 'single', 'unrouted', 'lsp split']


def tols(cls, d):
    np = len(d.path) if routed(d) else 1
    if cls is PERF:
        return Fraction(1, 20) + Fraction(np, 20000) + Fraction(1, 10000), Fraction(1, 20000) + Fraction(1, 10 ** 6)
    return Fraction(1, 10000), Fraction(1, 10 ** 6)


def verify(c, n, flexlsp=False):
    want = {}
    tol = Fraction(0)
    for d in n.demands:
        ti, td = tols(n.cls, d)
        if flexlsp:
            ti = ti + Fraction(1, 20)
        tol += ti
        if not routed(d):
            c.reach('unrouted')
            check_detail(c, d, td)
            continue
        check_detail(c, d, td)
        check_splits(c, d)
        for k, t in demand_load(d).items():
            want[k] = want.get(k, 0) + t
        s, per = item_traffic(d)
        if any(is_lsp(it) for it, _ in s):
            if len(d.path) > 1:
                c.reach('lsp split')
        elif len(d.path) == 1:
            c.reach('single')
        else:
            c.reach('split %d' % len(d.path))
            _, fr = hop_split(d.path, 1, src_of)
            if len(set(fr)) > 1:
                c.reach('uneven')
    for i in n.ifs:
        if i.failed:
            continue
        c.check(c.eq(i.traffic, want.get(id(i), 0), tol), 'interface traffic is the even split', repr_((i.name, i.traffic)))
        c.observe(i.name, i.traffic)
    # conservation at source, destination and in between, stated on the reported interface traffic (one demand)
    if len(n.demands) == 1 and routed(n.demands[0]):
        d = n.demands[0]
        for node in n.nodes.values():
            out = inn = 0
            k = 0
            for i in n.ifs:
                if i.failed:
                    continue
                if i.node_object is node:
                    out = out + i.traffic
                    k += 1
                elif i.remote_node_object is node:
                    inn = inn + i.traffic
                    k += 1
            net_ = d.traffic if node is d.source_node_object else -d.traffic if node is d.dest_node_object else 0
            c.check(c.eq(out - inn, net_, tol * max(k, 1)), 'traffic is conserved at every node')


def mk(cls, links, dem, failed=False, symcost=True, lsps=(), extra=(), cost=None):
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=symcost, failed='sym' if failed is True else failed or None, extra_nodes=extra)
        for k, ab in enumerate(dem):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0), 'd%d' % k)
        for k, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=1)
        finish(n)
        if simulate(c, n):
            verify(c, n)
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' square', mk(cls, 'square', ['AD'], symcost=False)),
            (m + ' diamond', mk(cls, 'diamond', ['AD'], symcost=False)),
            (m + ' three routes', mk(cls, 'three', ['AE'])),
            (m + ' uneven fan', mk(cls, 'fan', ['AF'])),
            (m + ' diamonds in series', mk(cls, 'bow', ['AG'])),
            (m + ' k4', mk(cls, 'k4', ['AD'])),
            (m + ' square with direct link', mk(cls, 'diamondx', ['AD'])),
            (m + ' square two demands', mk(cls, 'square', ['AD', 'BC'])),
            (m + ' line failures', mk(cls, 'line3', ['AC'], failed=True)),
            (m + ' parallel lsps', mk(cls, 'square', ['AD'], lsps=['AD', 'AD', 'AD'], cost=10)),
            (m + ' big', mk(cls, 'big', ['AL', 'LA', 'AL', 'GL', 'HJ'], failed='sym:2,9', cost=Free({6, 11}))),
            (m + ' ladder', mk(cls, 'ladder', ['AF', 'BI'], cost=Free({0, 7}))),
            (m + ' eighteen parallel lsps', mk(cls, 'line6', ['AF', 'AF', 'BE'], lsps=['AF'] * 18 + ['BE'] * 2, cost=10)),
            (m + ' one interface, two demands', mk(cls, 'edge', ['AB', 'AB'])),
            (m + ' many equal paths', mk(cls, 'chain', ['AP', 'PG'], cost=Free({2, 17}))),
            (m + ' many routes', mk(cls, 'fanout', ['AZ'], cost=Free({0, 5}))),
            (m + ' a hundred equal paths', mk(cls, 'chain7', ['AV'], cost=Free({2}))),
            (m + ' long line', mk(cls, 'line20', ['AT', 'TB'], cost=Free({4}))),
        ]
        if deep:
            out += [
                (m + ' fan failures', mk(cls, 'fan', ['AF'], failed=True)),
                (m + ' k4 directed', mk(cls, 'k4', ['AD'], symcost=False)),
                (m + ' fan both ways', mk(cls, 'fan', ['AF', 'FA'])),
                (m + ' grid', mk(cls, ['AB', 'BC', 'AD', 'BE', 'CF', 'DE', 'EF'], ['AF'])),
                (m + ' grid two demands', mk(cls, ['AB', 'BC', 'AD', 'BE', 'CF', 'DE', 'EF'], ['AF', 'DC'], cost=lambda i, ab, d: 1 if i % 3 else 2)),
                (m + ' cross', mk(cls, ['AB', 'AC', 'BD', 'BE', 'CD', 'CE', 'DF', 'EF'], ['AF'])),
            ]
    out += [
        ('flex par3', mk(FLEX, 'par3', ['AB'], symcost=False)),
        ('flex par22', mk(FLEX, 'par22', ['AC'], symcost=False)),
        ('flex partri', mk(FLEX, 'partri', ['AC'], symcost=False)),
        ('flex partri2', mk(FLEX, 'partri2', ['AC'])),
        ('flex parsq', mk(FLEX, 'parsq', ['AD'])),
        ('flex big parallel', mk(FLEX, 'bigpar', ['AH', 'HA', 'BG'], failed='sym:0,8', cost=Free({1, 9}))),
        ('flex par2 failures', mk(FLEX, 'par22', ['AC'], failed=True)),
        ('flex many parallel', mk(FLEX, 'par20', ['AB'], cost=Free({0, 19}))),
        ('flex parallel in series', mk(FLEX, 'par2x5', ['AF'], cost=Free({3}))),
        ('flex a hundred parallel paths', mk(FLEX, 'par664', ['AD'], cost=Free({3}))),
    ]
    if deep:
        out += [
            ('flex par3 then par2', mk(FLEX, ['AB', 'AB', 'AB', 'BC', 'BC'], ['AC'], symcost=False)),
            ('flex double square', mk(FLEX, ['AB', 'AB', 'BD', 'BD', 'AC', 'CD'], ['AD'])),
            ('flex partri2 failures', mk(FLEX, 'partri2', ['AC', 'CA'], failed=True)),
            ('flex parallel fan', mk(FLEX, ['AB', 'AB', 'AC', 'BD', 'BE', 'CE', 'DF', 'EF', 'EF'], ['AF'])),
        ]
    return out
