"""C26: parts of a network that share nothing do not influence each other."""
from .common import *  # noqa
from . import C10

OBS_TOL = 0.11
FUNCTIONS = ['update_simulation', '_route_lsps', '_route_demands', '_update_interface_utilization', 'find_igp_shortcuts', 'parallel_lsp_groups', 'parallel_demand_groups',
             'get_shortest_path', 'get_all_paths_reservable_bw', 'simulation_diagnostics', 'fail_node', 'fail_srlg', 'add_circuit', 'validate_model']
BOUNDS = ('two parts of two to four nodes each (thorough: up to six), separate or joined by one circuit, each with up to two demands and two LSPs; costs, traffic, bandwidths, capacities and '
          'failures free as the case says; the same names used in both parts as far as identities allow; one change of twelve kinds in one part after the first simulation; '
          'up to three demands on one network whose LSPs all have configured bandwidths or which has none')
REACH = ['parts', 'joined', 'changed', 'superposed', 'unrouted demand', 'on lsp', 'failed', 'no path across']


class View(object):
    """The model as seen from one part: what it lists, restricted to the part."""

    def __init__(self, model, p):
        self._m, self._p = model, p

    def __getattr__(self, k):
        v = getattr(self._m, k)
        if k in ('parallel_lsp_groups', 'parallel_demand_groups'):
            mine = {x.name for x in self._p.nodes.values()}
            return lambda: {a: b for a, b in v().items() if a[0] in mine}
        if k == 'circuit_objects':
            return [x for x in v if member(x.interface_a, self._p.ifs)]
        return v


def part(n, letters):
    """The part of n over the nodes of these letters (handles on the same objects)."""
    p = Net()
    p.cls = n.cls
    p.nodes = {k: x for k, x in n.nodes.items() if k in letters}
    mine = list(p.nodes.values())
    p.ckts = [k for k in n.ckts if member(k[0].node_object, mine) and member(k[0].remote_node_object, mine)]
    p.ifs = [i for k in p.ckts for i in k]
    p.demands = [d for d in n.demands if member(d.source_node_object, mine)]
    p.lsps = [x for x in n.lsps if member(x.source_node_object, mine)]
    p.metrics = [w for x, w in zip(n.lsps, n.metrics) if member(x.source_node_object, mine)]
    p.model = View(n.model, p)
    return p


def answers(c, n, a, b):
    m = n.model
    f = m.get_shortest_path(a.name, b.name)
    g = m.get_all_paths_reservable_bw(a.name, b.name, include_failed_circuits=False)
    h = m.get_all_paths_reservable_bw(a.name, b.name)
    return [f['cost'], sorted(C10.keyed(p) for p in f['path']), sorted(C10.keyed(p) for p in g['path']), sorted(C10.keyed(p) for p in h['path'])]


def compare(c, n, letters):
    """Each part has the results of a model made of it alone."""
    alone = []
    for ls in letters:
        p = part(n, ls)
        C10.no_ties(c, p)
        q = C10.clone(c, p)
        if not simulate(c, q):
            return
        C10.compare(c, p, q)
        alone.append(q)
        for a, b in zip(list(p.nodes.values()), list(q.nodes.values())):
            c.check(sorted(C10.key(i) for i in a.interfaces(n.model) if member(i, p.ifs)) == sorted(C10.key(i) for i in b.interfaces(q.model)), 'same interfaces of the node')
        for a, b in n.pairs:
            if a in ls and b in ls:
                x, y = answers(c, n, n.nodes[a], n.nodes[b]), answers(c, q, q.nodes[a], q.nodes[b])
                c.check(x == y, 'same answers within the part', repr_((x, y)))
        for x, y in zip(p.lsps, q.lsps):
            if lsp_up(x):
                c.check(c.eq(x.traffic_on_lsp(n.model), y.traffic_on_lsp(q.model)), 'same traffic on the LSP')
                c.check(sorted(d.name for d in x.demands_on_lsp(n.model)) == sorted(d.name for d in y.demands_on_lsp(q.model)), 'same demands on the LSP')
    sd = n.model.simulation_diagnostics()
    each = [q.model.simulation_diagnostics() for q in alone]
    for k, v in sd.items():
        if c.isnum(v):
            c.check(v == sum(e[k] for e in each), 'the counts of the whole are those of the parts', repr_((k, v, [e[k] for e in each])))
    bridge = [i for i in n.ifs if not any(member(i, q_ifs) for q_ifs in [part(n, ls).ifs for ls in letters])]
    for i in bridge:
        c.check((i.traffic == 'Down' if isinstance(i.traffic, str) else c.eq(i.traffic, 0)) and not i.lsps(n.model) and not i.demands(n.model), 'nothing crosses the circuit between the parts',
                repr_((i.name, i.traffic)))
        c.check(c.eq(i.reserved_bandwidth, 0), 'nothing reserved between the parts')
        c.reach('joined')
    if not bridge:
        a, b = n.nodes[letters[0][0]], n.nodes[letters[1][0]]
        for x, y in ((a, b), (b, a)):
            s = n.model.get_shortest_path(x.name, y.name)
            c.check(s['path'] == [] and s['cost'] is None and n.model.get_all_paths_reservable_bw(x.name, y.name)['path'] == [], 'no path across', repr_(s))
            c.reach('no path across')
    c.reach('parts')


# ------------------------------------------------------------------------------------------------ changes in the second part
def ch_fail(c, n, P):
    a = part(n, P).ckts[0][0]
    n.model.fail_interface(a.name, a.node_object.name)


def ch_restore(c, n, P):
    a = part(n, P).ckts[-1][1]
    n.model.fail_interface(a.name, a.node_object.name)
    n.model.update_simulation()
    n.model.unfail_interface(a.name, a.node_object.name)


def ch_node(c, n, P):
    n.model.fail_node(n.nodes[P[0]].name)


def ch_nodeback(c, n, P):
    n.model.fail_node(n.nodes[P[1]].name)
    n.model.update_simulation()
    n.model.unfail_node(n.nodes[P[1]].name)


def ch_srlg(c, n, P):
    n.model.add_srlg('g')
    n.nodes[P[0]].add_to_srlg('g', n.model)
    n.ifs_of = part(n, P).ifs
    n.ifs_of[-1].add_to_srlg('g', n.model)
    n.model.fail_srlg('g')


def ch_srlgback(c, n, P):
    ch_srlg(c, n, P)
    n.model.update_simulation()
    n.model.unfail_srlg('g')


def ch_demand(c, n, P):
    n.model.add_demand(n.nodes[P[0]].name, n.nodes[P[1]].name, c.real('traffic_new', 0, 10 ** 7), 'd0x')
    n.demands += [d for d in n.model.demand_objects if not member(d, n.demands)]


def ch_lsp(c, n, P):
    n.model.add_rsvp_lsp(n.nodes[P[1]].name, n.nodes[P[0]].name, 'l0')
    n.lsps += [x for x in n.model.rsvp_lsp_objects if not member(x, n.lsps)]
    n.metrics += [None] * (len(n.lsps) - len(n.metrics))


def ch_cost(c, n, P):
    for i in part(n, P).ckts[0]:
        i.cost = c.int('cost_new_%s' % i.name, 1, 10 ** 7)


def ch_circuit(c, n, P):
    new = NS.Node('new')
    n.model.add_node(new)
    n.nodes[P[0] + "'"] = new
    before = list(n.ifs)
    n.model.add_circuit(n.nodes[P[0]], new, 'new1', 'new2', 3, 3, 50, False, 'cx')
    i = [i for i in n.model.interface_objects if not member(i, before)]
    i.sort(key=lambda x: x.name)
    n.ckts.append(tuple(i))
    n.ifs += i


def ch_traffic(c, n, P):
    p = part(n, P)
    if p.demands:
        p.demands[0].traffic = c.real('traffic_new', 0, 10 ** 7)


def ch_shortcut(c, n, P):
    if n.cls is FLEX:
        for x in P:
            n.nodes[x].igp_shortcuts_enabled = True


CHANGES = [ch_fail, ch_restore, ch_node, ch_nodeback, ch_srlg, ch_srlgback, ch_demand, ch_lsp, ch_cost, ch_circuit, ch_traffic, ch_shortcut]


def costs(c, cost):
    """The listed costs, None for a free one (the same in both directions)."""
    if not cost:
        return None
    free = {}

    def f(i, ab, d):
        if cost[i] is not None:
            return cost[i]
        if i not in free:
            free[i] = c.int('cost_%d' % i, 1, 10 ** 7)
        return free[i]
    return f


def mk(cls, l1, l2, ends, lsps, dems, cost=None, cap=100, failed=None, bridge=None, shortcuts='', change=False, names_=None, same=True, free=True, only=None):
    """l1 over A.., l2 over P..: lists of circuits; bridge: a circuit between them."""
    links = shape(l1) + l2 + ([bridge] if bridge else [])
    P1 = sorted({x for k in shape(l1) for x in k})
    P2 = sorted({x for k in l2 for x in k})

    def h(c):
        n = net(c, cls, links, cost=costs(c, cost), symcost=True, cap=(lambda i, ab: c.real('cap_%d' % i, 1, 10 ** 7)) if cap == 'free' else cap, failed=failed, names=names_)
        n.pairs, n.metrics = ends, []
        if same:                            # interfaces of the same names on every node
            at = {}
            for i in n.ifs:
                k = at[i.node_object.name] = at.get(i.node_object.name, -1) + 1
                i.name = 'e%d' % k
        for k, (ab, bw, met) in enumerate(lsps):
            n.metrics.append(met)
            x = add_lsp(n, ab[0], ab[1], 'l%d' % (k % 2 if not same else sum(y[0] == ab for y in lsps[:k])), bw=c.real('bw_%d' % k, 0, 1000) if bw == 'free' else bw, metric=met)
            x.__dict__['_symx_h'] = k + 1
        for k, ab in enumerate(dems):
            d = add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7) if free else 30 + k, 'd%d' % sum(y == ab for y in dems[:k]))
            d.__dict__['_symx_h'] = k + 1
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        finish(n)
        if not simulate(c, n):
            return
        if change:
            ops = [o for o in CHANGES if only is None or o.__name__[3:] in only]
            k = c.choose(len(ops), 'change')
            X = P2 if not c.choose(2, 'where') else P1
            ok, _ = attempt(c, 'a change does not raise', ops[k], c, n, X)
            if not ok or not simulate(c, n):
                return
            c.reach('changed')
        more = [x for x in n.nodes if x not in P1 + P2]
        compare(c, n, [P1 + [x for x in more if x[0] in P1], P2 + [x for x in more if x[0] in P2]])
    return h


def superpose(cls, links, dems, lsps=(), cost=None, shortcuts='', failed=None, cap=1000):
    """Demands do not influence each other where bandwidths do not depend on them; the load is the sum of the loads."""
    def h(c):
        n = net(c, cls, links, cost=(lambda i, ab, d: cost[i]) if cost else None, symcost=True, cap=cap, failed=failed)
        n.metrics = []
        for k, (ab, bw, met) in enumerate(lsps):
            n.metrics.append(met)
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=c.real('bw_%d' % k, 1, 2000), metric=met).__dict__['_symx_h'] = k + 1
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % k)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        finish(n)
        C10.no_ties(c, n)
        if not simulate(c, n):
            return
        singles = []
        for k in range(len(dems)):
            m = Net()
            m.cls, m.nodes, m.ckts, m.ifs, m.demands, m.lsps, m.metrics = n.cls, n.nodes, n.ckts, n.ifs, [n.demands[k]], n.lsps, n.metrics
            q = C10.clone(c, m)
            if not simulate(c, q):
                return
            singles.append(q)
            d, e = n.demands[k], q.demands[0]
            if not routed(d) or not routed(e):
                c.check(not routed(d) and not routed(e), 'a demand is routed whatever other demands there are', repr_((d.path, e.path)))
                c.reach('unrouted demand')
            else:
                dp, ep = sorted(map(C10.keyed, d.path)), sorted(map(C10.keyed, e.path))
                c.check(dp == ep, 'a demand takes its paths whatever other demands there are', repr_((dp, ep)))
            for x, y in zip(n.lsps, q.lsps):
                c.check(lsp_up(x) == lsp_up(y) and (not lsp_up(x) or C10.keyed(x.path['interfaces']) == C10.keyed(y.path['interfaces'])), 'LSPs of configured bandwidth do not depend on demands')
        for k, i in enumerate(n.ifs):
            if isinstance(i.traffic, str):
                c.reach('failed')
                c.check(all(isinstance(q.ifs[k].traffic, str) for q in singles), 'the load is the sum of the loads of each demand alone')
                continue
            c.check(c.eq(i.traffic, sum((q.ifs[k].traffic for q in singles), 0)), 'the load is the sum of the loads of each demand alone', repr_((i.name, i.traffic, [q.ifs[k].traffic for q in singles])))
        c.reach('superposed')
    return h


AB, AC, AD, PQ, PR = ('A', 'B'), ('A', 'C'), ('A', 'D'), ('P', 'Q'), ('P', 'R')
TRI2, LINE2, SQ2 = ['PQ', 'QR', 'PR'], ['PQ', 'QR'], ['PQ', 'QS', 'PR', 'RS']
ODD = {'A': 'r1', 'B': 'r11', 'C': 'r', 'P': 'r1-r', 'Q': '1', 'R': '1-r1', 'D': 'r1-', 'S': '-'}


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' two triangles', mk(cls, 'tri', TRI2, [AC, PR], [], [AC, PR], failed='sym:0,3')),
            (m + ' square and edge', mk(cls, 'square', ['PQ'], [AD, PQ], [], [AD, PQ], failed='sym:0,4')),
            (m + ' lines with LSPs', mk(cls, 'line3', LINE2, [AC, PR], [(AC, 'free', None), (PR, 'free', None)], [AC, PR], cost=[1, 2, 2, 1])),
            (m + ' triangles with LSP groups', mk(cls, 'tri', ['PQ'], [AC, PQ], [(AC, None, None), (AC, None, None), (PQ, None, None)], [AC, PQ], cost=[1, 2, 7, 3])),
            (m + ' full part', mk(cls, 'line3', ['PQ'], [AC, PQ], [(AC, 'free', None), (('C', 'A'), 'free', None), (AB, None, None), (('B', 'A'), None, None), (('B', 'C'), None, None), (('C', 'B'), None, None), (PQ, 10, None)], [PQ], cost=[1, 2, 3])),
            (m + ' full part, hop by hop', mk(cls, 'line3', ['PQ'], [AC, PQ], [(AB, 'free', None), (('B', 'A'), 100, None), (('B', 'C'), 100, None), (('C', 'B'), 'free', None), (AC, None, None), (('C', 'A'), None, None), (PQ, 10, None)], [PQ], cost=[1, 2, 3])),
            (m + ' triangles with LSPs and metrics', mk(cls, 'tri', TRI2, [AC, PR], [(AC, 10, 5), (PR, 10, 2), (PR, 10, None)], [AC, PR], free=False, names_=ODD)),
            (m + ' joined triangles', mk(cls, 'tri', TRI2, [AC, PR], [], [AC, PR], bridge=('C', 'P'), cost=[None, None, None, 1, 2, 3, 1])),
            (m + ' joined with LSPs', mk(cls, 'tri', ['PQ', 'QR'], [AC, PR], [(AC, None, None), (PR, 10, None)], [AC, PR], cost=[1, 2, 7, 3, 4, 1], bridge=('B', 'Q'), names_=ODD)),
            (m + ' changes', mk(cls, 'tri', LINE2, [AC, PR], [(AC, 10, None), (PR, 10, None)], [AC, PR], cost=[1, 2, 7, 3, 4], change=True)),
            (m + ' changes, joined', mk(cls, 'line3', LINE2, [AC, PR], [(AC, None, None)], [AC, PR], cost=[1, 2, 3, 4, 5], bridge=('C', 'P'), change=True, names_=ODD)),
            (m + ' demands on a square', superpose(cls, 'square', [AD, ('B', 'C'), AD])),
            (m + ' demands on a triangle, failures', superpose(cls, 'tri', [AC, ('B', 'C')], failed='sym')),
            (m + ' demands over LSPs', superpose(cls, 'tri', [AC, AC, AB], [(AC, 1, None), (AC, 1, 3)], cost=[1, 2, 7])),
        ]
        if deep:
            out += [
                (m + ' joined triangles, free', mk(cls, 'tri', TRI2, [AC, PR], [], [AC, PR], bridge=('C', 'P'))),
                (m + ' joined triangles, LSPs, free', mk(cls, 'tri', TRI2, [AC, PR], [(AC, 'free', None), (PR, None, None)], [AC, PR], bridge=('C', 'P'), cost=[1, None, 7, 3, None, 9, 1])),
                (m + ' two squares', mk(cls, 'square', SQ2, [AD, ('P', 'S')], [], [AD, ('P', 'S')])),
                (m + ' diamond and square, LSPs', mk(cls, 'diamond', SQ2, [AD, ('P', 'S')], [(AD, 'free', None), (('P', 'S'), 'free', None)], [AD, ('P', 'S')], cost=[1, 2, 4, 8, 16, 1, 2, 4, 8])),
                (m + ' changes, free', mk(cls, 'tri', TRI2, [AC, PR], [(AC, None, None), (PR, None, None)], [AC, PR], change=True)),
                (m + ' demands on a diamond', superpose(cls, 'diamond', [AD, ('B', 'C'), AD])),
                (m + ' demands over three LSPs', superpose(cls, 'diamond', [AD, AD, ('B', 'D')], [(AD, 1, None), (AD, 1, 3), (('B', 'D'), 1, None)], cost=[1, 2, 4, 8, 16])),
            ]
    out += [
        ('flex shortcuts in both parts', mk(FLEX, 'line3', LINE2, [AC, PR], [(AB, 10, None), (PQ, 10, 9)], [AC, PR], shortcuts='AP')),
        ('flex shortcuts, joined', mk(FLEX, 'tri', LINE2, [AC, PR], [(AB, 10, None), (PQ, 10, None)], [AC, PR], shortcuts='AP', bridge=('C', 'P'), cost=[1, 2, 3, 4, 5, 6])),
        ('flex shortcuts, changes', mk(FLEX, 'line3', LINE2, [AC, PR], [(AB, 10, None), (PQ, 10, None)], [AC, PR], shortcuts='AP', change=True, cost=[1, 2, 3, 4])),
        ('flex parallel', mk(FLEX, 'par2line', ['PQ', 'PQ'], [AC, PQ], [(PQ, 10, None)], [AC, PQ])),
        ('flex parallel, joined', mk(FLEX, 'par2', ['PQ', 'PQ'], [AB, PQ], [(AB, 10, None), (PQ, None, None)], [AB, PQ], bridge=('B', 'P'), cost=[1, 2, 3, 5, 1])),
        ('flex demands, parallel', superpose(FLEX, 'par22', [AC, AC, AB])),
        ('flex demands, shortcuts', superpose(FLEX, 'line4', [AD, AC, ('B', 'D')], [(AC, 1, None), (('B', 'D'), 1, None)], cost=[1, 2, 3], shortcuts='AB')),
    ]
    return out
