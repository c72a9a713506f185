"""C24: models do not share state."""
from symx import state

from .common import *  # noqa
from . import C10

WM = load.load_weathermap()
OBS_TOL = 0.11
FUNCTIONS = ['FlexModel.__init__', 'PerformanceModel.__init__', 'Model.__init__', 'Parallel_Link_Model.__init__', 'update_simulation', 'get_shortest_path',
             'get_all_paths_reservable_bw', 'parallel_lsp_groups', 'simulation_diagnostics', 'load_model_file', 'WeatherMap.create_elements', 'fail_interface', 'add_demand', 'add_rsvp_lsp',
             'change_interface_name', 'add_srlg']
BOUNDS = ('two models at a time (same class, both classes, legacy classes) over the same node, interface, demand and LSP names, built by constructor, by the '
          'add calls or from files, with independent costs, traffic, capacities and bandwidths (every value in range); every interleaving of up to '
          'two (thorough: three) steps out of simulations, queries and eleven changes on either model; each model\'s final results are compared with those of the '
          'same configuration alone in a freshly imported package')
REACH = ['same', 'unrouted demand', 'on lsp', 'untouched', 'empty', 'queries', 'maps', 'files']
ASSUMPTIONS = ['a freshly imported package is module-, class-, closure- and default-argument-level state put back to what it was at import (symx/state.py)']


def config(n):
    """What the model holds, by identity, and the configuration of each object."""
    m = n.model
    out = []
    for s in (m.interface_objects, m.node_objects, m.demand_objects, m.rsvp_lsp_objects, m.srlg_objects):
        out.append(sorted(id(x) for x in s))
    out += [(i.name, i.cost, i.capacity, i.failed, i.rsvp_enabled, i.percent_reservable_bandwidth, i.circuit_id, id(i.node_object), id(i.remote_node_object),
             sorted(g.name for g in i.srlgs)) for i in n.ifs]
    out += [(x.name, x.failed, x.lat, x.lon, x.igp_shortcuts_enabled, sorted(g.name for g in x.srlgs)) for x in n.nodes.values()]
    out += [(d.name, d.traffic, id(d.source_node_object), id(d.dest_node_object)) for d in n.demands]
    out += [(x.lsp_name, x.configured_setup_bandwidth, id(x.source_node_object), id(x.dest_node_object)) for x in n.lsps]
    return out


def results(n):
    """Results by identity."""
    return [[(i.traffic, i.reserved_bandwidth) for i in n.ifs], [d.path for d in n.demands], [x.path for x in n.lsps],
            sorted((id(k.interface_a), id(k.interface_b)) for k in n.model.circuit_objects)]


def alike(c, a, b):
    """The same structure of the same objects and equal numbers (a formula)."""
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return FALSE
        return And(*[tob(alike(c, x, y)) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(map(str, a)) != sorted(map(str, b)):
            return FALSE
        return And(*[tob(alike(c, a[k], b[k])) for k in a])
    if c.isnum(a) and c.isnum(b):
        return tob(a == b)
    return tob(a is b or (type(a) is type(b) and isinstance(a, (str, bool, type(None))) and a == b) or
               ((isinstance(a, str) or isinstance(b, str)) and a == b))


def queries(c, n):
    """The answers of the queries, in terms of names (so that they can be compared between models)."""
    m = n.model
    out = []
    for a, b in (n.ends[0], n.ends[0][::-1]):
        sp = m.get_shortest_path(n.nodes[a].name, n.nodes[b].name)
        out.append((sp['cost'], sorted([C10.keyed(p) for p in sp['path']])))
        f = m.get_all_paths_reservable_bw(n.nodes[a].name, n.nodes[b].name, include_failed_circuits=False)
        out.append(sorted(C10.keyed(p) for p in (f['path'] if isinstance(f, dict) else f)))
    sd = m.simulation_diagnostics()
    for k in sorted(sd):
        v = sd[k]
        out.append((k, v if isinstance(v, (int, str)) else sorted(getattr(x, 'lsp_name', None) or x.name for x in v)))
    for i in n.ifs:
        out.append(sorted(x.name for x in i.demands(m)))
        out.append(C10.key(i.get_remote_interface(m)) if n.checked else None)
    for x in n.lsps:
        if lsp_up(x):
            out.append((x.effective_metric(m), sorted(d.name for d in x.demands_on_lsp(m)), x.traffic_on_lsp(m)))
    out.append(sorted(x.name for x in m.get_unrouted_demand_objects()))
    out.append(sorted(C10.key(i) for i in m.get_failed_interface_objects()))
    out.append(sorted(x.name for x in m.get_orphan_node_objects()))
    for x in n.nodes.values():
        out.append((x.name, sorted(y.name for y in x.adjacent_nodes(m)), sorted(C10.key(i) for i in x.interfaces(m))))
    return out


class Step(C10.H):
    """More steps, on top of those of C10."""

    def ask(c, n, t):
        queries(c, n)

    def map_(c, n, t):
        w = WM.WeatherMap(n.model)
        w.create_elements()
        w.demand_sources_and_destinations(), w.lsp_sources_and_destinations(), w.make_node_list()


STEPS = ['sim', 'ask', 'fail', 'restore', 'failnode', 'demand', 'traffic', 'lsp', 'bw', 'metric', 'cost', 'rename', 'srlg', 'map_']


def build(c, cls, links, ends, lsps, dems, tag, costs, cap, shortcuts='', api=False, fixed=False):
    """One model; everything symbolic in it is named after the tag, everything else is as in the other model."""
    n = net(c, cls, links, cost=(lambda i, ab, d: costs[i]) if costs else (lambda i, ab, d: n_cost(c, tag, i)), symcost=True, cap=cap)
    n.ends, n.metrics, n.free = ends, [None] * len(lsps), False
    n.checked = True
    for k, (ab, bw) in enumerate(lsps):
        add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=(20 if fixed in (True, tag) else c.real('bw_%s_%d' % (tag, k), 0, 1000)) if bw else None)
    for k, ab in enumerate(dems):
        add_demand(n, ab[0], ab[1], 70 if fixed in (True, tag) else c.real('traffic_%s_%d' % (tag, k), 0, 1000), 'd%d' % k)
    for x in shortcuts:
        n.nodes[x].igp_shortcuts_enabled = True
    if not api:
        finish(n)
        return n
    n.model = cls()
    for x in n.nodes.values():
        n.model.add_node(x)
    for i in n.ifs:
        n.model.interface_objects.add(i)
    for d in n.demands:
        n.model.demand_objects.add(d)
    for x in n.lsps:
        n.model.rsvp_lsp_objects.add(x)
    return n


def n_cost(c, tag, i):
    k = 'cost_%s_%d' % (tag, i)
    seen = c.__dict__.setdefault('_c24', {})
    if k not in seen:
        seen[k] = c.int(k, 1, 1000)
    return seen[k]


def alone(c, n):
    """The model's results and answers are those of the same configuration in a fresh package."""
    q = queries(c, n)
    els = elements(n)
    state.reset()
    m = C10.clone(c, n)
    m.ends, m.checked = n.ends, n.checked
    for k in n.nodes:
        m.nodes[k].lat, m.nodes[k].lon = n.nodes[k].lat, n.nodes[k].lon
    if not simulate(c, m):
        return
    C10.compare(c, n, m)
    r = queries(c, m)
    for x, y in zip(q, r):
        c.check(alike(c, x, y), 'a model answers as if it were the only one', repr_((x, y)))
    c.check(len(q) == len(r), 'a model answers as if it were the only one')
    c.reach('queries')
    e = elements(m)
    for x, y in zip(els, e):
        c.check(alike(c, x, y), 'a map shows what it would if its model were the only one', repr_((x, y)))
    c.check(len(els) == len(e), 'a map shows what it would if its model were the only one')
    c.reach('maps')


def elements(n, draw=True):
    w = WM.WeatherMap(n.model)
    els = w.create_elements() if draw else []
    menu = [sorted(l) for l in w.demand_sources_and_destinations() + w.lsp_sources_and_destinations()] + [sorted(x['label'] for x in w.make_node_list())]
    flat = sorted((str(x['data'].get('id', '')) + str(x['data'].get('interface-name', '')) + str(x['data'].get('source', '')), k) for k, x in enumerate(els))
    return menu + [els[k] for _, k in flat]


def pair(clsA, clsB, links, ends, lsps, dems, steps, costsA, costsB, caps=(100, 60), shortcuts=('', ''), linksB=None, ops=STEPS, order_=None, api=False, fixed=False, lspsB=None, demsB=None):
    def h(c):
        A = build(c, clsA, links, ends, lsps, dems, 'a', costsA, caps[0], shortcuts[0], api, fixed)
        if order_ == 'late' and not simulate(c, A):     # B appears after A has been simulated and asked
            return
        if order_ == 'late':
            queries(c, A), elements(A, draw=not steps)
        B = build(c, clsB, linksB or links, ends, lspsB if lspsB is not None else lsps, demsB if demsB is not None else dems, 'b', costsB, caps[1], shortcuts[1], api)
        c.check(not any(member(x, B.model.interface_objects) for x in A.ifs) and len(B.model.interface_objects) == len(B.ifs) and
                len(B.model.node_objects) == len(B.nodes) and len(A.model.node_objects) == len(A.nodes), 'a model has only what was put into it',
                repr_((A.model, B.model)))
        if order_ != 'late' and not simulate(c, A):
            return
        C10.no_ties(c, A)
        C10.no_ties(c, B)
        ca, ra = config(A), results(A)
        if not simulate(c, B):
            return
        c.check(alike(c, ca, config(A)), 'work on one model leaves the configuration of the other alone')
        c.check(alike(c, ra, results(A)), 'work on one model leaves the results of the other alone')
        for t in range(steps):
            x, y = (A, B) if c.bool('on_A_%d' % t) else (B, A)
            o = ops[c.choose(len(ops), 'op_%d' % t)]
            cy, ry = config(y), results(y)
            getattr(Step, o)(c, x, t)
            c.check(alike(c, cy, config(y)), 'work on one model leaves the configuration of the other alone', repr_((o, cy, config(y))))
            c.check(alike(c, ry, results(y)), 'work on one model leaves the results of the other alone', repr_((o, ry, results(y))))
            c.reach('untouched')
        C10.no_ties(c, A)
        C10.no_ties(c, B)
        for x in (A, B) if c.bool('A_first') else (B, A):
            if not simulate(c, x):
                return
        x, y = (A, B) if c.bool('look_at_B') else (B, A)
        elements(x, draw=not steps)
        alone(c, y)
    return h


def empties(c):
    """Models made from nothing have nothing in them, whatever was done to others before."""
    K = ['FlexModel', 'PerformanceModel', 'Model', 'Parallel_Link_Model']
    ka, kb = c.choose(4, 'class_A'), c.choose(4, 'class_B')
    a = getattr(NS, K[ka])()
    first = getattr(NS, K[kb])()
    x, y = NS.Node('A'), NS.Node('B')
    a.add_node(x)
    a.add_node(y)
    cid = () if K[ka] in ('PerformanceModel', 'Model') else ('k',)
    attempt(c, 'a circuit can be added', lambda: a.add_circuit(x, y, 'ab', 'ba', 3, 4, 100, False, *cid) if cid else a.add_circuit(x, y, 'ab', 'ba', 3, 4, 100))
    a.add_demand('A', 'B', c.real('traffic', 0, 100), 'd')
    a.add_rsvp_lsp('A', 'B', 'l')
    a.add_srlg('g')
    if c.bool('simulated'):
        attempt(c, 'simulation does not raise', a.update_simulation)
        a.parallel_lsp_groups()
    for b in (first, getattr(NS, K[kb])()):
        for s in ('interface_objects', 'node_objects', 'demand_objects', 'rsvp_lsp_objects', 'srlg_objects', 'circuit_objects'):
            got = getattr(b, s)
            c.check(len(got) == 0, 'a model made from nothing is empty', repr_((K[ka], K[kb], s, got)))
            c.check(len(getattr(a, s)) > 0, 'what was added is in the model', s)
        c.check(len(b.parallel_lsp_groups()) == 0 and len(b.parallel_demand_groups()) == 0, 'an empty model has no groups')
        z = NS.Node('Z')
        b.add_node(z)
        c.check(len(a.node_objects) == 2 and z not in a.node_objects, 'a node added to one model is not in another')
        c.check(not z.srlgs and not NS.Node('Y').srlgs, 'a new node is in no SRLG')
        attempt(c, 'an SRLG name used in one model is free in another', b.add_srlg, 'g')
        c.check([len(m.srlg_objects) for m in (a, b)] == [1, 1], 'each model has its own SRLG')
        x.add_to_srlg('g', a) if not x.srlgs else None
        c.check(not z.srlgs and x not in b.get_srlg_object('g').node_objects, 'members of an SRLG are those of its model')
        a.fail_srlg('g')
        c.check(x.failed is True and z.failed is False and not b.get_srlg_object('g').failed, 'failing an SRLG of one model leaves its namesake alone')
        a.unfail_srlg('g')
        c.reach('empty')
    c.check(list(a.get_node_object('A').interfaces(a)) != [], 'what was added is in the model')


PART = {0: 'INTERFACES_TABLE', 1: 'NODES_TABLE', 2: 'DEMANDS_TABLE', 3: 'RSVP_LSP_TABLE'}


def text(flex, ca, t, bw, sc):
    cid = (lambda k: '\t%d' % k) if flex else (lambda k: '')
    L = ['INTERFACES_TABLE', 'node_object_name\tremote_node_object_name\tname\tcost\tcapacity' + ('\tcircuit_id' if flex else '')]
    for k, (a, b) in enumerate(('AB', 'BC', 'AC')):
        L += ['%s\t%s\t%s%s\t%s\t100%s' % (a, b, a, b, ca[k], cid(k)), '%s\t%s\t%s%s\t%s\t100%s' % (b, a, b, a, ca[k], cid(k))]
    L += ['', 'NODES_TABLE', 'name\tlon\tlat\tigp_shortcuts_enabled', 'A\t1\t2\t%s' % sc, '', 'DEMANDS_TABLE', 'source\tdest\ttraffic\tname',
          'A\tC\t%s\td0' % t, '', 'RSVP_LSP_TABLE', 'source\tdest\tname\tconfigured_setup_bw\tmanual_metric', 'A\tB\tl0\t%s\t' % bw]
    return '\n'.join(L)


def files(c):
    """Loading a second file leaves the first model alone and gives the second file's model."""
    flex = c.bool('flex')
    cls = FLEX if flex else PERF
    NS.VFILES.clear()
    got = []
    vals = []
    for k in range(2):
        v = ([c.int('cost_%d_%d' % (k, j), 1, 1000) if j == 2 and k else 3 + j - k for j in range(3)], c.int('traffic_%d' % k, 0, 1000), 5 + k, k == 0 and flex and c.bool('shortcuts'))
        vals.append(v)
        NS.VFILES['model%d.csv' % k] = text(flex, v[0], v[1], v[2], 'True' if v[3] else 'False')
    for k in range(2):
        ok, m = attempt(c, 'a file can be loaded', cls.load_model_file, 'model%d.csv' % k)
        if not ok:
            return
        n = Net()
        n.cls, n.model = cls, m
        got.append(n)
        n.nodes = {x.name: x for x in m.node_objects}
        by = {i.name: i for i in m.interface_objects}
        n.ckts = [(by['AB'], by['BA']), (by['BC'], by['CB']), (by['AC'], by['CA'])]
        n.ifs = [i for k_ in n.ckts for i in k_]
        n.demands, n.lsps, n.metrics = list(m.demand_objects), list(m.rsvp_lsp_objects), [None]
        n.ends, n.checked = ['AC'], True
        if k == 0:
            C10.no_ties(c, n)
            if not simulate(c, n):
                return
            cfg, res = config(n), results(n)
    a, b = got
    c.check(alike(c, cfg, config(a)), 'loading a file leaves other models alone')
    c.check(alike(c, res, results(a)), 'loading a file leaves other models alone')
    for n, v in zip(got, vals):
        c.check(len(n.ifs) == 6 and len(n.nodes) == 3 and len(n.demands) == 1 and len(n.lsps) == 1, 'a loaded model has what its file says')
        c.check(And(*[tob(i.cost == v[0][k]) for k in range(3) for i in n.ckts[k]]), 'a loaded model has what its file says')
        c.check(And(tob(n.demands[0].traffic == v[1]), tob(n.lsps[0].configured_setup_bandwidth == v[2])), 'a loaded model has what its file says')
        c.check(n.nodes['A'].igp_shortcuts_enabled == v[3], 'a loaded model has what its file says')
    for s in ('interface_objects', 'node_objects', 'demand_objects', 'rsvp_lsp_objects'):
        c.check(not any(member(x, getattr(b.model, s)) for x in getattr(a.model, s)), 'loaded models have no objects in common', s)
    C10.no_ties(c, b)
    if not simulate(c, b):
        return
    c.check(alike(c, res, results(a)), 'simulating one model leaves the results of the other alone')
    if c.bool('again') and not simulate(c, a):
        return
    c.reach('files')
    alone(c, b if c.bool('look_at_B') else a)


def cases(tier):
    deep = tier != 'quick'
    out = [('empty models', empties), ('files', files)]
    AB, AC, AD, E = ('A', 'B'), ('A', 'C'), ('A', 'D'), [('A', 'C'), ('C', 'B')]
    for m, a, b in (('perf, perf', PERF, PERF), ('flex, flex', FLEX, FLEX), ('perf, flex', PERF, FLEX)):
        out += [
            (m + ' edge', pair(a, b, 'edge', [AB], [(AB, True)], [AB], 1, [1], [5], fixed=True)),
            (m + ' triangle', pair(a, b, 'tri', E, [(AC, True)], [AC], 0, [3, 2, 4], None, order_='late', fixed='a')),
            (m + ' triangle, steps', pair(a, b, 'tri', E, [(('C', 'B'), False)], [AC], 1, [3, 2, 4], [3, 4, 9], order_='late')),
            (m + ' other links', pair(a, b, 'tri', [AC], [(AC, False)], [AC], 1, [3, 2, 9], [1, 2], linksB='line3', order_='late', ops=STEPS[:8])),
            (m + ' other neighbours', pair(a, b, 'line3', [AC], [(AC, False)], [AC], 0, [1, 2], None, linksB=['AC', 'CB'], order_='late', fixed='a')),
            (m + ' other ring', pair(a, b, 'square', [AD], [(AD, False)], [AD], 0, [1, 2, 3, 5], [1, 2, 3, 5], linksB=['AB', 'BC', 'CD', 'AD'], order_='late', fixed='a',
                                     lspsB=[(('D', 'A'), False)], demsB=[AD, ('B', 'C')])),
            (m + ' nothing in the second', pair(a, b, 'line3', [AC], [(AB, False)], [AC], 0, [1, 2], [1, 2], order_='late', lspsB=[], demsB=[])),
            (m + ' added one by one', pair(a, b, 'line3', [AC], [(AB, False)], [AC], 0, None, [4, 4], api=True)),
        ]
        if deep:
            out += [
                (m + ' edge, two steps', pair(a, b, 'edge', [AB], [(AB, False)], [AB], 2, [1], [5])),
                (m + ' triangle, two steps', pair(a, b, 'tri', E, [(AC, False)], [AC], 2, [3, 2, 4], [3, 4, 9], order_='late')),
                (m + ' square', pair(a, b, 'square', [('A', 'D')], [(('A', 'D'), True)], [('A', 'D'), ('B', 'C')], 1, [1, 2, 3, 5], [9, 2, 3, 5])),
                (m + ' triangle, free costs', pair(a, b, 'tri', E, [(AC, True)], [AC], 0, None, None, order_='late')),
                (m + ' triangle, free costs, steps', pair(a, b, 'tri', E, [], [AC], 1, None, None)),
                (m + ' diamond', pair(a, b, 'diamond', [('A', 'D')], [], [('A', 'D')], 0, None, None, order_='late')),
            ]
    out += [('flex shortcuts', pair(FLEX, FLEX, 'line3', [AC], [(AB, True)], [AC], 1, [2, 3], [2, 3], shortcuts=('A', ''), fixed=True)),
            ('flex parallel', pair(FLEX, FLEX, 'par2line', [AC], [(AB, True)], [AC], 1, [1, 2, 1], [3, 2, 3], fixed=True))]
    if deep:
        out += [('flex shortcuts, two steps', pair(FLEX, FLEX, 'line3', [AC], [(AB, False)], [AC], 2, [2, 3], [2, 3], shortcuts=('A', 'AB'))),
                ('flex parallel, two steps', pair(FLEX, FLEX, 'par2line', [AC], [(AB, False)], [AC], 2, [1, 2, 1], [3, 2, 3]))]
    return out
