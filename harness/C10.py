"""C10: a simulation depends only on the current configuration."""
from .common import *  # noqa

OBS_TOL = 0.11
FUNCTIONS = ['update_simulation', '_route_lsps', '_route_demands', '_update_interface_utilization', 'parallel_lsp_groups',
             'parallel_demand_groups', '_reserved_bw_error_checks', 'validate_model', '_make_circuits', '_make_circuits_multidigraph',
             'fail_interface', 'unfail_interface', 'fail_node', 'unfail_node', 'add_demand', 'add_rsvp_lsp', 'change_interface_name',
             'RSVP_LSP.effective_metric', 'RSVP_LSP.traffic_on_lsp', 'path_detail']
BOUNDS = ('every history of one (quick, small networks two; thorough two to three) operations out of twenty-one kinds (seven of them exchanges of equals: an LSP for another, a failure for another, costs swapped, ...) between two '
          'simulations, '
          'ending in a simulation, compared with a fresh model of the final configuration; costs, traffic, bandwidths, metrics: every '
          'value in range; LSP candidate routes of different cost (no random tie-break)')
REACH = ['same', 'unrouted demand', 'unrouted lsp', 'on lsp', 'failed']


def clone(c, n):
    """A fresh model with the configuration n has now."""
    m = Net()
    m.cls = n.cls
    for k, x in n.nodes.items():
        y = NS.Node(x.name)
        if x.igp_shortcuts_enabled:
            y.igp_shortcuts_enabled = True
        m.nodes[k] = y
    back = {id(x): m.nodes[k] for k, x in n.nodes.items()}
    for a, b in n.ckts:
        pair = tuple(NS.Interface(i.name, i.cost, i.capacity, back[id(i.node_object)], back[id(i.remote_node_object)], i.circuit_id,
                                  i.rsvp_enabled, i.percent_reservable_bandwidth) for i in (a, b))
        m.ckts.append(pair)
        m.ifs += list(pair)
        for i, j in zip((a, b), pair):
            if i.failed:
                j.failed = True
    for k, x in n.nodes.items():
        if x.failed:
            m.nodes[k].failed = True
    for d in n.demands:
        m.demands.append(NS.Demand(back[id(d.source_node_object)], back[id(d.dest_node_object)], d.traffic, d.name))
    for x, w in zip(n.lsps, n.metrics):
        m.lsps.append(NS.RSVP_LSP(back[id(x.source_node_object)], back[id(x.dest_node_object)], x.lsp_name, x.configured_setup_bandwidth, w))
    for l1, l2 in ((n.demands, m.demands), (n.lsps, m.lsps)):
        for x, y in zip(l1, l2):
            if '_symx_h' in x.__dict__:
                y.__dict__['_symx_h'] = x.__dict__['_symx_h']
    finish(m)
    return m


def key(it):
    return ('lsp', it.source_node_object.name, it.dest_node_object.name, it.lsp_name) if is_lsp(it) else ('if', it.node_object.name, it.name)


def keyed(p):
    return tuple(key(it) for it in p)


def compare(c, n, m):
    for i, j in zip(n.ifs, m.ifs):
        c.check(i.failed == j.failed, 'same failure state')
        if isinstance(i.traffic, str) or isinstance(j.traffic, str):
            c.reach('failed')
            c.check(isinstance(i.traffic, str) and isinstance(j.traffic, str) and i.traffic == j.traffic, 'same interface traffic', repr_((i.name, i.traffic, j.traffic)))
        else:
            c.check(c.eq(i.traffic, j.traffic), 'same interface traffic', repr_((i.name, i.traffic, j.traffic)))
            c.check(c.eq(i.utilization, j.utilization), 'same utilization')
        c.check(c.eq(i.reserved_bandwidth, j.reserved_bandwidth), 'same reserved bandwidth', repr_((i.name, i.reserved_bandwidth, j.reserved_bandwidth)))
        c.check(c.eq(i.reservable_bandwidth, j.reservable_bandwidth), 'same reservable bandwidth')
        c.check(sorted(map(key, i.lsps(n.model))) == sorted(map(key, j.lsps(m.model))), 'same LSPs on the interface')
        c.check(sorted(d.name for d in i.demands(n.model)) == sorted(d.name for d in j.demands(m.model)), 'same demands on the interface')
        c.observe(i.name, i.traffic)
    for d, e in zip(n.demands, m.demands):
        if not routed(d) or not routed(e):
            c.reach('unrouted demand')
            c.check(not routed(d) and not routed(e) and d.path == e.path, 'same routing of the demand', repr_((d.path, e.path)))
            c.check(d.path_detail == e.path_detail if isinstance(d.path_detail, str) and isinstance(e.path_detail, str) else False, 'no path detail when unrouted',
                    repr_((d.path_detail, e.path_detail)))
            continue
        dp, ep = sorted(map(keyed, d.path)), sorted(map(keyed, e.path))
        c.check(dp == ep, 'same demand paths', repr_((dp, ep)))
        if any(is_lsp(it) for p in d.path for it in p):
            c.reach('on lsp')
        if not isinstance(d.path_detail, dict) or not isinstance(e.path_detail, dict):
            c.fail('path detail of a routed demand', repr_((d.path_detail, e.path_detail)))
            continue
        dd = {keyed(detail_items(x)): x['path_traffic'] for x in d.path_detail.values()}
        ee = {keyed(detail_items(x)): x['path_traffic'] for x in e.path_detail.values()}
        if sorted(dd) != sorted(ee) or len(dd) != len(d.path_detail):
            c.fail('same path detail', repr_((dd, ee)))
            continue
        for k in dd:
            c.check(c.eq(dd[k], ee[k]), 'same path detail traffic')
    for x, y in zip(n.lsps, m.lsps):
        if not lsp_up(x) or not lsp_up(y):
            c.reach('unrouted lsp')
            c.check(not lsp_up(x) and not lsp_up(y) and x.path == y.path, 'same routability of the LSP', repr_((x.path, y.path)))
            c.check(isinstance(x.reserved_bandwidth, str) and x.reserved_bandwidth == y.reserved_bandwidth, 'nothing reserved by an unrouted LSP')
        else:
            c.check(keyed(x.path['interfaces']) == keyed(y.path['interfaces']), 'same LSP path', repr_((x.path, y.path)))
            c.check(x.path['path_cost'] == y.path['path_cost'], 'same LSP path cost')
            c.check(c.eq(x.path['baseline_path_reservable_bw'], y.path['baseline_path_reservable_bw']), 'same LSP headroom')
            c.check(c.eq(x.reserved_bandwidth, y.reserved_bandwidth), 'same LSP reservation')
            em, en = x.effective_metric(n.model), y.effective_metric(m.model)
            c.check(em == en, 'same effective metric', repr_((em, en)))
        if c.isnum(x.setup_bandwidth) and c.isnum(y.setup_bandwidth):
            c.check(c.eq(x.setup_bandwidth, y.setup_bandwidth), 'same setup bandwidth')
        else:
            c.check(x.setup_bandwidth == y.setup_bandwidth, 'same setup bandwidth')
    for f in ('parallel_lsp_groups', 'parallel_demand_groups'):
        g, h = getattr(n.model, f)(), getattr(m.model, f)()
        nm = lambda l: sorted(getattr(x, 'lsp_name', None) or x.name for x in l)    # noqa
        c.check(sorted((k, nm(v)) for k, v in g.items()) == sorted((k, nm(v)) for k, v in h.items()), 'same groups: ' + f, repr_((g, h)))
    pr = lambda z: sorted((k.interface_a._key, k.interface_b._key) if k.interface_a._key < k.interface_b._key else     # noqa
                          (k.interface_b._key, k.interface_a._key) for k in z.circuit_objects)
    c.check(pr(n.model) == pr(m.model), 'same circuits', repr_((pr(n.model), pr(m.model))))
    c.reach('same')


def lenient(c, n, label, fn, *a):
    """While a shared-risk group is failed, restoring may be refused with the library's own error (C12)."""
    if any(g.failed for g in n.model.srlg_objects):
        ok, e = raises(fn, *a)
        if ok and not isinstance(e, ModelException):
            raise e
        return
    attempt(c, label, fn, *a)


def val(c, n, kind, name, lo, hi, fixed):
    return getattr(c, kind)(name, lo, hi) if n.free else fixed


class H(object):
    """The operations of a history.  Each takes (c, n, t) with t the step number; the model's API is used where there is one."""

    def sim(c, n, t):
        return simulate(c, n)

    def fail(c, n, t):
        a = c.pick([p[0] for p in n.ckts[:2]], 'which_%d' % t)
        attempt(c, 'failing an interface does not raise', n.model.fail_interface, a.name, a.node_object.name)

    def restore(c, n, t):
        a = c.pick([p[1] for p in n.ckts[:2]], 'which_%d' % t)
        lenient(c, n, 'restoring an interface does not raise', n.model.unfail_interface, a.name, a.node_object.name)

    def failnode(c, n, t):
        attempt(c, 'failing a node does not raise', n.model.fail_node, n.nodes['B'].name)

    def restorenode(c, n, t):
        lenient(c, n, 'restoring a node does not raise', n.model.unfail_node, n.nodes['B'].name)

    def demand(c, n, t):
        ab = c.pick(n.ends, 'which_%d' % t)
        attempt(c, 'adding a demand does not raise', n.model.add_demand, n.nodes[ab[0]].name, n.nodes[ab[1]].name, val(c, n, 'real', 'traffic_n%d' % t, 0, 1000, 40 + t), 'n%d' % t)
        n.demands += [d for d in n.model.demand_objects if not member(d, n.demands)]

    def traffic(c, n, t):
        if n.demands:
            n.demands[0].traffic = val(c, n, 'real', 'traffic_c%d' % t, 0, 1000, 55 + t)

    def dropdemand(c, n, t):
        if n.demands:
            n.model.demand_objects.remove(n.demands.pop())

    def lsp(c, n, t):
        ab = c.pick(n.ends, 'which_%d' % t)
        attempt(c, 'adding an LSP does not raise', n.model.add_rsvp_lsp, n.nodes[ab[0]].name, n.nodes[ab[1]].name, 'm%d' % t)
        new = [x for x in n.model.rsvp_lsp_objects if not member(x, n.lsps)]
        n.lsps += new
        n.metrics += [None] * len(new)

    def bw(c, n, t):
        if n.lsps:
            n.lsps[0].configured_setup_bandwidth = val(c, n, 'real', 'bw_c%d' % t, 0, 1000, 25 + t)

    def metric(c, n, t):
        if n.lsps:
            n.metrics[0] = val(c, n, 'int', 'metric_c%d' % t, 1, 1000, 2 + 3 * t)
            n.lsps[0].manual_metric = n.metrics[0]

    def droplsp(c, n, t):
        if n.lsps:
            n.model.rsvp_lsp_objects.remove(n.lsps.pop(0))
            n.metrics.pop(0)
            simulate(c, n)       # there is no API for removal: the reservations are stale until the next simulation

    def swaplsp(c, n, t):
        """another LSP in place of the first, between two simulations"""
        if n.lsps:
            n.model.rsvp_lsp_objects.remove(n.lsps.pop(0))
            n.metrics.pop(0)
        ab = c.pick(n.ends, 'which_%d' % t)
        add_lsp(n, ab[0], ab[1], 's%d' % t)
        n.metrics.append(None)
        n.model.rsvp_lsp_objects.add(n.lsps[-1])
        simulate(c, n)

    def swapdemand(c, n, t):
        """another demand in place of the last"""
        if n.demands:
            n.model.demand_objects.remove(n.demands.pop())
        ab = c.pick(n.ends, 'which_%d' % t)
        add_demand(n, ab[0], ab[1], val(c, n, 'real', 'traffic_s%d' % t, 0, 1000, 35 + t), 's%d' % t)
        n.model.demand_objects.add(n.demands[-1])

    def swapfail(c, n, t):
        """what is failed is restored and another circuit fails"""
        down = [p for p in n.ckts if p[0].failed]
        others = [p for p in n.ckts if not p[0].failed]
        for a, b in down:
            lenient(c, n, 'restoring an interface does not raise', n.model.unfail_interface, a.name, a.node_object.name)
        if others:
            a = c.pick([p[0] for p in others], 'which_%d' % t)
            attempt(c, 'failing an interface does not raise', n.model.fail_interface, a.name, a.node_object.name)

    def swapcost(c, n, t):
        """costs move between interfaces"""
        j = 2 + c.choose(len(n.ifs) - 2, 'which_%d' % t) if len(n.ifs) > 2 else 1
        n.ifs[0].cost, n.ifs[j].cost = n.ifs[j].cost, n.ifs[0].cost

    def swaptraffic(c, n, t):
        if len(n.demands) > 1:
            n.demands[0].traffic, n.demands[1].traffic = n.demands[1].traffic, n.demands[0].traffic

    def swaprsvp(c, n, t):
        k = c.choose(len(n.ckts), 'which_%d' % t)
        for i in n.ckts[k] + n.ckts[(k + 1) % len(n.ckts)]:
            i.rsvp_enabled = not i.rsvp_enabled

    def swapbw(c, n, t):
        if len(n.lsps) > 1:
            a, b = n.lsps[:2]
            a.configured_setup_bandwidth, b.configured_setup_bandwidth = b.configured_setup_bandwidth, a.configured_setup_bandwidth

    def cost(c, n, t):
        n.ifs[0].cost = val(c, n, 'int', 'cost_c%d' % t, 1, 1000, 5 + 2 * t)

    def query(c, n, t):
        m = n.model
        ab = n.ends[0]
        m.get_shortest_path(n.nodes[ab[0]].name, n.nodes[ab[1]].name, needed_bw=val(c, n, 'real', 'bw_q%d' % t, 0, 1000, 30))
        m.parallel_lsp_groups(), m.parallel_demand_groups(), m.simulation_diagnostics()
        for x in n.lsps:
            x.demands_on_lsp(m), x.effective_metric(m)
        for i in n.ifs:
            i.lsps(m), i.reservable_bandwidth

    def rename(c, n, t):
        i = n.ifs[0]
        attempt(c, 'renaming an interface does not raise', n.model.change_interface_name, i.node_object.name, i.name, 'z%d' % t)

    def rsvp(c, n, t):
        for i in n.ckts[0]:
            i.rsvp_enabled = not i.rsvp_enabled

    def capacity(c, n, t):
        cap = 60 + t
        for i in n.ckts[0]:
            i.capacity = cap
            i.percent_reservable_bandwidth = 50
        simulate(c, n)           # reservations held under the old capacity are stale until the next simulation

    def srlg(c, n, t):
        if not n.model.srlg_objects:
            n.model.add_srlg('g')
            n.ckts[0][0].add_to_srlg('g', n.model)
        g = n.model.get_srlg_object('g')
        attempt(c, 'failing or restoring a group does not raise', n.model.unfail_srlg if g.failed else n.model.fail_srlg, 'g')

    def circuit(c, n, t):
        ends = [('A', 'N%d' % t)] if n.cls is PERF else [('A', 'N%d' % t), ('A', 'B')]
        a, b = c.pick(ends, 'which_%d' % t)
        for x in (a, b):
            if x not in n.nodes:
                n.nodes[x] = NS.Node(x)
                n.model.add_node(n.nodes[x])
        attempt(c, 'adding a circuit does not raise', n.model.add_circuit, n.nodes[a], n.nodes[b], 'na%d' % t, 'nb%d' % t, 7, 9, 100, False, 'nc%d' % t)
        new = [i for i in n.model.interface_objects if not member(i, n.ifs)]
        new.sort(key=lambda i: i.name)
        n.ckts.append(tuple(new))
        n.ifs += new

    def shortcut(c, n, t):
        n.nodes['A'].igp_shortcuts_enabled = not n.nodes['A'].igp_shortcuts_enabled


OPS = ['sim', 'fail', 'restore', 'failnode', 'restorenode', 'demand', 'traffic', 'dropdemand', 'lsp', 'bw', 'metric', 'droplsp', 'cost', 'query', 'rename', 'rsvp', 'capacity', 'srlg', 'circuit']
SWAPS = ['swaplsp', 'swapdemand', 'swapfail', 'swapcost', 'swaptraffic', 'swaprsvp', 'swapbw']


def ask(n):
    """Everything a simulated model can be asked."""
    m = n.model
    for i in n.ifs:
        i.utilization, i.traffic, i.reserved_bandwidth, i.reservable_bandwidth, i.lsps(m), i.demands(m), i.get_circuit_object(m), i.get_remote_interface(m)
    for x in n.lsps:
        x.demands_on_lsp(m), x.traffic_on_lsp(m), x.effective_metric(m), x.topology_metric(m), x.manual_metric, x.setup_bandwidth
    for k in n.nodes.values():
        k.interfaces(m), k.adjacent_nodes(m)
    for a, b in n.ends:
        m.get_shortest_path(a, b), m.get_all_paths_reservable_bw(a, b)
    m.get_failed_interface_objects(), m.get_unfailed_interface_objects(), m.get_unrouted_demand_objects(), m.get_orphan_node_objects()
    m.parallel_lsp_groups(), m.parallel_demand_groups(), m.simulation_diagnostics(), m.all_interface_circuit_ids
    m.validate_model()


def no_ties(c, n):
    for a, b in set((x.source_node_object, x.dest_node_object) for x in n.lsps):
        cs = [pcost(p) for p in simple_paths(up(n), a, b)]
        for k in range(len(cs)):
            for l in range(k):
                c.assume(tob(cs[k] != cs[l]))


def mk(cls, links, ends, lsps, dems, steps, costs, cap=100, ops=None, final_sim=2, first=(), shortcuts='', free=True, each=False, asked=False):
    ops = ops or [o for o in OPS if o != 'sim']

    def h(c):
        n = net(c, cls, links, cost=(lambda i, ab, d: costs[i]) if costs else None, symcost=True, cap=cap)
        n.ends = ends
        n.free = free
        n.metrics = []
        for k, (ab, bw, met) in enumerate(lsps):
            m = c.int('metric_%d' % k, 1, 1000) if met else None
            n.metrics.append(m)
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=c.real('bw_%d' % k, 0, 10 ** 7) if bw else None, metric=m)
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % k)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        finish(n)
        if not simulate(c, n):
            return
        if asked:
            ask(n)
        for o in first:
            getattr(H, o)(c, n, 9)
        for t in range(steps):
            o = ops[c.choose(len(ops), 'op_%d' % t)]
            getattr(H, o)(c, n, t)
            if each and t < steps - 1 and not simulate(c, n):
                return
        no_ties(c, n)
        for k in range(final_sim):
            if not simulate(c, n):
                return
        m = clone(c, n)
        if not simulate(c, m):
            return
        compare(c, n, m)
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    E, T = [('A', 'B'), ('B', 'A')], [('A', 'C'), ('C', 'B')]
    AB = ('A', 'B')
    AC = ('A', 'C')
    IGP = ['sim', 'fail', 'restore', 'failnode', 'restorenode', 'demand', 'traffic', 'cost', 'rename', 'query']
    for m, cls in MODELS:
        out += [
            (m + ' edge, free values', mk(cls, 'edge', E, [(AB, False, True), (AB, True, False)], [AB], 1, [1])),
            (m + ' edge, two operations', mk(cls, 'edge', E, [(AB, False, False), (AB, True, False)], [AB], 2, [1], free=False)),
            (m + ' edge, asked before', mk(cls, 'edge', E, [(AB, False, True), (AB, True, False)], [AB], 1, [1], asked=True)),
            (m + ' triangle, asked before', mk(cls, 'tri', T, [(AC, True, False)], [AC, ('C', 'B')], 1, [3, 2, 4], asked=True)),
            (m + ' triangle, igp', mk(cls, 'tri', T, [], [AC], 2, [3, 2, 4], ops=IGP)),
            (m + ' triangle, LSPs', mk(cls, 'tri', T, [(AC, False, False), (AC, True, False)], [AC], 1, [3, 2, 4])),
            (m + ' triangle, free costs', mk(cls, 'tri', T, [(AC, False, True)], [AC], 1, None)),
            (m + ' line, outage', mk(cls, 'line3', [AC, ('B', 'C')], [(AC, True, False)], [AC], 1, [2, 3], first=['failnode', 'sim'], asked=True)),
            (m + ' triangle, exchanges', mk(cls, 'tri', T + [AC], [(AC, True, False), (('C', 'B'), False, False)], [AC, ('C', 'B')], 2, [3, 2, 7],
                                          ops=SWAPS, each=True, final_sim=1, free=False)),
            (m + ' line, two operations and two simulations', mk(cls, 'line3', [AC, AB], [(AC, True, False)], [AC], 2, [2, 3], each=True, final_sim=1, free=False,
                                                                 ops=['fail', 'restore', 'failnode', 'restorenode', 'demand', 'lsp', 'rsvp', 'srlg', 'circuit', 'metric'])),
            (m + ' line, repair', mk(cls, 'line3', [AC], [(AC, True, False)], [AC], 1, [2, 3], first=['fail', 'sim', 'restore'], asked=True)),
        ]
        if deep:
            out += [
                (m + ' edge, two operations, free values', mk(cls, 'edge', E, [(AB, False, True), (AB, True, False)], [AB], 2, [1])),
                (m + ' edge, three operations', mk(cls, 'edge', E, [(AB, False, False)], [AB], 3, [1], free=False)),
                (m + ' triangle, two operations', mk(cls, 'tri', T, [(AC, False, True), (AC, True, False)], [AC], 2, [3, 2, 4], free=False)),
                (m + ' triangle, three exchanges', mk(cls, 'tri', T + [AC], [(AC, False, False), (('C', 'B'), False, False)], [AC], 3, [3, 2, 7],
                                                      ops=SWAPS[:6], each=True, final_sim=1, free=False)),
                (m + ' line, three operations and simulations', mk(cls, 'line3', [AC], [(AC, False, False)], [AC], 3, [2, 3], each=True, final_sim=1, free=False)),
                (m + ' square, exchanges', mk(cls, 'square', [('A', 'D'), ('B', 'D')], [(('A', 'D'), True, False)], [('A', 'D')], 2, [1, 2, 3, 5],
                                              ops=SWAPS + ['fail', 'restore'], each=True, final_sim=1)),
                (m + ' square, two operations', mk(cls, 'square', [('A', 'D'), ('B', 'D')], [(('A', 'D'), True, False)], [('A', 'D')], 2, [1, 2, 3, 4], free=False)),
                (m + ' triangle, free costs, two operations', mk(cls, 'tri', T, [], [AC], 2, None)),
            ]
    out += [
        ('flex shortcuts', mk(FLEX, 'line3', [('A', 'B'), AC], [(AB, False, True)], [AC], 2, [2, 3], shortcuts='A',
                              ops=['fail', 'restore', 'demand', 'lsp', 'metric', 'droplsp', 'shortcut', 'query', 'cost'])),
        ('flex par2', mk(FLEX, 'par2', E, [(AB, True, False)], [AB], 1, [1, 2])),
    ]
    if deep:
        out += [('flex par2, two operations', mk(FLEX, 'par2', E, [(AB, True, False)], [AB], 2, [1, 2])),
                ('flex par2line', mk(FLEX, 'par2line', [AC, AB], [(AC, True, False), (AB, False, False)], [AC], 2, [1, 2, 1], free=False))]
    return out
