"""C05: LSPs follow the cheapest feasible path, and only exist if one does."""
from .common import *  # noqa

FUNCTIONS = ['update_simulation', '_determine_lsp_state_info', '_make_weighted_network_graph', '_make_weighted_network_graph_mdg',
             '_convert_graph_path_to_model_path', '_get_all_paths_mdg', '_normalize_multidigraph_paths', '_add_lsp_path_data',
             'RSVP_LSP.find_rsvp_path_w_bw', 'get_shortest_path_for_routed_lsp', '_make_weighted_network_graph_routed_lsp',
             'RSVP_LSP.topology_metric', 'RSVP_LSP.traffic_on_lsp']
BOUNDS = ('single LSP: costs every integer >= 1 (per direction on small shapes), capacity every integer in [1, 10^6], setup bandwidth every '
          'real in [0, 10^6], reservable percentage, RSVP and failures where the case says so; two or three LSPs: bandwidths on the 0.1 '
          'grid, integer capacities, every processing order and tie-break, outcome explained by some signalling order; re-signalled '
          'LSPs: fewest hops not required'
          '; a 12-node network and a 10-node ladder with up to two free costs and fixed capacities')
REACH = ['routed', 'unrouted', 'tie', 'contention', 'resignalled']


def only_lsp(c, n, x):
    """One LSP: the best feasible path, or none feasible."""
    allp = simple_paths(rsvp_up(n), x.source_node_object, x.dest_node_object)
    bw = x.configured_setup_bandwidth
    if bw is None:
        bw = group_traffic(n, x)
    left = share_of
    if not lsp_up(x):
        c.reach('unrouted')
        c.check(isinstance(x.path, str) and x.path == 'Unrouted', 'unrouted LSP says so', repr_(x.path))
        c.check(And(*[Not(fits(p, bw, left)) for p in allp]), 'unrouted only if no path has the bandwidth')
        c.check(isinstance(x.reserved_bandwidth, str) and x.reserved_bandwidth == 'Unrouted', 'unrouted LSP reserves nothing', repr_(x.reserved_bandwidth))
        c.check(x.topology_metric(n.model) == 'Unrouted', 'unrouted LSP has no topology metric')
        for i in n.ifs:
            c.check(c.eq(i.reserved_bandwidth, 0), 'nothing reserved for an unrouted LSP')
        for d in n.demands:
            if routed(d):
                c.check(not any(it is x for p in d.path for it in p), 'unrouted LSP carries nothing')
        return
    c.reach('routed')
    if not check_chain(c, x):
        return
    p = x.path['interfaces']
    if find_path(p, allp) is None:
        c.fail('LSP path is a usable path', repr_(names(p)))
        return
    c.check(best_feasible(p, allp, bw, left), 'LSP path is the cheapest path with the bandwidth, with fewest hops', repr_(names(p)))
    b = x.path['baseline_path_reservable_bw']
    c.check(And(*([tob(b <= left(i)) for i in p] + [Or(*[tob(b == left(i)) for i in p])])), 'path headroom when signalled')
    c.check(x.topology_metric(n.model) == pcost(p), 'topology metric is the path cost')
    c.check(c.eq(x.reserved_bandwidth, bw), 'reserves its setup bandwidth')
    c.observe('path', names(p))
    c.observe('cost', x.path['path_cost'])


def single(cls, links, ab, symcost=True, failed=False, rsvp=None, pct=False, cost=None, auto=False, cap=None):
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=symcost, failed='sym' if failed is True else failed or None, rsvp=rsvp,
                cap=100 if pct else cap or (lambda i, l: c.int('cap_%d' % i, 1, 10 ** 6)),
                pct=(lambda i, l: c.int('pct_%d' % i, 0, 100)) if pct else None)
        x = add_lsp(n, ab[0], ab[1], 'l', bw=None if auto else c.real('bw', 0, 10 ** 6))
        add_demand(n, ab[0], ab[1], c.real('traffic', 0, 10 ** 6) if auto else 5)
        finish(n)
        if simulate(c, n):
            only_lsp(c, n, x)
    return h


def explain(n, seq, bws, allp):
    """Formula: signalling the LSPs in this order gives the outcome."""
    used = {}
    cs = []

    def left(i):
        return share_of(i) - used.get(id(i), 0)
    for k in seq:
        x, bw = n.lsps[k], bws[k]
        if lsp_up(x):
            cs.append(best_feasible(x.path['interfaces'], allp[k], bw, left))
            for i in x.path['interfaces']:
                used[id(i)] = used.get(id(i), 0) + bw
        else:
            cs += [Not(fits(p, bw, left)) for p in allp[k]]
    return And(*cs)


def several(cls, links, lsps, cost=1, cap='sym', autos=(), failed=False):
    """LSPs that are alone in their group or have a configured bandwidth (no re-signalling)."""
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=True, cap=(lambda i, l: c.int('cap_%d' % i, 1, 10 ** 6)) if cap == 'sym' else cap,
                failed='sym' if failed else None)
        bws = []
        for k, ab in enumerate(lsps):
            bw = c.dec('bw_%d' % k, 0, 10 ** 6)
            bws.append(bw)
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=None if k in autos else bw)
            if k in autos:
                add_demand(n, ab[0], ab[1], bw, 'd%d' % k)
        order(c, n.lsps, 'lsp')
        finish(n)
        if not simulate(c, n):
            return
        allp = [simple_paths(rsvp_up(n), x.source_node_object, x.dest_node_object) for x in n.lsps]
        for k, x in enumerate(n.lsps):
            if lsp_up(x):
                c.reach('routed')
                if not check_chain(c, x):
                    return
                if find_path(x.path['interfaces'], allp[k]) is None:
                    c.fail('LSP path is a usable path', repr_(names(x.path['interfaces'])))
                    return
                c.check(c.eq(x.reserved_bandwidth, bws[k]), 'reserves its setup bandwidth')
            else:
                c.reach('contention')
        c.check(Or(*[explain(n, s, bws, allp) for s in perms(range(len(n.lsps)))]), 'some signalling order explains the LSP paths',
                repr_([names(x.path['interfaces']) if lsp_up(x) else None for x in n.lsps]))
    return h


def resignal(cls, links, ab, cost=None, cap='sym', nl=2):
    """One group of automatic LSPs: when just one routes, it moves to the cheapest path with room for all of the traffic, if any."""
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=True, cap=(lambda i, l: c.int('cap_%d' % i, 1, 10 ** 6)) if cap == 'sym' else cap)
        t = c.dec('traffic', 0, 10 ** 6) * nl
        for k in range(nl):
            add_lsp(n, ab[0], ab[1], 'l%d' % k)
        add_demand(n, ab[0], ab[1], t)
        order(c, n.lsps, 'lsp')
        finish(n)
        if not simulate(c, n):
            return
        up_ = [x for x in n.lsps if lsp_up(x)]
        allp = simple_paths(rsvp_up(n), n.nodes[ab[0]], n.nodes[ab[1]])
        for x in up_:
            if not check_chain(c, x):
                return
            if find_path(x.path['interfaces'], allp) is None:
                c.fail('LSP path is a usable path', repr_(names(x.path['interfaces'])))
                return
        if not up_:
            c.reach('unrouted')
            c.check(And(*[Not(fits(p, t / nl, share_of)) for p in allp]), 'unrouted only if no path has the bandwidth')
        elif len(up_) == 1:
            c.reach('resignalled')
            x = up_[0]
            p = x.path['interfaces']
            room = Or(*[fits(q, t, share_of) for q in allp])
            c.check(Or(And(room, tob(x.reserved_bandwidth == t), best_feasible(p, allp, t, share_of, hops=False)),
                       And(Not(room), tob(x.reserved_bandwidth == t / nl), best_feasible(p, allp, t / nl, share_of))),
                    'a lone routed LSP re-signals for the whole traffic over the cheapest path that fits', repr_(names(p)))
        elif len(up_) == nl:
            c.reach('routed')
            res = explain_same(n, t / nl, allp)
            c.check(res, 'some signalling order explains the LSP paths')
    return h


def explain_same(n, bw, allp):
    return Or(*[explain(n, s, [bw] * len(n.lsps), [allp] * len(n.lsps)) for s in perms(range(len(n.lsps)))])


def tie(cls):
    """Equal-cost routes of different length: the shorter one."""
    def h(c):
        n = net(c, cls, ['AB', 'BC', 'AC'], cost=lambda i, ab, d: [1, 1, 2][i], cap=lambda i, l: c.int('cap_%d' % i, 1, 1000))
        x = add_lsp(n, 'A', 'C', 'l', bw=c.real('bw', 0, 1000))
        finish(n)
        if simulate(c, n):
            only_lsp(c, n, x)
            c.reach('tie')
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' triangle', single(cls, 'tri', 'AC', symcost=False)),
            (m + ' square', single(cls, 'square', 'AD')),
            (m + ' diamond', single(cls, 'diamond', 'AD')),
            (m + ' square share', single(cls, 'square', 'AD', pct=True, cost=1)),
            (m + ' triangle rsvp and failures', single(cls, 'tri', 'AB', rsvp='sym', failed=True)),
            (m + ' triangle rsvp per direction', single(cls, 'tri', 'AC', rsvp='sym2', cost=3)),
            (m + ' square automatic', single(cls, 'square', 'AD', auto=True)),
            (m + ' hops tie', tie(cls)),
            (m + ' square two configured', several(cls, 'square', ['AD', 'AD'])),
            (m + ' square two groups', several(cls, 'square', ['AD', 'CB'], autos=(0,))),
            (m + ' line contention', several(cls, 'line3', ['AC', 'AB', 'BC'], autos=(1,))),
            (m + ' triangle contention', several(cls, 'tri', ['AB', 'AC'], cost=None)),
            (m + ' edge resignal', resignal(cls, 'edge', 'AB', cost=1)),
            (m + ' square resignal', resignal(cls, 'square', 'AD')),
            (m + ' big', single(cls, 'big', 'AL', failed='sym:9', cost=Free({6, 7}), cap=lambda i, l: 100 - i if i > 6 else 120)),
            (m + ' ladder', single(cls, 'ladder', 'AF', cost=Free({0, 6}), cap=lambda i, l: [100, 60, 100, 130, 100, 70, 60, 80, 100, 60][i])),
            (m + ' ladder contention', several(cls, 'ladder', ['AF', 'CJ'], cap=lambda i, l: [100, 60, 100, 130, 100, 70, 60, 60, 100, 60][i])),
            (m + ' detour resignal', resignal(cls, ['AB', 'BC', 'CD', 'BE', 'ED'], 'AD', cost=1, cap=lambda i, l: [100, 45, 100, 110, 100][i])),
            (m + ' detour resignal, free capacities', resignal(cls, ['AB', 'BC', 'CD', 'BE', 'ED'], 'AD', cost=lambda i, ab, d: [1, 1, 1, 1, 3][i])),
            (m + ' triangle resignal three', resignal(cls, 'tri', 'AB', cost=1, nl=3, cap=lambda i, l: [100, 40, 70][i])),
        ]
        if deep:
            out += [
                (m + ' ladder contention of three', several(cls, 'ladder', ['AF', 'FA', 'AF'], cap=lambda i, l: [100, 60, 100, 130, 100, 70, 60, 60, 100, 60][i])),
                (m + ' k4', single(cls, 'k4', 'AD')),
                (m + ' diamond failures', single(cls, 'diamond', 'AD', failed=True, rsvp='sym')),
                (m + ' diamond share', single(cls, 'diamond', 'AD', pct=True)),
                (m + ' square three configured', several(cls, 'square', ['AD', 'AD', 'AD'])),
                (m + ' diamond three', several(cls, 'diamond', ['AD', 'AD', 'BC'], autos=(2,))),
                (m + ' square costs', several(cls, 'square', ['AD', 'AB'], cost=None)),
                (m + ' diamond resignal', resignal(cls, 'diamond', 'AD')),
                (m + ' fan', single(cls, 'fan', 'AF', cost=1)),
            ]
    out += [
        ('flex par2', single(FLEX, 'par2', 'AB', symcost=False)),
        ('flex par22', single(FLEX, 'par22', 'AC')),
        ('flex partri', single(FLEX, 'partri', 'AC')),
        ('flex par2 two', several(FLEX, 'par2', ['AB', 'AB'], cost=None)),
        ('flex par2line contention', several(FLEX, 'par2line', ['AC', 'AB'])),
        ('flex par2 resignal', resignal(FLEX, 'par2', 'AB')),
        ('flex par2line resignal', resignal(FLEX, 'par2line', 'AC', cost=1)),
    ]
    if deep:
        out += [
            ('flex par3', single(FLEX, 'par3', 'AB', rsvp='sym', failed=True)),
            ('flex partri2', single(FLEX, 'partri2', 'AC')),
            ('flex par22 resignal', resignal(FLEX, 'par22', 'AC')),
            ('flex par2 three', several(FLEX, 'par2', ['AB', 'AB', 'AB'], cost=None)),
        ]
    return out
