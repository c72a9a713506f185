"""C01: demands take exactly the set of least-cost IGP paths."""
from .common import *  # noqa

FUNCTIONS = ['update_simulation', '_route_demands', '_make_weighted_network_graph', '_make_weighted_network_graph_mdg',
             '_get_all_paths_mdg', '_normalize_multidigraph_paths', '_convert_graph_path_to_model_path',
             'get_interface_object_from_nodes', 'get_unrouted_demand_objects', 'validate_model', '_update_interface_utilization']
BOUNDS = ('<=7 nodes, <=8 circuits, <=3 parallel circuits (shapes in harness/common.py); costs: every integer >= 1 per direction; '
          '1-2 demands, optionally one routed LSP elsewhere; every failed/RSVP/absent combination of circuits where the case says so; '
          'capacities and traffic: every positive / non-negative real'
          '; beyond these, fixed-cost networks with a few free costs or failures: 12 nodes/14 circuits, a 10-node ladder, up to 144 equal-cost paths in series, a line of twenty, 18 two-hop routes, 20 parallel links')
REACH = ['unrouted', 'ecmp', 'single']


def verify(c, n, demands=None):
    unrouted = n.model.get_unrouted_demand_objects()
    want = []
    for d in demands or n.demands:
        allp = simple_paths(up(n), d.source_node_object, d.dest_node_object)
        if not allp:
            c.reach('unrouted')
            want.append(d)
            c.check(isinstance(d.path, str) and d.path == 'Unrouted', 'unrouted when disconnected', repr_(d.path))
            continue
        if check_best_set(c, d.path, allp, 'demand path'):
            c.reach('ecmp' if len(d.path) > 1 else 'single')
    c.check(same_objs([d for d in unrouted if member(d, demands or n.demands)], want), 'unrouted demands listed', repr_(unrouted))
    for i, d in enumerate(demands or n.demands):
        c.observe('paths %d' % i, sorted('.'.join(names(p)) for p in d.path) if is_list_of_paths(d.path) else d.path)


def mk(cls, links, dem, sym=(), fixed_cost=None, extra=(), symcost=False, lsp=None, load_=False):
    def h(c):
        n = net(c, cls, links, cost=fixed_cost, symcost=symcost, failed='sym' if 'failed' in sym else next((x for x in sym if x.startswith('sym:')), None),
                rsvp='sym' if 'rsvp' in sym else 'sym2' if 'rsvp2' in sym else None,
                present='sym' if 'present' in sym else None, extra_nodes=extra,
                cap=(lambda i, ab: c.real('cap_%d' % i, '1/100', 1000)) if load_ else None)
        for k, ab in enumerate(dem):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0) if load_ else 10, 'd%d' % k)
        if lsp:
            add_lsp(n, lsp[0], lsp[1], 'l', bw=c.real('bw', 0) if load_ else 1)
        finish(n)
        if simulate(c, n):
            verify(c, n)
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' square free costs', mk(cls, 'square', ['AD'])),
            (m + ' square failures', mk(cls, 'square', ['AD'], ('failed', 'rsvp'))),
            (m + ' triangle failures+rsvp', mk(cls, 'tri', ['AB'], ('failed', 'rsvp'))),
            (m + ' line failures', mk(cls, 'line3', ['AC', 'CA'], ('failed',), extra='Z')),
            (m + ' line rsvp per direction', mk(cls, 'line3', ['AC'], ('rsvp2',), symcost=True)),
            (m + ' diamond', mk(cls, 'diamond', ['AD'])),
            (m + ' diamond both ways', mk(cls, 'square', ['AD', 'DA'])),
            (m + ' diamond failures', mk(cls, 'diamond', ['AD'], ('failed',), symcost=True)),
            (m + ' line, any traffic', mk(cls, 'line3', ['AC', 'AB'], ('failed',), load_=True)),
            (m + ' two islands', mk(cls, 'two', ['AD', 'AB'], ('failed',), symcost=True)),
            (m + ' three routes', mk(cls, 'three', ['AE'], symcost=True)),
            (m + ' k4', mk(cls, 'k4', ['AD'], symcost=True)),
            (m + ' uneven fan', mk(cls, 'fan', ['AF'], symcost=True)),
            (m + ' diamonds in series', mk(cls, 'bow', ['AG'], symcost=True)),
            (m + ' triangle over-subscribed', mk(cls, 'tri', ['AB', 'BC'], symcost=True, load_=True, lsp='AC')),
            (m + ' triangle rsvp beside lsp', mk(cls, 'tri', ['AB', 'CB'], ('rsvp',), symcost=True, lsp='AC')),
            (m + ' line rsvp per direction, lsp', mk(cls, 'line3', ['AC', 'CA'], ('rsvp2',), symcost=True, lsp='AB')),
            (m + ' big', mk(cls, 'big', ['AL', 'LA', 'BK', 'GL', 'AG', 'HJ', 'CE'], ('sym:2,9',), fixed_cost=Free({6, 10, 11}))),
            (m + ' many equal paths', mk(cls, 'chain', ['AP', 'PA', 'AM'], fixed_cost=Free({2, 17}))),
            (m + ' a hundred equal paths', mk(cls, 'chain7', ['AV'], fixed_cost=Free({2}))),
            (m + ' long line', mk(cls, 'line20', ['AT', 'TB'], ('sym:4',), fixed_cost=Free({4}))),
            (m + ' many routes', mk(cls, 'fanout', ['AZ'], ('sym:3',), fixed_cost=Free({0, 5}))),
            (m + ' ladder', mk(cls, 'ladder', ['AF', 'FA', 'BI', 'CJ'], fixed_cost=Free({0, 4, 7}))),
            (m + ' triangle demand beside lsp', mk(cls, 'tri', ['AB'], ('failed',), symcost=True, lsp='AC')),
        ]
        if deep:
            out += [
                (m + ' k4 structure', mk(cls, 'k4', ['AD'], ('present',), symcost=True)),
                (m + ' k4 directed costs', mk(cls, 'k4', ['AD'])),
                (m + ' k4 failures', mk(cls, 'k4', ['AD', 'DA'], ('failed',), symcost=True)),
                (m + ' fan failures', mk(cls, 'fan', ['AF'], ('failed',), symcost=True)),
                (m + ' diamond two demands', mk(cls, 'diamond', ['AD', 'BC'])),
                (m + ' bow failures', mk(cls, 'bow', ['AG'], ('failed',), symcost=True)),
                (m + ' house', mk(cls, ['AB', 'BC', 'CD', 'DE', 'EA', 'BE', 'AC'], ['AD'], symcost=True)),
                (m + ' grid', mk(cls, ['AB', 'BC', 'AD', 'BE', 'CF', 'DE', 'EF'], ['AF'], symcost=True)),
            ]
    for l, d in (('par3', ['AB']), ('partri', ['AC']), ('par22', ['AC']), ('parsq', ['AD'])):
        out.append(('flex %s' % l, mk(FLEX, l, d)))
    out.append(('flex partri failures+rsvp', mk(FLEX, 'partri', ['AB'], ('failed', 'rsvp'), symcost=True)))
    out.append(('flex par22 failures', mk(FLEX, 'par22', ['AC'], ('failed',))))
    out.append(('flex partri2', mk(FLEX, 'partri2', ['AC'], symcost=True)))
    out.append(('flex a hundred parallel paths', mk(FLEX, 'par664', ['AD'], fixed_cost=Free({3}))))
    out.append(('flex many parallel', mk(FLEX, 'par20', ['AB'], ('sym:3',), fixed_cost=Free({0, 19}))))
    out.append(('flex parallel in series', mk(FLEX, ['AB', 'AB', 'BC', 'BC', 'CD', 'CD', 'DE', 'DE', 'EF', 'EF'], ['AF'], fixed_cost=Free({1, 8}))))
    out.append(('flex big parallel', mk(FLEX, 'bigpar', ['AH', 'HA', 'BG'], ('sym:0,8',), fixed_cost=Free({1, 2, 9}))))
    if deep:
        out.append(('flex partri2 failures', mk(FLEX, 'partri2', ['AC'], ('failed',))))
        out.append(('flex parsq failures', mk(FLEX, 'parsq', ['AD'], ('failed', 'rsvp'), symcost=True)))
        out.append(('flex par3 chain', mk(FLEX, ['AB', 'AB', 'AB', 'BC', 'BC'], ['AC'])))
        out.append(('flex double square', mk(FLEX, ['AB', 'AB', 'BD', 'BD', 'AC', 'CD'], ['AD'], symcost=True)))
    return out
