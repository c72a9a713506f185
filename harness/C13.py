"""C13: the shortest-path query returns exactly the least-cost paths."""
from .common import *  # noqa

FUNCTIONS = ['get_shortest_path', 'get_shortest_path_for_routed_lsp', '_make_weighted_network_graph', '_make_weighted_network_graph_mdg',
             '_make_weighted_network_graph_routed_lsp', '_convert_nx_path_to_model_path', '_get_all_paths_mdg',
             '_normalize_multidigraph_paths', 'get_interface_object_from_nodes', 'Interface.reservable_bandwidth', 'update_simulation']
BOUNDS = ('<=6 nodes, <=7 circuits, <=3 parallel circuits; costs every integer >= 1 per direction; requested bandwidth zero or any '
          'positive real; per circuit any capacity, failed and RSVP setting where the case says so; up to two routed LSPs with free '
          'bandwidth; queries before and after simulating, between any pair of nodes of the case'
          '; 12 nodes/14 circuits, a 10-node ladder, up to 144 equal-cost paths in series, a line of twenty and 18 two-hop routes with up to three free costs')
REACH = ['no path', 'one', 'several', 'bandwidth asked', 'no bandwidth asked', 'too narrow', 'routed lsp', 'own bandwidth']


def usable(i, bw, own=None):
    """Formula: the query may use this interface."""
    if i.failed:
        return FALSE
    if bw is None:
        return TRUE
    if own is not None:
        if not i.rsvp_enabled:
            return FALSE
        extra = own.reserved_bandwidth if member(i, own.path['interfaces']) else 0
        return tob(i.reservable_bandwidth + extra >= bw)
    return tob(i.reservable_bandwidth >= bw) if i.rsvp_enabled else FALSE


def check_query(c, n, got, src, dst, bw, label, own=None):
    allp = simple_paths([i for i in n.ifs], n.nodes[src], n.nodes[dst])
    if not isinstance(got, dict) or 'path' not in got or 'cost' not in got or not is_list_of_paths(got['path']):
        c.fail(label + ': answer has path and cost', repr_(got))
        return
    idx = []
    for p in got['path']:
        k = find_path(p, allp)
        if k is None or k in idx:
            c.fail(label + ': lists valid paths once', repr_([names(p) for p in got['path']]))
            return
        idx.append(k)
    ok = [And(*[usable(i, bw, own) for i in p]) for p in allp]
    costs = [pcost(p) for p in allp]
    what = repr_((got, [names(p) for p in allp]))
    if not idx:
        c.reach('no path')
        c.check(got['cost'] is None, label + ': no cost without a path', what)
        c.check(And(*[Not(f) for f in ok]), label + ': empty only when no path qualifies', what)
        return
    c.reach('one' if len(idx) == 1 else 'several')
    if len(idx) < len(allp):
        c.reach('too narrow')
    best = costs[idx[0]]
    c.check(c.eq(got['cost'], best, 0), label + ': cost of the paths', what)
    cs = []
    for k in range(len(allp)):
        if k in idx:
            cs += [ok[k], tob(costs[k] == best)]
        else:
            cs.append(Or(Not(ok[k]), tob(costs[k] > best)))
    c.check(And(*cs), label + ': exactly the least-cost qualifying paths', what)
    if own is None:      # rounding ties decide which paths the routed-LSP query sees
        c.observe(label, sorted('.'.join(names(p)) for p in got['path']))


def query(c, n, src, dst, bw, label='query'):
    m = n.model
    if bw is None:
        z = c.choose(2, label + ' zero')
        c.reach('no bandwidth asked')
        ok, got = attempt(c, label + ' does not raise', m.get_shortest_path, n.nodes[src].name, n.nodes[dst].name, *([0] if z else []))
    else:
        c.reach('bandwidth asked')
        ok, got = attempt(c, label + ' does not raise', m.get_shortest_path, n.nodes[src].name, n.nodes[dst].name, needed_bw=bw)
    if ok:
        check_query(c, n, got, src, dst, bw, label)


def mk(cls, links, pairs, bw=True, sym=(), cap=None, costs=None, symcost=False, lsps=(), dems=(), again=False, extra=(), after=None, own=False, pct=None):
    def h(c):
        n = net(c, cls, links, cost=costs if isinstance(costs, Free) else (lambda i, ab, d: costs[i]) if costs else None, symcost=symcost,
                failed='sym' if 'failed' in sym else next((x for x in sym if x.startswith('sym:')), None), rsvp='sym' if 'rsvp' in sym else 'sym2' if 'rsvp2' in sym else None,
                cap=(lambda i, ab: c.real('cap_%d' % i, '1/100', 10 ** 7)) if cap == 'sym' else cap, extra_nodes=extra, pct=pct)
        for k, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=30 if own and k else c.real('lsp_bw_%d' % k, 0, 200))
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 200), 'd%d' % k)
        finish(n)
        if lsps or dems:
            if not simulate(c, n):
                return
        ab = c.pick(pairs, 'pair') if len(pairs) > 1 else pairs[0]
        for t in range(2 if again else 1):
            if bw == 'free':
                w = c.choose(2, 'bandwidth_%d' % t) and c.real('needed_%d' % t, '1/1000', 10 ** 7) or None
            elif bw:
                w = c.real('needed_%d' % t, '1/1000', 10 ** 7)
            else:
                w = None
            if own:
                x = n.lsps[0]
                if not lsp_up(x):
                    c.assume(False)
                c.reach('routed lsp')
                w = c.real('needed_%d' % t, 0, 10 ** 7)
                ok, got = attempt(c, 'query for a routed LSP does not raise', n.model.get_shortest_path_for_routed_lsp,
                                  x.source_node_object.name, x.dest_node_object.name, x, w)
                if ok:
                    if tob(w > 60):
                        c.reach('own bandwidth')
                    check_query(c, n, got, ab[0], ab[1], w, 'query for a routed LSP', x)
            else:
                query(c, n, ab[0], ab[1], w, 'query %d' % t)
            if after and t == 0:
                after(c, n)
    return h


def fail_first(c, n):
    attempt(c, 'failing an interface does not raise', n.model.fail_interface, n.ifs[0].name, n.ifs[0].node_object.name)


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' square costs', mk(cls, 'square', ['AD'], bw=False)),
            (m + ' diamond costs', mk(cls, 'diamond', ['AD', 'DA', 'BC'], bw=False, symcost=True)),
            (m + ' triangle settings, no bandwidth', mk(cls, 'tri', ['AC'], bw=False, sym=('failed', 'rsvp'), cap='sym')),
            (m + ' line rsvp per direction', mk(cls, 'line3', ['AC', 'CA'], bw='free', sym=('rsvp2', 'failed'), symcost=True)),
            (m + ' triangle capacities', mk(cls, 'tri', ['AC'], cap='sym', sym=('failed', 'rsvp'))),
            (m + ' square capacities', mk(cls, 'square', ['AD'], cap='sym')),
            (m + ' triangle reservations', mk(cls, 'tri', ['AC', 'CB'], bw='free', costs=[1, 2, 3], cap=100, lsps=['AC', 'AB'])),
            (m + ' square reservations', mk(cls, 'square', ['AD', 'DA'], bw='free', costs=[1, 2, 2, 1], cap=lambda i, ab: 50 + 10 * i, lsps=['AD'], pct=lambda i, ab: 100 - 20 * (i % 2))),
            (m + ' islands and orphan', mk(cls, 'two', ['AD', 'AB', 'AZ', 'ZA'], bw='free', symcost=True, extra='Z')),
            (m + ' twice around a failure', mk(cls, 'tri', ['AC', 'AB'], bw=False, again=True, after=fail_first, symcost=True)),
            (m + ' busy network', mk(cls, 'tri', ['AC'], bw=False, dems=['AC'], lsps=['AC'], cap=50, symcost=True)),
            (m + ' k4', mk(cls, 'k4', ['AD'], bw=False, symcost=True)),
            (m + ' ring', mk(cls, ['AB', 'BC', 'CD', 'DE', 'AE'], ['AE', 'BE'], bw='free', symcost=True, cap=lambda i, ab: 40 + 10 * i)),
            (m + ' big', mk(cls, 'big', ['AL', 'LA', 'BK', 'HJ', 'CE'], bw=False, costs=Free({6, 10, 11}), sym=('sym:2,9',))),
            (m + ' many equal paths', mk(cls, 'chain', ['AP', 'MA'], bw=False, costs=Free({2, 17}))),
            (m + ' a hundred equal paths', mk(cls, 'chain7', ['AV'], bw=False, costs=Free({2}))),
            (m + ' long line', mk(cls, 'line20', ['AT', 'TB'], bw='free', costs=Free({4}), cap=lambda i, ab: 100 - i)),
            (m + ' many routes', mk(cls, 'fanout', ['AZ'], bw='free', costs=Free({0, 5}), cap=lambda i, ab: 40 + 10 * (i % 3))),
            (m + ' big reservations', mk(cls, 'ladder', ['AF', 'BI'], bw=True, costs=Free({0}), cap=lambda i, ab: 60 + 40 * (i % 3), lsps=['AF'])),
            (m + ' routed lsp', mk(cls, 'tri', ['AC'], own=True, lsps=['AC', 'AB'], cap=100, costs=[1, 1, 3])),
            (m + ' routed lsp, free costs', mk(cls, 'tri', ['AC'], own=True, lsps=['AC'], cap=lambda i, ab: 60 + 50 * (i % 2), symcost=True)),
        ]
        if deep:
            out += [
                (m + ' k4, free both ways', mk(cls, 'k4', ['AD'], bw=False)),
                (m + ' k4 capacities', mk(cls, 'k4', ['AD'], cap='sym', symcost=True)),
                (m + ' fan', mk(cls, 'fan', ['AF', 'FA'], bw=False, symcost=True)),
                (m + ' diamond settings', mk(cls, 'diamond', ['AD'], bw='free', sym=('failed', 'rsvp'), symcost=True)),
                (m + ' diamond reservations', mk(cls, 'diamond', ['AD', 'DA'], bw='free', costs=[1, 2, 2, 1, 1], cap=100, lsps=['AD', 'BD'])),
                (m + ' square routed lsp', mk(cls, 'square', ['AD'], own=True, lsps=['AD', 'AD'], cap=lambda i, ab: 60 + 50 * (i % 2), costs=[1, 2, 2, 1])),
            ]
    out += [
        ('flex a hundred parallel paths', mk(FLEX, 'par664', ['AD'], bw='free', costs=Free({3}), cap=lambda i, ab: 40 + 10 * (i % 3))),
        ('flex par3', mk(FLEX, 'par3', ['AB'], bw='free', cap='sym')),
        ('flex partri', mk(FLEX, 'partri', ['AC'], bw='free', cap='sym')),
        ('flex par22 settings', mk(FLEX, 'par22', ['AC'], bw='free', sym=('failed', 'rsvp'), symcost=True)),
        ('flex par2line reservations', mk(FLEX, 'par2line', ['AC', 'AB'], bw='free', costs=[1, 1, 2], cap=lambda i, ab: 60 + 20 * i, lsps=['AC', 'AB'])),
        ('flex par2line routed lsp', mk(FLEX, 'par2line', ['AC'], own=True, costs=[1, 2, 2], cap=lambda i, ab: 60 + 20 * i, lsps=['AC'])),
    ]
    if deep:
        out += [
            ('flex partri2', mk(FLEX, 'partri2', ['AC'], bw='free', cap='sym', symcost=True)),
            ('flex parsq', mk(FLEX, 'parsq', ['AD'], bw='free', sym=('failed', 'rsvp'), symcost=True)),
            ('flex par22 capacities', mk(FLEX, 'par22', ['AC'], bw='free', cap='sym')),
            ('flex par22 routed lsp', mk(FLEX, 'par22', ['AC'], own=True, symcost=True, cap=lambda i, ab: 60 + 20 * i, lsps=['AC'])),
        ]
    return out
