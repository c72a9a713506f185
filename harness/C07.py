"""C07: demands ride the routed LSPs with the lowest effective metric."""
from .common import *  # noqa

FUNCTIONS = ['update_simulation', '_route_demands', '_update_interface_utilization', '_update_int_traffic_for_end_to_end_lsps',
             '_lsp_routed_demand_path_detail', 'RSVP_LSP.effective_metric', 'RSVP_LSP.manual_metric', 'get_shortest_path',
             'parallel_lsp_groups', '_make_weighted_network_graph', '_make_weighted_network_graph_mdg']
BOUNDS = ('up to three LSPs per group; metrics: every integer >= 1 through every sequence of up to three assignments (constructor, '
          'setter, clear); costs: every integer >= 1; traffic: every real >= 0; failures and RSVP switches where the case says so'
          '; twenty LSPs between two nodes, six on a line of six and a 10-node ladder with one or two free costs')
REACH = ['manual', 'default', 'tie', 'lower metric', 'cleared', 'unrouted lsp', 'no lsp', 'lsp dearer than igp']


def set_metric(c, n, k, ab, ops):
    """Build LSP k and give it a metric by a chosen sequence; returns (lsp, expected manual metric or None)."""
    mode = c.choose(len(ops), 'metric_op_%d' % k) if len(ops) > 1 else 0
    op = ops[mode]
    m0, m1, m2 = [c.int('metric_%d_%s' % (k, s), 1, 10 ** 6) if t in op else None for s, t in (('a', 'i'), ('b', 's'), ('c', 't'))]
    bw = c.real('bw_%d' % k, 0, 1000) if 'w' in op else None
    x = add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=bw, metric=m0)
    want = m0
    for o in op:
        if o == 's':
            x.manual_metric = m1
            want = m1
        elif o == 't':
            x.manual_metric = m2
            want = m2
        elif o == 'c':
            x.manual_metric = -1
            want = None
            c.reach('cleared')
        elif o == 'r':
            c.check(same_metric(x.manual_metric, want), 'manual metric reads back the last value set', repr_(x.manual_metric))
    return x, want


def same_metric(got, want):
    if want is None:
        return tob(isinstance(got, str) and got == 'not set')
    return tob(got == want)


def igp(n, x):
    ps = simple_paths(up(n), x.source_node_object, x.dest_node_object)
    return [pcost(p) for p in ps]


def verify(c, n, want):
    mets = {}
    for x, w in zip(n.lsps, want):
        c.check(same_metric(x.manual_metric, w), 'manual metric is the last value set', repr_(x.manual_metric))
        if not lsp_up(x):
            c.reach('unrouted lsp')
            continue
        ok, em = attempt(c, 'effective metric does not raise', x.effective_metric, n.model)
        if not ok:
            return
        if not c.isnum(em):
            c.fail('effective metric is a number', repr_(em))
            return
        if w is not None:
            c.reach('manual')
            c.check(em == w, 'effective metric is the manual metric')
        else:
            c.reach('default')
            costs = igp(n, x)
            c.check(And(*([tob(em <= k) for k in costs] + [Or(*[tob(em == k) for k in costs])])),
                    'effective metric is the shortest IGP cost')
            if tob(x.path['path_cost'] > em):
                c.reach('lsp dearer than igp')
        mets[id(x)] = em
    for d in n.demands:
        mine = [x for x in n.lsps if lsp_up(x) and x.source_node_object is d.source_node_object and x.dest_node_object is d.dest_node_object]
        if not mine:
            c.reach('no lsp')
            if routed(d):
                c.check(not any(is_lsp(it) for p in d.path for it in p), 'LSPs with other ends are not used', repr_(d.path))
            continue
        if not routed(d) or not is_list_of_paths(d.path) or not all(len(p) == 1 and member(p[0], mine) for p in d.path):
            c.fail('a demand with a matching routed LSP rides matching LSPs only', repr_(d.path))
            continue
        used = [p[0] for p in d.path]
        if len(set(id(x) for x in used)) != len(used) or not used:
            c.fail('each LSP is used once', repr_(d.path))
            continue
        best = mets[id(used[0])]
        cs = []
        for x in mine:
            if member(x, used):
                cs.append(tob(mets[id(x)] == best))
            else:
                cs.append(tob(mets[id(x)] > best))
        c.check(And(*cs), 'exactly the matching LSPs with the lowest metric are used', repr_(d.path))
        if len(used) > 1:
            c.reach('tie')
        if len(used) < len(mine):
            c.reach('lower metric')
        det = d.path_detail
        if not isinstance(det, dict) or len(det) != len(used):
            c.fail('one path detail entry per LSP', repr_(det))
            continue
        seen = []
        for info in det.values():
            items = detail_items(info)
            if len(items) != 1 or not member(items[0], used) or member(items[0], seen):
                c.fail('path detail names the LSPs', repr_(det))
                break
            seen.append(items[0])
            c.check(c.eq(info['path_traffic'], d.traffic / len(used), Fraction(1, 10000)), 'the demand is split evenly over the LSPs')
        c.observe('used %s' % d.name, sorted(x.lsp_name for x in used))
    want_load = total_load(n)
    for i in n.ifs:
        if not i.failed:
            c.check(c.eq(i.traffic, want_load.get(id(i), 0), Fraction(1, 10) * (1 + len(n.demands))), 'interface load follows the LSPs used')


def mk(cls, links, lsps, dems, cost=None, failed=False, rsvp=None, cap=10 ** 9, symcost=True, resim=False):
    """lsps: (ends, list of op strings): i constructor, s / t set, c clear, r read, w configured bandwidth"""
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=symcost, cap=cap, failed='sym' if failed is True else failed or None, rsvp=rsvp)
        want = []
        for k, (ab, ops) in enumerate(lsps):
            want.append(set_metric(c, n, k, ab, ops)[1])
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % k)
        finish(n)
        if not simulate(c, n):
            return
        if resim:
            verify(c, n, want)
            for k, x in enumerate(n.lsps):
                m = c.int('later_%d' % k, -1, 10 ** 6)
                if tob(m == 0):
                    return
                if not attempt(c, 'setting a valid metric does not raise', setattr, x, 'manual_metric', m)[0]:
                    return
                if tob(m == -1):
                    want[k] = None
                else:
                    want[k] = m
            if not simulate(c, n):
                return
        verify(c, n, want)
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' metric histories', mk(cls, 'edge', [('AB', ['', 'i', 's', 'is', 'ic', 'st', 'sc', 'ics', 'irs', 'irc', 'ist', 'ir', 'sct']), ('AB', ['', 'i'])], ['AB'])),
            (m + ' three LSPs', mk(cls, 'edge', [('AB', ['', 'i']), ('AB', ['', 's']), ('AB', ['i'])], ['AB', 'AB'])),
            (m + ' square', mk(cls, 'square', [('AD', ['', 'i']), ('AD', ['', 's'])], ['AD'])),
            (m + ' triangle, rsvp', mk(cls, 'tri', [('AC', ['', 'i']), ('AC', [''])], ['AC'], rsvp='sym')),
            (m + ' triangle, failures', mk(cls, 'tri', [('AC', ['']), ('AB', ['i'])], ['AC', 'AB'], failed=True)),
            (m + ' other ends', mk(cls, 'line3', [('AB', ['i']), ('CB', ['']), ('BC', ['i'])], ['AB', 'AC', 'BC'])),
            (m + ' limited capacity', mk(cls, 'square', [('AD', ['iw']), ('AD', ['iw'])], ['AD'], cap=100)),
            (m + ' limited capacity, edge', mk(cls, 'edge', [('AB', ['iw', 'w']), ('AB', ['iw', 'w']), ('AB', ['i'])], ['AB'], cap=100)),
            (m + ' ladder', mk(cls, 'ladder', [('AF', ['', 'i']), ('AF', [''])], ['AF', 'BE'], cost=Free({0, 6}), failed='sym:2')),
            (m + ' six LSPs', mk(cls, 'line6', [('AF', ['i']), ('AF', ['']), ('AF', ['i']), ('AF', ['']), ('AF', ['']), ('BE', ['i'])], ['AF', 'AF', 'AF'], cost=Free({3}))),
            (m + ' twenty LSPs', mk(cls, 'edge', [('AB', [''])] * 19 + [('AB', ['i'])], ['AB', 'AB'])),
            (m + ' metric changed later', mk(cls, 'edge', [('AB', ['', 'i']), ('AB', ['', 'i', 's'])], ['AB'], resim=True)),
        ]
        if deep:
            out += [
                (m + ' long histories', mk(cls, 'edge', [('AB', ['i', 'isc', 'iscr', 'rst', 'scrt', 'istc', 'isctr']), ('AB', ['', 'ic', 's'])], ['AB'])),
                (m + ' diamond', mk(cls, 'diamond', [('AD', ['', 'i']), ('AD', ['']), ('BC', ['i'])], ['AD', 'BC'])),
                (m + ' square, failures', mk(cls, 'square', [('AD', ['', 'i']), ('AD', [''])], ['AD'], failed=True, cap=100)),
                (m + ' triangle, limited', mk(cls, 'tri', [('AC', ['iw']), ('AC', ['w']), ('AC', ['i'])], ['AC'], cap=100)),
                (m + ' metric changed later, square', mk(cls, 'square', [('AD', ['']), ('AD', ['i'])], ['AD'], resim=True)),
            ]
    out += [
        ('flex par2', mk(FLEX, 'par2', [('AB', ['', 'i']), ('AB', [''])], ['AB'], symcost=False)),
        ('flex par2line', mk(FLEX, 'par2line', [('AC', ['', 'i']), ('AC', [''])], ['AC', 'AB'])),
    ]
    if deep:
        out += [('flex partri', mk(FLEX, 'partri', [('AC', ['', 'i']), ('AC', [''])], ['AC'], rsvp='sym'))]
    return out
