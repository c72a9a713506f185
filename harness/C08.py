"""C08: IGP shortcuts put transit demands on LSPs from enabled nodes (flexible model)."""
from .common import *  # noqa

FUNCTIONS = ['update_simulation', '_route_demands', 'find_igp_shortcuts', '_insert_lsp_shortcuts', '_insert_lsps_into_path',
             '_inspect_for_lsp_metrics', '_demand_traffic_per_item', '_update_interface_utilization', 'RSVP_LSP.effective_metric',
             'RSVP_LSP.demands_on_lsp', 'path_detail', 'Node.igp_shortcuts_enabled']
BOUNDS = ('line, square, diamond, double diamond and parallel-link shapes of up to seven nodes; up to three LSPs, each with default or manual '
          'metric (every integer >= 1); costs: every integer >= 1 where free; every subset of enabled nodes where free; one demand '
          'or two; traffic: every real >= 0; LSP loads compared up to the 0.1 rounding per demand and LSP'
          '; lines of five and six nodes with every place of up to three LSPs, a 10-node ladder and 8- and 12-node networks with one free cost')
REACH = ['shortcut', 'two lsps', 'mixed paths', 'metric filter', 'parallel lsps', 'nothing enabled', 'no lsp from enabled', 'not the farthest', 'unrouted', 'end to end']


def mets(c, n):
    """id(lsp) -> effective metric, for routed LSPs, computed from the configuration."""
    out = {}
    for x, w in zip(n.lsps, n.metrics):
        if not lsp_up(x):
            continue
        if w is not None:
            out[id(x)] = w
        else:
            # the minimum, by comparing symbolically
            cs = [pcost(p) for p in simple_paths(up(n), x.source_node_object, x.dest_node_object)]
            m = cs[0]
            for k in cs[1:]:
                if k < m:
                    m = k
            out[id(x)] = m
    return out


def minimal(vals):
    m = vals[0]
    for v in vals[1:]:
        if v < m:
            m = v
    return [v == m for v in vals], m


def expected(c, n, d, met):
    """The alternatives with the lowest total metric, as lists of items."""
    allp = simple_paths(up(n), d.source_node_object, d.dest_node_object)
    if not allp:
        return None
    keep, _ = minimal([pcost(p) for p in allp])
    short = [p for p, k in zip(allp, keep) if k]
    lsps = [x for x in n.lsps if lsp_up(x)]
    alts = []
    for p in short:
        nodes_ = [i.node_object for i in p] + [p[-1].remote_node_object]
        cur = [[]]
        k = 0
        while k < len(p):
            hit = None
            if nodes_[k].igp_shortcuts_enabled is True:
                for j in range(len(p), k, -1):
                    g = [x for x in lsps if x.source_node_object is nodes_[k] and x.dest_node_object is nodes_[j]]
                    if g:
                        hit = (j, g)
                        break
            if hit is None:
                cur = [a + [p[k]] for a in cur]
                k += 1
                continue
            j, g = hit
            if j < len(p):
                c.reach('not the farthest')
            best, _ = minimal([met[id(x)] for x in g])
            g = [x for x, b in zip(g, best) if b]
            if len(g) > 1:
                c.reach('parallel lsps')
            cur = [a + [x] for a in cur for x in g]
            k = j
        for a in cur:
            if find_path(a, alts) is None:
                alts.append(a)
    if len(alts) > 1:
        tot = []
        for a in alts:
            t = 0
            for it in a:
                t = t + (met[id(it)] if is_lsp(it) else it.cost)
            tot.append(t)
        keep, _ = minimal(tot)
        if not all(keep):
            c.reach('metric filter')
        alts = [a for a, k in zip(alts, keep) if k]
    return alts


def verify(c, n):
    met = mets(c, n)
    load_, tol = {}, {}
    for d in n.demands:
        e2e = [x for x in n.lsps if lsp_up(x) and x.source_node_object is d.source_node_object and x.dest_node_object is d.dest_node_object]
        if e2e:
            c.reach('end to end')
            want = [[x] for x, b in zip(e2e, minimal([met[id(x)] for x in e2e])[0]) if b]
        else:
            want = expected(c, n, d, met)
            if want is None:
                c.reach('unrouted')
                c.check(isinstance(d.path, str) and d.path == 'Unrouted', 'unrouted without a path', repr_(d.path))
                continue
            on = [any(is_lsp(it) for it in a) for a in want]
            en = [x for x in n.nodes.values() if x.igp_shortcuts_enabled is True]
            c.reach('shortcut' if all(on) else 'mixed paths' if any(on) else 'no lsp from enabled' if en else 'nothing enabled')
            if any(sum(is_lsp(it) for it in a) > 1 for a in want):
                c.reach('two lsps')
        got = d.path
        if not is_list_of_paths(got):
            c.fail('the demand is routed', repr_(got))
            continue
        ok = len(got) == len(want) and all(find_path(a, got) is not None for a in want)
        c.check(ok, 'exactly the lowest-metric alternatives with shortcuts are used', repr_(([names(p) for p in got], [names(p) for p in want])))
        if not ok:
            continue
        det = d.path_detail
        _, per = prefix_split(want)
        if not isinstance(det, dict) or len(det) != len(want):
            c.fail('one path detail entry per alternative', repr_(det))
            continue
        seen = []
        total = 0
        for info in det.values():
            j = find_path(detail_items(info), want)
            if j is None or j in seen:
                c.fail('path detail lists the alternatives', repr_(det))
                break
            seen.append(j)
            total = total + info['path_traffic']
            c.check(c.eq(info['path_traffic'], per[j] * d.traffic), 'the traffic is split evenly at each hop')
        c.check(c.eq(total, d.traffic), 'the traffic of the alternatives adds up to the demand')
        items = {}
        for a, f in zip(want, per):
            for it in a:
                items[id(it)] = (it, items.get(id(it), (it, 0))[1] + f * d.traffic)
        for it, t in items.values():
            for i in (it.path['interfaces'] if is_lsp(it) else [it]):
                load_[id(i)] = load_.get(id(i), 0) + t
                if is_lsp(it):
                    tol[id(i)] = tol.get(id(i), 0) + Fraction(51, 1000)
        for x in n.lsps:
            c.check(member(d, x.demands_on_lsp(n.model)) == (id(x) in items), 'the demand is listed on the LSPs it uses')
        c.observe('paths ' + d.name, sorted(map(str, map(names, got))))
    for i in n.ifs:
        if not i.failed:
            c.check(c.eq(i.traffic, load_.get(id(i), 0), tol.get(id(i), 0) + Fraction(1, 1000)), 'every interface under the LSPs and on the paths is loaded')


def mk(links, lsps, dems, enabled, cost=None, symcost=True, failed=False, rsvp=None, cap=10 ** 9, flip=False, names_=None):
    def h(c):
        n = net(c, FLEX, links, cost=cost, symcost=symcost, cap=cap, failed='sym' if failed is True else failed or None, rsvp=rsvp, names=names_)
        n.metrics = []
        for k, (ab, met) in enumerate(lsps):
            if not isinstance(ab, str):
                ab = c.pick(ab, 'ends_%d' % k)
            m = c.int('metric_%d' % k, 1, 10 ** 6) if met == 'sym' else met
            if met == 'any':
                m = c.int('metric_%d' % k, 1, 10 ** 6) if c.bool('manual_%d' % k) else None
            n.metrics.append(m)
            add_lsp(n, ab[0], ab[1], 'l%d' % k, metric=m, bw=c.real('bw_%d' % k, 0, 1000) if cap != 10 ** 9 else None)
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % k)
        for x in n.nodes:
            if x in enabled:
                n.nodes[x].igp_shortcuts_enabled = c.bool('shortcut_' + x) if enabled.endswith('?') else True
        finish(n)
        if not simulate(c, n):
            return
        verify(c, n)
        if flip:
            for x in n.nodes.values():
                x.igp_shortcuts_enabled = not x.igp_shortcuts_enabled
            if simulate(c, n):
                verify(c, n)
    return h


PAIRS5 = ['AB', 'AC', 'AD', 'BC', 'BD', 'BE', 'CD', 'CE', 'DE']
DBL = ['AM', 'AN', 'MX', 'NX', 'XW', 'XZ', 'WF', 'ZF']


def cases(tier):
    S, N, A = 'sym', None, 'any'
    deep = tier != 'quick'
    out = [
        ('line, one LSP', mk('line4', [('BD', A)], ['AD', 'AC'], 'ABCD?', cost=1)),
        ('line, to the end', mk('line3', [('AB', A), ('BC', A)], ['AC'], 'AB?')),
        ('line, nested LSPs', mk('line4', [('AB', N), ('AC', N), ('CD', A)], ['AD'], 'ABC?', cost=1)),
        ('line, overlapping LSPs', mk('line4', [('AC', A), ('BD', A)], ['AD'], 'AB?')),
        ('line, parallel LSPs', mk('line4', [('BC', A), ('BC', A), ('CD', A)], ['AD'], 'BC')),
        ('line, LSP the wrong way', mk('line3', [('BA', N), ('CB', N)], ['AC', 'CA'], 'ABC?')),
        ('line, end to end too', mk('line3', [('AC', A), ('AB', N)], ['AC', 'AC'], 'A?')),
        ('line5, chained LSPs', mk('line5', [('AB', A), ('BD', A), ('CE', N)], ['AE', 'BE'], 'ABC', cost=1)),
        ('line5, any two LSPs', mk('line5', [(PAIRS5, N), (PAIRS5, N)], ['AE'], 'ABCD', cost=1)),
        ('line6, three LSPs', mk('line6', [(['AB', 'AC', 'AD'], N), (['BD', 'BE', 'CE'], N), (['CE', 'CF', 'DF', 'EF'], N)], ['AF'], 'ABCDE', cost=2)),
        ('line6, long LSP', mk('line6', [('AE', A), ('BF', A), ('AE', N)], ['AF', 'BF', 'AE', 'FA'], 'ABF', cost=1)),
        ('ladder', mk('ladder', [('BE', N), ('GJ', A), ('BE', A)], ['AF', 'GF'], 'ABG', cost=Free({0}, 3))),
        ('big', mk('big', [('AG', A), ('BE', N), ('GL', A)], ['AL', 'BL'], 'ABG', cost=Free({6}, 5))),
        ('big parallel', mk('bigpar', [('AB', A), ('AB', A), ('CG', N)], ['AH', 'BH'], 'AC', cost=Free({1}, 5))),
        ('square', mk('square', [('AB', A), ('CD', A)], ['AD'], 'AC?')),
        ('square, LSP beside the path', mk('square', [('BD', N), ('AB', N)], ['AD'], 'ABC')),
        ('diamond', mk('diamond', [('BC', A), ('BD', A)], ['AD'], 'B')),
        ('diamond, unit costs', mk('diamond', [('AB', S), ('BD', S), ('AC', S)], ['AD'], 'AB', cost=lambda i, ab, d: 2)),
        ('fan', mk('fan', [('BF', A), ('AB', N)], ['AF'], 'AB?', cost=lambda i, ab, d: 1)),
        ('double diamond', mk(DBL, [('MZ', A)], ['AF'], 'MAX?', cost=10)),
        ('double diamond, two LSPs', mk(DBL, [('MZ', A), ('NW', A)], ['AF'], 'MN', cost=10)),
        ('double diamond, full span', mk(DBL, [('AX', A), ('XF', A)], ['AF', 'NF'], 'AX?', cost=10)),
        ('double diamond, LSP to the middle', mk(DBL, [('AX', A), ('AZ', A)], ['AF'], 'A', cost=10)),
        ('par2line', mk('par2line', [('AB', A), ('BC', A)], ['AC'], 'AB?')),
        ('par22', mk('par22', [('BC', A), ('BC', N)], ['AC'], 'B?', cost=5)),
        ('partri', mk('partri', [('AB', A), ('BC', A)], ['AC'], 'AB?')),
        ('triangle, failures', mk('tri', [('AB', N), ('BC', A)], ['AC'], 'AB', failed=True)),
        ('triangle, rsvp', mk('tri', [('AB', N), ('BC', A)], ['AC'], 'AB', rsvp='sym')),
        ('line, limited capacity', mk('line3', [('AB', N), ('AB', N)], ['AC'], 'A', cap=100)),
        ('line, limited capacity, metrics', mk('line3', [('AB', S), ('AB', S), ('BC', N)], ['AC'], 'AB', cap=100, cost=5)),
        ('line, limited capacity, any metric', mk('line4', [('BC', A), ('BC', A)], ['AD'], 'B', cap=100, cost=5)),
        ('par22, limited capacity', mk('par22', [('BC', A), ('BC', A), ('BC', N)], ['AC'], 'B', cap=100, cost=5)),
        ('enabled later', mk('line4', [('BD', A), ('AB', N)], ['AD'], 'AB?', cost=1, flip=True)),
        ('names', mk('line3', [('AB', A), ('BC', N)], ['AC'], 'AB', names_={'A': 'n', 'B': 'n-n', 'C': 'n-'})),
    ]
    if deep:
        out += [
            ('diamond, any subset', mk('diamond', [('BC', A), ('BD', A), ('AC', A)], ['AD'], 'ABCD?')),
            ('double diamond, free costs', mk(DBL, [('MZ', A), ('AX', A)], ['AF'], 'MAXN?', cost=lambda i, ab, d: 10 if i < 4 else None or 10)),
            ('square, free', mk('square', [('AB', A), ('CD', A), ('AC', A)], ['AD', 'AB'], 'ABCD?')),
            ('line5', mk(['AB', 'BC', 'CD', 'DE'], [('AC', A), ('BE', A), ('CD', A)], ['AE'], 'ABCD?')),
            ('line5, any three LSPs', mk('line5', [(PAIRS5, N)] * 3, ['AE'], 'ABCD', cost=1)),
            ('three', mk('three', [('AB', A), ('CE', A), ('AD', A)], ['AE'], 'ABCD?')),
            ('partri2', mk('partri2', [('AB', A), ('BC', A), ('BC', A)], ['AC'], 'AB?')),
            ('double diamond, three LSPs', mk(DBL, [('MZ', A), ('AX', A), ('XW', A)], ['AF'], 'AMX?', cost=10)),
        ]
    return out
