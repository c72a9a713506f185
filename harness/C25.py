"""C25: asking changes nothing, and the printed displays show the model as it is."""
from symx import load as _load

from .common import *  # noqa
from . import C10, C24

WM = load.load_weathermap()
OBS_TOL = 0.11
FUNCTIONS = ['every query and listing of the model classes, Node, Interface, Demand, RSVP_LSP, Circuit and SRLG', 'display_interface_status', 'display_node_status',
             'display_interfaces_traffic', 'display_demand_paths', 'display_interface_objects', 'WeatherMap.create_weathermap', 'validate_model', 'update_simulation']
BOUNDS = ('models of two to four nodes with up to two demands and two LSPs, as the case says with free traffic, bandwidths and costs, failures, a shared-risk '
          'group and shortcuts; every ordered choice of one or two (thorough: three) of some forty read-only calls after a simulation (or before the first), each asked twice; then '
          'a simulation compared with that of the same configuration never asked')
REACH = ['asked', 'before', 'stale', 'printed', 'printed failed', 'printed unrouted', 'printed paths', 'same', 'on lsp']


def names_of(coll):
    return sorted((getattr(x, 'lsp_name', None) or getattr(x, 'name', None) or str(getattr(x, '_key', x))) for x in coll)


def obj(o):
    """An answer in comparable form."""
    if o is None or isinstance(o, (str, bool, int, float)) or type(o) in (SymNum, type(TRUE)):
        return o
    if type(o) is NS.Circuit:           # validation makes them anew
        return ('circuit', *sorted((id(o.interface_a), id(o.interface_b))))
    if type(o) in (NS.Interface, NS.Node, NS.Demand, NS.RSVP_LSP, NS.SRLG):
        return ('object', id(o))
    if isinstance(o, dict):
        return sorted(((str(obj(k)), obj(v)) for k, v in o.items()), key=lambda p: p[0])
    if isinstance(o, (set, frozenset)):
        return sorted((obj(x) for x in o), key=str)
    if isinstance(o, (list, tuple)):
        return [obj(x) for x in o]
    if hasattr(o, '__next__'):
        return [obj(x) for x in o]
    return str(type(o))


def unordered(o):
    """The same where the order of a list says nothing."""
    if isinstance(o, list):
        return sorted((unordered(x) for x in o), key=str)
    return o


def full(n):
    m = n.model
    out = [C24.config(n), C24.results(n)]
    out.append([(d.path if isinstance(d.path, str) else unordered(obj(d.path)), obj(d.path_detail)) for d in n.demands])
    out.append([(obj(x.path), obj(x.reserved_bandwidth), obj(x.setup_bandwidth)) for x in n.lsps])
    out.append([(i.reservable_bandwidth, i.utilization if i.capacity else None) for i in n.ifs])
    out.append(sorted(g.name + str(g.failed) for g in m.srlg_objects))
    return out


def reads(n, built):
    """name -> call; `built`: circuits exist (the model was validated or simulated)."""
    m = n.model
    a, b = n.nodes[n.ends[0][0]], n.nodes[n.ends[0][1]]
    i = n.ifs[0]
    out = {
        'shortest path': lambda: m.get_shortest_path(a.name, b.name),
        'shortest path back, with bandwidth': lambda: m.get_shortest_path(b.name, a.name, needed_bw=10),
        'all paths': lambda: m.get_all_paths_reservable_bw(a.name, b.name),
        'all paths, up': lambda: m.get_all_paths_reservable_bw(a.name, b.name, False, 3, 10),
        'LSP groups': m.parallel_lsp_groups,
        'demand groups': m.parallel_demand_groups,
        'diagnostics': m.simulation_diagnostics,
        'circuit ids': lambda: m.all_interface_circuit_ids,
        'failed interfaces': m.get_failed_interface_objects,
        'interfaces up': m.get_unfailed_interface_objects,
        'failed nodes': m.get_failed_node_objects,
        'nodes up': m.get_non_failed_node_objects,
        'orphans': m.get_orphan_node_objects,
        'an orphan': lambda: [m.is_node_an_orphan(x) for x in n.nodes.values()],
        'unrouted': m.get_unrouted_demand_objects,
        'by source': lambda: m.get_demand_objects_source_node(a.name),
        'by destination': lambda: m.get_demand_objects_dest_node(b.name),
        'node interfaces': lambda: (m.get_node_interfaces(a.name), a.interfaces(m), a.adjacent_nodes(m)),
        'lookups': lambda: (m.get_interface_object(i.name, i.node_object.name), m.get_node_object(a.name), [m.get_demand_object(d.source_node_object.name, d.dest_node_object.name, d.name) for d in n.demands],
                            [m.get_rsvp_lsp(x.source_node_object.name, x.dest_node_object.name, x.lsp_name) for x in n.lsps], [m.get_srlg_object(g.name) for g in m.srlg_objects]),
        'groups': lambda: [(g.name, g.failed, g.node_objects, g.interface_objects) for g in sorted(m.srlg_objects, key=lambda g: g.name)],
        'reprs': lambda: [repr(x) for l in (n.ifs, list(n.nodes.values()), n.demands, n.lsps, [m], list(m.srlg_objects)) for x in l],
        'attributes': lambda: [(x.setup_bandwidth, x.manual_metric, x.configured_setup_bandwidth) for x in n.lsps] + [(x.utilization, x.reservable_bandwidth, x._key) for x in n.ifs] +
                              [(d.path_detail, d._key) for d in n.demands],
        'displays': lambda: (m.display_interface_status(), m.display_node_status(), m.display_interfaces_traffic(), m.display_demand_paths(), m.display_interface_objects()),
        'comparisons': lambda: [n.ifs[0] == n.ifs[-1], n.ifs[0] != n.ifs[-1], a == b, hash(a) == hash(a), n.ifs[0] == n.ifs[0], len({*n.ifs}), len({*n.nodes.values()})],
        'validation': lambda: str(m.validate_model()) and None,
    }
    if built:
        out.update({
            'demands on interfaces': lambda: [x.demands(m) for x in n.ifs],
            'LSPs on interfaces': lambda: [x.lsps(m) for x in n.ifs],
            'remote interfaces': lambda: [x.get_remote_interface(m) for x in n.ifs],
            'circuit of an interface': lambda: [(m.get_circuit_object_from_interface(x.name, x.node_object.name), x.get_circuit_object(m)) for x in n.ifs],
            'circuits': lambda: [(k._key, k.failed(m), k.get_circuit_interfaces(m)) for k in sorted(m.circuit_objects, key=lambda k: sorted((k.interface_a.name, k.interface_b.name)))],
            'metrics of LSPs': lambda: [(x.effective_metric(m), x.topology_metric(m)) for x in n.lsps],
            'demands on LSPs': lambda: [x.demands_on_lsp(m) for x in n.lsps],
            'traffic on LSPs': lambda: [x.traffic_on_lsp(m) for x in n.lsps],
            'paths for a routed LSP': lambda: [m.get_shortest_path_for_routed_lsp(x.source_node_object.name, x.dest_node_object.name, x, 5) for x in n.lsps if lsp_up(x)],
            'map elements': lambda: len(WM.WeatherMap(m).create_elements()),
            'map menus': lambda: WM.WeatherMap(m).demand_sources_and_destinations() + WM.WeatherMap(m).lsp_sources_and_destinations(),
            'map': lambda: WM.WeatherMap(m).create_weathermap(),
            'map paths': lambda: WM.WeatherMap(m).find_demand_interfaces_and_lsps([d for d in n.demands if routed(d)]),
        })
    return out


def mk(cls, links, ends, lsps, dems, steps, cost=None, cap=100, failed=None, nodes='', shortcuts='', srlg=False, before=False, only=None, free=True, stale=False):
    def h(c):
        n = net(c, cls, links, cost=(lambda i, ab, d: cost[i]) if cost else None, symcost=True, cap=cap, failed=failed)
        n.ends, n.metrics, n.free = ends, [], free
        for k, (ab, bw, met) in enumerate(lsps):
            n.metrics.append(met)
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=c.real('bw_%d' % k, 0, 10 ** 7) if bw == 'free' else bw, metric=met)
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7) if free else 30, 'd%d' % k)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        finish(n)
        if srlg:
            n.model.add_srlg('g')
            n.ckts[0][0].add_to_srlg('g', n.model) if before is False and attempt(c, 'validation accepts the model', n.model.validate_model)[0] else None
            n.nodes['A'].add_to_srlg('g', n.model)
        if before:
            c.reach('before')
        elif not simulate(c, n):
            return
        for x in nodes:
            if c.bool('node_failed_' + x):
                n.model.fail_node(n.nodes[x].name)
                if not simulate(c, n):
                    return
        if stale:                           # changes not simulated yet
            n.ifs[0].cost = n.ifs[1].cost = 71
            n.ifs[2].fail_interface(n.model) if c.bool('failed_since') else None
            for d in n.demands:
                d.traffic = d.traffic + 7
            n.nodes['A'].igp_shortcuts_enabled = cls is FLEX
            if n.lsps:
                n.lsps[-1].manual_metric = 5
                n.metrics[-1] = 5
            c.reach('stale')
        C10.no_ties(c, n)
        rs = reads(n, not before)
        keys = [k for k in rs if (only is None or k in only) and not (before and k == 'validation')]        # which builds the circuits
        was = full(n)
        first = None
        for t in range(steps):
            k = keys[c.choose(len(keys), 'ask_%d' % t)]
            f = rs[k]
            ok, x = attempt(c, 'a query does not raise', f)
            if not ok:
                return
            x = obj(x)
            now = full(n)
            c.check(C24.alike(c, was, now), 'asking leaves the model as it is', repr_((k, [(p, q) for p, q in zip(flat(was), flat(now)) if str(p) != str(q)])))
            ok, y = attempt(c, 'a query does not raise', f)
            if not ok:
                return
            c.check(C24.alike(c, unordered(x), unordered(obj(y))), 'asking again gives the same answer', repr_((k, x, obj(y))))
            if first is None:
                first = (k, f, x)
            c.reach('asked')
        if steps > 1 and first:
            ok, y = attempt(c, 'a query does not raise', first[1])
            c.check(ok and C24.alike(c, unordered(first[2]), unordered(obj(y))), 'asking something else first gives the same answer', repr_((first[0], k, first[2], obj(y))))
        m = C10.clone(c, n)
        if not simulate(c, n) or not simulate(c, m):
            return
        C10.compare(c, n, m)
    return h


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


# ------------------------------------------------------------------------------------------------ displays
def number(s):
    try:
        return _load._to_float(s)
    except ValueError:
        return None


def lines(text):
    return [l.split() for l in text.split('\n') if l.strip()]


def shows(c, n, simulated):
    m = n.model
    ok, t = attempt(c, 'interfaces can be displayed', _load.printed, m.display_interface_status)
    if ok:
        L = lines(t)
        for i in n.ifs:
            mine = [l for l in L if l[:3] == [i.node_object.name, i.name, i.remote_node_object.name]]
            c.check(len(mine) == 1 and mine[0][3:] == [str(i.failed)], 'each interface is displayed once with its state', repr_((i.name, mine)))
            if i.failed:
                c.reach('printed failed')
        c.check(len(L) <= len(n.ifs) + 2, 'nothing else is displayed', repr_(L))
    ok, t = attempt(c, 'nodes can be displayed', _load.printed, m.display_node_status)
    if ok:
        L = lines(t)
        for x in n.nodes.values():
            mine = [l for l in L if l[0] == x.name]
            c.check(len(mine) == 1 and mine[0][1:] == [str(x.failed)], 'each node is displayed once with its state', repr_((x.name, mine)))
        c.check(len(L) <= len(n.nodes) + 2, 'nothing else is displayed', repr_(L))
    if simulated:
        ok, t = attempt(c, 'traffic can be displayed', _load.printed, m.display_interfaces_traffic)
        if ok:
            L = lines(t)
            for i in n.ifs:
                mine = [l for l in L if l[:3] == [i.node_object.name, i.name, i.remote_node_object.name]]
                good = len(mine) == 1
                if good:
                    s = ' '.join(mine[0][3:])
                    v = number(s)
                    good = s.strip("'\"") == i.traffic if isinstance(i.traffic, str) else v is not None and c.eq(v, i.traffic, Fraction(1, 100))
                c.check(good, 'each interface is displayed once with its traffic', repr_((i.name, i.traffic, mine)))
            c.check(len(L) <= len(n.ifs) + 2, 'nothing else is displayed', repr_(L))
        ok, t = attempt(c, 'demand paths can be displayed', _load.printed, m.display_demand_paths)
        if ok:
            keys = {str(d._key): d for d in n.demands}
            at = sorted((t.find(k), k) for k in keys)
            c.check(all(t.count(k) == 1 for k in keys), 'each demand is displayed once', repr_(t))
            for j, (p, k) in enumerate(at):
                block = t[p + len(k):at[j + 1][0] if j + 1 < len(at) else len(t)]
                d = keys[k]
                if routed(d):
                    c.check('%d paths' % len(d.path) in block or '%d path' % len(d.path) in block, 'the number of paths of a demand is displayed', repr_(block))
                    c.check(all(block.count(repr(x)) == 1 for x in d.path), 'each path of a demand is displayed', repr_((block, d.path)))
                    c.reach('printed paths')
                else:
                    c.check(('Unrouted' in block or ' 0 paths' in block or 'no path' in block) and not any(len(l) == 1 and len(l[0].strip("'\"")) == 1 for l in lines(block)),
                            'an unrouted demand is displayed as having no path', repr_(block))
                    c.reach('printed unrouted')
    ok, t = attempt(c, 'interfaces can be displayed', _load.printed, m.display_interface_objects)
    if ok:
        c.check(all(t.count(repr(i)) == 1 for i in n.ifs), 'each interface is displayed once', repr_(t))
    c.reach('printed')


def display(cls, links, dems, lsps=(), nodes='', cost=1, cap=100, names_=None, extra='', shortcuts='', failed='sym', before=False, ports=False):
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=True, cap=cap, failed=failed, names=names_, extra_nodes=extra)
        if ports:                           # the same interface names on every node, the same demand names for different nodes
            same_ports(n)
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % (dems[:k].count(ab) if ports else k))
        for k, (ab, bw) in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        finish(n)
        if before:
            shows(c, n, False)
        if not simulate(c, n):
            return
        for x in nodes:
            if c.bool('node_failed_' + x):
                n.model.fail_node(n.nodes[x].name)
                if not simulate(c, n):
                    return
        shows(c, n, True)
    return h


FEW = ['shortest path', 'all paths, up', 'LSP groups', 'demand groups', 'diagnostics', 'attributes', 'validation', 'metrics of LSPs', 'demands on LSPs', 'traffic on LSPs', 'remote interfaces',
       'paths for a routed LSP', 'map', 'orphans', 'lookups']


def cases(tier):
    deep = tier != 'quick'
    out = []
    AB, AC = ('A', 'B'), ('A', 'C')
    for m, cls in MODELS:
        out += [
            (m + ' edge, free', mk(cls, 'edge', [AB], [(AB, 'free', None), (AB, None, 3)], [AB], 1, [1])),
            (m + ' triangle', mk(cls, 'tri', [AC], [(AC, 5, None), (AC, None, None)], [AC, ('B', 'C')], 1, [3, 2, 9])),
            (m + ' triangle, free costs', mk(cls, 'tri', [AC], [(AC, None, None)], [AC], 1, free=False)),
            (m + ' line, failures', mk(cls, 'line3', [AC], [(AC, 5, None), (AB, 5, 7)], [AC, AB], 1, [3, 2], failed='sym', nodes='B', srlg=True)),
            (m + ' line, before the first simulation', mk(cls, 'line3', [AC], [(AC, 5, 2)], [AC, AB], 1, [3, 2], before=True, srlg=True)),
            (m + ' edge, two questions', mk(cls, 'edge', [AB], [(AB, 5, 4), (AB, None, None)], [AB], 2, [1], free=False)),
            (m + ' line, two questions', mk(cls, 'line3', [AC], [(AC, 5, 2)], [AC, AB], 2, [3, 2], free=False, only=FEW)),
            (m + ' triangle, changed since', mk(cls, 'tri', [AC], [(AC, 5, None), (AB, None, None)], [AC, ('B', 'C')], 1, [3, 2, 9], free=False, stale=True)),
            (m + ' displays', display(cls, 'line3', [AC, ('C', 'A')], [(AB, 5)], 'B', extra='Z')),
            (m + ' displays, paths', display(cls, 'square', [('A', 'D'), ('B', 'C')], cost=None, failed=None)),
            (m + ' displays, ports', display(cls, 'tri', [AC, AC, AB], [(AB, 5)], ports=True, cost=lambda i, ab, d: [1, 2, 9][i])),
            (m + ' displays before', display(cls, 'tri', [AC], nodes='A', before=True, names_={'A': 'rtr-1', 'B': 'rtr-10', 'C': 'C'})),
        ]
        if deep:
            out += [
                (m + ' triangle, two questions', mk(cls, 'tri', [AC], [(AC, 5, None), (('C', 'B'), None, None)], [AC, ('B', 'C')], 2, [3, 2, 9], failed='sym', free=False)),
                (m + ' edge, three questions', mk(cls, 'edge', [AB], [(AB, 5, 4), (AB, None, None)], [AB], 3, [1], free=False, only=FEW)),
                (m + ' square, free', mk(cls, 'square', [('A', 'D')], [(('A', 'D'), 'free', None)], [('A', 'D'), ('B', 'C')], 1, [1, 2, 3, 5])),
                (m + ' displays, diamond', display(cls, 'diamond', [('A', 'D'), ('B', 'C')], [(('A', 'D'), 5)], cost=None)),
            ]
    out += [('flex shortcuts', mk(FLEX, 'line3', [AC], [(AB, 5, None)], [AC], 1, [3, 2], shortcuts='A')),
            ('flex shortcuts, two questions', mk(FLEX, 'line3', [AC], [(AB, 5, None)], [AC], 2, [3, 2], shortcuts='A', free=False, only=FEW)),
            ('flex parallel', mk(FLEX, 'par2line', [AC], [(AB, 5, None)], [AC], 1, [1, 2, 3])),
            ('flex displays, parallel', display(FLEX, 'par2line', [AC, AC], [(AB, 5)])),
            ('flex displays, parallel ports', display(FLEX, 'par2line', [AC], ports=True)),
            ('flex displays, shortcuts', display(FLEX, 'line3', [AC], [(AB, 5)], shortcuts='A'))]
    return out
