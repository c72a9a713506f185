"""C23: status, orphan, adjacency and demand listings match the model."""
from .common import *  # noqa

FUNCTIONS = ['get_failed_node_objects', 'get_non_failed_node_objects', 'get_failed_interface_objects', 'get_unfailed_interface_objects',
             'get_orphan_node_objects', 'is_node_an_orphan', 'Node.interfaces', 'get_node_interfaces', 'Node.adjacent_nodes',
             'get_demand_objects_source_node', 'get_demand_objects_dest_node', 'get_unrouted_demand_objects', 'Interface.demands', 'Interface.lsps',
             'all_interface_circuit_ids', 'SRLG.node_objects', 'SRLG.interface_objects', 'fail_node', 'unfail_node', 'fail_interface', 'unfail_interface',
             'fail_srlg', 'unfail_srlg', 'add_node', 'add_demand', 'add_circuit', 'update_simulation']
BOUNDS = ('up to four nodes and five circuits (two parallel, flexible model), each circuit present or not, each node and circuit failed or not; up to '
          'four demands and two LSPs between any nodes, any traffic and costs; node names free (one or two characters) where stated; up to two of fail / restore '
          'interface, node or SRLG, add node, add demand, each listed before and after simulating')
REACH = ['orphan', 'not orphan', 'failed node', 'failed interface', 'unrouted', 'routed', 'riding an LSP', 'shortcut', 'changed', 'srlg', 'unlisted']


def verify(c, n, simulated=True, failures=True):
    m = n.model
    nodes = list(n.nodes.values())

    def lists(label, fn, want, *a):
        ok, got = attempt(c, label + ' can be listed', fn, *a)
        if not ok:
            return
        ok, got = attempt(c, label + ' can be listed', lambda: list(got))
        if ok:
            c.check(same_objs(got, want), label + ': exactly those of the model', repr_((got, want)))
            c.observe(label, len(got))

    lists('failed nodes', m.get_failed_node_objects, [x for x in nodes if x.failed])
    lists('non-failed nodes', m.get_non_failed_node_objects, [x for x in nodes if not x.failed])
    lists('failed interfaces', m.get_failed_interface_objects, [i for i in n.ifs if i.failed])
    lists('non-failed interfaces', m.get_unfailed_interface_objects, [i for i in n.ifs if not i.failed])
    lonely = [x for x in nodes if not any(i.node_object is x for i in n.ifs)]
    lists('orphans', m.get_orphan_node_objects, lonely)
    for x in nodes:
        ok, got = attempt(c, 'a node can be asked whether it is an orphan', m.is_node_an_orphan, x)
        c.check(ok and bool(got) is member(x, lonely), 'a node is an orphan exactly when it has no interface', repr_((x, got)))
        c.reach('orphan' if member(x, lonely) else 'not orphan')
        if x.failed:
            c.reach('failed node')
        mine = [i for i in n.ifs if i.node_object is x]
        lists('interfaces of a node', x.interfaces, mine, m)
        lists('interfaces by node name', m.get_node_interfaces, mine, x.name)
        near = []
        for i in mine:
            if not member(i.remote_node_object, near):
                near.append(i.remote_node_object)
        lists('adjacent nodes', x.adjacent_nodes, near, m)
        lists('demands by source', m.get_demand_objects_source_node, [d for d in n.demands if d.source_node_object is x], x.name)
        lists('demands by destination', m.get_demand_objects_dest_node, [d for d in n.demands if d.dest_node_object is x], x.name)
    for d in n.demands:
        c.reach('routed' if routed(d) else 'unrouted')
    for i in n.ifs:
        if i.failed:
            c.reach('failed interface')
        want = []
        for d in n.demands:
            if not routed(d):
                continue
            its = [it for p in d.path for it in p]
            if member(i, its) or any(is_lsp(it) and member(i, it.path['interfaces']) for it in its):
                want.append(d)
                if any(is_lsp(it) for it in its):
                    c.reach('riding an LSP')
                if any(is_lsp(it) for p in d.path if len(p) > 1 for it in p):
                    c.reach('shortcut')
        if simulated:
            lists('demands on an interface', i.demands, want, m)
            lists('LSPs on an interface', i.lsps, [x for x in n.lsps if lsp_up(x) and member(i, x.path['interfaces'])], m)
    lists('unrouted demands', m.get_unrouted_demand_objects, [d for d in n.demands if not routed(d)])
    for g in m.srlg_objects:
        lists('nodes of an SRLG', lambda: g.node_objects, [x for x in nodes if member(g, x.srlgs)])
        lists('interfaces of an SRLG', lambda: g.interface_objects, [i for i in n.ifs if member(g, i.srlgs)])
        c.reach('srlg')


def states(cls, links, dems=(), lsps=(), extra='', shortcuts='', nodes=True, circuits=True, symdem=False, cost=None, names=False, cap=1000, ports=False):
    def h(c):
        keys = sorted(set(''.join(shape(links))) | set(extra))
        nm = None
        if names:
            nm = {}
            for x in keys:
                s = c.str('name_' + x, 1, 2, 'ab')
                for y in nm.values():
                    c.assume(tob(s != y))
                nm[x] = s
        n = net(c, cls, links, cost=cost, symcost=True, cap=cap, present='sym', failed='sym' if circuits else None, extra_nodes=extra, names=nm)
        for k, ab in enumerate(dems):
            if symdem:
                if c.choose(2, 'demand_%d' % k):
                    continue
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % k)
        for k, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        if ports:
            same_ports(n)
        finish(n)
        if nodes:
            if not attempt(c, 'validation accepts the model', n.model.validate_model)[0]:
                return
            for x in keys:
                if c.bool('node_failed_' + x) and not attempt(c, 'failing a node does not raise', n.model.fail_node, n.nodes[x].name)[0]:
                    return
            verify(c, n, simulated=False)
            c.reach('unlisted')
        if not simulate(c, n):
            return
        verify(c, n)
    return h


OPS = ['fail interface', 'restore interface', 'fail node', 'restore node', 'fail srlg', 'restore srlg', 'add node', 'add demand', 'add circuit']


def history(cls, links, dems, lsps=(), steps=1, srlg=True, ops=OPS, ports=False):
    def h(c):
        n = net(c, cls, links, cost=1, extra_nodes='Z')
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], 1, 'd%d' % k)
        for k, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k)
        if ports:
            same_ports(n)
        m = finish(n)
        if not simulate(c, n):
            return
        if srlg:
            n.ifs[0].add_to_srlg('g', m, create_if_not_present=True)
            n.nodes['C'].add_to_srlg('g', m)
            m.get_srlg_object('g')
        for k in range(steps):
            op = c.pick(ops, 'op_%d' % k)
            if op in ('fail interface', 'restore interface'):
                i = c.pick([p[0] for p in n.ckts], 'which_%d' % k)
                if op[0] == 'r' and (i.node_object.failed or i.remote_node_object.failed or any(g.failed for g in i.srlgs)):
                    return
                ok = attempt(c, 'the change does not raise', m.fail_interface if op[0] == 'f' else m.unfail_interface, i.name, i.node_object.name)[0]
            elif op in ('fail node', 'restore node'):
                x = c.pick(sorted(n.nodes), 'node_%d' % k)
                if op[0] == 'r' and any(g.failed for g in n.nodes[x].srlgs):
                    return
                ok = attempt(c, 'the change does not raise', m.fail_node if op[0] == 'f' else m.unfail_node, x)[0]
            elif op in ('fail srlg', 'restore srlg'):
                if not srlg:
                    return
                ok = attempt(c, 'the change does not raise', m.fail_srlg if op[0] == 'f' else m.unfail_srlg, 'g')[0]
            elif op == 'add node':
                x = NS.Node('N%d' % k)
                ok = attempt(c, 'the change does not raise', m.add_node, x)[0]
                n.nodes[x.name] = x
            elif op == 'add demand':
                a = c.pick(sorted(n.nodes), 'a_%d' % k)
                b = c.pick([x for x in sorted(n.nodes) if x != a], 'b_%d' % k)
                ok = attempt(c, 'the change does not raise', m.add_demand, a, b, 2, 'new%d' % k)[0]
                if ok:
                    new = [d for d in m.demand_objects if not member(d, n.demands)]
                    c.check(len(new) == 1, 'one demand is added', repr_(new))
                    n.demands += new
            else:
                a, b = c.pick(sorted(n.nodes), 'a_%d' % k), 'Z'
                if a == b or n.nodes[a].failed or n.nodes[b].failed or (cls is PERF and any(i.node_object.name == a and i.remote_node_object.name == b for i in n.ifs)):
                    return
                kw = {'circuit_id': 'new%d' % k} if cls is FLEX else {}
                ok = attempt(c, 'the change does not raise', m.add_circuit, n.nodes[a], n.nodes[b], 'x%da' % k, 'x%db' % k, 5, 5, 10, **kw)[0]
                new = [i for i in m.interface_objects if not member(i, n.ifs)]
                if len(new) != 2:
                    c.fail('two interfaces are added', repr_(new))
                    return
                n.ifs += new
                n.ckts.append(tuple(new))
            if not ok:
                return
            c.reach('changed')
            verify(c, n, simulated=False)
            if not simulate(c, n):
                return
            verify(c, n)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' line', states(cls, 'line3', ['AC', 'CA', 'BC'], extra='Z')),
            (m + ' triangle', states(cls, 'tri', ['AC', 'BA'], extra='Z', nodes=False)),
            (m + ' demands', states(cls, 'line3', ['AB', 'BA', 'AC', 'CA'], symdem=True, nodes=False, circuits=False, cost=1)),
            (m + ' LSPs', states(cls, 'tri', ['AC', 'AB'], ['AC', 'BC'], nodes=False)),
            (m + ' LSPs, ports', states(cls, 'line3', ['AC', 'AB', 'CB'], ['AB', 'CB'], nodes=False, cost=1, ports=True)),
            (m + ' change, ports', history(cls, 'tri', ['AC', 'AB'], ['AB', 'BC'], ports=True)),
            (m + ' square', states(cls, 'square', ['AD'], nodes=False, circuits=False)),
            (m + ' names', states(cls, 'edge', ['AB'], extra='Z', names=True, cost=1)),
            (m + ' change', history(cls, 'tri', ['AC', 'AB'], ['AB'])),
            (m + ' two changes', history(cls, 'line3', ['AC'], [], steps=2)),
        ]
        if deep:
            out += [
                (m + ' triangle, nodes', states(cls, 'tri', ['AC', 'BA', 'CB'], extra='Z')),
                (m + ' diamond', states(cls, 'diamond', ['AD', 'BC'], ['AD'], nodes=False)),
                (m + ' names, line', states(cls, 'line3', ['AC', 'BA'], names=True)),
                (m + ' two changes, triangle', history(cls, 'tri', ['AC', 'AB'], ['AB'], steps=2)),
                (m + ' three changes', history(cls, 'line3', ['AC'], [], steps=3, ops=OPS[:6])),
            ]
    out += [
        ('flex parallel', states(FLEX, 'par2line', ['AC', 'BA'], ['AB'], nodes=False)),
        ('flex shortcuts', states(FLEX, 'line3', ['AC'], ['AB'], shortcuts='A', nodes=False)),
        ('flex shortcuts in a row', states(FLEX, 'line4', ['AD', 'BD'], ['AB', 'BC'], shortcuts='AB', nodes=False, cost=1)),
        ('flex shortcuts, square', states(FLEX, 'square', ['AD'], ['AB'], shortcuts='A', nodes=False, cost=1)),
    ]
    if deep:
        out += [('flex parallel, nodes', states(FLEX, 'par22', ['AC', 'BA'], ['AB']))]
    return out
