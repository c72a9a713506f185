"""C15: validation accepts every well-formed model and rejects the rest."""
from .common import *  # noqa

FUNCTIONS = ['validate_model', '_make_circuits', '_make_circuits_multidigraph', '_make_int_info_dict', '_reserved_bw_error_checks',
             '_validate_circuit_interface_capacity', '_multiple_links_between_nodes', '_unique_interface_per_node', 'validate_srlg_nodes',
             'get_interface_object_from_nodes', 'update_simulation', 'Interface.reserved_bandwidth', 'add_network_interfaces_from_list']
BOUNDS = ('up to 4 interfaces pairs over 3-4 nodes, each end present or absent, with any capacity, any name from a set with clashes, its own '
          'failed flag, any reservation set on it, circuit ids from a set with clashes (flexible model), a duplicate node, shortcut flags; '
          'with up to two routed LSPs of any bandwidth and later changes of capacity and reservation; validated directly or by simulating')
REACH = ['accepted', 'rejected', 'no counterpart', 'capacities', 'interface names', 'node names', 'parallel', 'shortcut', 'reservation rejected',
         'forced down', 'circuit ids']

NAMES = ['e0', 'e1']


POOL = ['e0', 'E0', ' e0', 'e0 ', 'e-0', 'e00', 'e', '']


def faults(c, cls, nodes, ifs, reserved, sums):
    """List of (name, formula)."""
    out = []
    nn = [x.name for x in nodes]
    out.append(('node names', TRUE if len(set(nn)) != len(nn) else FALSE))
    k = [(i.node_object.name, i.name) for i in ifs]
    out.append(('interface names', TRUE if len(set(k)) != len(k) else FALSE))

    def mates(i):
        return [j for j in ifs if j.node_object.name == i.remote_node_object.name and j.remote_node_object.name == i.node_object.name and
                (cls is PERF or j.circuit_id == i.circuit_id)]
    alone = [i for i in ifs if not mates(i)]
    out.append(('no counterpart', TRUE if alone else FALSE))
    if cls is FLEX:
        out.append(('circuit ids', TRUE if any(len(mates(i)) > 1 for i in ifs) else FALSE))
    else:
        pairs = [(i.node_object.name, i.remote_node_object.name) for i in ifs]
        out.append(('parallel', TRUE if len(set(pairs)) != len(pairs) else FALSE))
        out.append(('shortcut', TRUE if any(x.igp_shortcuts_enabled for x in nodes) else FALSE))
    caps = [tob(i.capacity != j.capacity) for i in ifs for j in mates(i)]
    out.append(('capacities', Or(*caps) if caps else FALSE))
    for i, r, s in zip(ifs, reserved, sums):
        out.append(('reserved too much', tob(r > i.capacity)))
        out.append(('reserved other', tob(r != s)))
    return out


def verdict(c, n, fl, via):
    any_ = Or(*[f for _, f in fl])
    ok, e = raises(n.model.validate_model if via == 0 else n.model.update_simulation)
    if ok and not isinstance(e, ModelException):
        raise e
    for nm, f in fl:
        if f is TRUE:
            c.reach(nm)
    if ok:
        if not any(f is TRUE for _, f in fl) and any(nm.startswith('reserved') for nm, f in fl if f is not FALSE):
            c.reach('reservation rejected')
        c.check(any_, 'a well-formed model is accepted', repr_(e))
        c.reach('rejected')
    else:
        c.check(Not(any_), 'a faulty model is rejected', 'faults: %s' % [nm for nm, f in fl if f is TRUE])
        c.reach('accepted')
    c.observe('verdict', ok)
    return not ok


def build(c, cls, links, caps, name_sets, failed, cids, absent, dup_node, shortcut, rename=False):
    """A raw model: interfaces given one by one."""
    n = Net()
    n.cls = cls
    for x in sorted(set(''.join(links))):
        n.nodes[x] = NS.Node(x)
    ifs = []
    n.pairs = []
    for k, ab in enumerate(links):
        pair = []
        cap0 = None
        for d, (a, b) in enumerate(((ab[0], ab[1]), (ab[1], ab[0]))):
            if absent and c.choose(2, 'absent_%d%d' % (k, d)):
                continue
            if caps:
                cap = c.real('cap_%d%d' % (k, d), '1/100', 10 ** 7)
            else:
                cap = 10 * (k + 1)
            nm = c.pick(name_sets, 'name_%d%d' % (k, d)) if name_sets else 'i%d%s' % (k, 'ab'[d])
            cid = 'c%d' % c.choose(len(links), 'cid_%d%d' % (k, d)) if cids else 'c%d' % k
            i = NS.Interface(nm, 1, cap, n.nodes[a], n.nodes[b], cid)
            if failed and c.choose(2, 'failed_%d%d' % (k, d)):
                i.failed = True
            pair.append(i)
            ifs.append(i)
        n.pairs.append(pair)
    n.ifs = ifs
    nodes = list(n.nodes.values())
    if dup_node and c.choose(2, 'dup_node'):
        x = NS.Node('A', lat=5)
        nodes.append(x)
    if shortcut:
        for x in sorted(n.nodes):
            if c.choose(2, 'shortcut_' + x):
                n.nodes[x].igp_shortcuts_enabled = True
    n.all_nodes = nodes
    return n


def mk(cls, links, caps=False, name_sets=False, failed=False, cids=False, absent=False, dup_node=False, shortcut=False, reserved=False, sim=False, down=False):
    def h(c):
        n = build(c, cls, links, caps, name_sets, failed, cids, absent, dup_node, shortcut)
        if down:
            for x in n.all_nodes:
                if c.choose(2, 'down_' + x.name):
                    x.failed = True
        was = [[i.failed for i in p] for p in n.pairs]
        n.model = cls(set(n.ifs), set(n.all_nodes), set(), set())
        if len(n.model.interface_objects) != len(n.ifs):
            c.assume(False)        # equal interfaces cannot both be in a set
        res = [0] * len(n.ifs)
        if reserved:
            for k, i in enumerate(n.ifs):
                if c.choose(2, 'reserved_%d' % k):
                    # well clear of the tolerance used against rounding
                    res[k] = c.real('res_%d' % k, 1, 2 * 10 ** 7)
                    i.reserved_bandwidth = res[k]
        via = c.choose(2, 'via') if sim else 0
        fl = faults(c, cls, n.all_nodes, n.ifs, res if via == 0 else [0] * len(res), [0] * len(n.ifs))
        if verdict(c, n, fl, via):
            for p, w in zip(n.pairs, was):
                if cids:
                    continue
                if any(w) and not all(w):
                    c.reach('forced down')
                for i in p:
                    c.check(i.failed is (True if any(w) else False), 'a circuit with a failed end is failed at both', repr_((i.name, i.failed, w)))
    return h


def clear(c, n):
    """Amounts on the 0.1 grid: reservations either agree with what they are compared with or are well off (beyond rounding)."""
    for i in n.ifs:
        x = i.reserved_bandwidth - i.capacity
        c.assume(Or(tob(x <= 0), tob(10 * x >= 3)))
        x = i.reserved_bandwidth - lsp_sum(n, i)
        c.assume(Or(tob(x == 0), tob(10 * x >= 3), tob(-10 * x >= 3)))


def mk_lsp(cls, links, lsps, change, tenths=False):
    """Reservations left by a simulation, then changed."""
    def h(c):
        n = net(c, cls, links, cost=lambda i, ab, d: i + 1, cap=100)
        num = c.dec if tenths else c.int
        for k, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=num('bw_%d' % k, 0, 120))
        finish(n)
        if not simulate(c, n):
            return
        nodes = list(n.nodes.values())
        fl = faults(c, cls, nodes, n.ifs, [i.reserved_bandwidth for i in n.ifs], [lsp_sum(n, i) for i in n.ifs])
        if not verdict(c, n, fl, 0):
            return
        if change == 'reservation':
            i = c.pick(n.ifs, 'which')
            i.reserved_bandwidth = num('new', 0, 150)
        elif change == 'capacity':
            k = c.choose(len(n.ckts), 'which')
            cap = num('cap', 1, 150)
            for i in n.ckts[k]:
                i.capacity = cap
        elif change == 'one capacity':
            i = c.pick(n.ifs, 'which')
            i.capacity = num('cap', 1, 150)
        elif change == 'lsp':
            x = c.pick(n.lsps, 'which')
            n.model.rsvp_lsp_objects.remove(x)
            n.lsps = [y for y in n.lsps if y is not x]
        if tenths:
            clear(c, n)
        fl = faults(c, cls, nodes, n.ifs, [i.reserved_bandwidth for i in n.ifs], [lsp_sum(n, i) for i in n.ifs])
        verdict(c, n, fl, 0)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' missing ends', mk(cls, ['AB', 'BC', 'AC'], absent=True, sim=True)),
            (m + ' capacities', mk(cls, ['AB', 'BC'], caps=True, sim=True)),
            (m + ' names', mk(cls, ['AB', 'BC', 'AC'], name_sets=NAMES, sim=True)),
            (m + ' similar names', mk(cls, ['AB', 'BC'], name_sets=POOL)),
            (m + ' failed ends', mk(cls, ['AB', 'BC'], failed=True, absent=True)),
            (m + ' failed ends, triangle', mk(cls, ['AB', 'BC', 'AC'], failed=True)),
            (m + ' duplicate node', mk(cls, ['AB', 'BC'], dup_node=True, name_sets=NAMES, absent=True)),
            (m + ' shortcuts', mk(cls, ['AB', 'BC'], shortcut=True, absent=True, sim=True)),
            (m + ' parallel', mk(cls, ['AB', 'AB', 'BC'], absent=True, caps=True)),
            (m + ' failed parallel', mk(cls, ['AB', 'AB'], failed=True, absent=True)),
            (m + ' failed, capacities', mk(cls, ['AB', 'BC'], failed=True, caps=True)),
            (m + ' failed, names and shortcuts', mk(cls, ['AB', 'BC'], failed=True, name_sets=NAMES, shortcut=cls is PERF)),
            (m + ' failed, reservations', mk(cls, ['AB'], failed=True, caps=True, reserved=True)),
            (m + ' failed duplicate node', mk(cls, ['AB'], failed=True, dup_node=True)),
            (m + ' names on failed nodes', mk(cls, ['AB', 'BC'] if cls is PERF else ['AB', 'AB'], name_sets=NAMES, down=True)),
            (m + ' failed nodes', mk(cls, ['AB', 'BC'], caps=True, absent=True, down=True)),
            (m + ' duplicate failed node', mk(cls, ['AB'], dup_node=True, down=True, shortcut=True)),
            (m + ' reservations', mk(cls, ['AB', 'BC'], caps=False, reserved=True)),
            (m + ' reservations, free capacity', mk(cls, ['AB'], caps=True, reserved=True, sim=True)),
        ]
        for ch in ('reservation', 'capacity', 'one capacity', 'lsp'):
            out.append((m + ' LSPs, changed ' + ch, mk_lsp(cls, 'tri', ['AC', 'AB'], ch)))
            out.append((m + ' LSPs of any tenths, changed ' + ch, mk_lsp(cls, 'tri' if deep else 'line3', ['AC', 'AB'], ch, tenths=True)))
        if deep:
            out += [
                (m + ' missing ends, names', mk(cls, ['AB', 'BC', 'AC'], absent=True, name_sets=NAMES)),
                (m + ' four circuits', mk(cls, ['AB', 'BC', 'AC', 'CD'], absent=True, caps=True)),
                (m + ' failed, missing, capacities', mk(cls, ['AB', 'BC'], absent=True, failed=True, caps=True, name_sets=NAMES)),
                (m + ' everything, edge', mk(cls, ['AB', 'BC'], absent=True, failed=True, caps=True, name_sets=NAMES, dup_node=True, shortcut=True, sim=True)),
                (m + ' parallel names', mk(cls, ['AB', 'AB', 'BC'], name_sets=NAMES, absent=True, failed=True)),
            ]
    out += [
        ('flex circuit ids', mk(FLEX, ['AB', 'AB'], cids=True, absent=True)),
        ('flex circuit ids, three', mk(FLEX, ['AB', 'AB', 'BC'], cids=True)),
        ('flex circuit ids, capacities', mk(FLEX, ['AB', 'AB'], cids=True, caps=True)),
        ('flex parallel LSPs', mk_lsp(FLEX, 'par2', ['AB', 'AB'], 'capacity')),
    ]
    if deep:
        out += [('flex circuit ids, missing', mk(FLEX, ['AB', 'AB', 'BC'], cids=True, absent=True)),
                ('flex parallel LSPs, reservation', mk_lsp(FLEX, 'par2line', ['AC', 'AB'], 'reservation'))]
    return out
