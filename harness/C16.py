"""C16: adding and looking up objects keeps the model's identities unique."""
from .common import *  # noqa

FUNCTIONS = ['add_node', 'add_demand', 'add_rsvp_lsp', 'add_srlg', 'add_circuit', 'add_network_interfaces_from_list', '_make_network_interfaces',
             'change_interface_name', 'get_node_object', 'get_interface_object', 'get_demand_object', 'get_rsvp_lsp', 'get_srlg_object',
             'get_circuit_object_from_interface', 'get_interface_object_from_nodes', '_does_interface_exist', 'validate_model',
             'Demand._key', 'RSVP_LSP._key', 'Interface._key', 'SRLG.__init__']
BOUNDS = ('models of 3 nodes and 1-3 circuits with a demand, an LSP and a group; every name of one to three characters over {a, b, -} for '
          'nodes, interfaces, demands, LSPs and groups (distinct where their identities must be), every new name of the same kind; one '
          'operation (two with names from a fixed set; thorough: more) of each kind, any traffic, cost and capacity; then every lookup with a '
          'free name, or by every name in play; likewise with names of a common beginning or end of 17 or 20 characters (the rest free), and with a circuit, a node or a group failed')
REACH = ['added', 'refused', 'found', 'not found', 'renamed', 'rename refused', 'list', 'shared name', 'circuit', 'added down']


def snapshot(n):
    m = n.model
    return {
        'nodes': list(m.node_objects), 'ifs': list(m.interface_objects), 'demands': list(m.demand_objects), 'lsps': list(m.rsvp_lsp_objects),
        'groups': list(m.srlg_objects),
    }


KINDS = ('nodes', 'ifs', 'demands', 'lsps', 'groups')


def attrs(i):
    return (i.name, i.cost, i.capacity, i.node_object, i.remote_node_object, i.failed, i.rsvp_enabled, i.percent_reservable_bandwidth)


def same_attrs(x, y):
    return And(*[(TRUE if p is q else FALSE) if k in (3, 4) else tob(p == q) for k, (p, q) in enumerate(zip(x, y))])


def unchanged(c, n, before, what, new=None):
    """The model holds the same objects as before, plus those in new: {kind: count}."""
    after = snapshot(n)
    added = {}
    for k in KINDS:
        gone = [o for o in before[k] if not member(o, after[k])]
        extra = [o for o in after[k] if not member(o, before[k])]
        c.check(not gone, what + ' removes nothing', repr_(gone))
        c.check(len(extra) == (new or {}).get(k, 0), what + ' adds what it should', repr_((k, extra)))
        added[k] = extra
    for i, a in zip(before['ifs'], n.if_attrs):
        c.check(same_attrs(attrs(i), a), what + ' leaves the other interfaces alone', repr_((attrs(i), a)))
    for d, a in zip(before['demands'], n.demand_attrs):
        c.check(And(*[tob(x == y) if not isinstance(y, NS.Node) else x is y for x, y in zip((d.source_node_object, d.dest_node_object, d.traffic, d.name), a)]),
                what + ' leaves the other demands alone')
    return added


def note(n):
    n.snap = snapshot(n)
    n.if_attrs = [attrs(i) for i in n.snap['ifs']]
    n.demand_attrs = [(d.source_node_object, d.dest_node_object, d.traffic, d.name) for d in n.snap['demands']]


def adding(c, n, label, clash, fn, args, new, verify=None):
    """fn(*args) is refused exactly when clash (a formula); otherwise adds new."""
    note(n)
    ok, e = raises(fn, *args)
    if ok:
        if not isinstance(e, ModelException):
            raise e
        c.check(clash, label + ' of a new identity is accepted', repr_(e))
        c.reach('refused')
        unchanged(c, n, n.snap, 'a refused ' + label)
        return None
    c.check(Not(clash), label + ' of a present identity is refused')
    c.reach('added')
    added = unchanged(c, n, n.snap, label, new)
    if verify and all(len(added[k]) == v for k, v in new.items()):
        verify(added)
    return added


def any_eq(x, ys):
    return Or(*[tob(x == y) for y in ys]) if ys else FALSE


def found(c, what, obj, fn, *args):
    ok, o = attempt(c, 'finding the added %s does not raise' % what, fn, *args)
    if ok:
        c.check(o is obj, 'the added %s is found' % what, repr_((o, obj)))


class Ops(object):
    def node(c, n, nm):
        x = NS.Node(nm(), 3, 4)
        adding(c, n, 'adding a node', any_eq(x.name, [o.name for o in n.model.node_objects]), n.model.add_node, (x,), {'nodes': 1},
               lambda a: (c.check(a['nodes'][0] is x, 'the node itself is added'), found(c, 'node', x, n.model.get_node_object, x.name)))

    def demand(c, n, nm, lsp=False):
        a, b = n.pick_nodes()
        name = nm()
        cur = n.model.rsvp_lsp_objects if lsp else n.model.demand_objects
        clash = Or(*[tob(name == (o.lsp_name if lsp else o.name)) for o in cur
                     if o.source_node_object is a and o.dest_node_object is b] or [FALSE])
        if any(o.source_node_object is not a or o.dest_node_object is not b for o in cur):
            c.reach('shared name')
        if lsp:
            def ver(d):
                d = d['lsps'][0]
                c.check(And(d.source_node_object is a, d.dest_node_object is b, tob(d.lsp_name == name)), 'the LSP added is the one asked for', repr_(d))
                found(c, 'LSP', d, n.model.get_rsvp_lsp, a.name, b.name, name)
            adding(c, n, 'adding an LSP', clash, n.model.add_rsvp_lsp, (a.name, b.name, name), {'lsps': 1}, ver)
        else:
            t = c.real('traffic_new', 0, 10 ** 9)

            def ver(d):
                d = d['demands'][0]
                c.check(And(d.source_node_object is a, d.dest_node_object is b, tob(d.name == name), tob(d.traffic == t)),
                        'the demand added is the one asked for', repr_(d))
                found(c, 'demand', d, n.model.get_demand_object, a.name, b.name, name)
            adding(c, n, 'adding a demand', clash, n.model.add_demand, (a.name, b.name, t, name), {'demands': 1}, ver)

    def lsp(c, n, nm):
        Ops.demand(c, n, nm, True)

    def group(c, n, nm):
        name = nm()
        how = c.choose(2, 'how')
        cl = any_eq(name, [g.name for g in n.model.srlg_objects])

        def ver(a):
            c.check(tob(a['groups'][0].name == name) if not how else True, 'the group added is the one asked for')
            c.check(a['groups'][0].failed is False and not a['groups'][0].node_objects and not a['groups'][0].interface_objects, 'a new group is up and empty')
            found(c, 'group', a['groups'][0], n.model.get_srlg_object, name)
        adding(c, n, 'adding a group', cl, n.model.add_srlg if not how else (lambda x: NS.SRLG(x, n.model)), (name,), {'groups': 1}, ver)

    def circuit(c, n, nm, aslist=False):
        a, b = n.free_pair()
        na, nb = nm(), nm()
        ca, cb, cap = c.int('cost_a', 1, 10 ** 9), c.int('cost_b', 1, 10 ** 9), c.real('cap_new', '1/1000', 10 ** 9)
        down = bool(c.choose(2, 'down'))
        cid = c.pick(['new', 0, '', 77] if n.cls is FLEX else [None, 77, 0, 'x'], 'cid')
        if n.cls is FLEX and c.choose(2, 'used id'):
            cid = n.ifs[0].circuit_id
        clash = Or(any_eq(na, [i.name for i in n.model.interface_objects if i.node_object is a]),
                   any_eq(nb, [i.name for i in n.model.interface_objects if i.node_object is b]), TRUE if cid == n.ifs[0].circuit_id and cid is not None and n.cls is FLEX else FALSE)

        def ver(x):
            new = x['ifs']
            w = [(na, ca, cap, a, b, down, True, 100), (nb, cb, cap, b, a, down, True, 100)]
            for i in new:
                k = [j for j in (0, 1) if w[j][3] is i.node_object]
                c.check(len(k) == 1 and same_attrs(attrs(i), w[k[0]]), 'the circuit added is the one asked for', repr_((attrs(i), w)))
                found(c, 'interface', i, n.model.get_interface_object, i.name, i.node_object.name)
            c.reach('added down' if down else 'circuit')
            if len(new) == 2:
                c.check(any(member(new[0], (k.interface_a, k.interface_b)) and member(new[1], (k.interface_a, k.interface_b)) for k in n.model.circuit_objects),
                        'the new interfaces form a circuit')
        if aslist:
            if cid is None:
                cid = 77
            if cid == n.ifs[0].circuit_id:
                return
            rows = [{'name': na, 'cost': ca, 'capacity': cap, 'node': a.name, 'remote_node': b.name, 'circuit_id': cid, 'failed': down},
                    {'name': nb, 'cost': cb, 'capacity': cap, 'node': b.name, 'remote_node': a.name, 'circuit_id': cid, 'failed': down}]
            c.assume(Not(clash))       # what a refused list leaves behind is not specified
            c.reach('list')
            adding(c, n, 'adding interfaces from a list', clash, n.model.add_network_interfaces_from_list, (rows,), {'ifs': 2}, ver)
            return
        adding(c, n, 'adding a circuit', clash, n.model.add_circuit, (a, b, na, nb, ca, cb, cap, down) + ((cid,) if cid is not None else ()), {'ifs': 2}, ver)

    def listed(c, n, nm):
        Ops.circuit(c, n, nm, True)

    def newnodes(c, n, nm):
        """A list of interfaces introducing nodes: each new node once, shared by its interfaces."""
        x, y = nm(), nm()
        old = list(n.model.node_objects)
        a = n.nodes['A']
        for z in (x, y):
            c.assume(Not(any_eq(z, [o.name for o in old])))
        c.assume(tob(x != y))
        rows = []
        for k, (p, q) in enumerate(((a.name, x), (x, y), (a.name, y))):
            for d, (u, v) in enumerate(((p, q), (q, p))):
                rows.append({'name': 'n%d%d' % (k, d), 'cost': 5, 'capacity': 9, 'node': u, 'remote_node': v, 'circuit_id': 'new%d' % k})
        note(n)
        if not attempt(c, 'adding interfaces from a list does not raise', n.model.add_network_interfaces_from_list, rows)[0]:
            return
        added = unchanged(c, n, n.snap, 'adding interfaces from a list', {'nodes': 2, 'ifs': 6})
        if len(added['nodes']) != 2:
            return
        nx_ = [o for o in added['nodes'] if bool(tob(o.name == x))]
        ny = [o for o in added['nodes'] if bool(tob(o.name == y))]
        c.check(len(nx_) == 1 and len(ny) == 1, 'the new nodes are the named ones')
        c.check(all(member(i.node_object, added['nodes'] + [a]) and member(i.remote_node_object, added['nodes'] + [a]) for i in added['ifs']),
                'interfaces of a list use the nodes of the model', repr_(added['ifs']))
        c.check(len(n.model.circuit_objects) == len(n.ckts) + 3, 'the new interfaces form circuits')

    def rename(c, n, nm):
        i = c.pick(n.ifs, 'which')
        old = i.name
        new = nm()
        note(n)
        clash = any_eq(new, [j.name for j in n.model.interface_objects if j.node_object is i.node_object and j is not i])
        ok, e = raises(n.model.change_interface_name, i.node_object.name, old, new)
        k = [j for j, o in enumerate(n.snap['ifs']) if o is i][0]
        if ok:
            if not isinstance(e, ModelException):
                raise e
            c.check(clash, 'renaming to a free name is accepted', repr_(e))
            c.reach('rename refused')
            unchanged(c, n, n.snap, 'a refused rename')
            return
        c.check(Not(clash), 'renaming to a name of the node is refused')
        c.reach('renamed')
        n.if_attrs[k] = (new,) + n.if_attrs[k][1:]
        unchanged(c, n, n.snap, 'renaming')
        ok, o = attempt(c, 'finding a renamed interface does not raise', n.model.get_interface_object, new, i.node_object.name)
        if ok:
            c.check(o is i, 'a renamed interface is found under its new name')
        if tob(new != old):
            ok, e = raises(n.model.get_interface_object, old, i.node_object.name)
            c.check(ok and isinstance(e, ModelException), 'a renamed interface is not found under its old name')
        c.check(i in n.model.interface_objects, 'a renamed interface is still an element of the model')
        ok, r = attempt(c, 'remote of a renamed interface does not raise', i.get_remote_interface, n.model)
        if ok:
            c.check(r is n.ckts[n.ifs.index_of(i) // 2][1 - n.ifs.index_of(i) % 2], 'the remote of a renamed interface is unchanged')


class Ifs(list):
    def index_of(self, i):
        return [k for k, x in enumerate(self) if x is i][0]


def lookup(c, label, fn, args, cands):
    """cands: list of (formula, object).  fn returns the one whose formula holds, or raises the library's error."""
    ok, e = raises(fn, *args)
    if ok:
        if not isinstance(e, ModelException):
            raise e
        c.reach('not found')
        c.check(Not(Or(*[f for f, _ in cands])) if cands else True, label + ': what is there is found', repr_((args, cands)))
        return
    got = fn(*args)
    c.reach('found')
    f = [g for g, o in cands if o is got]
    c.check(f[0] if f else False, label + ': the object returned has that identity', repr_((got, args)))


def lookups(c, n, nm):
    m = n.model
    kind = c.choose(6, 'lookup')
    if kind == 0:
        x = nm()
        lookup(c, 'node lookup', m.get_node_object, (x,), [(tob(o.name == x), o) for o in m.node_objects])
    elif kind in (1, 2):
        x = nm()
        o = n.nodes[sorted(n.nodes)[c.choose(len(n.nodes), 'at')]]
        if kind == 1:
            lookup(c, 'interface lookup', m.get_interface_object, (x, o.name), [(tob(i.name == x), i) for i in m.interface_objects if i.node_object is o])
        else:
            lookup(c, 'circuit lookup', m.get_circuit_object_from_interface, (x, o.name),
                   [(Or(*[tob(i.name == x) for i in (k.interface_a, k.interface_b) if i.node_object is o]), k) for k in m.circuit_objects
                    if any(i.node_object is o for i in (k.interface_a, k.interface_b))])
    elif kind == 3:
        a, b = n.pick_nodes()
        noname = bool(c.choose(2, 'no name'))
        x = 'none' if noname else nm()
        lookup(c, 'demand lookup', m.get_demand_object, (a.name, b.name) + (() if noname else (x,)),
               [(tob(d.name == x), d) for d in m.demand_objects if d.source_node_object is a and d.dest_node_object is b])
    elif kind == 4:
        a, b = n.pick_nodes()
        noname = bool(c.choose(2, 'no name'))
        x = 'none' if noname else nm()
        lookup(c, 'LSP lookup', m.get_rsvp_lsp, (a.name, b.name) + (() if noname else (x,)),
               [(tob(d.lsp_name == x), d) for d in m.rsvp_lsp_objects if d.source_node_object is a and d.dest_node_object is b])
    else:
        x = nm()
        lookup(c, 'group lookup', m.get_srlg_object, (x,), [(tob(g.name == x), g) for g in m.srlg_objects])
        ok, g = attempt(c, 'quiet group lookup does not raise', m.get_srlg_object, x, False)
        if ok and g is None:
            c.check(Not(any_eq(x, [g.name for g in m.srlg_objects])), 'group lookup: what is there is found')


def mk(cls, links, ops, steps=1, sym='', look=True, sims=False, two=False, fixed=None, inames=None, pool=(), same_id=False, onames=('d0', 'd1'), stem=None, down=()):
    """sym: kinds of names that are symbolic: n(odes) i(nterfaces) d(emands, LSPs and groups) x(new names)"""
    def h(c):
        cnt = [0]

        def name(kind, fixed):
            if kind in sym:
                cnt[0] += 1
                if stem:
                    return stem[0] + c.str('name_%s%d' % (kind, cnt[0]), 1, 1, 'abc') + stem[1]
                return c.str('name_%s%d' % (kind, cnt[0]), 0 if kind in 'd' else 1, 2, 'ab-')
            return fixed

        def new():
            cnt[0] += 1
            if 'x' in sym and stem:
                return stem[0] + c.str('name_new%d' % cnt[0], 1, 1, 'abc') + stem[1]
            if 'x' in sym:
                return c.str('name_new%d' % cnt[0], 0, 2, 'ab-')
            return c.pick(n.pool, 'name_new%d' % cnt[0])
        names_ = {}
        for x in sorted(set(''.join(links))):
            names_[x] = name('n', (fixed or {}).get(x, x))
            for y in names_:
                if y != x:
                    c.assume(tob(names_[x] != names_[y]))
        n = net(c, cls, links, cost=lambda i, ab, d: i + 1, cap=100, names=names_)
        for k, i in enumerate(n.ifs):
            i.name = name('i', inames[k] if inames else i.name)
            if same_id:
                i.circuit_id = 'same'
            for j in n.ifs[:k]:
                if j.node_object is i.node_object:
                    c.assume(tob(i.name != j.name))
        n.ifs = Ifs(n.ifs)
        last = sorted(n.nodes)[-1]
        dn = name('d', onames[0])
        add_demand(n, 'A', last, 10, dn)
        add_lsp(n, 'A', last, name('d', onames[0]))
        if two:
            add_demand(n, 'A', last, 20, name('d', onames[1]))
            c.assume(tob(n.demands[0].name != n.demands[1].name))
            add_lsp(n, last, 'A', name('d', onames[1]))
        n.pool = ['A', last, 'i0a', 'i0b', 'd0', 'new'] + list(pool)
        m = finish(n)
        attempt(c, 'validation does not raise', m.validate_model)
        attempt(c, 'adding a group does not raise', m.add_srlg, name('d', 'd0'))
        if down:
            d = c.pick(down, 'down')
            if d == 'group':
                attempt(c, 'joining a group does not raise', n.ifs[0].add_to_srlg, 'd0', m)
                attempt(c, 'failing a group does not raise', m.fail_srlg, 'd0')
            elif d == 'circuit':
                attempt(c, 'failing an interface does not raise', m.fail_interface, n.ifs[0].name, n.ifs[0].node_object.name)
            else:
                attempt(c, 'failing a node does not raise', m.fail_node, n.nodes[d].name)
        if sims and not simulate(c, n):
            return
        nd = sorted(n.nodes)

        def pick_nodes():
            a = c.choose(len(nd), 'from_%d' % cnt[0])
            b = (a + 1 + c.choose(len(nd) - 1, 'to_%d' % cnt[0])) % len(nd)
            return n.nodes[nd[a]], n.nodes[nd[b]]
        n.pick_nodes = pick_nodes
        # in the single-link model a new circuit needs a pair of nodes without one
        n.free_pair = (lambda: (n.nodes['A'], n.nodes[last])) if cls is PERF and 'A' + last not in links else \
            (lambda: (n.nodes['A'], n.nodes['B'])) if cls is FLEX else None
        for t in range(steps):
            getattr(Ops, ops[c.choose(len(ops), 'op_%d' % t)])(c, n, new)
        if look:
            lookups(c, n, new)
        if sims:
            simulate(c, n)
        for k in KINDS:
            c.observe('number of ' + k, len(snapshot(n)[k]))
        for i in n.ifs:
            c.observe('cost', i.cost)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    B = ['node', 'demand', 'lsp', 'group', 'circuit', 'rename', 'listed']
    for m, cls in MODELS:
        out += [
            (m + ' fixed names, one', mk(cls, ['AB', 'BC'], B, 1, look=False)),
            (m + ' fixed names, two', mk(cls, ['AB', 'BC'], ['node', 'demand', 'lsp', 'group', 'rename'], 2, look=False)),
            (m + ' any new name', mk(cls, ['AB', 'BC'], B, 1, sym='idx', look=False)),
            (m + ' any node names', mk(cls, ['AB', 'BC'], ['node', 'demand', 'circuit'], 1, sym='nx', look=False)),
            (m + ' new nodes', mk(cls, ['AB'], ['newnodes'], 1, sym='nx', look=False)),
            (m + ' around simulations', mk(cls, ['AB', 'BC'], B, 1, sym='dx', look=False, sims=True, two=True)),
            (m + ' something failed', mk(cls, ['AB', 'BC'], ['node', 'demand', 'lsp', 'group', 'rename'], 1, look=False, sims=True, two=True, down=('circuit', 'A', 'C', 'group'))),
            (m + ' circuit failed', mk(cls, ['AB', 'BC'], ['circuit', 'listed'], 1, look=False, down=('circuit', 'group'))),
            (m + ' something failed, lookups', mk(cls, ['AB', 'BC'], ['lookup'], 0, sims=True, two=True, down=('circuit', 'A', 'C', 'group'))),
            (m + ' fixed names, lookups', mk(cls, ['AB', 'BC', 'AC'], ['lookup'], 0, two=True)),
        ]
        out.append((m + ' no name, lookups', mk(cls, ['AB', 'BC', 'AC'], ['lookup'], 0, two=True, onames=('none', 'd1'), pool=['d1', 'none'])))
        out.append((m + ' names beside none', mk(cls, ['AB', 'BC', 'AC'], ['demand', 'lsp'], 1, look=deep, two=True, onames=('d1', 'd2'), pool=['d1', 'none', ''])))
        # names whose concatenations coincide, names differing only in case or blanks
        out.append((m + ' colliding names, lookups', mk(cls, ['AB', 'BC'], ['node', 'rename', 'demand'] if deep else ['rename'], 1, two=deep, fixed={'A': 'A', 'B': '1A', 'C': 'a'},
                                                        inames=['g', 'g1', 'g-', 'G'], pool=['g', 'g1', '1A', 'a', 'G', 'g-', ' g', 'D0'])))
        if cls is FLEX:
            out.append((m + ' shared circuit ids, lookups', mk(cls, ['AB', 'BC', 'AC'], ['rename'] if deep else ['lookup'], 1 if deep else 0, same_id=True, two=True, pool=['i1a', 'i1b', 'i2a', 'i2b'])))
        for what, stem in (('beginning', ('core-router.site-', '')), ('end', ('', '.core router.example'))):
            for k in ('nx', 'ix', 'dx'):
                out.append((m + ' same long %s, any %s names' % (what, {'n': 'node', 'i': 'interface', 'd': 'other'}[k[0]]),
                            mk(cls, ['AB', 'BC'], {'n': ['node', 'listed'], 'i': ['rename', 'circuit'], 'd': ['demand', 'lsp', 'group']}[k[0]], 1, sym=k, two=True, stem=stem, look=False)))
                out.append((m + ' same long %s, any %s names, lookups' % (what, {'n': 'node', 'i': 'interface', 'd': 'other'}[k[0]]),
                            mk(cls, ['AB', 'BC'], ['lookup'], 0, sym=k, two=True, stem=stem)))
        for k in ('nx', 'ix', 'dx'):
            out.append((m + ' any %s names, lookups' % {'n': 'node', 'i': 'interface', 'd': 'other'}[k[0]], mk(cls, ['AB', 'BC', 'AC'], ['lookup'], 0, sym=k, two=True)))
        if deep:
            out += [
                (m + ' fixed names, one and lookups', mk(cls, ['AB', 'BC'], B, 1)),
                (m + ' any names, lookups', mk(cls, ['AB', 'BC', 'AC'], ['lookup'], 0, sym='nidx', two=True)),
                (m + ' fixed names, two and lookups', mk(cls, ['AB', 'BC'], ['node', 'demand', 'lsp', 'group', 'rename'], 2)),
                (m + ' any new names, two', mk(cls, ['AB', 'BC'], ['node', 'demand', 'lsp', 'group', 'rename'], 2, sym='idx', look=False)),
                (m + ' any names', mk(cls, ['AB', 'BC'], B, 1, sym='nidx', two=True)),
            ]
    return out
