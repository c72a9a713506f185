"""C21: circuits pair each interface with exactly its remote end."""
from .common import *  # noqa

FUNCTIONS = ['_make_circuits', '_make_circuits_multidigraph', 'get_circuit_object_from_interface', 'Interface.get_remote_interface',
             'Interface.get_circuit_object', 'Circuit.failed', 'Circuit.get_circuit_interfaces', 'get_interface_object_from_nodes', 'validate_model',
             'update_simulation', 'add_circuit', 'fail_interface', 'unfail_interface', 'fail_node', 'unfail_node']
BOUNDS = ('up to five circuits over up to four nodes, up to three of them parallel (flexible model); each present or absent, each end failed or not, '
          'each end RSVP-enabled or not; circuit ids: any assignment of small integers, or of values of mixed types, to the ends (flexible model); costs: every integer >= 1; '
          'after validation, simulation and one or two of fail/restore interface or node, add circuit, remove circuit')
REACH = ['paired', 'parallel', 'failed', 'up', 'changed', 'shared id', 'rejected', 'added', 'removed']


def verify(c, n, label=''):
    m = n.model
    ok, ckts = attempt(c, 'circuits can be listed', lambda: list(m.circuit_objects))
    if not ok:
        return
    seen = []
    for ck in ckts:
        ok, both = attempt(c, 'the interfaces of a circuit can be read', ck.get_circuit_interfaces, m)
        if not ok:
            return
        a, b = both
        c.check(member(a, n.ifs) and member(b, n.ifs) and a is not b, label + 'circuits are made of interfaces of the model', repr_(ck))
        c.check(a.node_object is b.remote_node_object and b.node_object is a.remote_node_object, label + 'the ends of a circuit join the same nodes in opposite directions', repr_(ck))
        c.check(tob(a.circuit_id == b.circuit_id), label + 'the ends of a circuit share the circuit id', repr_(ck))
        c.check(tob(ck.circuit_id() == a.circuit_id), label + 'a circuit reports its id', repr_(ck))
        ok, f = attempt(c, 'the state of a circuit can be read', ck.failed, m)
        down = any(x.failed for x in (a, b))
        c.check(ok and bool(f) is down, label + 'a circuit is failed exactly when one of its interfaces is', repr_((ck, f)))
        c.reach('failed' if down else 'up')
        seen += [a, b]
    c.check(same_objs(seen, n.ifs), label + 'the circuits cover every interface once', repr_(names(seen)))
    c.check(len(ckts) == len(n.ckts), label + 'one circuit per pair of interfaces', repr_(len(ckts)))
    for p in n.ckts:
        for i, j in (p, p[::-1]):
            ok, r = attempt(c, 'the remote interface can be found', i.get_remote_interface, m)
            c.check(ok and r is j, label + 'the remote interface is the other end of the circuit', repr_((i.name, r)))
            if ok:
                ok, s = attempt(c, 'the remote interface can be found', r.get_remote_interface, m)
                c.check(ok and s is i, label + 'the remote of the remote is the interface', repr_((i.name, s)))
            for what, fn in (('interface', lambda: i.get_circuit_object(m)), ('model', lambda: m.get_circuit_object_from_interface(i.name, i.node_object.name))):
                ok, ck = attempt(c, 'the circuit of an interface can be found', fn)
                c.check(ok and member(ck, ckts) and member(i, (ck.interface_a, ck.interface_b)) and member(j, (ck.interface_a, ck.interface_b)),
                        label + 'the circuit reported by the %s contains it and its remote' % what, repr_((i.name, ck)))
            c.reach('paired')
            if len([k for k in n.ifs if k.node_object is i.node_object and k.remote_node_object is i.remote_node_object]) > 1:
                c.reach('parallel')
    c.observe('circuits', len(ckts))


def settle(c, n, name):
    """Validate or simulate."""
    if c.choose(2, name) == 0:
        return attempt(c, 'validation accepts the model', n.model.validate_model)[0]
    return simulate(c, n)


def mk(cls, links, present=True, failed='ends', rsvp='sym2', ops=(), settle_both=True, orders=False):
    def h(c):
        n = net(c, cls, links, present='sym' if present else None, rsvp=rsvp, cap=10, cost=None if len(shape(links)) < 3 else 1)
        for k, p in enumerate(n.ckts):
            for d, i in enumerate(p):
                if failed == 'ends' and c.bool('failed_%d%d' % (k, d)):
                    i.failed = True
        if orders:
            order(c, n.ifs, 'ifs')
        finish(n)
        if not (settle(c, n, 'via') if settle_both else simulate(c, n)):
            return
        verify(c, n)
        for k, op in enumerate(ops):
            if op is None:
                op = c.pick(['fail', 'restore', 'fail node', 'restore node', 'add', 'remove'], 'op_%d' % k)
            if not change(c, n, op, k):
                return
            if not settle(c, n, 'via_%d' % k):
                return
            c.reach('changed')
            verify(c, n, 'after a change: ')
    return h


def change(c, n, op, k):
    m = n.model
    if op in ('fail', 'restore'):
        if not n.ifs:
            return False
        i = c.pick(n.ifs, 'which_%d' % k)
        if op == 'restore' and (i.node_object.failed or i.remote_node_object.failed):
            return False
        return attempt(c, op + ' does not raise', m.fail_interface if op == 'fail' else m.unfail_interface, i.name, i.node_object.name)[0]
    if op in ('fail node', 'restore node'):
        x = c.pick(sorted(n.nodes), 'node_%d' % k)
        return attempt(c, op + ' does not raise', m.fail_node if op == 'fail node' else m.unfail_node, x)[0]
    if op == 'add':
        a = c.pick([x for x in sorted(n.nodes) if not n.nodes[x].failed] or sorted(n.nodes), 'a')
        b = c.pick([x for x in sorted(n.nodes) if x != a], 'b')
        if n.nodes[a].failed or n.nodes[b].failed:
            return False
        if n.cls is PERF and any(i.node_object.name == a and i.remote_node_object.name == b for i in n.ifs):
            return False
        before = list(m.interface_objects)
        kw = {'circuit_id': 'new%d' % k} if n.cls is FLEX else {}
        ok, _ = attempt(c, 'adding a circuit does not raise', m.add_circuit, n.nodes[a], n.nodes[b], 'x%da' % k, 'x%db' % k, 5, 5, 10, **kw)
        if not ok:
            return False
        new = [i for i in m.interface_objects if not member(i, before)]
        new.sort(key=lambda i: i.name)
        c.check([i.name for i in new] == ['x%da' % k, 'x%db' % k], 'adding a circuit adds its two interfaces', repr_(new))
        if len(new) != 2:
            return False
        n.ifs += new
        n.ckts.append(tuple(new))
        c.reach('added')
        return True
    if op == 'remove':
        if not n.ckts:
            return False
        p = n.ckts.pop(c.choose(len(n.ckts), 'gone_%d' % k))
        for i in p:
            m.interface_objects.remove(i)
        n.ifs = [i for i in n.ifs if not member(i, p)]
        c.reach('removed')
        return True


def later(cls, links, same=False):
    """Ends failed or restored by attribute after validation; equal interface names on different nodes."""
    def h(c):
        n = net(c, cls, links, cost=1, cap=10)
        if same:
            for x in n.nodes.values():
                for k, i in enumerate([i for i in n.ifs if i.node_object is x]):
                    i.name = 'e%d' % k
        finish(n)
        if not settle(c, n, 'via'):
            return
        verify(c, n)
        for k, p in enumerate(n.ckts):
            for d, i in enumerate(p):
                i.failed = c.bool('failed_%d%d' % (k, d))
        verify(c, n, 'failed by hand: ')
    return h


POOL = [1, '1', 0, '', 'x', 'X', ' x', (1, 2), -1]


def ids(links, top):
    """Any circuit ids: if the model is accepted the pairing follows them.  top: a number, or a list of ids."""
    def h(c):
        n = net(c, FLEX, links, cost=1, cap=10)
        for i in n.ifs:
            i.circuit_id = c.int('id_' + i.name, 1, top) if isinstance(top, int) else c.pick(top, 'id_' + i.name)
        finish(n)
        mates = {}
        for i in n.ifs:
            mates[i.name] = [j for j in n.ifs if j.node_object is i.remote_node_object and j.remote_node_object is i.node_object and tob(j.circuit_id == i.circuit_id)]
        good = all(len(v) == 1 for v in mates.values())
        bad, e = raises(n.model.validate_model)
        if bad:
            if not isinstance(e, ModelException):
                raise e
            c.check(not good, 'a model whose circuit ids pair its interfaces is accepted', repr_(e))
            c.reach('rejected')
            return
        c.check(good, 'a model whose circuit ids do not pair its interfaces is rejected')
        if not good:
            return
        n.ckts, done = [], []
        for i in n.ifs:
            if not member(i, done):
                j = mates[i.name][0]
                n.ckts.append((i, j))
                done += [i, j]
        for p in n.ckts:
            for q in n.ckts:
                if p is not q and bool(tob(p[0].circuit_id == q[0].circuit_id)):
                    c.reach('shared id')
        verify(c, n)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' edge', mk(cls, 'edge', orders=True)),
            (m + ' triangle', mk(cls, 'tri', rsvp=None)),
            (m + ' triangle, RSVP', mk(cls, 'tri', failed=None, present=False)),
            (m + ' square', mk(cls, 'square', rsvp='sym', failed=None)),
            (m + ' ends failed by hand', later(cls, 'tri')),
            (m + ' equal interface names', later(cls, ['AB', 'CD', 'EF', 'BD'], same=True)),
            (m + ' big', mk(cls, 'big', present=False, failed=None, rsvp=None)),
            (m + ' orders', mk(cls, 'line3', failed=None, rsvp=None, orders=True, present=False)),
            (m + ' one change', mk(cls, 'line3', failed=None, rsvp=None, ops=(None,))),
            (m + ' two changes', mk(cls, 'line3', present=False, failed=None, rsvp=None, ops=(None, None), settle_both=False)),
        ]
        if deep:
            out += [
                (m + ' diamond', mk(cls, 'diamond', rsvp=None, failed='ends')),
                (m + ' triangle, everything', mk(cls, 'tri')),
                (m + ' triangle, two changes', mk(cls, 'tri', ops=(None, None), rsvp=None, failed=None)),
                (m + ' three changes', mk(cls, 'line3', present=False, failed=None, rsvp=None, ops=(None, None, None), settle_both=False)),
            ]
    out += [
        ('flex three parallel', mk(FLEX, 'par3', rsvp=None)),
        ('flex parallel, RSVP', mk(FLEX, 'par2line', failed=None, present=False)),
        ('flex ends failed by hand', later(FLEX, 'par2line')),
        ('flex equal interface names', later(FLEX, ['AB', 'CD', 'AB'], same=True)),
        ('flex big parallel', mk(FLEX, 'bigpar', present=False, failed=None, rsvp=None)),
        ('flex parallel orders', mk(FLEX, 'par2', failed=None, rsvp=None, orders=True)),
        ('flex parallel, one change', mk(FLEX, 'par2line', failed=None, rsvp=None, ops=(None,))),
        ('flex ids, two parallel', ids('par2', 2)),
        ('flex ids, line', ids('line3', 2)),
        ('flex mixed ids, one link', ids('edge', POOL)),
        ('flex mixed ids, two parallel', ids('par2', POOL[:6])),
        ('flex mixed ids, line', ids('line3', POOL[:5])),
        ('flex ids, parallel line', ids('par2line', 2)),
    ]
    if deep:
        out += [
            ('flex parallel orders, three', mk(FLEX, 'par3', failed=None, rsvp=None, orders=True, present=False)),
            ('flex three parallel, everything', mk(FLEX, 'par3')),
            ('flex parallel square', mk(FLEX, 'partri2', rsvp='sym', failed=None)),
            ('flex ids, three parallel', ids('par3', 3)),
            ('flex ids, triangle', ids('tri', 3)),
            ('flex ids, two by two', ids('par22', 2)),
            ('flex parallel, two changes', mk(FLEX, 'par2line', failed=None, rsvp=None, ops=(None, None))),
        ]
    return out
