"""C11: failures take down both ends of a circuit and nothing else."""
from .common import *  # noqa

FUNCTIONS = ['fail_interface', 'unfail_interface', 'fail_node', 'unfail_node', 'Interface.fail_interface', 'Interface.unfail_interface',
             'Interface.failed', 'Node.failed', 'get_remote_interface', 'get_interface_object', 'get_node_object', 'validate_model',
             'update_simulation']
BOUNDS = ('networks of 2-4 nodes and 1-4 circuits (parallel ones in the flexible model); every consistent start state (any set of failed '
          'nodes, any further set of failed circuits) and one operation (quick: also two operations on the smaller networks; thorough: two '
          'everywhere, three on the smaller), each operation on any interface, either end, or any node; then a simulation with free '
          'traffic and bandwidth'
          '; a 10-node ladder with one failure operation')
OBS_TOL = 0.11
REACH = ['from hand-set state', 'stayed down', 'refused', 'brought back', 'other end still failed', 'unrouted', 'crossing', 'node back', 'parallel untouched']

OPS = ['fail', 'unfail', 'unfail loud', 'obj fail', 'obj unfail', 'fail node', 'unfail node', 'sim', 'validate']


class State(object):
    """What the property says the state is: failed nodes and circuits."""

    def __init__(self, n, nodes, ckts):
        self.n, self.nodes, self.ckts = n, dict(nodes), list(ckts)

    def up_ends(self, k):
        a, b = self.n.links[k][0], self.n.links[k][1]
        return not self.nodes[a] and not self.nodes[b]

    def incident(self, x):
        return [k for k, ab in enumerate(self.n.links) if x in (ab[0], ab[1])]


def check_state(c, n, s, when):
    for k, pair in enumerate(n.ckts):
        for i in pair:
            c.check(i.failed is s.ckts[k], 'interface failed state after ' + when, '%s is %r, expected %r' % (i.name, i.failed, s.ckts[k]))
    for x, o in n.nodes.items():
        c.check(o.failed is s.nodes[x], 'node failed state after ' + when, '%s is %r, expected %r' % (x, o.failed, s.nodes[x]))


def refused(c, label, fn, *a):
    ok, e = raises(fn, *a)
    if ok and not isinstance(e, ModelException):
        raise e
    c.check(ok, label)
    c.reach('refused')


def step(c, n, s, op, t):
    m = n.model
    if op in ('sim', 'validate'):
        attempt(c, op + ' does not raise', m.update_simulation if op == 'sim' else m.validate_model)
        return
    if op.endswith('node'):
        x = sorted(n.nodes)[c.choose(len(n.nodes), 'node_%d' % t)]
        if op == 'fail node':
            attempt(c, 'failing a node does not raise', m.fail_node, n.nodes[x].name)
            s.nodes[x] = True
            for k in s.incident(x):
                s.ckts[k] = True
        else:
            attempt(c, 'restoring a node does not raise', m.unfail_node, n.nodes[x].name)
            s.nodes[x] = False
            c.reach('node back')
            for k in s.incident(x):
                if s.up_ends(k):
                    if s.ckts[k]:
                        c.reach('brought back')
                    s.ckts[k] = False
                else:
                    c.reach('other end still failed')
        return
    j = c.choose(len(n.ifs), 'interface_%d' % t)
    i, k = n.ifs[j], j // 2
    if sum(1 for ab in n.links if ab == n.links[k]) > 1:
        c.reach('parallel untouched')
    if op in ('fail', 'obj fail'):
        if op == 'fail':
            attempt(c, 'failing an interface does not raise', m.fail_interface, i.name, i.node_object.name)
        else:
            attempt(c, 'failing an interface does not raise', i.fail_interface, m)
        s.ckts[k] = True
    elif s.up_ends(k):
        if op == 'obj unfail':
            attempt(c, 'restoring an interface does not raise', i.unfail_interface, m)
        else:
            attempt(c, 'restoring an interface does not raise', m.unfail_interface, i.name, i.node_object.name, op == 'unfail loud')
        s.ckts[k] = False
    elif op == 'unfail':
        attempt(c, 'a restore that cannot succeed does not raise unless asked', m.unfail_interface, i.name, i.node_object.name)
        c.reach('stayed down')
    elif op == 'unfail loud':
        refused(c, 'a restore that cannot succeed raises when asked', m.unfail_interface, i.name, i.node_object.name, True)
    else:
        refused(c, 'a restore that cannot succeed raises', i.unfail_interface, m)


def final(c, n):
    if not simulate(c, n):
        return
    for i in n.ifs:
        if i.failed:
            c.check(isinstance(i.traffic, str) and i.traffic == 'Down', 'a failed interface is Down', repr_((i.name, i.traffic)))
        else:
            c.check(c.isnum(i.traffic), 'an interface that is up has traffic', repr_((i.name, i.traffic)))
            c.observe(i.name, i.traffic)
    for d in n.demands:
        if not routed(d):
            c.reach('unrouted')
            continue
        for p in d.path:
            for it in p:
                for i in (it.path['interfaces'] if is_lsp(it) else [it]):
                    c.reach('crossing')
                    c.check(i.failed is False, 'no traffic on a failed interface', repr_(names(p)))
    for x in n.lsps:
        if lsp_up(x):
            for i in x.path['interfaces']:
                c.check(i.failed is False and member(i, n.ifs), 'no LSP over a failed interface', repr_(names(x.path['interfaces'])))


def mk(cls, links, steps, start=True, lsp=None, dem=None, ops=OPS, late=()):
    def h(c):
        n = net(c, cls, links, cost=lambda i, ab, d: i + 1, cap=100)
        nf = {x: bool(start and tob_(c, 'node_failed_' + x)) for x in sorted(n.nodes)}
        cf = []
        for k, ab in enumerate(n.links):
            f = nf[ab[0]] or nf[ab[1]] or bool(start and tob_(c, 'circuit_failed_%d' % k))
            cf.append(f)
            for i in n.ckts[k]:
                i.failed = f
        for x in nf:
            n.nodes[x].failed = nf[x]
        if lsp:
            add_lsp(n, lsp[0], lsp[1], 'l', bw=c.real('bw', 0, 10 ** 7))
        if dem:
            add_demand(n, dem[0], dem[1], c.real('traffic', 0, 10 ** 7))
        finish(n)
        s = State(n, nf, cf)
        check_state(c, n, s, 'construction')
        for t in range(steps):
            op = ops[c.choose(len(ops), 'op_%d' % t)]
            step(c, n, s, op, t)
            check_state(c, n, s, op)
        final(c, n)
        check_state(c, n, s, 'simulation')
    return h


def mk_loose(cls, links, steps, nodes=True, ends=True):
    """Attributes set by hand beforehand: a node marked failed while its interfaces are up, one end of a circuit failed."""
    def h(c):
        n = net(c, cls, links, cost=lambda i, ab, d: i + 1, cap=100)
        nf = {x: bool(nodes and tob_(c, 'node_failed_' + x)) for x in sorted(n.nodes)}
        finish(n)
        for x in nf:
            n.nodes[x].failed = nf[x]
        ef = []
        for k in range(len(n.links)):
            ef.append([bool(ends and tob_(c, 'end_failed_%d%d' % (k, e))) for e in (0, 1)])
            for e in (0, 1):
                if ef[k][e]:
                    n.ckts[k][e].failed = True
        m = n.model
        for t in range(steps):
            op = c.pick(['fail', 'obj fail', 'unfail', 'fail node', 'unfail node'], 'op_%d' % t)
            if op.endswith('node'):
                x = c.pick(sorted(n.nodes), 'node_%d' % t)
                hit = [k for k, ab in enumerate(n.links) if x in (ab[0], ab[1])]
                if op == 'fail node':
                    attempt(c, 'failing a node does not raise', m.fail_node, x)
                    nf[x] = True
                    for k in hit:
                        ef[k] = [True, True]
                else:
                    attempt(c, 'restoring a node does not raise', m.unfail_node, x)
                    nf[x] = False
                    for k in hit:
                        if not nf[n.links[k][0]] and not nf[n.links[k][1]]:
                            ef[k] = [False, False]
            else:
                j = c.choose(len(n.ifs), 'interface_%d' % t)
                i, k = n.ifs[j], j // 2
                if op == 'fail':
                    attempt(c, 'failing an interface does not raise', m.fail_interface, i.name, i.node_object.name)
                elif op == 'obj fail':
                    attempt(c, 'failing an interface does not raise', i.fail_interface, m)
                else:
                    attempt(c, 'a restore does not raise unless asked', m.unfail_interface, i.name, i.node_object.name)
                if op != 'unfail':
                    ef[k] = [True, True]
                elif not nf[n.links[k][0]] and not nf[n.links[k][1]]:
                    ef[k] = [False, False]
            c.reach('from hand-set state')
            for x in nf:
                c.check(n.nodes[x].failed is nf[x], 'node failed state after ' + op, repr_((x, nf)))
            for k, pair in enumerate(n.ckts):
                aimed = (hit if op.endswith('node') else [j // 2]).count(k) and 'unfail' not in op
                if not aimed and (ef[k][0] != ef[k][1] or nf[n.links[k][0]] or nf[n.links[k][1]]):
                    ef[k] = [pair[0].failed, pair[1].failed]          # may have been made consistent along the way
                    continue
                for e in (0, 1):
                    c.check(pair[e].failed is ef[k][e], 'interface failed state after ' + op, repr_((pair[e].name, pair[e].failed, ef)))
    return h


def tob_(c, name):
    return c.choose(2, name)


def cases(tier):
    deep = tier != 'quick'
    out = []
    AB, AC = ('A', 'B'), ('A', 'C')
    for m, cls in MODELS:
        out += [
            (m + ' edge, two', mk(cls, 'edge', 2, lsp=AB, dem=AB)),
            (m + ' line, one', mk(cls, 'line3', 1, lsp=AC, dem=AC)),
            (m + ' triangle, one', mk(cls, 'tri', 1, lsp=AC, dem=AC)),
            (m + ' line, hand-set state', mk_loose(cls, 'line3', 1)),
            (m + ' edge, hand-set state, two', mk_loose(cls, 'edge', 2)),
            (m + ' star, hand-set nodes', mk_loose(cls, ['AB', 'AC', 'AD', 'CD'], 1, ends=False)),
            (m + ' ladder', mk(cls, 'ladder', 1, start=False, lsp=('A', 'F'), dem=('A', 'F'), ops=['fail', 'fail node', 'obj fail'])),
            (m + ' line, two from up', mk(cls, 'line3', 2, start=False, dem=AC)),
        ]
        if deep:
            out += [
                (m + ' edge, three', mk(cls, 'edge', 3, lsp=AB, dem=AB)),
                (m + ' line, two', mk(cls, 'line3', 2, lsp=AC, dem=AC)),
                (m + ' triangle, two', mk(cls, 'tri', 2, dem=AC, ops=OPS[:7])),
                (m + ' square, one', mk(cls, 'square', 1, lsp=('A', 'D'), dem=('A', 'D'))),
                (m + ' line, three from up', mk(cls, 'line3', 3, start=False, dem=AC, ops=['fail', 'unfail', 'obj unfail', 'fail node', 'unfail node', 'sim'])),
            ]
    out += [
        ('flex par2, one', mk(FLEX, 'par2', 1, lsp=AB, dem=AB)),
        ('flex par2line, hand-set state', mk_loose(FLEX, 'par2line', 1)),
        ('flex par2line, one', mk(FLEX, 'par2line', 1, lsp=AC, dem=AC)),
    ]
    if deep:
        out += [
            ('flex par2line, two', mk(FLEX, 'par2line', 2, dem=AC, ops=OPS[:7])),
            ('flex partri, one', mk(FLEX, 'partri', 1, lsp=AC, dem=AC)),
            ('flex par22, one', mk(FLEX, 'par22', 1, lsp=AC, dem=AC)),
        ]
    return out
