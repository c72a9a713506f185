"""C12: members of a failed SRLG stay down until every cause is gone."""
from .common import *  # noqa

FUNCTIONS = ['fail_srlg', 'unfail_srlg', 'add_srlg', 'get_srlg_object', 'SRLG.node_objects', 'SRLG.interface_objects', 'SRLG.failed',
             'Node.add_to_srlg', 'Node.remove_from_srlg', 'Interface.add_to_srlg', 'Interface.remove_from_srlg', 'Node.failed',
             'Interface.failed', 'fail_interface', 'unfail_interface', 'fail_node', 'unfail_node', 'get_remote_interface', 'update_simulation']
BOUNDS = ('networks of 2-3 nodes and 1-3 circuits (parallel ones in the flexible model), up to two shared-risk groups; every membership of '
          'nodes and circuits in the groups, every set of failed groups, failed node and failed circuits on top, then one operation '
          '(two on the smaller networks, thorough: two or three): fail/restore group, node, interface (model and object API), join (a group '
          'that is up) and leave by either end; then a simulation')
OBS_TOL = 0.11
REACH = ['group failed', 'restore blocked', 'held by other group', 'held by node', 'brought back by group', 'joined', 'left', 'both ends',
         'left brought back', 'created', 'late', 'unknown group']


class State(object):
    def __init__(self, n):
        self.n = n
        self.nodes = {x: False for x in n.nodes}
        self.ckts = [False] * len(n.links)
        self.groups = {}          # name -> failed
        self.nm = {}              # name -> member node letters
        self.cm = {}              # name -> member circuit indexes

    def ends_up(self, k):
        a, b = self.n.links[k][0], self.n.links[k][1]
        return not self.nodes[a] and not self.nodes[b]

    def held_node(self, x):
        return any(f and x in self.nm[g] for g, f in self.groups.items())

    def held_ckt(self, k):
        return any(f and k in self.cm[g] for g, f in self.groups.items())

    def incident(self, x):
        return [k for k, ab in enumerate(self.n.links) if x in (ab[0], ab[1])]

    def fail_node(self, x):
        self.nodes[x] = True
        for k in self.incident(x):
            self.ckts[k] = True

    def settle(self, nodes, ckts):
        """Restore these nodes and circuits as far as no cause holds them.  Returns circuits that may go either way."""
        free = set()
        for x in nodes:
            if self.held_node(x):
                continue
            if not self.nodes[x]:
                # the node was not down: whether its circuits that were failed on their own come back is not specified
                free |= {k for k in self.incident(x) if self.ckts[k] and k not in ckts}
            else:
                ckts = list(ckts) + self.incident(x)
            self.nodes[x] = False
        back = set()
        for k in ckts:
            if self.ends_up(k) and not self.held_ckt(k):
                if self.ckts[k]:
                    back.add(k)
                self.ckts[k] = False
        return {k for k in free if self.ckts[k] and self.ends_up(k) and not self.held_ckt(k)}, back


def check_state(c, n, s, when, free=(), free_nodes=()):
    for x in free_nodes:
        o = n.nodes[x]
        if not s.held_node(x):
            s.nodes[x] = o.failed
    for k, (a, b) in enumerate(n.ckts):
        if k in free and a.failed is b.failed and not (a.failed is False and not s.ends_up(k)):
            s.ckts[k] = a.failed
        for i in (a, b):
            c.check(i.failed is s.ckts[k], 'interface failed state after ' + when, '%s is %r, expected %r' % (i.name, i.failed, s.ckts[k]))
    for x, o in n.nodes.items():
        c.check(o.failed is s.nodes[x], 'node failed state after ' + when, '%s is %r, expected %r' % (x, o.failed, s.nodes[x]))
    c.check(sorted(g.name for g in n.model.srlg_objects) == sorted(s.groups), 'groups of the model')
    for g in s.groups:
        ok, o = attempt(c, 'group lookup does not raise', n.model.get_srlg_object, g)
        if not ok:
            continue
        c.check(o.name == g and member(o, n.model.srlg_objects), 'group lookup')
        c.check(o.failed is s.groups[g], 'group failed state after ' + when)
        c.check(same_objs(o.node_objects, [n.nodes[x] for x in s.nm[g]]), 'member nodes of the group after ' + when, repr_((o.node_objects, s.nm[g])))
        c.check(same_objs(o.interface_objects, [i for k in s.cm[g] for i in n.ckts[k]]), 'member interfaces of the group after ' + when,
                repr_((o.interface_objects, s.cm[g])))
        for x, nd in n.nodes.items():
            c.check(member(o, nd.srlgs) == (x in s.nm[g]), 'groups of the node after ' + when, repr_((x, nd.srlgs)))
        for k, pair in enumerate(n.ckts):
            for i in pair:
                c.check(member(o, i.srlgs) == (k in s.cm[g]), 'groups of the interface after ' + when, repr_((i.name, i.srlgs)))
    for o in list(n.nodes.values()) + n.ifs:
        c.check(all(member(g, n.model.srlg_objects) for g in o.srlgs), 'no group outside the model')


def library_error(c, label, fn, *a):
    """fn may raise the library's own error, and nothing else."""
    ok, e = raises(fn, *a)
    if ok and not isinstance(e, ModelException):
        raise e
    return ok


OPS = ['fail group', 'unfail group', 'fail', 'unfail', 'unfail loud', 'obj unfail', 'obj fail', 'fail node', 'unfail node', 'join node', 'leave node',
       'join', 'leave', 'sim', 'set node', 'set interface']


def step(c, n, s, op, t):
    m = n.model
    names_ = sorted(n.nodes)
    free, free_nodes = set(), set()
    if op == 'sim':
        simulate(c, n)
    elif op.endswith('group'):
        g = sorted(s.groups)[c.choose(len(s.groups), 'group_%d' % t)]
        if op == 'fail group':
            attempt(c, 'failing a group does not raise', m.fail_srlg, g)
            c.reach('group failed')
            s.groups[g] = True
            for x in s.nm[g]:
                s.fail_node(x)
            for k in s.cm[g]:
                s.ckts[k] = True
        else:
            attempt(c, 'restoring a group does not raise', m.unfail_srlg, g)
            s.groups[g] = False
            if any(s.held_node(x) for x in s.nm[g]) or any(s.held_ckt(k) for k in s.cm[g]):
                c.reach('held by other group')
            if any(not s.ends_up(k) for k in s.cm[g]):
                c.reach('held by node')
            free, back = s.settle(s.nm[g], s.cm[g])
            if back:
                c.reach('brought back by group')
    elif op.endswith('node'):
        x = names_[c.choose(len(names_), 'node_%d' % t)]
        o = n.nodes[x]
        if op == 'fail node':
            attempt(c, 'failing a node does not raise', m.fail_node, o.name)
            s.fail_node(x)
        elif op in ('unfail node', 'set node'):
            if op == 'set node' and not s.held_node(x):
                return free, free_nodes
            if s.held_node(x):
                c.reach('restore blocked')
                if op == 'set node':
                    library_error(c, '', setattr, o, 'failed', False)
                else:
                    library_error(c, '', m.unfail_node, o.name)
            else:
                attempt(c, 'restoring a node does not raise', m.unfail_node, o.name)
                s.nodes[x] = False
                for k in s.incident(x):
                    if s.ends_up(k) and not s.held_ckt(k):
                        s.ckts[k] = False
        else:
            g = sorted(s.groups)[c.choose(len(s.groups), 'group_%d' % t)]
            if op == 'join node':
                if s.groups[g] or x in s.nm[g]:
                    return free, free_nodes
                attempt(c, 'joining a group does not raise', o.add_to_srlg, g, m)
                s.nm[g].append(x)
                c.reach('joined')
            else:
                if x not in s.nm[g]:
                    return free, free_nodes
                was = s.groups[g]
                s.nm[g].remove(x)
                if s.held_node(x):
                    library_error(c, '', o.remove_from_srlg, g, m)
                else:
                    attempt(c, 'leaving a group does not raise', o.remove_from_srlg, g, m)
                c.reach('left')
                if was:
                    down = s.nodes[x]
                    free, back = s.settle([x], [])
                    if down and not s.nodes[x]:
                        c.reach('left brought back')
                elif s.nodes[x]:
                    free_nodes = {x}
                    free = {k for k in s.incident(x) if s.ckts[k] and not s.held_ckt(k)}
    else:
        j = c.choose(len(n.ifs), 'interface_%d' % t)
        i, k = n.ifs[j], j // 2
        if op in ('fail', 'obj fail'):
            if op == 'fail':
                attempt(c, 'failing an interface does not raise', m.fail_interface, i.name, i.node_object.name)
            else:
                attempt(c, 'failing an interface does not raise', i.fail_interface, m)
            s.ckts[k] = True
        elif op in ('unfail', 'unfail loud', 'obj unfail', 'set interface'):
            if op == 'set interface' and not s.held_ckt(k):
                return free, free_nodes
            if op == 'obj unfail':
                f, a = i.unfail_interface, (m,)
            elif op == 'set interface':
                f, a = setattr, (i, 'failed', False)
            else:
                f, a = m.unfail_interface, (i.name, i.node_object.name, op == 'unfail loud')
            if s.held_ckt(k):
                c.reach('restore blocked')
                r = library_error(c, '', f, *a)
                c.check(r or op == 'unfail', 'a restore that cannot succeed raises when asked')
            elif s.ends_up(k):
                attempt(c, 'restoring an interface does not raise', f, *a)
                s.ckts[k] = False
            else:
                r = library_error(c, '', f, *a)
                c.check(r or op == 'unfail', 'a restore that cannot succeed raises when asked')
        else:
            g = sorted(s.groups)[c.choose(len(s.groups), 'group_%d' % t)]
            if op == 'join':
                if s.groups[g] or k in s.cm[g]:
                    return free, free_nodes
                attempt(c, 'joining a group does not raise', i.add_to_srlg, g, m)
                s.cm[g].append(k)
                c.reach('both ends')
            else:
                if k not in s.cm[g]:
                    return free, free_nodes
                was = s.groups[g]
                s.cm[g].remove(k)
                if s.held_ckt(k):
                    library_error(c, '', i.remove_from_srlg, g, m)
                else:
                    attempt(c, 'leaving a group does not raise', i.remove_from_srlg, g, m)
                if was:
                    s.settle([], [k])
                elif s.ckts[k]:
                    free = {k}
    return free, free_nodes


def mk(cls, links, steps, groups=2, ops=OPS, members='nodes circuits', node_failed=True, ckt_failed=True, max_members=99, creation=False, ends=True, bw=False):
    def h(c):
        n = net(c, cls, links, cost=lambda i, ab, d: i + 1, cap=100)
        last = sorted(n.nodes)[-1]
        add_demand(n, 'A', last, c.real('traffic', 0, 10 ** 7))
        add_lsp(n, 'A', last, 'l', bw=c.real('bw', 0, 200) if bw else 50)
        finish(n)
        s = State(n)
        m = n.model
        budget = max_members
        for gi in range(groups):
            g = 'g%d' % gi
            s.groups[g], s.nm[g], s.cm[g] = False, [], []
            create = c.choose(2, 'create_%d' % gi) if gi == 0 and creation else 0
            if not create:
                attempt(c, 'adding a group does not raise', m.add_srlg, g)
            for x in sorted(n.nodes):
                if 'nodes' in members and budget and c.choose(2, 'member_%s_%s' % (g, x)):
                    budget -= 1
                    attempt(c, 'joining a group does not raise', n.nodes[x].add_to_srlg, g, m, bool(create))
                    s.nm[g].append(x)
            for k in range(len(n.links)):
                w = c.choose(3 if ends else 2, 'member_%s_%d' % (g, k)) if 'circuits' in members and budget else 0
                if w:
                    budget -= 1
                    attempt(c, 'joining a group does not raise', n.ckts[k][w - 1].add_to_srlg, g, m, bool(create))
                    s.cm[g].append(k)
            if create and not s.nm[g] and not s.cm[g]:
                c.reach('unknown group')
                ok, e = raises(n.nodes['A'].add_to_srlg, g, m)
                c.check(ok and isinstance(e, ModelException), 'joining an unknown group is refused')
                ok, e = raises(n.ifs[0].add_to_srlg, g, m)
                c.check(ok and isinstance(e, ModelException), 'joining an unknown group is refused')
                attempt(c, 'adding a group does not raise', m.add_srlg, g)
            elif create:
                c.reach('created')
        check_state(c, n, s, 'joining')
        for g in sorted(s.groups):
            if c.choose(2, 'failed_' + g):
                attempt(c, 'failing a group does not raise', m.fail_srlg, g)
                s.groups[g] = True
                for x in s.nm[g]:
                    s.fail_node(x)
                for k in s.cm[g]:
                    s.ckts[k] = True
        if node_failed:
            x = c.choose(1 + len(n.nodes), 'node_failed')
            if x:
                x = sorted(n.nodes)[x - 1]
                attempt(c, 'failing a node does not raise', m.fail_node, n.nodes[x].name)
                s.fail_node(x)
        if ckt_failed:
            k = c.choose(1 + len(n.links), 'circuit_failed')
            if k:
                i = n.ifs[2 * (k - 1)]
                attempt(c, 'failing an interface does not raise', m.fail_interface, i.name, i.node_object.name)
                s.ckts[k - 1] = True
        check_state(c, n, s, 'failing')
        for t in range(steps):
            op = ops[c.choose(len(ops), 'op_%d' % t)]
            free, fn = step(c, n, s, op, t)
            check_state(c, n, s, op, free, fn)
        if not simulate(c, n):
            return
        check_state(c, n, s, 'simulation')
        for i in n.ifs:
            if not i.failed:
                c.observe(i.name, i.traffic)
            if i.failed:
                c.check(isinstance(i.traffic, str) and i.traffic == 'Down', 'a failed interface is Down', repr_((i.name, i.traffic)))
        for x in n.lsps:
            if lsp_up(x):
                c.check(all(i.failed is False for i in x.path['interfaces']), 'no LSP over a failed interface')
    return h


def late(cls, links):
    """Nodes and circuits that join a group that is failed go down with it when it is failed again (until then: not specified), and come back with it."""
    def h(c):
        n = net(c, cls, links, cost=1, cap=100)
        add_demand(n, 'A', sorted(n.nodes)[-1], c.real('traffic', 0, 10 ** 7))
        m = finish(n)
        if not attempt(c, 'validation accepts the model', m.validate_model)[0]:
            return
        m.add_srlg('g')
        objs = [n.nodes[x] for x in sorted(n.nodes)] + [p[0] for p in n.ckts]
        when = [c.choose(3, 'joins_%d' % k) for k in range(len(objs))]     # 0: never, 1: first, 2: late
        if 2 not in when or sum(1 for w in when if w) > 3:
            return
        for o, w in zip(objs, when):
            if w == 1:
                attempt(c, 'joining a group does not raise', o.add_to_srlg, 'g', m)
        attempt(c, 'failing a group does not raise', m.fail_srlg, 'g')
        for o, w in zip(objs, when):
            if w == 2:
                attempt(c, 'joining a group does not raise', o.add_to_srlg, 'g', m)
        if c.bool('simulate between') and not simulate(c, n):
            return
        attempt(c, 'failing a group does not raise', m.fail_srlg, 'g')
        c.reach('late')
        s = State(n)
        s.groups, s.nm, s.cm = {'g': True}, {'g': [x for x, w in zip(sorted(n.nodes), when) if w]}, {'g': [k for k, w in enumerate(when[len(n.nodes):]) if w]}
        for x in s.nm['g']:
            s.fail_node(x)
        for k in s.cm['g']:
            s.ckts[k] = True
        check_state(c, n, s, 'failing again')
        if not simulate(c, n):
            return
        check_state(c, n, s, 'simulation')
        attempt(c, 'restoring a group does not raise', m.unfail_srlg, 'g')
        s.groups['g'] = False
        s.nodes, s.ckts = {x: False for x in n.nodes}, [False] * len(n.links)
        check_state(c, n, s, 'restoring')
        simulate(c, n)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    GR = ['fail group', 'unfail group', 'unfail', 'unfail node', 'leave node', 'leave', 'fail node']
    MID = GR + ['fail', 'join', 'join node']
    for m, cls in MODELS:
        out += [
            (m + ' edge, joining', mk(cls, 'edge', 1, groups=1, creation=True, bw=True, ckt_failed=False)),
            (m + ' edge, joining a failed group', late(cls, 'edge')),
            (m + ' line, joining a failed group', late(cls, 'line3')),
            (m + ' edge, one group, two', mk(cls, 'edge', 2, groups=1, ops=MID, node_failed=False, ckt_failed=False, ends=False)),
            (m + ' edge, two groups', mk(cls, 'edge', 1, node_failed=False, ckt_failed=False, ends=False)),
            (m + ' line, one group', mk(cls, 'line3', 1, groups=1, node_failed=False, ckt_failed=False, ends=False)),
            (m + ' line, one group, other failures', mk(cls, 'line3', 1, groups=1, ops=GR, max_members=2, ends=False)),
            (m + ' line, two groups', mk(cls, 'line3', 1, max_members=3 if deep or cls is PERF else 2, ops=GR + ['set node', 'set interface'], ckt_failed=False, node_failed=False,
                                         ends=False)),
        ]
        if deep:
            out += [
                (m + ' edge, one group, two, other failures', mk(cls, 'edge', 2, groups=1)),
                (m + ' edge, two groups, two', mk(cls, 'edge', 2, ops=MID, ckt_failed=False, node_failed=False, ends=False)),
                (m + ' edge, two groups, other failures', mk(cls, 'edge', 1)),
                (m + ' line, one group, two', mk(cls, 'line3', 2, groups=1, ops=GR, ckt_failed=False, node_failed=False, ends=False)),
                (m + ' line, two groups, failures', mk(cls, 'line3', 1, ops=GR, ends=False, max_members=4)),
                (m + ' triangle, one group', mk(cls, 'tri', 1, groups=1, ends=False)),
                (m + ' triangle, two groups', mk(cls, 'tri', 1, ops=GR, ckt_failed=False, node_failed=False, max_members=4, ends=False)),
            ]
    out += [('flex par2, two groups', mk(FLEX, 'par2', 1, max_members=3 if deep else 2, ops=GR, ckt_failed=False, ends=False))]
    if deep:
        out += [('flex par2line, one group', mk(FLEX, 'par2line', 1, groups=1, ends=False, max_members=3))]
    return out
