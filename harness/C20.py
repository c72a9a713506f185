"""C20: results do not depend on what nodes are called."""
from .common import *  # noqa

OBS_TOL = 0.31
FUNCTIONS = ['parallel_lsp_groups', 'parallel_demand_groups', 'update_simulation', '_multiple_links_between_nodes', 'validate_model', '_make_circuits',
             '_make_circuits_multidigraph', 'get_demand_object', 'get_rsvp_lsp', 'get_interface_object', 'get_shortest_path', 'Node.__eq__', 'Node.__hash__',
             'Interface.__eq__', 'Interface.__hash__']
BOUNDS = ('shapes of up to four nodes and four circuits (thorough: five); every assignment of distinct node names of one to two characters (three for '
          'groupings) over {a, b, -}, or up to two over {a, A, blank} and {0, _, .} or {-, _, :}; the same with a long common beginning or end; one node at a time called by (or with) any short string literal of the current source; demands and LSPs between every pair of nodes for groupings, one or two of each for simulations; the same '
          'network with the names A, B, C ... is the reference; LSPs do not contend for bandwidth (who wins is free)')
REACH = ['same', 'grouped', 'dash', 'lsp', 'multipath', 'rejected', 'accepted', 'looked up']
ALPHABET = 'ab-'


def symnames(c, keys, maxlen, alphabet=ALPHABET):
    out = {}
    before, alphabet, after = alphabet if isinstance(alphabet, tuple) else ('', alphabet, '')
    for x in keys:
        s = c.str('name_' + x, 1, maxlen, alphabet)
        if before or after:
            s = before + s + after
        for y in out.values():
            c.assume(tob(s != y))
        out[x] = s
    return out


def words():
    """The words the code itself uses (its short string literals, from the current source): the names most likely to be mistaken for something else."""
    import ast
    import glob
    import os
    w = {'None', '[]', '{}', '%s', '0', '1'}
    for f in sorted(glob.glob(os.path.join(load.REPO, 'pyNTM', '*.py'))):
        if os.path.basename(f) == 'weathermap.py':
            continue
        for o in ast.walk(ast.parse(open(f).read())):
            if isinstance(o, ast.Constant) and isinstance(o.value, str) and 0 < len(o.value) <= 16 and '\n' not in o.value:
                w.add(o.value)
    return sorted(w)


def wordnames(c, keys):
    """One node is called by a word of the code, alone or within a longer name."""
    which, w = c.pick(keys, 'which'), c.pick(words(), 'word')
    out = {x: x.lower() for x in keys}
    out[which] = w if c.choose(2, 'longer') == 0 else 'x' + w
    return out


def back(n, name):
    """The reference name of the node called so."""
    k = [x for x, o in n.nodes.items() if bool(tob(o.name == name))]
    return k[0] if len(k) == 1 else '?%r' % (k,)


def groupings(cls, keys, dem, lsps, maxlen=3, later=False, alphabet=ALPHABET):
    def h(c):
        nm = symnames(c, keys, maxlen, alphabet)
        n = net(c, cls, [keys[0] + keys[1]], cost=1, names=nm, extra_nodes=keys)
        for j, ab in enumerate(dem):
            add_demand(n, ab[0], ab[1], 1, 'd%d' % j)
        for j, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % j)
        m = finish(n)
        if later:
            if not attempt(c, 'grouping does not raise', m.parallel_lsp_groups)[0]:
                return
            ok, _ = attempt(c, 'adding does not raise', m.add_rsvp_lsp, nm[keys[0]], nm[keys[-1]], 'late')
            ok2, _ = attempt(c, 'adding does not raise', m.add_demand, nm[keys[0]], nm[keys[-1]], 1, 'late')
            if not (ok and ok2):
                return
        for objs, fn, what in ((list(m.demand_objects), m.parallel_demand_groups, 'demands'), (list(m.rsvp_lsp_objects), m.parallel_lsp_groups, 'LSPs')):
            ok, g = attempt(c, 'grouping does not raise', fn)
            if not ok:
                continue
            got = [list(v) for v in g.values()]
            flat = [x for v in got for x in v]
            c.check(same_objs(flat, objs), 'the groups of %s cover each once' % what, repr_(g))
            for v in got:
                c.check(len(v) > 0 and all(x.source_node_object is v[0].source_node_object and x.dest_node_object is v[0].dest_node_object for x in v),
                        '%s of a group share both ends' % what, repr_(g))
            ends = [(v[0].source_node_object, v[0].dest_node_object) for v in got if v]
            c.check(not any(a[0] is b[0] and a[1] is b[1] for k, a in enumerate(ends) for b in ends[:k]), '%s that share both ends are grouped' % what, repr_(g))
            c.reach('grouped')
            c.observe(what, len(got))
    return h


def verdict(c, m):
    try:
        m.validate_model()
    except ModelException:
        return 'rejected'
    return 'accepted'


def validation(cls, links, maxlen=2, alphabet=ALPHABET):
    """Which circuits join which nodes is free; the verdict is that of the reference."""
    def h(c):
        keys = sorted(set(''.join(links)))
        ls = [l if c.choose(2, 'at_%d' % k) == 0 else l[0] + keys[-1] if l[0] != keys[-1] else l for k, l in enumerate(links)]
        ref = net(c, cls, ls, cost=1, cap=10, extra_nodes=keys)
        nm = symnames(c, keys, maxlen, alphabet)
        n = net(c, cls, ls, cost=1, cap=10, names=nm, extra_nodes=keys)
        ok, a = attempt(c, 'validation raises nothing but the library error', verdict, c, finish(ref))
        ok2, b = attempt(c, 'validation raises nothing but the library error', verdict, c, finish(n))
        if not (ok and ok2):
            return
        c.reach(a)
        c.check(a == b, 'names do not change the validation verdict', repr_((a, b, ls)))
        if b == 'accepted' and ok2:
            for ck in n.model.circuit_objects:
                c.check(ck.interface_a.node_object is ck.interface_b.remote_node_object and ck.interface_a.remote_node_object is ck.interface_b.node_object,
                        'circuits join the right ends')
            c.check(len(n.model.circuit_objects) == len(ls), 'one circuit per pair of interfaces')
        c.observe('verdict', a)
    return h


def tag(x):
    return ('lsp ' + x.lsp_name) if is_lsp(x) else x.__dict__['_symx_tag']


def tags(p):
    return [tag(x) for x in p]


def paths_of(d):
    if not routed(d):
        return d.path
    return sorted(tuple(tags(p)) for p in d.path)


def simulation(cls, links, dem, lsps=(), cost=None, failed=False, maxlen=2, shortcuts=(), query=None, free=False, ifnames=False, alphabet=ALPHABET):
    def h(c):
        keys = sorted(set(''.join(shape(links))))
        fl = [k for k in range(len(shape(links))) if failed and c.choose(2, 'failed_%d' % k)]
        tr = [c.real('traffic_%d' % j, 0, 10 ** 7) for j in range(len(dem))]
        cs = [c.int('cost_%d' % k, 1, 10 ** 7) if free else (cost(k, '', 0) if cost else k + 1) for k in range(len(shape(links)))]
        nets = []
        for nm in ({}, wordnames(c, keys) if alphabet is None else symnames(c, keys, maxlen, alphabet)):
            c.serial = 0
            n = net(c, cls, links, cost=lambda i, ab, d: cs[i], cap=100, names=nm, failed=fl)
            for k, i in enumerate(n.ifs):
                i.__dict__['_symx_tag'] = i.name
                if ifnames:
                    i.name = c.str('ifname_%d' % k, 1, 2, ALPHABET) if not nets else nets[0].ifs[k].name
                    if not nets:
                        for j in n.ifs[:k]:
                            if j.node_object is i.node_object:
                                c.assume(tob(i.name != j.name))
            for j, ab in enumerate(dem):
                add_demand(n, ab[0], ab[1], tr[j], 'd%d' % j).__dict__['_symx_h'] = j + 1
            for j, (ab, bw) in enumerate(lsps):
                add_lsp(n, ab[0], ab[1], 'l%d' % j, bw).__dict__['_symx_h'] = j + 1
            for x in shortcuts:
                n.nodes[x].igp_shortcuts_enabled = True
            finish(n)
            if not simulate(c, n):
                return
            nets.append(n)
        a, b = nets
        for x, y in zip(a.lsps, b.lsps):
            c.check(lsp_up(x) == lsp_up(y), 'names do not change which LSPs are routed', repr_((x.path, y.path)))
            if lsp_up(x) and lsp_up(y):
                c.reach('lsp')
                c.check(tags(x.path['interfaces']) == tags(y.path['interfaces']), 'names do not change the path of an LSP', repr_((x.path, y.path)))
                c.check(c.eq(x.reserved_bandwidth, y.reserved_bandwidth), 'names do not change reservations')
        for x, y in zip(a.demands, b.demands):
            c.check(paths_of(x) == paths_of(y), 'names do not change the paths of a demand', repr_((paths_of(x), paths_of(y))))
            if routed(x) and len(x.path) > 1:
                c.reach('multipath')
            if isinstance(x.path_detail, dict) and isinstance(y.path_detail, dict):
                f = [{tuple(tags(detail_items(i))): i['path_traffic'] for i in z.path_detail.values()} for z in (x, y)]
                c.check(sorted(f[0]) == sorted(f[1]) and And(*[c.eq(f[0][k], f[1][k]) for k in f[0]]), 'names do not change path details')
        for x, y in zip(a.ifs, b.ifs):
            if isinstance(x.traffic, str) or isinstance(y.traffic, str):
                c.check(x.traffic == y.traffic, 'names do not change the state of an interface')
                continue
            c.check(And(c.eq(x.traffic, y.traffic), c.eq(x.reserved_bandwidth, y.reserved_bandwidth)), 'names do not change the load of an interface',
                    repr_((x.name, x.traffic, y.traffic)))
            c.observe(tag(x), x.traffic)
        c.check(sorted(d.name for d in a.model.get_unrouted_demand_objects()) == sorted(d.name for d in b.model.get_unrouted_demand_objects()),
                'names do not change the unrouted demands')
        c.reach('same')
        for o in b.nodes.values():
            if '-' in o.name:
                c.reach('dash')
        # queries by name
        m = b.model
        for x, o in sorted(b.nodes.items()):
            ok, r = attempt(c, 'node lookup does not raise', m.get_node_object, o.name)
            c.check(ok and r is o, 'nodes are found by name', repr_((x, r)))
            c.check(same_objs(o.interfaces(m), [i for i in b.ifs if i.node_object is o]), 'interfaces of a node do not depend on names')
            c.check(same_objs(o.adjacent_nodes(m), [k for k in b.nodes.values() if any(i.node_object is o and i.remote_node_object is k for i in b.ifs)]),
                    'adjacent nodes do not depend on names', repr_(o.adjacent_nodes(m)))
            c.check(same_objs(m.get_demand_objects_source_node(o.name), [d for d in b.demands if d.source_node_object is o]), 'demands by source do not depend on names')
            c.check(same_objs(m.get_demand_objects_dest_node(o.name), [d for d in b.demands if d.dest_node_object is o]), 'demands by destination do not depend on names')
        for i in b.ifs:
            ok, r = attempt(c, 'interface lookup does not raise', m.get_interface_object, i.name, i.node_object.name)
            c.check(ok and r is i, 'interfaces are found by name')
            ok, r = attempt(c, 'remote lookup does not raise', i.get_remote_interface, m)
            c.check(ok and tag(r)[:-1] == tag(i)[:-1] and r is not i, 'remotes do not depend on names', repr_(r))
        for d in b.demands:
            ok, r = attempt(c, 'demand lookup does not raise', m.get_demand_object, d.source_node_object.name, d.dest_node_object.name, d.name)
            c.check(ok and r is d, 'demands are found by name')
        for d in b.lsps:
            ok, r = attempt(c, 'LSP lookup does not raise', m.get_rsvp_lsp, d.source_node_object.name, d.dest_node_object.name, d.lsp_name)
            c.check(ok and r is d, 'LSPs are found by name')
        c.reach('looked up')
        if query:
            s, t = query
            ok, p = attempt(c, 'path query does not raise', m.get_shortest_path, b.nodes[s].name, b.nodes[t].name)
            q = a.model.get_shortest_path(s, t)
            if ok:
                c.check(sorted(tuple(tags(x)) for x in p['path']) == sorted(tuple(tags(x)) for x in q['path']) and p['cost'] == q['cost'],
                        'names do not change a path query', repr_((p, q)))
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' groups', groupings(cls, 'ABCD', ['AB', 'CD', 'AD', 'AB'], ['AB', 'CD', 'CB'], 2)),
            (m + ' groups, longer names', groupings(cls, 'ABCD', ['AB', 'CD'], ['AB', 'CD'], 3)),
            (m + ' groups, shared ends', groupings(cls, 'ABC', ['AB', 'BC', 'AC', 'BA'], ['AB', 'BC', 'AC', 'BA'], 2)),
            (m + ' groups after adding', groupings(cls, 'ABC', ['AB'], ['AB'], 2, later=True)),
            (m + ' groups, case and blanks', groupings(cls, 'ABC', ['AB', 'CB', 'AC', 'AB'], ['AB', 'CB', 'BC'], 2, alphabet='aA ')),
            (m + ' groups, digits and marks', groupings(cls, 'ABC', ['AB', 'CB', 'AC', 'AB'], ['AB', 'CB', 'BC'], 2, alphabet='0_.')),
            (m + ' validation, case and blanks', validation(cls, ['AB', 'BC'], 2, alphabet='aA ')),
            (m + ' line, case and blanks', simulation(cls, 'line3', ['AC', 'BA'], query='AC', lsps=[('AB', 5)], alphabet='aA ')),
            (m + ' line, digits and marks', simulation(cls, 'line3', ['AC', 'BA'], query='AC', lsps=[('AB', 5)], alphabet='-_:')),
            (m + ' line, same long beginning', simulation(cls, 'line3', ['AC', 'BA'], query='AC', lsps=[('AB', 5)], maxlen=1, alphabet=('core-router.site-', '012', ''))),
            (m + ' line, same long end', simulation(cls, 'line3', ['AC', 'BA'], query='AC', lsps=[('AB', 5)], maxlen=1, alphabet=('', 'abc', '.core router.example'))),
            (m + ' validation, same long beginning', validation(cls, ['AB', 'BC'], 1, alphabet=('core-router.site-', '012', ''))),
            (m + ' validation', validation(cls, ['AB', 'CD', 'AC'], 2)),
            (m + ' line', simulation(cls, 'line3', ['AC', 'BA'], query='AC')),
            (m + ' square', simulation(cls, 'square', ['AD'], cost=lambda i, ab, d: 1, query='AD')),
            (m + ' triangle with an LSP', simulation(cls, 'tri', ['AC'], lsps=[('AC', 5), ('BC', None)], failed=True)),
            (m + ' triangle, any cost', simulation(cls, 'tri', ['AC'], free=True, query='AC')),
            (m + ' interface names', simulation(cls, 'edge', ['AB'], lsps=[('AB', 40)], ifnames=True)),
            (m + ' interface names, line', simulation(cls, 'line3', ['AC'], lsps=[('AB', 40)], ifnames=True, maxlen=1 if not deep else 2)),
            (m + " words of the code", simulation(cls, 'line3', ['AC', 'BA'], query='AC', lsps=[('AC', 5), ('AB', None)], failed=True, alphabet=None)),
            (m + ' two LSPs', simulation(cls, 'line3', ['AC', 'AB'], lsps=[('AC', 40), ('AB', 40)])),
        ]
        if deep:
            out += [
                (m + ' groups, five nodes', groupings(cls, 'ABCDE', ['AB', 'CD', 'EA'], ['AB', 'CD', 'CE'], 2)),
                (m + ' validation, four circuits', validation(cls, ['AB', 'CD', 'AC', 'BD'], 2)),
                (m + ' validation, longer names', validation(cls, ['AB', 'CD'], 3)),
                (m + ' square, longer names', simulation(cls, 'square', ['AD', 'BC'], cost=lambda i, ab, d: 1, query='AD', maxlen=3)),
                (m + ' square with LSPs', simulation(cls, 'square', ['AD', 'BC'], lsps=[('AD', 5), ('BC', 5)], failed=True)),
                (m + ' diamond', simulation(cls, 'diamond', ['AD'], cost=lambda i, ab, d: 1 + (i == 4), query='AD', failed=True)),
            ]
    out += [
        ('flex parallel links', simulation(FLEX, 'par2line', ['AC'], cost=lambda i, ab, d: 1, query='AC')),
        ('flex shortcuts, words of the code', simulation(FLEX, 'line3', ['AC'], lsps=[('AB', 5)], shortcuts='A', alphabet=None)),
        ('flex shortcuts', simulation(FLEX, 'line3', ['AC'], lsps=[('AB', 5)], shortcuts='A')),
    ]
    if deep:
        out.append(('flex shortcuts on a square', simulation(FLEX, 'square', ['AD'], lsps=[('AB', 5), ('BD', 5)], shortcuts='AB', cost=lambda i, ab, d: 1)))
    return out
