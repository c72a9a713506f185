"""C09: every view of which demands ride which LSPs agrees."""
from .common import *  # noqa

FUNCTIONS = ['RSVP_LSP.demands_on_lsp', 'RSVP_LSP.traffic_on_lsp', 'RSVP_LSP.effective_metric', 'simulation_diagnostics', 'Interface.lsps',
             'Interface.demands', 'update_simulation', '_route_demands', 'parallel_lsp_groups', 'get_unrouted_demand_objects', 'path_detail']
BOUNDS = ('up to three LSPs and four demands; costs and metrics: every integer >= 1; traffic: every real >= 0; failures, RSVP switches and '
          'IGP shortcuts (flexible model) where the case says so'
          '; six LSPs and seven demands on a line of six, a 10-node ladder with one free cost')
REACH = ['carrying', 'empty', 'unrouted lsp', 'riding', 'not riding', 'unrouted demand', 'shared lsp', 'shortcut']


def verify(c, n):
    m = n.model
    ups = [x for x in n.lsps if lsp_up(x)]
    carrying, empty, riding = [], [], []
    lsp_traffic = {}
    for d in n.demands:
        if routed(d) and any(is_lsp(it) for p in d.path for it in p):
            riding.append(d)
            c.reach('riding')
            if any(is_lsp(it) for p in d.path for it in p if len(p) > 1):
                c.reach('shortcut')
        else:
            c.reach('not riding' if routed(d) else 'unrouted demand')
    for x in n.lsps:
        on = [d for d in n.demands if routed(d) and any(it is x for p in d.path for it in p)]
        ok, got = attempt(c, 'demands_on_lsp does not raise', x.demands_on_lsp, m)
        if not ok:
            return
        c.check(same_objs(got, on), 'demands on the LSP are those whose path contains it', repr_((x, got)))
        if not lsp_up(x):
            c.reach('unrouted lsp')
            c.check(on == [], 'an unrouted LSP carries nothing')
            ok, got = attempt(c, 'traffic_on_lsp of an unrouted LSP does not raise', x.traffic_on_lsp, m)
            if ok:
                c.check(c.eq(got, 0), 'an unrouted LSP has no traffic', repr_((x, got)))
            continue
        (carrying if on else empty).append(x)
        c.reach('carrying' if on else 'empty')
        if len(on) > 1:
            c.reach('shared lsp')
        want = 0
        tol = Fraction(1, 10 ** 6)
        for d in on:
            tol += Fraction(1, 10000) * len(d.path)
            for it, t in item_traffic(d)[0]:
                if it is x:
                    want = want + t
        lsp_traffic[id(x)] = want
        ok, got = attempt(c, 'traffic_on_lsp does not raise', x.traffic_on_lsp, m)
        if not ok:
            return
        c.check(c.eq(got, want, tol), 'traffic on the LSP is what its demands put on it', repr_((x, got)))
        c.observe('traffic ' + x.lsp_name, got)
    # an interface's load from LSPs, when every demand rides LSPs end to end
    if n.demands and all((not routed(d)) or all(len(p) == 1 and is_lsp(p[0]) for p in d.path) for d in n.demands):
        for i in n.ifs:
            if not i.failed:
                s = 0
                for x in i.lsps(m):
                    s = s + x.traffic_on_lsp(m)
                c.check(c.eq(i.traffic, s, Fraction(1, 1000)), 'LSP-borne load of the interface is the sum over its LSPs')
    ok, g = attempt(c, 'simulation_diagnostics does not raise', m.simulation_diagnostics)
    if not ok:
        return
    unrouted = [d for d in n.demands if not routed(d)]
    expect = {
        'Number of routed LSPs carrying Demands': len(carrying),
        'Number of routed LSPs with no Demands': len(empty),
        'Number of Demands riding LSPs': len(riding),
        'Number of Demands not riding LSPs': len(n.demands) - len(riding),
        'Number of unrouted LSPs': len(n.lsps) - len(ups),
        'Number of unrouted Demands': len(unrouted),
    }
    for k, v in expect.items():
        c.check(g.get(k) == v, 'diagnostics: ' + k, repr_((g.get(k), v)))
    for k, v in (('routed LSPs with no demands generator', empty), ('routed LSPs with demands generator', carrying),
                 ('demands riding LSPs generator', riding)):
        ok, l = attempt(c, 'diagnostics listing can be read', lambda: list(g.get(k)))
        if ok:
            c.check(same_objs(l, v), 'diagnostics: ' + k, repr_((l, v)))
    c.check(same_objs(m.get_unrouted_demand_objects(), unrouted), 'unrouted demands listing')
    for i in n.ifs:
        c.check(same_objs(i.lsps(m), [x for x in ups if member(i, x.path['interfaces'])]), 'LSPs reported on the interface')


def mk(cls, links, lsps, dems, cost=1, failed=False, rsvp=None, cap=10 ** 9, shortcuts=None, symcost=True, change=None, ports=False):
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=symcost, cap=cap, failed='sym' if failed is True else failed or None, rsvp=rsvp)
        for k, (ab, met, bw) in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=c.real('bw_%d' % k, 0, 10 ** 7) if bw == 'sym' else bw,
                    metric=c.int('metric_%d' % k, 1, 1000) if met == 'sym' else met)
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 10 ** 7), 'd%d' % k)
        for x in shortcuts or '':
            n.nodes[x].igp_shortcuts_enabled = True if shortcuts != 'sym' else c.bool('shortcut_' + x)
        if ports:
            same_ports(n)
        finish(n)
        if not simulate(c, n):
            return
        if change:
            verify(c, n)
            change(c, n)
            if not simulate(c, n):
                return
        verify(c, n)
    return h


def fail_first(c, n):
    a = n.ckts[0][0]
    attempt(c, 'failing an interface does not raise', n.model.fail_interface, a.name, a.node_object.name)


def drop_lsp(c, n):
    x = n.lsps.pop(0)
    n.model.rsvp_lsp_objects.remove(x)


def cases(tier):
    S, N = 'sym', None
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' two LSPs', mk(cls, 'edge', [('AB', S, N), ('AB', S, N)], ['AB', 'AB', 'BA'])),
            (m + ' three LSPs', mk(cls, 'edge', [('AB', S, N), ('AB', N, N), ('AB', S, N)], ['AB'], cost=None)),
            (m + ' square', mk(cls, 'square', [('AD', N, N), ('AD', S, N), ('AB', N, N)], ['AD', 'AD', 'BD'])),
            (m + ' triangle, failures', mk(cls, 'tri', [('AC', N, N), ('AB', N, N)], ['AC', 'AB', 'BC'], failed=True, cost=None)),
            (m + ' triangle, rsvp', mk(cls, 'tri', [('AC', N, N), ('AC', N, N)], ['AC', 'CB'], rsvp='sym', ports=True)),
            (m + ' contention', mk(cls, 'edge', [('AB', N, S), ('AB', N, S)], ['AB', 'BA'], cap=100)),
            (m + ' failure later', mk(cls, 'tri', [('AB', N, N), ('AC', S, N), ('AC', S, N)], ['AC', 'AB'], change=fail_first)),
            (m + ' LSP removed later', mk(cls, 'edge', [('AB', S, N), ('AB', S, N)], ['AB'], change=drop_lsp)),
            (m + ' many LSPs, long line', mk(cls, 'line6', [('AF', S, N), ('AF', N, N), ('AF', N, N), ('BE', N, N), ('BE', N, N), ('EB', S, N)], ['AF', 'AF', 'AF', 'BE', 'EB', 'AE', 'CD'], cost=3)),
            (m + ' ladder', mk(cls, 'ladder', [('AF', S, N), ('AF', N, N), ('FA', N, N), ('CE', N, N)], ['AF', 'FA', 'CE', 'BJ'], cost=Free({0}), failed='sym:2')),
            (m + ' split network', mk(cls, 'two', [('AB', N, N), ('CD', N, N), ('AC', N, N)], ['AB', 'AC', 'CD'], failed=True)),
        ]
        if deep:
            out += [
                (m + ' diamond', mk(cls, 'diamond', [('AD', S, N), ('AD', S, N), ('BC', N, N)], ['AD', 'AD', 'BC', 'CB'], cost=None)),
                (m + ' square contention', mk(cls, 'square', [('AD', N, S), ('AD', N, S), ('AD', S, N)], ['AD', 'AD'], cap=100)),
            ]
    out += [
        ('flex shortcut', mk(FLEX, 'line3', [('AB', S, N), ('BC', S, N)], ['AC', 'AB', 'BC'], shortcuts='AB')),
        ('flex shortcut, square', mk(FLEX, 'square', [('AB', S, N), ('CD', S, N)], ['AD', 'AB'], shortcuts='AC', cost=None)),
        ('flex shortcut, two LSPs', mk(FLEX, 'line4', [('BD', S, N), ('BD', S, N), ('BC', N, N)], ['AD', 'BD', 'AC'], shortcuts='B')),
        ('flex shortcuts in a row', mk(FLEX, 'line4', [('AB', S, N), ('BC', N, N)], ['AD', 'BD'], shortcuts='AB', ports=True)),
        ('flex shortcuts, long line', mk(FLEX, 'line6', [('CD', S, N), ('CD', S, N), ('DF', N, N), ('AC', N, N)], ['AF', 'BE', 'CF'], shortcuts='ACD', cost=2)),
        ('flex shortcut in the middle', mk(FLEX, 'line6', [('CD', S, N)], ['AF', 'AE', 'BF'], shortcuts='C')),
        ('flex par2', mk(FLEX, 'par2line', [('AB', S, N), ('AC', N, N)], ['AC', 'AB'], shortcuts='A')),
        ('flex shortcut split', mk(FLEX, 'par2line', [('BC', N, N), ('BC', N, N)], ['AC'], shortcuts='B')),
    ]
    if deep:
        out += [
            ('flex shortcut, failures', mk(FLEX, 'diamond', [('AB', S, N), ('CD', S, N), ('BD', N, N)], ['AD'], shortcuts='ABC', failed=True)),
            ('flex par22', mk(FLEX, 'par22', [('AB', S, N), ('BC', S, N), ('AC', S, N)], ['AC', 'BC'], shortcuts='AB')),
        ]
    return out
