"""C06: LSP setup bandwidth - configured values hold, others share the demand."""
from .common import *  # noqa

OBS_TOL = 0.31
FUNCTIONS = ['update_simulation', '_route_lsps', '_route_parallel_lsp_groups', 'parallel_lsp_groups', 'parallel_demand_groups',
             '_determine_lsp_state_info', '_optimize_parallel_lsp_group_res_bw', 'RSVP_LSP.find_rsvp_path_w_bw',
             'RSVP_LSP.setup_bandwidth', '_make_weighted_network_graph_routed_lsp', '_find_path_cost_and_headroom_routed_lsp']
BOUNDS = ('up to four LSPs in up to three groups, up to four demands; setup bandwidth and traffic: every real in [0, 10^6]; one case group '
          'with free integer capacities (amounts then on the 0.1 grid); every processing order and tie-break'
          '; eighteen LSPs of one group on a line of six, three on a 10-node ladder')
REACH = ['share', 'configured', 'partial share', 'optimised', 'no demand', 'configured zero', 'several demands']


def verify(c, n, single_path=False):
    for x in n.lsps:
        g = group_of(n, x)
        T = group_traffic(n, x)
        up_ = [y for y in g if lsp_up(y)]
        cfg = x.configured_setup_bandwidth
        nd = sum(d.source_node_object is x.source_node_object and d.dest_node_object is x.dest_node_object for d in n.demands)
        if cfg is not None:
            if not c.isnum(x.setup_bandwidth) or (lsp_up(x) and not c.isnum(x.reserved_bandwidth)):
                c.fail('configured bandwidth is a number', repr_((x.setup_bandwidth, x.reserved_bandwidth)))
                continue
            c.check(c.eq(x.setup_bandwidth, cfg), 'configured setup bandwidth is signalled')
            if lsp_up(x):
                c.reach('configured')
                if tob(cfg == 0):
                    c.reach('configured zero')
                c.check(c.eq(x.reserved_bandwidth, cfg), 'configured setup bandwidth is reserved')
            continue
        if not lsp_up(x):
            if c.isnum(x.setup_bandwidth):
                c.check(c.eq(x.setup_bandwidth, T / len(g)), 'an automatic LSP signals its share')
            else:
                c.fail('setup bandwidth is a number', repr_(x.setup_bandwidth))
            continue
        if not c.isnum(x.reserved_bandwidth) or not c.isnum(x.setup_bandwidth):
            c.fail('reserved bandwidth is a number', repr_((x.setup_bandwidth, x.reserved_bandwidth)))
            continue
        c.reach('no demand' if nd == 0 else 'share' if nd == 1 else 'several demands')
        c.check(c.eq(x.setup_bandwidth, x.reserved_bandwidth), 'an automatic LSP reserves what it signals')
        if len(up_) == len(g):
            c.check(c.eq(x.reserved_bandwidth, T / len(g)), 'an automatic LSP reserves its share')
        else:
            share, opt = T / len(g), T / len(up_)
            c.check(Or(c.eq(x.reserved_bandwidth, share), c.eq(x.reserved_bandwidth, opt)),
                    'a routed LSP of a partly routed group holds one of the two shares')
            c.reach('partial share')
            if len(g) == len(n.lsps):
                c.reach('optimised' if len(up_) > 1 else 'alone')
                if single_path:
                    # reservations only grow on a single path: with room left now there was room when it re-signalled
                    room = And(*[tob(share_of(i) - lsp_sum(n, i) + x.reserved_bandwidth >= opt + Fraction(3, 20)) for i in x.path['interfaces']])
                    c.check(Or(Not(room), c.eq(x.reserved_bandwidth, opt)), 'a routed LSP re-signals where capacity allows')
        c.observe(x.lsp_name, x.reserved_bandwidth)


def mk(cls, links, lsps, dems, cap=10 ** 9, cost=1, single_path=False, failed=False, again=False, grid=False, lo=0, ordered=True):
    def h(c):
        n = net(c, cls, links, cost=cost, symcost=True, failed='sym' if failed is True else failed or None,
                cap=(lambda i, ab: c.int('cap_%d' % i, 1, 10 ** 6)) if cap == 'sym' else cap)
        amount = (lambda t: c.dec(t, lo, 10 ** 6)) if grid else (lambda t: c.real(t, lo, 10 ** 6))
        for k, (ab, bw) in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=amount('bw_%d' % k) if bw == 'sym' else bw)
        for k, ab in enumerate(dems):
            m = 1
            if grid:
                g = sum(x[0] == ab for x in lsps) or 1
                m = [1, 1, 2, 6][min(g, 3)]
            add_demand(n, ab[0], ab[1], amount('traffic_%d' % k) * m, 'd%d' % k)
        if cap != 10 ** 9 and ordered:
            order(c, n.lsps, 'lsp')
        finish(n)
        if not simulate(c, n):
            return
        if again:
            if not attempt(c, 'adding a demand does not raise', n.model.add_demand, dems[0][0], dems[0][1], amount('more'), 'more')[0]:
                return
            n.demands = list(n.model.demand_objects)
            if not simulate(c, n):
                return
        verify(c, n, single_path)
    return h


def cases(tier):
    S = 'sym'
    out = []
    deep = tier != 'quick'
    for m, cls in MODELS:
        out += [
            (m + ' one of each', mk(cls, 'edge', [('AB', None), ('AB', S)], ['AB', 'AB', 'BA'])),
            (m + ' three automatic', mk(cls, 'edge', [('AB', None)] * 3, ['AB', 'AB'])),
            (m + ' group by both ends', mk(cls, 'line3', [('AB', None), ('AC', None), ('BC', None), ('CB', None)], ['AB', 'AC', 'CB'])),
            (m + ' reverse group', mk(cls, 'edge', [('AB', None), ('BA', None), ('BA', S)], ['AB', 'BA', 'BA'])),
            (m + ' no demand', mk(cls, 'edge', [('AB', None), ('AB', S)], ['BA'])),
            (m + ' edge contention', mk(cls, 'edge', [('AB', None)] * 3, ['AB'], cap=100, single_path=True)),
            (m + ' edge contention, two demands', mk(cls, 'edge', [('AB', None)] * 2, ['AB', 'AB'], cap=100, single_path=True)),
            (m + ' edge contention, configured', mk(cls, 'edge', [('AB', None), ('AB', None), ('AB', S)], ['AB'], cap=100, single_path=True)),
            (m + ' edge, four automatic', mk(cls, 'edge', [('AB', None)] * 4, ['AB'], cap=100, single_path=True)),
            (m + ' line contention', mk(cls, 'line3', [('AC', None), ('AC', None), ('AC', None)], ['AC'], cap=lambda i, ab: [100, 70][i], single_path=True)),
            (m + ' line contention with another group', mk(cls, 'line3', [('AC', None), ('AC', None), ('BC', S)], ['AC'], cap=100)),
            (m + ' square', mk(cls, 'square', [('AD', None)] * 3, ['AD'], cap=lambda i, ab: [100, 100, 60, 60][i])),
            (m + ' square, configured', mk(cls, 'square', [('AD', None), ('AD', S), ('AD', None)], ['AD'], cap=lambda i, ab: [100, 100, 60, 60][i], cost=lambda i, ab, d: [1, 1, 2, 2][i])),
            (m + ' many automatic', mk(cls, 'line6', [('AF', None)] * 18, ['AF'])),
            (m + ' many automatic contention', mk(cls, 'edge', [('AB', None)] * 6, ['AB', 'AB', 'AB'], cap=100, single_path=True, ordered=False)),
            (m + ' detour', mk(cls, ['AB', 'BC', 'CD', 'BE', 'ED'], [('AD', None), ('AD', S)], ['AD'], cap=lambda i, ab: [100, 45, 100, 110, 100][i])),
            (m + ' ladder', mk(cls, 'ladder', [('AF', None)] * 3, ['AF', 'AF'], cap=lambda i, ab: 100 if i < 5 else 60)),
            (m + ' triangle failures', mk(cls, 'tri', [('AB', None), ('AB', None), ('AC', S)], ['AB'], cap=100, failed=True)),
            (m + ' demand added later', mk(cls, 'edge', [('AB', None), ('AB', None)], ['AB'], cap=100, again=True)),
            (m + ' free capacity', mk(cls, 'edge', [('AB', None), ('AB', None), ('AB', S)], ['AB'], cap='sym', grid=True, single_path=True)),
        ]
        if deep:
            out += [
                (m + ' square four', mk(cls, 'square', [('AD', None)] * 4, ['AD'], cap=lambda i, ab: [100, 100, 60, 60][i])),
                (m + ' square free capacity', mk(cls, 'square', [('AD', None)] * 3, ['AD'], cap='sym', grid=True)),
                (m + ' diamond two groups', mk(cls, 'diamond', [('AD', None), ('AD', None), ('BC', None)], ['AD', 'BC'], cap=100)),
                (m + ' square costs', mk(cls, 'square', [('AD', None), ('AD', None), ('AD', S)], ['AD'], cap=100, cost=None)),
            ]
    out += [
        ('flex par2', mk(FLEX, 'par2', [('AB', None)] * 3, ['AB'], cap=lambda i, ab: [100, 70][i])),
        ('flex par2line', mk(FLEX, 'par2line', [('AC', None), ('AC', None), ('AB', S)], ['AC'], cap=100)),
    ]
    if deep:
        out += [
            ('flex par3', mk(FLEX, 'par3', [('AB', None)] * 4, ['AB'], cap=lambda i, ab: [100, 70, 40][i])),
            ('flex par22', mk(FLEX, 'par22', [('AC', None)] * 3, ['AC'], cap=100)),
        ]
    return out
