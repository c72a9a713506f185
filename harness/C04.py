"""C04: RSVP reservations add up and never exceed the reservable share."""
from .common import *  # noqa

OBS_TOL = 0.31
FUNCTIONS = ['update_simulation', '_route_lsps', '_route_parallel_lsp_groups', '_determine_lsp_state_info', '_add_lsp_path_data',
             '_optimize_parallel_lsp_group_res_bw', 'RSVP_LSP.find_rsvp_path_w_bw', 'get_shortest_path_for_routed_lsp',
             '_make_weighted_network_graph_routed_lsp', '_reserved_bw_error_checks', '_make_int_info_dict', 'validate_model',
             'Interface.reserved_bandwidth', 'Interface.reservable_bandwidth', 'Interface.lsps']
BOUNDS = ('up to four LSPs (configured and automatic; names distinct, or the same between different nodes), every processing order of the LSP set, every random tie-break; amounts: every '
          'real in [0, 10^6] where capacities are fixed, the 0.1 grid where they are free (every integer in [1, 10^6]); reservable share: '
          'every percentage in tenths (capacity fixed) or 100% (capacity free); reserved vs sum up to 0.05, reserved vs share up to 0.15 '
          '(one-decimal admission)')
REACH = ['shared', 'full', 'unrouted', 'idle', 'resignalled', 'no rsvp']
CAPR = lambda c: (lambda i, ab: c.int('cap_%d' % i, 1, 10 ** 6))   # noqa


def verify(c, n):
    for i in n.ifs:
        users = [x for x in n.lsps if lsp_up(x) and member(i, x.path['interfaces'])]
        s = 0
        for x in users:
            s = s + x.reserved_bandwidth
        c.reach('idle' if not users else 'shared' if len(users) > 1 else 'one')
        c.check(same_objs(i.lsps(n.model), users), 'LSPs reported on the interface', repr_((i.name, i.lsps(n.model))))
        c.check(c.eq(i.reserved_bandwidth, s, Fraction(51, 1000)), 'reserved bandwidth is the sum of the LSPs', repr_((i.name, i.reserved_bandwidth)))
        if not users:
            c.check(c.eq(i.reserved_bandwidth, 0), 'nothing reserved without LSPs')
        sh = share_of(i)
        if i.rsvp_enabled is True:
            c.check(c.le(i.reserved_bandwidth, sh, Fraction(151, 1000)), 'reserved bandwidth within the reservable share')
            c.check(c.eq(i.reservable_bandwidth, sh - s, Fraction(101, 1000)), 'reservable bandwidth is the rest of the share')
        else:
            c.reach('no rsvp')
            c.check(users == [], 'no LSP over an interface without RSVP')
        c.observe(i.name, i.reserved_bandwidth)
    for x in n.lsps:
        if not lsp_up(x):
            c.reach('unrouted')
        elif x.configured_setup_bandwidth is None and len(group_of(n, x)) > sum(lsp_up(y) for y in group_of(n, x)):
            c.reach('resignalled')


def mk(cls, links, lsps, dem=(), cost=1, cap='sym', pct=None, rsvp=None, failed=False, ordered=True, again=False, symcost=True, names=None):
    def h(c):
        n = net(c, cls, links, cost=cost, cap=CAPR(c) if cap == 'sym' else cap, symcost=symcost,
                pct=None if pct is None else (lambda i, ab: c.dec('pct_%d' % i, 0, 100) if pct == 'tenths' else c.int('pct_%d' % i, 0, 100)), rsvp=rsvp, failed='sym' if failed is True else failed or None)
        grid = cap == 'sym'       # free capacities: amounts on the 0.1 grid (shares of a group too); fixed capacities: any real
        amount = (lambda t: c.dec(t, 0, 10 ** 6)) if grid else (lambda t: c.real(t, 0, 10 ** 6))
        for k, (ab, bw) in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], names[k] if names else 'l%d' % k, bw=amount('bw_%d' % k) if bw == 'sym' else bw)
        for k, ab in enumerate(dem):
            add_demand(n, ab[0], ab[1], amount('traffic_%d' % k) * (sum(x[0] == ab for x in lsps) or 1 if grid else 1), 'd%d' % k)
        if ordered:
            order(c, n.lsps, 'lsp')
        finish(n)
        if not simulate(c, n):
            return
        if any(True for x in n.lsps if not lsp_up(x)):
            c.reach('full')
        if again:
            a = n.ckts[0][0]
            if not attempt(c, 'failing an interface does not raise', n.model.fail_interface, a.name, a.node_object.name)[0] or not simulate(c, n):
                return
            verify(c, n)
            if not attempt(c, 'restoring an interface does not raise', n.model.unfail_interface, a.name, a.node_object.name)[0]:
                return
            if not simulate(c, n):
                return
        verify(c, n)
    return h


def cases(tier):
    out = []
    deep = tier != 'quick'
    S = 'sym'
    for m, cls in MODELS:
        out += [
            (m + ' edge, three configured', mk(cls, 'edge', [('AB', S), ('AB', S), ('AB', S)])),
            (m + ' edge, share', mk(cls, 'edge', [('AB', S), ('AB', S), ('BA', S)], cap=100, pct=S)),
            (m + ' edge, share in tenths', mk(cls, 'edge', [('AB', S), ('AB', S)], cap=1000, pct='tenths')),
            (m + ' line, share in tenths', mk(cls, 'line3', [('AC', S), ('AB', None)], ['AB'], cap=500, pct='tenths')),
            (m + ' edge, two automatic', mk(cls, 'edge', [('AB', None), ('AB', None)], ['AB', 'AB'])),
            (m + ' edge, three automatic', mk(cls, 'edge', [('AB', None), ('AB', None), ('AB', None)], ['AB'], cap=100)),
            (m + ' edge, mixed group', mk(cls, 'edge', [('AB', None), ('AB', S), ('AB', None)], ['AB'], cap=100)),
            (m + ' line, nested', mk(cls, 'line3', [('AC', S), ('AB', S), ('BC', None)], ['BC'])),
            (m + ' square, two automatic', mk(cls, 'square', [('AD', None), ('AD', None)], ['AD'])),
            (m + ' square, two configured', mk(cls, 'square', [('AD', S), ('AD', S)])),
            (m + ' square, mixed', mk(cls, 'square', [('AD', None), ('AD', S)], ['AD'])),
            (m + ' square, two groups', mk(cls, 'square', [('AD', None), ('AB', S)], ['AD'])),
            (m + ' unequal square', mk(cls, 'square', [('AD', None), ('AD', None)], ['AD'], cost=lambda i, ab, d: 1 if i < 2 else 2)),
            (m + ' triangle, rsvp', mk(cls, 'tri', [('AB', S), ('AC', None)], ['AC'], cost=2, rsvp='sym')),
            (m + ' triangle, failures', mk(cls, 'tri', [('AB', S), ('AB', None)], ['AB'], cost=1, failed=True)),
            (m + ' ladder, two automatic', mk(cls, 'ladder', [('AF', None), ('AF', None), ('CE', S)], ['AF'], cap=lambda i, ab: [100, 60, 100, 130, 100, 70, 60, 60, 100, 60][i])),
            (m + ' detour, automatic and configured', mk(cls, ['AB', 'BC', 'CD', 'BE', 'ED'], [('AD', None), ('AD', S)], ['AD'], cap=lambda i, ab: [100, 45, 100, 110, 100][i])),
            (m + ' line, long LSPs', mk(cls, 'line6', [('AF', S), ('AF', S), ('BE', None), ('BE', None), ('FA', S)], ['BE'], cap=100, ordered=False)),
            (m + ' line, LSPs of one name', mk(cls, 'line3', [('AC', S), ('AB', S), ('BC', S), ('CB', S)], names=['x', 'x', 'x', 'x'], ordered=False)),
            (m + ' edge, names alike', mk(cls, 'edge', [('AB', S), ('AB', None), ('BA', S)], ['AB'], cap=100, names=['x', 'X', 'x '])),
            (m + ' triangle, fail and restore', mk(cls, 'tri', [('AB', S), ('AB', None)], ['AB'], cap=100, again=True)),
        ]
        if deep:
            out += [
                (m + ' edge, four configured', mk(cls, 'edge', [('AB', S)] * 4)),
                (m + ' edge, four automatic', mk(cls, 'edge', [('AB', None)] * 4, ['AB'])),
                (m + ' square, three automatic', mk(cls, 'square', [('AD', None)] * 3, ['AD'], cap=100)),
                (m + ' square, three automatic, free capacities', mk(cls, 'square', [('AD', None)] * 3, ['AD'])),
                (m + ' square, three configured', mk(cls, 'square', [('AD', S)] * 3)),
                (m + ' square, mixed three', mk(cls, 'square', [('AD', None), ('AD', S), ('AD', None)], ['AD'], cap=lambda i, ab: 100 if i < 2 else 60)),
                (m + ' diamond, two groups', mk(cls, 'diamond', [('AD', None), ('AD', None), ('BC', S)], ['AD'], cap=100)),
                (m + ' square, costs', mk(cls, 'square', [('AD', None), ('AD', None)], ['AD'], cost=None)),
                (m + ' triangle, share and automatic', mk(cls, 'tri', [('AB', None), ('AB', None), ('AC', S)], ['AB'], cap=100, pct=S)),
                (m + ' square, fail and restore', mk(cls, 'square', [('AD', None), ('AD', None)], ['AD'], again=True)),
            ]
    out += [
        ('flex par2, two automatic', mk(FLEX, 'par2', [('AB', None), ('AB', None)], ['AB'])),
        ('flex par2line', mk(FLEX, 'par2line', [('AC', S), ('AB', S)])),
        ('flex par2, mixed', mk(FLEX, 'par2', [('AB', None), ('AB', S)], ['AB'], cap=100, pct=S)),
        ('flex par2line, automatic', mk(FLEX, 'par2line', [('AC', None), ('AC', None)], ['AC'], cap=lambda i, ab: [100, 60, 130][i])),
    ]
    if deep:
        out += [
            ('flex par2, three automatic', mk(FLEX, 'par2', [('AB', None)] * 3, ['AB'])),
            ('flex par22, two automatic', mk(FLEX, 'par22', [('AC', None)] * 2, ['AC'])),
            ('flex partri', mk(FLEX, 'partri', [('AC', None), ('AC', None), ('AB', S)], ['AC'], cap=100)),
        ]
    return out
