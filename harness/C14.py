"""C14: the all-paths query lists exactly the paths with the bandwidth."""
from .common import *  # noqa
from .C13 import usable, fail_first

FUNCTIONS = ['get_all_paths_reservable_bw', '_make_weighted_network_graph', '_make_weighted_network_graph_mdg',
             '_convert_nx_path_to_model_path', '_normalize_multidigraph_paths', 'get_interface_object_from_nodes',
             'Interface.reservable_bandwidth', 'update_simulation']
BOUNDS = ('<=6 nodes, <=7 circuits, <=3 parallel circuits; requested bandwidth zero or any positive real; any capacity, failed and RSVP '
          'setting per circuit, or up to two routed LSPs with free bandwidth; every cutoff from 1 to one more than the longest path; failed '
          'circuits included (default or explicit) and excluded'
          '; 12 nodes/14 circuits, a 10-node ladder, a ring of 24, up to 144 equal-cost paths in series, a line of twenty and 18 two-hop routes with fixed cutoffs')
REACH = ['none', 'some', 'all', 'cut off', 'failed included', 'failed excluded', 'no bandwidth asked', 'bandwidth asked']


def query(c, n, src, dst, bw, label='query', cutoffs=None, default=False):
    allp = simple_paths(n.ifs, n.nodes[src], n.nodes[dst])
    longest = max([len(p) for p in allp] or [0])
    kw = {}
    cutoff = 10
    if not default:
        cutoff = kw['cutoff'] = 1 + c.choose(longest + 1, label + ' cutoff') if cutoffs is None else c.pick(cutoffs, label + ' cutoff')
    inc = True
    f = c.choose(3, label + ' failed')
    if f:
        inc = kw['include_failed_circuits'] = f == 1
    c.reach('failed included' if inc else 'failed excluded')
    if bw is not None:
        kw['needed_bw'] = bw
    c.reach('no bandwidth asked' if bw is None else 'bandwidth asked')
    ok, got = attempt(c, label + ' does not raise', n.model.get_all_paths_reservable_bw, n.nodes[src].name, n.nodes[dst].name, **kw)
    if not ok:
        return
    if not isinstance(got, dict) or not is_list_of_paths(got.get('path')):
        c.fail(label + ': answer has paths', repr_(got))
        return
    idx = []
    for p in got['path']:
        k = find_path(p, allp)
        if k is None or k in idx:
            c.fail(label + ': lists valid paths once', repr_([names(p) for p in got['path']]))
            return
        idx.append(k)
    what = repr_(([names(p) for p in got['path']], [names(p) for p in allp], kw))
    cs = []
    for k, p in enumerate(allp):
        if len(p) > cutoff:
            q = FALSE
            c.reach('cut off')
        elif not inc and any(i.failed for i in p):
            q = FALSE
        elif bw is None:
            q = TRUE
        else:
            q = And(*[tob(i.reservable_bandwidth >= bw) if i.rsvp_enabled else FALSE for i in p])
        cs.append(q if k in idx else Not(q))
    c.reach('none' if not idx else 'all' if len(idx) == len(allp) else 'some')
    c.check(And(*cs), label + ': exactly the qualifying paths', what)
    c.observe(label, sorted('.'.join(names(p)) for p in got['path']))


def mk(cls, links, pairs, bw=True, sym=(), cap=None, costs=None, lsps=(), again=False, extra=(), after=None, pct=None, cutoffs=None, default=False):
    def h(c):
        n = net(c, cls, links, cost=(lambda i, ab, d: costs[i]) if costs else 1,
                failed='sym' if 'failed' in sym else next((x for x in sym if x.startswith('sym:')), None), rsvp='sym' if 'rsvp' in sym else 'sym2' if 'rsvp2' in sym else None,
                cap=(lambda i, ab: c.real('cap_%d' % i, '1/100', 10 ** 7)) if cap == 'sym' else cap, extra_nodes=extra, pct=pct)
        for k, ab in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % k, bw=c.real('lsp_bw_%d' % k, 0, 200))
        finish(n)
        if lsps:
            if not simulate(c, n):
                return
        ab = c.pick(pairs, 'pair') if len(pairs) > 1 else pairs[0]
        for t in range(2 if again else 1):
            w = c.real('needed_%d' % t, '1/1000', 10 ** 7) if (c.choose(2, 'bandwidth_%d' % t) if bw == 'free' else bw) else None
            query(c, n, ab[0], ab[1], w, 'query %d' % t, cutoffs, default)
            if after and t == 0:
                after(c, n)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [
            (m + ' square capacities', mk(cls, 'square', ['AD', 'DA'], cap='sym')),
            (m + ' diamond', mk(cls, 'diamond', ['AD', 'DA', 'BC'], bw=False)),
            (m + ' k4', mk(cls, 'k4', ['AD'], bw=False)),
            (m + ' line12', mk(cls, [a + b for a, b in zip('ABCDEFGHIJK', 'BCDEFGHIJKL')] + ['AL'], ['AL', 'AK'], bw=False, cutoffs=[9, 10, 11])),
            (m + ' line12 default cutoff', mk(cls, [a + b for a, b in zip('ABCDEFGHIJK', 'BCDEFGHIJKL')] + ['AL'], ['AL', 'AK', 'BL'], bw=False, default=True)),
            (m + ' ring of twenty-four', mk(cls, [a + b for a, b in zip('ABCDEFGHIJKLMNOPQRSTUVWX', 'BCDEFGHIJKLMNOPQRSTUVWXA')], ['AX', 'AS'], bw='free', cap=lambda i, ab: 100 - i, cutoffs=[17, 18, 22, 23, 40])),
            (m + ' big', mk(cls, 'big', ['AL', 'LA', 'BK', 'HJ', 'CE'], bw=False, sym=('sym:2,9',))),
            (m + ' many equal paths', mk(cls, 'chain', ['AP'], bw=False, cutoffs=[9, 10])),
            (m + ' a hundred paths', mk(cls, 'chain7', ['AV'], bw=False, cutoffs=[13, 14])),
            (m + ' many routes', mk(cls, 'fanout', ['AZ'], bw='free', cap=lambda i, ab: 40 + 10 * (i % 3), cutoffs=[2])),
            (m + ' ladder reservations', mk(cls, 'ladder', ['AF', 'BI'], cap=lambda i, ab: 60 + 40 * (i % 3), lsps=['AF'], cutoffs=[5, 7])),
            (m + ' triangle settings', mk(cls, 'tri', ['AC'], bw='free', sym=('failed', 'rsvp'), cap='sym')),
            (m + ' line rsvp per direction', mk(cls, 'line3', ['AC', 'CA'], bw='free', sym=('rsvp2', 'failed'))),
            (m + ' square failures', mk(cls, 'square', ['AD'], bw=False, sym=('failed',))),
            (m + ' triangle reservations', mk(cls, 'tri', ['AC', 'CA'], bw='free', costs=[1, 2, 3], cap=100, lsps=['AC', 'AB'])),
            (m + ' square reservations', mk(cls, 'square', ['AD'], bw='free', costs=[1, 2, 2, 1], cap=lambda i, ab: 50 + 10 * i, lsps=['AD'], pct=lambda i, ab: 100 - 20 * (i % 2))),
            (m + ' islands and orphan', mk(cls, 'two', ['AD', 'AB', 'AZ', 'ZA'], bw='free', extra='Z')),
            (m + ' twice around a failure', mk(cls, 'tri', ['AC', 'AB'], bw=False, again=True, after=fail_first)),
        ]
        if deep:
            out += [
                (m + ' k4 capacities', mk(cls, 'k4', ['AD'], cap='sym')),
                (m + ' diamond settings', mk(cls, 'diamond', ['AD'], bw='free', sym=('failed', 'rsvp'))),
                (m + ' fan capacities', mk(cls, 'fan', ['AF', 'FA'], cap='sym')),
                (m + ' k5', mk(cls, [a + b for a, b in itertools.combinations('ABCDE', 2)], ['AE'], bw=False)),
            ]
    out += [
        ('flex a hundred parallel paths', mk(FLEX, 'par664', ['AD'], bw='free', cap=lambda i, ab: 40 + 10 * (i % 3), cutoffs=[3])),
        ('flex par3', mk(FLEX, 'par3', ['AB', 'BA'], bw='free', cap='sym')),
        ('flex partri', mk(FLEX, 'partri', ['AC'], cap='sym')),
        ('flex par22 settings', mk(FLEX, 'par22', ['AC'], bw='free', sym=('failed', 'rsvp'))),
        ('flex par2line reservations', mk(FLEX, 'par2line', ['AC', 'AB'], bw='free', costs=[1, 1, 2], cap=lambda i, ab: 60 + 20 * i, lsps=['AC', 'AB'])),
    ]
    if deep:
        out += [
            ('flex partri2 capacities', mk(FLEX, 'partri2', ['AC'], bw='free', cap='sym')),
            ('flex parsq settings', mk(FLEX, 'parsq', ['AD'], bw='free', sym=('failed', 'rsvp'))),
            ('flex par22 capacities', mk(FLEX, 'par22', ['AC'], cap='sym')),
            ('flex three by two', mk(FLEX, ['AB', 'AB', 'BC', 'BC', 'CD', 'CD'], ['AD'], bw=False, sym=('failed',))),
        ]
    return out
