"""C17: a model file loads into exactly the model it describes."""
from .common import *  # noqa

FUNCTIONS = ['load_model_file', '_extract_interface_data_and_implied_nodes', '_add_node_from_data', '_add_demand_from_data', '_add_lsp_from_data',
             'find_end_index', 'Interface.__init__', 'Demand.__init__', 'RSVP_LSP.__init__', 'Node.igp_shortcuts_enabled']
BOUNDS = ('files of 1-3 circuits over 3 nodes, up to 2 node rows, 2 demands, 2 LSPs (thorough: 3); every value of every numeric field (any '
          'integer; any real where the field is a real); every optional field present, blank or absent; every arrangement of duplicate rows, '
          'unknown nodes, short rows and circuit ids among the stated rows; every end of file after the last table; node, interface and '
          'demand names from a fixed set')
REACH = ['loaded', 'refused', 'bad number', 'duplicate interface', 'duplicate demand', 'duplicate lsp', 'unknown node', 'short row', 'circuit id',
         'orphan', 'no lsp table', 'blank', 'absent', 'shortcuts']

TRUES, FALSES = ('True', 'T', 'true', ''), ('False',)
HEAD = {'INTERFACES_TABLE': 'node_object_name\tremote_node_object_name\tname\tcost\tcapacity', 'NODES_TABLE': 'name\tlon\tlat\tigp_shortcuts_enabled',
        'DEMANDS_TABLE': 'source\tdest\ttraffic\tname', 'RSVP_LSP_TABLE': 'source\tdest\tname\tconfigured_setup_bw\tmanual_metric'}


class Row(object):
    """cells: what is written; want: what it should mean (a dict), or None when the row must make the load fail."""

    def __init__(self, cells, **want):
        self.cells, self.want = cells, want

    def text(self):
        return '\t'.join(str(x) for x in self.cells)


def opt(c, name, values):
    """An optional field: absent (None), or one of the values ((text, meaning))."""
    k = c.choose(len(values) + 1, name)
    c.reach('absent' if not k else 'blank' if values[k - 1][0] == '' else 'given')
    return None if not k else values[k - 1]


def ifrow(c, cls, a, b, name, cid, tag, options, fields=None, lo=None):
    cost, cap = c.int('cost_' + tag, lo), c.int('cap_' + tag, lo)
    cells = [a, b, name, cost, cap] + ([cid] if cls is FLEX else [])
    rsvp, pct = True, 100
    if options:
        o = opt(c, 'rsvp_' + tag, [(x, True) for x in TRUES] + [(x, False) for x in FALSES])
        if o is not None:
            cells.append(o[0])
            rsvp = o[1]
            p = c.int('pct_' + tag, 1, 200) if options == 1 else c.real('pct_' + tag, 1, 200)
            q = opt(c, 'haspct_' + tag, [('', 100), (p, p)])
            if q is not None:
                cells.append(q[0])
                pct = q[1]
    if fields is not None:
        cells = cells[:fields]
    return Row(cells, node=a, remote=b, name=name, cost=cost, cap=cap, cid=cid if cls is FLEX else None, rsvp=rsvp, pct=pct,
               bad=len(cells) < (6 if cls is FLEX else 5))


def noderow(c, name, tag, kind=0):
    lon = c.int('lon_' + tag) if kind == 0 else c.real('lon_' + tag, -1000, 1000)
    lat = c.int('lat_' + tag) if kind == 0 else c.real('lat_' + tag, -1000, 1000)
    w = {'lon': 0, 'lat': 0, 'sc': False}
    cells = [name]
    for k, f, vals in ((1, 'lon', [('', 0), (lon, lon)]), (2, 'lat', [('', 0), (lat, lat)]),
                       (3, 'sc', [('', False), ('True', True), ('False', False)])):
        o = opt(c, '%s_%s' % ('has' + f, tag), vals)
        if o is None:
            break
        cells.append(o[0])
        w[f] = o[1]
    return Row(cells, name=name, **w)


def demrow(c, a, b, name, tag, lo=None):
    t = c.int('traffic_' + tag, lo)
    return Row([a, b, t, name], source=a, dest=b, name=name or 'none', traffic=t)


def lsprow(c, a, b, name, tag):
    bw, mm = c.real('bw_' + tag, 0, 10 ** 7), c.int('metric_' + tag, 1)
    cells, w = [a, b, name], {'bw': None, 'metric': None}
    for f, vals in (('bw', [('', None), (bw, bw)]), ('metric', [('', None), (mm, mm)])):
        o = opt(c, 'has%s_%s' % (f, tag), vals)
        if o is None:
            break
        cells.append(o[0])
        w[f] = o[1]
    return Row(cells, source=a, dest=b, name=name, **w)


def text(tables, end, header):
    """tables: [(name, rows)], end: what follows the last row."""
    out = []
    for k, (name, rows) in enumerate(tables):
        if k:
            out.append('')
        out += [name, header.get(name, HEAD[name])] + [r.text() for r in rows]
    return '\n'.join(out) + end


ENDS = ['', '\n', '\n\n', '\n\nNOTES\nanything at all']


def load_(c, cls, ifs, nodes, demands, lsps, end=0, label='a described model loads'):
    """Load the file made of these rows and compare with their meaning.  lsps None: no such table."""
    tables = [('INTERFACES_TABLE', ifs), ('NODES_TABLE', nodes), ('DEMANDS_TABLE', demands)]
    if lsps is not None:
        tables.append(('RSVP_LSP_TABLE', lsps))
    NS.VFILES['model.csv'] = text(tables, ENDS[end], {})
    # ---- what it means
    bad = FALSE                       # the load must fail
    want_ifs, want_nodes, want_d, want_l = {}, {}, {}, {}
    names = []
    for r in ifs:
        w = r.want
        if w['bad']:
            bad = TRUE
            c.reach('short row')
            continue
        bad = Or(bad, tob(w['cost'] < 1), tob(w['cap'] <= 0))
        for x in (w['node'], w['remote']):
            if x not in names:
                names.append(x)
        if (w['node'], w['name']) in want_ifs:
            c.reach('duplicate interface')
        else:
            want_ifs[w['node'], w['name']] = w
    if cls is FLEX:
        ids = [r.want['cid'] for r in ifs if len(r.cells) > 5]
        if any(ids.count(x) != 2 for x in ids):
            bad = TRUE
            c.reach('circuit id')
    for x in names:
        want_nodes[x] = {'lon': 0, 'lat': 0, 'sc': False}
    for r in nodes:
        if r.want['name'] not in want_nodes:
            c.reach('orphan')
        want_nodes[r.want['name']] = r.want
    for rows, out, what in ((demands, want_d, 'demand'), (lsps or [], want_l, 'lsp')):
        for r in rows:
            k = r.want['source'], r.want['dest'], r.want['name']
            if k[0] not in want_nodes or k[1] not in want_nodes:
                bad = TRUE
                c.reach('unknown node')
            if what == 'demand':
                bad = Or(bad, tob(r.want['traffic'] < 0))
            if k in out:
                c.reach('duplicate ' + what)
            else:
                out[k] = r.want
    # ---- what happens
    ok, e = raises(cls.load_model_file, 'model.csv')
    if ok:
        if not isinstance(e, (ModelException, ValueError)) or isinstance(e, core_errors):
            raise e
        c.check(bad, label, repr_((e, NS.VFILES['model.csv'])))
        c.reach('refused')
        if bad is not TRUE:
            c.reach('bad number')
        return None
    c.check(Not(bad), 'a faulty file is refused', repr_(NS.VFILES['model.csv']))
    c.reach('loaded')
    if lsps is None:
        c.reach('no lsp table')
    m = LAST[0]
    c.check(m.__class__ is cls, 'the model loaded is of the class asked')
    # nodes
    got = {}
    for o in m.node_objects:
        c.check(o.name not in got, 'each node is loaded once', repr_(o))
        got[o.name] = o
    c.check(sorted(got) == sorted(want_nodes), 'exactly the nodes of the file are loaded', repr_((sorted(got), sorted(want_nodes))))
    for x, w in want_nodes.items():
        o = got.get(x)
        if o is None:
            continue
        c.check(And(c.eq(o.lon, w['lon']), c.eq(o.lat, w['lat'])), 'coordinates of a node are those of the file', repr_((x, o.lon, o.lat, w['lon'], w['lat'])))
        c.check(o.igp_shortcuts_enabled is w['sc'], 'IGP shortcuts of a node are those of the file', repr_((x, o.igp_shortcuts_enabled, w['sc'])))
        c.check(o.failed is False and not o.srlgs, 'a loaded node is up')
        if w['sc']:
            c.reach('shortcuts')
    # interfaces
    seen = []
    for i in m.interface_objects:
        k = (i.node_object.name, i.name)
        c.check(k not in seen and k in want_ifs, 'exactly the interfaces of the file are loaded', repr_((k, sorted(want_ifs))))
        seen.append(k)
        w = want_ifs.get(k)
        if w is None:
            continue
        c.check(i.node_object is got.get(w['node']) and i.remote_node_object is got.get(w['remote']), 'interfaces join the nodes of the model', repr_(i))
        c.check(And(c.eq(i.cost, w['cost'], 0), c.eq(i.capacity, w['cap'], 0), c.eq(i.percent_reservable_bandwidth, w['pct'])),
                'numbers of an interface are those of the file', repr_((k, i.cost, i.capacity, i.percent_reservable_bandwidth)))
        c.check(i.rsvp_enabled is w['rsvp'], 'RSVP state of an interface is that of the file', repr_((k, i.rsvp_enabled, w['rsvp'])))
        c.check(i.failed is False, 'a loaded interface is up')
        if cls is FLEX:
            c.check(i.circuit_id == w['cid'], 'circuit id of an interface is that of the file', repr_((k, i.circuit_id)))
    c.check(len(seen) == len(want_ifs), 'every interface of the file is loaded', repr_((seen, sorted(want_ifs))))
    # demands and LSPs
    for objs, want, what, nm in ((m.demand_objects, want_d, 'demand', 'name'), (m.rsvp_lsp_objects, want_l, 'LSP', 'lsp_name')):
        seen = []
        for o in objs:
            k = (o.source_node_object.name, o.dest_node_object.name, getattr(o, nm))
            c.check(k not in seen and k in want, 'exactly the %ss of the file are loaded' % what, repr_((k, sorted(want))))
            seen.append(k)
            w = want.get(k)
            if w is None:
                continue
            c.check(o.source_node_object is got.get(k[0]) and o.dest_node_object is got.get(k[1]), 'a %s joins nodes of the model' % what, repr_(o))
            if what == 'demand':
                c.check(c.eq(o.traffic, w['traffic'], 0), 'traffic of a demand is that of the file', repr_((k, o.traffic)))
            else:
                for x, y, f in ((o.configured_setup_bandwidth, w['bw'], 'setup bandwidth'), (o.manual_metric, w['metric'], 'manual metric')):
                    c.check((x in (None, "not set")) if y is None else (x is not None and c.eq(x, y)), '%s of an LSP is that of the file' % f, repr_((k, x, y)))
        c.check(len(seen) == len(want), 'every %s of the file is loaded' % what, repr_((seen, sorted(want))))
    c.observe('sizes', [len(m.node_objects), len(m.interface_objects), len(m.demand_objects), len(m.rsvp_lsp_objects)])
    c.observe('costs', [i.cost for i in sorted(m.interface_objects, key=lambda i: (i.node_object.name, i.name))])
    return m


core_errors = (UnicodeError, )
LAST = [None]


def raises(fn, *a):
    try:
        LAST[0] = fn(*a)
        return False, None
    except Exception as e:
        return True, e


def std(c, cls, links=('AB', 'BC'), lo=1):
    """Interface rows of plain circuits."""
    out = []
    for k, (a, b) in enumerate(links):
        out += [ifrow(c, cls, a, b, 'i%da' % k, 'c%d' % k, '%df' % k, False, lo=lo), ifrow(c, cls, b, a, 'i%db' % k, 'c%d' % k, '%dr' % k, False, lo=lo)]
    return out


def options(cls, second):
    """Optional fields of interface rows."""
    def h(c):
        rows = [ifrow(c, cls, 'A', 'B', 'x', '7', 'f', 1 if not second else 2), ifrow(c, cls, 'B', 'A', 'x', '7', 'r', second)]
        load_(c, cls, rows, [], [], None, 1)
    return h


def bad_rows(cls, n):
    """Two circuits and n further rows, each repeating or missing something, at any position."""
    def h(c):
        rows = std(c, cls)
        for k in range(n):
            which = c.choose(4, 'extra_%d' % k)
            t = 'e%d' % k
            if which == 0:            # repeats an interface, with other numbers, optional fields and possibly another remote node
                r = ifrow(c, cls, 'A', c.pick(['B', 'C'], 'remote_' + t), c.pick(['i0a', 'new'], 'name_' + t), c.pick(['c0', 'c9'], 'cid_' + t) if cls is FLEX else '', t, False)
            elif which == 1:          # too few fields
                r = ifrow(c, cls, 'A', 'B', 'short', 'c9', t, False, fields=c.choose(5 if cls is FLEX else 4, 'fields_' + t) + 1)
            elif which == 2:          # a further circuit end with a new node
                r = ifrow(c, cls, 'D', 'A', 'i9', c.pick(['c9', 'c1'], 'cid_' + t) if cls is FLEX else '', t, False)
            else:
                continue
            rows.insert(c.choose(len(rows) + 1, 'at_' + t), r)
        load_(c, cls, rows, [], [], None, 1)
    return h


def node_rows(cls, n):
    def h(c):
        rows = std(c, cls, ['AB'])
        nodes = [noderow(c, x, 'n%d' % k, k % 2) for k, x in enumerate(['A', 'orphan'][:n])]
        if n == 2 and c.choose(2, 'swap'):
            nodes.reverse()
        load_(c, cls, rows, nodes, [], None, 1)
    return h


def demands(cls, n, dup=True):
    def h(c):
        pool = ['A', 'C', 'orphan', 'nowhere'] if n == 1 else ['A', 'C', 'nowhere']
        dem = []
        for k in range(n):
            a = c.pick(pool, 'src_%d' % k)
            b = c.pick([x for x in pool if x != a], 'dst_%d' % k)
            dem.append(demrow(c, a, b, c.pick(['', 'none', 'd1'], 'dname_%d' % k), str(k)))
        load_(c, cls, std(c, cls), [Row(['orphan'], name='orphan', lon=0, lat=0, sc=False)], dem, c.pick([None, []], 'table') if n == 1 else None,
              c.choose(len(ENDS), 'end') if n == 1 else 0)
    return h


def lsps(cls, n, short=False):
    def h(c):
        pool = ['A', 'C', 'nowhere'] if n > 1 else ['A', 'C', 'orphan', 'nowhere']
        ls = []
        for k in range(n):
            a = c.pick(pool, 'src_%d' % k)
            b = c.pick([x for x in pool if x != a], 'dst_%d' % k)
            ls.append(lsprow(c, a, b, c.pick(['l0', 'l1'], 'lname_%d' % k), str(k)))
        dem = [demrow(c, 'A', 'B', 'd', 'd', 0)]
        load_(c, cls, std(c, cls), [Row(['orphan'], name='orphan', lon=0, lat=0, sc=False)], dem, ls, c.choose(len(ENDS), 'end') if n == 1 else 1)
    return h


def whole(cls):
    """A file with every table; the model it gives simulates and validates."""
    def h(c):
        rows = std(c, cls, ['AB', 'BC', 'AC'] + (['AB'] if cls is FLEX else []), lo=1)
        for k in range(0, len(rows), 2):
            rows[k + 1].cells[4] = rows[k].cells[4]
            rows[k + 1].want['cap'] = rows[k].want['cap']
        nodes = [Row(['A', '1', '2'], name='A', lon=1, lat=2, sc=False)]
        m = load_(c, cls, rows, nodes, [demrow(c, 'A', 'C', 'd', '0', 0)], [Row(['A', 'C', 'l', '', 9], source='A', dest='C', name='l', bw=None, metric=9)],
                  c.choose(len(ENDS), 'end') if cls is PERF else 2)
        if m is None:
            return
        if attempt(c, 'a loaded model simulates', m.update_simulation)[0]:
            for k, i in enumerate(sorted(m.interface_objects, key=lambda i: (i.node_object.name, i.name))):
                c.observe('traffic %d' % k, i.traffic)
    return h


ODD = ['x', 'X', ' x', 'x ', 'x y', '0', '07', '"x"', "x'", 'a,b', '#x', 'None', 'none', 'name', 'True', '1.0', '-']


def odd_names(cls, what):
    """Names that a careless reader would trim, fold, convert or take for something else; two of them in the same role."""
    def h(c):
        p, q = c.pick(ODD, 'name_p'), c.pick(ODD, 'name_q')
        a, b = (p, q) if what == 'node' else ('A', 'B')
        if what == 'node' and p == q:
            return
        ni = (p, q) if what == 'interface' else ('i', 'j')
        rows = [ifrow(c, cls, a, b, ni[0], p if what == 'circuit' else 'c', 'f', False, lo=1), ifrow(c, cls, b, a, ni[1], p if what == 'circuit' else 'c', 'r', False, lo=1)]
        if what in ('circuit', 'interface'):
            k = q if what == 'circuit' else 'd'
            rows += [ifrow(c, cls, 'A', 'C', ni[1], k, 'f2', False, lo=1), ifrow(c, cls, 'C', 'A', ni[0], k, 'r2', False, lo=1)]
        nodes = [Row([b, 5, 6, ''], name=b, lon=5, lat=6, sc=False)] if what == 'node' else []
        dem = [demrow(c, a, b, p if what == 'other' else 'd', '0', 0), demrow(c, a, b, q if what == 'other' else 'e', '1', 0)]
        ls = [Row([a, b, p if what == 'other' else 'l'], source=a, dest=b, name=p if what == 'other' else 'l', bw=None, metric=None),
              Row([a, b, q if what == 'other' else 'k', 5], source=a, dest=b, name=q if what == 'other' else 'k', bw=5, metric=None)]
        load_(c, cls, rows, nodes, dem, ls, 1)
    return h


def many(cls):
    """A longer file: every row counts, wherever it stands."""
    def h(c):
        links = ['AB', 'BC', 'CD', 'DE', 'EF', 'FG', 'GH', 'AH', 'BG', 'CF'] + (['AB', 'AB', 'GH'] if cls is FLEX else [])
        rows = std(c, cls, links, lo=1)
        nodes = [Row([x, k, -k, '' if k % 3 else True], name=x, lon=k, lat=-k, sc=not k % 3) for k, x in enumerate('HGFEDCBAZ')]
        dem = [demrow(c, a, b, 'd%d' % k, str(k), 0) for k, (a, b) in enumerate(['AB', 'BA', 'AB', 'AH', 'HA', 'CF', 'DE', 'GB', 'AZ', 'AB', 'HC', 'AB'])]
        ls = [Row([a, b, 'l%d' % k, 10 * k or '', k or ''], source=a, dest=b, name='l%d' % k, bw=10 * k or None, metric=k or None)
              for k, (a, b) in enumerate(['AB', 'AB', 'AH', 'HA', 'CF', 'AB', 'FC', 'DE', 'AB', 'ED', 'GB'])]
        k = c.choose(4, 'table')
        j = c.choose(len((rows, nodes, dem, ls)[k]) + 1, 'again')          # some row comes twice
        t = (rows, nodes, dem, ls)[k]
        if j < len(t):
            t.append(t[j])
        load_(c, cls, rows, nodes, dem, ls, 1)
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for m, cls in MODELS:
        out += [(m + ' optional fields', options(cls, False)), (m + ' one odd row', bad_rows(cls, 1)), (m + ' node rows', node_rows(cls, 1)),
                (m + ' two node rows', node_rows(cls, 2)), (m + ' demand', demands(cls, 1)), (m + ' two demands', demands(cls, 2)),
                (m + ' LSP', lsps(cls, 1)), (m + ' two LSPs', lsps(cls, 2)), (m + ' whole file', whole(cls)),
                (m + ' two odd rows', bad_rows(cls, 2)), (m + ' many rows', many(cls))]
        out += [(m + ' names of a %s' % w, odd_names(cls, w)) for w in ('node', 'interface', 'circuit', 'other') if cls is FLEX or w != 'circuit']
        if deep:
            out += [(m + ' optional fields of both rows', options(cls, 1)), (m + ' three demands', demands(cls, 3)), (m + ' three odd rows', bad_rows(cls, 3))]
    return out
