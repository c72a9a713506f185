"""C18: invalid attribute values are refused and leave the object unchanged."""
from .common import *  # noqa

FUNCTIONS = ['Interface.cost', 'Interface.capacity', 'Interface.failed', 'Interface.reserved_bandwidth', 'Demand.__init__', 'RSVP_LSP.manual_metric',
             'RSVP_LSP.setup_bandwidth', 'Node.lat', 'Node.lon', 'Node.failed', 'Node.igp_shortcuts_enabled', 'SRLG.failed', 'add_circuit', 'add_demand']
BOUNDS = ('every integer and every real value (floats as exact reals; NaN and infinities excluded) and the values None, a string, a list, True and '
          'False for each attribute, after every valid previous value; up to two assignments in a row; constructors, setters and the add methods '
          'of both model classes; setters also on objects of a model, simulated or not, that are up, failed by themselves, with their node or by a group, without RSVP, orphans')
REACH = ['accepted', 'refused', 'second', 'constructed', 'not constructed']

NUM, BAD = ('int', 'real'), ('none', 'text', 'list')


def value(c, kind, tag):
    if kind == 'int':
        return c.int('value_' + tag)
    if kind == 'real':
        return c.real('value_' + tag)
    return {'none': None, 'text': 'five', 'list': [5], 'true': True, 'false': False}[kind]


def node(x):
    return NS.Node(x)


def iface(cost=3, cap=10):
    return NS.Interface('i', cost, cap, node('A'), node('B'), 'c')


class Attr(object):
    """make(c) -> object holding a valid value and that value; valid(kind, v) -> formula; same(c, read, v)."""

    def __init__(self, name, make, valid, kinds, read=None, same=None, label=None):
        self.name, self.make, self.valid, self.kinds, self.same = name, make, valid, kinds, same
        self.label = label or name
        self.read = read or (lambda o: getattr(o, name))


def eqv(c, a, b):
    if b is None or isinstance(b, (bool, str, list)):
        return a is b or (a == b and type(a) is type(b))
    return And(c.isnum(a), c.eq(a, b, 0)) if c.isnum(a) else False


def cost_ok(k, v):
    return tob(v >= 1) if k == 'int' else FALSE


ATTRS = [
    Attr('cost', lambda c: (lambda v: (iface(v), v))(c.int('first', 1)), cost_ok, NUM + BAD, label='interface cost'),
    Attr('capacity', lambda c: (lambda v: (iface(3, v), v))(c.real('first', Fraction(1, 1000))), lambda k, v: tob(v > 0) if k in NUM else FALSE, NUM + BAD,
         label='interface capacity'),
    Attr('manual_metric', lambda c: (lambda v: (NS.RSVP_LSP(node('A'), node('B'), 'l', None, v), v))(c.int('first', 1)),
         lambda k, v: Or(tob(v > 0), tob(v == -1)) if k == 'int' else tob(v == -1) if k == 'real' else FALSE, NUM + BAD,
         same=lambda c, r, v: tob(v == -1) if (r == 'not set' if isinstance(r, str) else False) else eqv(c, r, v), label='LSP metric'),
    Attr('setup_bandwidth', lambda c: (lambda v: (lambda o: (setattr(o, 'setup_bandwidth', v), (o, v))[1])(NS.RSVP_LSP(node('A'), node('B'), 'l')))(c.real('first', 0)),
         lambda k, v: tob(v >= 0) if k in NUM else FALSE, NUM + BAD, label='LSP setup bandwidth'),
    Attr('reserved_bandwidth', lambda c: (lambda v: (lambda o: (setattr(o, 'reserved_bandwidth', v), (o, v))[1])(iface()))(c.dec('first', 0)),
         lambda k, v: TRUE if k in NUM else FALSE, NUM + BAD, same=lambda c, r, v: And(c.isnum(r), c.le(r - v, 0, Fraction(51, 1000)), c.le(v - r, 0, Fraction(51, 1000))), label='reservation'),
    Attr('lat', lambda c: (lambda v: (NS.Node('A', v, 0), v))(c.real('first')), lambda k, v: TRUE if k in NUM else FALSE, NUM + BAD, label='latitude'),
    Attr('lon', lambda c: (lambda v: (NS.Node('A', 0, v), v))(c.real('first')), lambda k, v: TRUE if k in NUM else FALSE, NUM + BAD, label='longitude'),
    Attr('failed', lambda c: (lambda v, o: (setattr(o, 'failed', v), (o, v))[1])(c.bool('first'), iface()), lambda k, v: TRUE if k in ('true', 'false') else FALSE,
         NUM + BAD + ('true', 'false'), label='interface state'),
    Attr('failed', lambda c: (lambda v, o: (setattr(o, 'failed', v), (o, v))[1])(c.bool('first'), node('A')), lambda k, v: TRUE if k in ('true', 'false') else FALSE,
         NUM + BAD + ('true', 'false'), label='node state'),
    Attr('failed', lambda c: (lambda v, o: (setattr(o, 'failed', v), (o, v))[1])(c.bool('first'), NS.SRLG('g', NS.PerformanceModel(set(), set(), set(), set()))),
         lambda k, v: TRUE if k in ('true', 'false') else FALSE, NUM + BAD + ('true', 'false'), label='group state'),
    Attr('igp_shortcuts_enabled', lambda c: (lambda v, o: (setattr(o, 'igp_shortcuts_enabled', v), (o, v))[1])(c.bool('first'), node('A')),
         lambda k, v: TRUE if k in ('true', 'false') else FALSE, NUM + BAD + ('true', 'false'), label='shortcut state'),
]


def show(c, name, v):
    if not isinstance(v, bool) and c.isnum(v):
        c.observe(name, v)


def assign(at, times):
    def h(c):
        o, prev = at.make(c)
        same = at.same or eqv
        c.check(same(c, at.read(o), prev), '%s: a valid value reads back' % at.label, repr_((at.read(o), prev)))
        prev = at.read(o)
        for t in range(times):
            kind = c.pick(at.kinds, 'kind_%d' % t)
            v = value(c, kind, str(t))
            ok = True
            try:
                setattr(o, at.name, v)
            except Exception:
                ok = False
            got = at.read(o)
            f = at.valid(kind, v)
            if ok:
                c.reach('accepted' if not t else 'second')
                c.check(f, '%s: an invalid value is refused' % at.label, repr_((v, got)))
                c.check(same(c, got, v), '%s: a valid value reads back' % at.label, repr_((v, got)))
            else:
                c.reach('refused')
                c.check(Not(f), '%s: a valid value is accepted' % at.label, repr_((v, prev)))
                c.check(eqv(c, got, prev), '%s: a refused value changes nothing' % at.label, repr_((v, prev, got)))
            prev = got
            show(c, 'value', got)
    return h


def construct(c):
    """Constructors."""
    which = c.pick(['cost', 'capacity', 'traffic', 'lat', 'lon'], 'which')
    kind = c.pick(NUM + BAD, 'kind')
    v = value(c, kind, '')
    num = TRUE if kind in NUM else FALSE
    f = {'cost': cost_ok(kind, v), 'capacity': tob(v > 0) if kind in NUM else FALSE, 'traffic': tob(v >= 0) if kind in NUM else FALSE,
         'lat': num, 'lon': num}[which]
    make = {'cost': lambda: iface(v).cost, 'capacity': lambda: iface(3, v).capacity, 'traffic': lambda: NS.Demand(node('A'), node('B'), v, 'd').traffic,
            'lat': lambda: NS.Node('A', v, 0).lat, 'lon': lambda: NS.Node('A', 0, v).lon}[which]
    try:
        r = make()
    except Exception as e:
        c.reach('not constructed')
        c.check(Not(f), '%s: an object with a valid value can be made' % which, repr_((v, e)))
        return
    c.reach('constructed')
    c.check(f, '%s: no object is made with an invalid value' % which, repr_(v))
    c.check(eqv(c, r, v), '%s: the object made has the value given' % which, repr_((v, r)))
    show(c, 'value', r)


def through_model(cls):
    """The add methods."""
    def h(c):
        n = net(c, cls, ['AB'], cost=1, cap=10, extra_nodes=['C'])
        add_demand(n, 'A', 'B', 1)
        m = finish(n)
        if not attempt(c, 'validation does not raise', m.validate_model)[0]:
            return
        which = c.pick(['demand', 'circuit', 'list'], 'which')
        kind = c.pick(NUM, 'kind')
        v = value(c, kind, '')
        before = len(m.demand_objects), len(m.interface_objects), len(m.node_objects)
        if which == 'demand':
            f = tob(v >= 0)
            ok, e = raises(m.add_demand, 'A', 'B', v, 'new')
        elif which == 'circuit':
            w = c.int('other')
            cap = c.real('cap')
            f = And(cost_ok(kind, v), tob(w >= 1), tob(cap > 0))
            ok, e = raises(m.add_circuit, n.nodes['A'], n.nodes['C'], 'x', 'y', v, w, cap, False, 'new')
        else:
            cap = c.real('cap')
            f = And(cost_ok(kind, v), tob(cap > 0))
            rows = [{'name': 'x', 'cost': v, 'capacity': cap, 'node': 'A', 'remote_node': 'C', 'circuit_id': 'new'},
                    {'name': 'x', 'cost': 7, 'capacity': cap, 'node': 'C', 'remote_node': 'A', 'circuit_id': 'new'}]
            ok, e = raises(m.add_network_interfaces_from_list, rows)
        after = len(m.demand_objects), len(m.interface_objects), len(m.node_objects)
        if ok:
            c.reach('refused')
            c.check(Not(f), 'adding a valid %s is accepted' % which, repr_((v, e)))
            c.check(before == after, 'a refused %s leaves the model unchanged' % which, repr_((before, after)))
            return
        c.reach('accepted')
        c.check(f, 'adding an invalid %s is refused' % which, repr_(v))
        d = {'demand': (1, 0, 0)}.get(which, (0, 2, 0))
        c.check(after == tuple(x + y for x, y in zip(before, d)), 'adding a %s adds it' % which, repr_((before, after)))
        if which != 'demand':
            new = [i for i in m.interface_objects if not member(i, n.ifs) and i.node_object is n.nodes['A']]
            c.check(len(new) == 1 and And(c.eq(new[0].cost, v, 0), c.eq(new[0].capacity, cap, 0)), 'an added circuit has the numbers given')
            c.observe('cost', new[0].cost)
    return h


WHERE = {'interface cost': 'if', 'interface capacity': 'if', 'LSP metric': 'lsp', 'LSP setup bandwidth': 'lsp', 'reservation': 'if', 'latitude': 'node', 'longitude': 'node',
         'shortcut state': 'node'}
DOWN = ['nothing', 'circuit', 'node', 'group', 'rsvp', 'orphan']


def in_model(cls, attrs):
    """The same for objects that are part of a model, whatever state they are in; the other attributes stay as they are."""
    def h(c):
        n = net(c, cls, ['AB', 'BC'], cost=3, cap=10)
        add_demand(n, 'A', 'C', 5, 'd')
        add_lsp(n, 'A', 'C', 'l', metric=9)
        m = finish(n)
        if not attempt(c, 'validation does not raise', m.validate_model)[0]:
            return
        down = c.pick(DOWN, 'down')
        if down == 'circuit':
            m.fail_interface(n.ifs[0].name, 'A')
        elif down == 'node':
            m.fail_node('A')
        elif down == 'group':
            m.add_srlg('g')
            n.ifs[0].add_to_srlg('g', m)
            n.nodes['A'].add_to_srlg('g', m)
            m.fail_srlg('g')
        elif down == 'rsvp':
            n.ifs[0].rsvp_enabled = False
        elif down == 'orphan':
            n.nodes['A'] = NS.Node('Z')
            m.add_node(n.nodes['A'])
        if c.choose(2, 'simulated') and not simulate(c, n):
            return
        at = c.pick(attrs, 'attribute')
        where = WHERE[at.label]
        o = n.ifs[0] if where == 'if' else n.nodes['A'] if where == 'node' else n.lsps[0]

        def others():
            if where == 'if':
                d = {'cost': o.cost, 'capacity': o.capacity, 'failed': o.failed, 'rsvp': o.rsvp_enabled, 'share': o.percent_reservable_bandwidth, 'name': o.name, 'id': o.circuit_id,
                     'reserved_bandwidth': o.reserved_bandwidth, 'traffic': o.traffic}
            elif where == 'node':
                d = {'lat': o.lat, 'lon': o.lon, 'failed': o.failed, 'igp_shortcuts_enabled': o.igp_shortcuts_enabled, 'name': o.name}
            else:
                d = {'manual_metric': o.manual_metric, 'bw': o.configured_setup_bandwidth, 'reserved': o.reserved_bandwidth, 'name': o.lsp_name}
            d.pop(at.name, None)
            return d
        was, prev = others(), at.read(o)
        kind = c.pick(at.kinds, 'kind')
        v = value(c, kind, '')
        same = at.same or eqv
        ok, e = raises(setattr, o, at.name, v)
        got = at.read(o)
        f = at.valid(kind, v)
        if not ok:
            c.reach('accepted')
            c.check(f, '%s: an invalid value is refused in a model' % at.label, repr_((v, got)))
            c.check(same(c, got, v), '%s: a valid value reads back in a model' % at.label, repr_((v, got)))
        else:
            c.reach('refused')
            c.check(Not(f), '%s: a valid value is accepted in a model' % at.label, repr_((v, prev, e)))
            c.check(eqv(c, got, prev), '%s: a refused value changes nothing in a model' % at.label, repr_((v, prev, got)))
        now = others()
        c.check(And(*[tob(was[k] == now[k]) for k in was]), '%s: assigning it leaves the other attributes alone' % at.label, repr_((was, now)))
        show(c, 'value', got)
    return h


def raises(fn, *a):
    try:
        return False, fn(*a)
    except Exception as e:
        return True, e


def cases(tier):
    times = 2 if tier == 'quick' else 3
    out = [(at.label, assign(at, times)) for at in ATTRS]
    out.append(('constructors', construct))
    for m, cls in MODELS:
        out.append((m + ' add methods', through_model(cls)))
        out.append((m + ' objects of a model', in_model(cls, [at for at in ATTRS if at.label in WHERE and (cls is FLEX or at.label != 'shortcut state')])))
    return out
