"""Shared builders and oracles.  Harness functions take a context `c` (symbolic, or concrete when replaying)."""
import itertools
import os
from fractions import Fraction

from symx import load
from symx.core import And, Or, Not, Implies, tob, SymNum, TRUE, FALSE  # noqa: F401  (work on plain values too)

CONCRETE = bool(os.environ.get('SYMX_CONCRETE'))
NS = load.load(symbolic=not CONCRETE)
PERF, FLEX = NS.PerformanceModel, NS.FlexModel
ModelException = NS.ModelException
MODELS = (('perf', PERF), ('flex', FLEX))

# shapes: list of circuits (node pairs); parallel circuits repeat a pair
SHAPES = {
    'edge': ['AB'],
    'line3': ['AB', 'BC'],
    'line4': ['AB', 'BC', 'CD'],
    'tri': ['AB', 'BC', 'AC'],
    'square': ['AB', 'BD', 'AC', 'CD'],
    'diamond': ['AB', 'BD', 'AC', 'CD', 'BC'],
    'diamondx': ['AB', 'BD', 'AC', 'CD', 'AD'],
    'k4': ['AB', 'AC', 'AD', 'BC', 'BD', 'CD'],
    'three': ['AB', 'BE', 'AC', 'CE', 'AD', 'DE'],          # three disjoint two-hop routes A-E
    'bow': ['AB', 'AC', 'BD', 'CD', 'DE', 'DF', 'EG', 'FG'],  # two diamonds in series A-D-G
    'fan': ['AB', 'AC', 'BD', 'BE', 'CE', 'DF', 'EF'],       # unequal splits
    'par2': ['AB', 'AB'],
    'par3': ['AB', 'AB', 'AB'],
    'par2line': ['AB', 'AB', 'BC'],
    'par22': ['AB', 'AB', 'BC', 'BC'],
    'partri': ['AB', 'AB', 'BC', 'AC'],
    'partri2': ['AB', 'AB', 'BC', 'BC', 'AC'],
    'parsq': ['AB', 'AB', 'BD', 'AC', 'CD'],
    'two': ['AB', 'CD'],
    'line5': ['AB', 'BC', 'CD', 'DE'],
    'line6': ['AB', 'BC', 'CD', 'DE', 'EF'],
    'ladder': ['AB', 'BC', 'CD', 'DE', 'EF', 'AG', 'GH', 'HI', 'IJ', 'JF'],      # two five-hop routes A-F
    'big': ['AB', 'BC', 'CD', 'DE', 'EF', 'FG', 'GH', 'GI', 'GJ', 'GK', 'HL', 'IL', 'JL', 'KL'],     # long line, then four ways
    'bigpar': ['AB', 'AB', 'AB', 'AB', 'BC', 'CD', 'DE', 'EF', 'FG', 'FG', 'GH'],
}
SHAPES['chain'] = [x + y for k in range(5) for a, b, c_, d in ['ABCDEFGHIJKLMNOP'[3 * k:3 * k + 4]]
                   for x, y in ((a, b), (b, d), (a, c_), (c_, d))]          # five diamonds in series: 32 paths A-P
SHAPES['fanout'] = [x for k in 'BCDEFGHIJKLMNOPQRS' for x in ('A' + k, k + 'Z')]    # eighteen two-hop routes A-Z
SHAPES['star6'] = ['AB', 'AC', 'AD', 'AE', 'AF', 'AG']
SHAPES['par20'] = ['AB'] * 20
SHAPES['par2x5'] = ['AB', 'AB', 'BC', 'BC', 'CD', 'CD', 'DE', 'DE', 'EF', 'EF']     # doubled links in series: 32 paths

SHAPES['chain7'] = [x + y for k in range(7) for a, b, c_, d in ['ABCDEFGHIJKLMNOPQRSTUV'[3 * k:3 * k + 4]]
                    for x, y in ((a, b), (b, d), (a, c_), (c_, d))]         # seven diamonds in series: 128 paths A-V
SHAPES['par664'] = ['AB'] * 6 + ['BC'] * 6 + ['CD'] * 4                     # bundles in series: 144 paths A-D
SHAPES['line20'] = [a + b for a, b in zip('ABCDEFGHIJKLMNOPQRS', 'BCDEFGHIJKLMNOPQRST')]


class Free(object):
    """Costs: a free integer >= 1 on the listed circuits, a fixed cost on the others."""

    def __init__(self, free=(), base=1):
        self.free, self.base = free, base


def shape(name):
    return SHAPES[name] if isinstance(name, str) else name


class Net(object):
    """A model under construction with handles on everything in it."""

    def __init__(self):
        self.nodes = {}
        self.ckts = []             # (iface a->b, iface b->a)
        self.ifs = []
        self.demands = []
        self.lsps = []
        self.model = None

    def iface(self, i, d=0):
        return self.ckts[i][d]


def order(c, objs, name):
    """Every iteration order of a set of objects hashed by identity."""
    objs = list(objs)
    pool = list(range(1, len(objs) + 1))
    for i, o in enumerate(objs):
        k = c.choose(len(pool), '%s_order_%d' % (name, i))
        o.__dict__['_symx_h'] = pool.pop(k)


def net(c, cls, links, cost=None, cap=None, pct=None, rsvp=None, failed=None, names=None, symcost=False, present=None, extra_nodes=()):
    """Interfaces with symbolic cost/capacity/percentage; rsvp / failed: None, 'sym', 'sym:i,j' (free on these circuits) or a set of circuit indexes."""
    n = Net()
    names = names or {}
    links = shape(links)

    def node(x):
        if x not in n.nodes:
            n.nodes[x] = NS.Node(names.get(x, x))
        return n.nodes[x]

    n.links = []
    for i, ab in enumerate(links):
        if present == 'sym' and not c.bool('present_%d' % i):
            continue
        n.links.append(ab)
        a, b = ab[0], ab[1]
        tag = '%s%s%d' % (a, b, i)
        if cost is None:
            ca = c.int('cost_%s_f' % tag, 1)
            cb = ca if symcost else c.int('cost_%s_r' % tag, 1)
        elif isinstance(cost, Free):
            ca = cb = c.int('cost_%s' % tag, 1) if i in cost.free else cost.base
        elif callable(cost):
            ca, cb = cost(i, ab, 0), cost(i, ab, 1)
        else:
            ca = cb = cost
        cp = 1000 if cap is None else cap(i, ab) if callable(cap) else cap
        pc = 100 if pct is None else pct(i, ab) if callable(pct) else pct
        rs = True
        if rsvp == 'sym':
            rs = c.bool('rsvp_%s' % tag)
        elif rsvp == 'sym2':
            rs = (c.bool('rsvp_%s_f' % tag), c.bool('rsvp_%s_r' % tag))
        elif rsvp is not None:
            rs = rsvp(i)
        ra, rb = rs if isinstance(rs, tuple) else (rs, rs)
        ia = NS.Interface('i%da' % i, ca, cp, node(a), node(b), 'c%d' % i, ra, pc)
        ib = NS.Interface('i%db' % i, cb, cp, node(b), node(a), 'c%d' % i, rb, pc)
        n.ckts.append((ia, ib))
        n.ifs += [ia, ib]
        fl = False
        if failed == 'sym' or isinstance(failed, str) and failed.startswith('sym:') and str(i) in failed[4:].split(','):
            fl = c.bool('failed_%s' % tag)
        elif failed is not None and not isinstance(failed, str):
            fl = i in failed
        if fl:
            ia.failed = True
            ib.failed = True
    for x in extra_nodes:
        node(x)
    for ab in links:
        node(ab[0]), node(ab[1])
    n.cls = cls
    return n


def add_demand(n, a, b, traffic, name='d'):
    d = NS.Demand(n.nodes[a], n.nodes[b], traffic, name)
    n.demands.append(d)
    return d


def add_lsp(n, a, b, name, bw=None, metric=None):
    x = NS.RSVP_LSP(n.nodes[a], n.nodes[b], name, bw, metric)
    n.lsps.append(x)
    return x


def finish(n):
    n.model = n.cls(set(n.ifs), set(n.nodes.values()), set(n.demands), set(n.lsps))
    return n.model


def attempt(c, label, fn, *a, **k):
    """Call fn; an exception that is not the engine's is a failure with this label.  Returns (ok, value)."""
    try:
        return True, fn(*a, **k)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        c.fail(label, 'raised %s: %s at %s' % (type(e).__name__, str(e)[:400], ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]))
        return False, None


def raises(fn, *a, **k):
    """(raised, exception)"""
    try:
        fn(*a, **k)
    except Exception as e:
        return True, e
    return False, None


def simulate(c, n):
    return attempt(c, 'simulation does not raise', n.model.update_simulation)[0]


# ------------------------------------------------------------------------------------------------ oracles
def up(n):
    return [i for i in n.ifs if not i.failed]


def simple_paths(ifs, src, dst, cutoff=None):
    """All node-simple interface paths between Node objects, from interface attributes."""
    out = []
    adj = {}
    for i in ifs:
        adj.setdefault(id(i.node_object), []).append(i)

    def rec(node, seen, path):
        if node is dst:
            out.append(list(path))
            return
        if cutoff is not None and len(path) >= cutoff:
            return
        for i in adj.get(id(node), []):
            r = i.remote_node_object
            if id(r) not in seen:
                path.append(i)
                rec(r, seen | {id(r)}, path)
                path.pop()
    rec(src, {id(src)}, [])
    return out


def pcost(path):
    t = 0
    for i in path:
        t = t + i.cost
    return t


def same_path(p, q):
    return len(p) == len(q) and all(x is y for x, y in zip(p, q))


def find_path(p, paths):
    for k, q in enumerate(paths):
        if same_path(p, q):
            return k
    return None


def is_list_of_paths(x):
    return isinstance(x, list) and all(isinstance(p, (list, tuple)) for p in x)


def check_best_set(c, got, allp, label, cost=None):
    """got is exactly the set of minimum-cost members of allp (lists of interfaces, compared by identity)."""
    cost = cost or pcost
    if not is_list_of_paths(got):
        c.fail(label + ': is a list of paths', repr_(got))
        return False
    idx = []
    for p in got:
        k = find_path(p, allp)
        if k is None:
            c.fail(label + ': is a valid path', repr_(p))
            return False
        idx.append(k)
    if len(set(idx)) != len(idx):
        c.fail(label + ': listed once', repr_(got))
        return False
    if not idx:
        c.fail(label + ': some path', repr_(got))
        return False
    costs = [cost(p) for p in allp]
    best = costs[idx[0]]
    conds = []
    for k in range(len(allp)):
        if k in idx:
            if k != idx[0]:
                conds.append(costs[k] == best)
        else:
            conds.append(costs[k] > best)
    c.check(And(*[tob(x) for x in conds]), label + ': exactly the least-cost paths', repr_([names(p) for p in got]))
    return True


def names(p):
    try:
        return [getattr(x, 'name', None) or getattr(x, 'lsp_name', None) or str(x) for x in p]
    except Exception:
        return repr(p)


def repr_(x):
    try:
        return repr(x)[:600]
    except Exception as e:
        return 'unprintable %r' % e


def member(o, coll):
    return any(o is x for x in coll)


def same_objs(got, want):
    """Two collections hold the same objects (identity), each once."""
    got, want = list(got), list(want)
    return len(got) == len(want) and all(member(x, want) for x in got) and all(member(x, got) for x in want)


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def hop_split(paths, total, src_of):
    """Even per-hop split.  paths: list of item lists (a DAG); returns dict id(item)->(item, traffic) and per-path traffic."""
    nxt = {}
    for p in paths:
        for it in p:
            l = nxt.setdefault(id(src_of(it)), [])
            if not member(it, l):
                l.append(it)
    per = []
    for p in paths:
        f = Fraction(1)
        for it in p:
            f = f / len(nxt[id(src_of(it))])
        per.append(f)
    load_ = {}
    for p, f in zip(paths, per):
        for it in p:
            o = load_.get(id(it))
            load_[id(it)] = (it, f + (o[1] if o else 0))
    return load_, per


def prefix_split(paths):
    """Per-path fraction: at each hop an even split over the next items of the paths that got there the same way."""
    per = []
    for p in paths:
        f = Fraction(1)
        for k in range(len(p)):
            nxt = []
            for q in paths:
                if len(q) > k and same_path(q[:k], p[:k]) and not member(q[k], nxt):
                    nxt.append(q[k])
            f = f / len(nxt)
        per.append(f)
    load_ = {}
    for p, f in zip(paths, per):
        for it in p:
            o = load_.get(id(it))
            load_[id(it)] = (it, f + (o[1] if o else 0))
    return load_, per


# ------------------------------------------------------------------------------------------------ traffic
def src_of(item):
    return getattr(item, 'source_node_object', None) or item.node_object


def is_lsp(x):
    return type(x) is NS.RSVP_LSP


def routed(d):
    return not isinstance(d.path, str)


def lsp_up(x):
    return isinstance(x.path, dict)


def item_traffic(d):
    """Oracle: traffic the demand puts on each item (interface or LSP) of its paths, by even per-hop division."""
    if any(is_lsp(it) for p in d.path for it in p):
        load_, per = prefix_split(d.path)        # with shortcuts the paths through a node may differ in their continuations
    else:
        load_, per = hop_split(d.path, 1, src_of)
    return [(it, f * d.traffic) for it, f in load_.values()], [f * d.traffic for f in per]


def demand_load(d):
    """Oracle: id(interface) -> traffic the demand puts on it, LSPs expanded."""
    out = {}
    if not routed(d):
        return out
    for it, t in item_traffic(d)[0]:
        for i in (it.path['interfaces'] if is_lsp(it) else [it]):
            out[id(i)] = out.get(id(i), 0) + t
    return out


def total_load(n):
    out = {}
    for d in n.demands:
        for k, t in demand_load(d).items():
            out[k] = out.get(k, 0) + t
    return out


def detail_items(info):
    return info['items'] if 'items' in info else info['interfaces']


def check_detail(c, d, tol, label=''):
    """path_detail lists exactly demand.path, with per-path traffic by even division."""
    det = d.path_detail
    if not routed(d):
        c.check(not isinstance(det, dict), label + 'no path detail when unrouted', repr_(det))
        return
    if not isinstance(det, dict) or len(det) != len(d.path):
        c.fail(label + 'one path detail entry per path', repr_(det))
        return
    _, per = item_traffic(d)
    seen = []
    total = 0
    for k in det:
        info = det[k]
        j = find_path(detail_items(info), d.path)
        if j is None or j in seen:
            c.fail(label + 'path detail lists the demand\'s paths', repr_(det))
            return
        seen.append(j)
        total = total + info['path_traffic']
        c.check(c.eq(info['path_traffic'], per[j], tol), label + 'per-path traffic follows the even split')
    c.check(c.eq(total, d.traffic, tol * len(det)), label + 'per-path traffic adds up to the demand')


def check_splits(c, d, label=''):
    """The documented split counts: at each item the product of the next-hop counts so far."""
    for info in d.path_detail.values():
        if 'splits' not in info:
            continue
        items = detail_items(info)
        f = 1
        nxt = {}
        for p in d.path:
            for it in p:
                l = nxt.setdefault(id(src_of(it)), [])
                if not member(it, l):
                    l.append(it)
        if set(id(x) for x in info['splits']) != set(id(x) for x in items):
            c.fail(label + 'split counts cover the path', repr_(info))
            continue
        for it in items:
            f = f * len(nxt[id(src_of(it))])
            c.check(info['splits'][it] == f, label + 'documented split counts')


def traffic_of(i):
    return i.traffic


# ------------------------------------------------------------------------------------------------ RSVP
def share_of(i):
    """Reservable share of an interface (from its configuration)."""
    return i.capacity * i.percent_reservable_bandwidth / 100


def rsvp_up(n):
    return [i for i in n.ifs if not i.failed and i.rsvp_enabled is True]


def lsp_sum(n, i):
    t = 0
    for x in n.lsps:
        if lsp_up(x) and member(i, x.path['interfaces']):
            t = t + x.reserved_bandwidth
    return t


def same_ports(n):
    """The same interface names on every node."""
    at = {}
    for i in n.ifs:
        i.name = 'xe%d' % at.setdefault(i.node_object.name, 0)
        at[i.node_object.name] += 1


def fits(path, bw, left):
    """Formula: every interface of the path has at least bw left.  left: interface -> number"""
    return And(*[tob(left(i) >= bw) for i in path])


def best_feasible(path, allp, bw, left, hops=True):
    """Formula: path fits and no other fitting path of allp is cheaper, nor as cheap with fewer hops."""
    cs = [fits(path, bw, left)]
    pc = pcost(path)
    for q in allp:
        if same_path(q, path):
            continue
        qc = pcost(q)
        worse = tob(qc > pc)
        if not hops or len(q) >= len(path):
            worse = Or(worse, tob(qc == pc))
        cs.append(Or(Not(fits(q, bw, left)), worse))
    return And(*cs)


def check_chain(c, x, label='LSP path'):
    """A routed LSP's path is a loop-free chain of usable interfaces with the right cost.  False if malformed."""
    p = x.path['interfaces']
    ok = len(p) > 0 and p[0].node_object is x.source_node_object and p[-1].remote_node_object is x.dest_node_object
    seen = [x.source_node_object]
    for k, i in enumerate(p):
        ok = ok and i.failed is False and i.rsvp_enabled is True and (k == 0 or p[k - 1].remote_node_object is i.node_object)
        ok = ok and not member(i.remote_node_object, seen)
        seen.append(i.remote_node_object)
    c.check(ok, label + ' is a chain of usable interfaces from source to destination', repr_(names(p)))
    c.check(x.path['path_cost'] == pcost(p), label + ' cost is the sum of its interfaces')
    return ok


def group_of(n, x):
    return [y for y in n.lsps if y.source_node_object is x.source_node_object and y.dest_node_object is x.dest_node_object]


def group_traffic(n, x):
    t = 0
    for d in n.demands:
        if d.source_node_object is x.source_node_object and d.dest_node_object is x.dest_node_object:
            t = t + d.traffic
    return t


def perms(seq):
    return [list(p) for p in itertools.permutations(seq)]
