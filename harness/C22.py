"""C22: the weather map shows the model as it is."""
import re

from .common import *  # noqa

WM = load.load_weathermap()
JSON = load.json_of(not CONCRETE)

FUNCTIONS = ['WeatherMap.make_json_edge', 'create_elements', 'utilization_display_info', 'get_sources', 'get_destinations', 'demand_sources_and_destinations',
             'lsp_sources_and_destinations', 'make_node_list', 'find_demand_interfaces_and_lsps', 'get_lsp_interface_data', 'format_objects_for_display',
             'format_interfaces_for_display', 'make_app_layout', 'create_weathermap and its callbacks', 'Interface.utilization']
BOUNDS = ('utilization: every real in 0..1000 for the color of one edge; models of up to four nodes and five circuits, any traffic, costs and failures as '
          'the case says, up to four demands and three LSPs; every object selected in turn; node names with and without dashes.  dash and '
          'dash_cytoscape are replaced by a stand-in that records the layout and the callbacks'
          '; a star of seven nodes with ten demands and eight LSPs; failed nodes; the same demand, LSP and interface names on different nodes')
REACH = ['band', 'overload', 'fractional', 'failed interface', 'failed node', 'demand highlighted', 'LSP highlighted', 'unrouted demand', 'unrouted LSP',
         'riding', 'dropdown', 'null choice', 'entry chosen', 'cleared', 'dash in a name', 'edge selected']
OBS_TOL = 0.011

FAILED = 'Int is down'


def band(w, u):
    """(label, formula) per utilization range of the map."""
    out = []
    for r in w.util_ranges:
        if r == 'failed':
            continue
        if r.endswith('+'):
            out.append((r, tob(u >= int(r[:-1]))))
        else:
            lo, hi = r.split('-')
            out.append((r, And(tob(u >= int(lo)), tob(u < int(hi) + 1))))
    return out


def check_color(c, w, u, color, what):
    if isinstance(u, str):
        c.check(color == w.util_ranges['failed'], 'a failed interface has the failed color', repr_((what, u, color)))
        c.reach('failed interface')
        return
    bands = band(w, u)
    hits = [f for r, f in bands if w.util_ranges[r] == color]
    c.check(Or(*hits) if hits else FALSE, 'the color of an interface is that of the range containing its utilization', repr_((what, color)))
    c.reach('band')


def edge_color(c):
    """Every utilization gets the color of its range; each is in exactly one range."""
    w = WM.WeatherMap(NS.FlexModel())
    u = c.real('utilization', 0, 1000)
    ok, e = attempt(c, 'an edge can be made', w.make_json_edge, 'A', 'midpoint-A-B', 'ab', 100, 'c', u, w.util_ranges, 5)
    if not ok:
        return
    b = [f for r, f in band(w, u)]
    c.check(Or(*b), 'every utilization is in a range')
    for k in range(len(b)):
        for j in range(k):
            c.check(Not(And(b[k], b[j])), 'ranges do not overlap')
    check_color(c, w, u, e['data']['group'], 'edge')
    c.check(c.eq(e['data']['utilization'], u, 0), 'an edge shows the utilization it was given')
    for r, f in band(w, u):
        if w.util_ranges[r] == e['data']['group'] and r.endswith('+'):
            c.reach('overload')
    if tob(u > 24):
        if tob(u < 25):
            c.reach('fractional')
    info = w.utilization_display_info()
    c.check([(x['label'], x['value']) for x in info] == list(w.util_ranges.items()), 'the legend lists the ranges and colors')
    c.check(len({x['value'] for x in info}) == len(info), 'the colors of the ranges differ')
    c.observe('color', e['data']['group'])


def failed_edge(c):
    w = WM.WeatherMap(NS.FlexModel())
    e = w.make_json_edge('A', 'midpoint-A-B', 'ab', 100, 'c', FAILED, w.util_ranges, 5)
    check_color(c, w, FAILED, e['data']['group'], 'edge')


def elements(c, n, w):
    ok, els = attempt(c, 'the elements can be made', w.create_elements)
    if not ok:
        return
    data = [x['data'] for x in els]
    edges = [d for d in data if 'source' in d]
    spots = [x for x in els if 'source' not in x['data']]
    sf = w.spacing_factor
    for i in n.ifs:
        mine = [d for d in edges if d['source'] == i.node_object.name and d['interface-name'] == i.name]
        c.check(len(mine) == 1, 'one edge per interface', repr_((i.name, len(mine))))
        if len(mine) != 1:
            continue
        d = mine[0]
        c.check(d['capacity'] == i.capacity, 'an edge shows the capacity of the interface', repr_(d))
        c.check(str(d['circuit_id']) == str(i.circuit_id), 'an edge shows its circuit id', repr_(d))
        c.check(tob(d['cost'] == i.cost), 'an edge shows the cost of the interface', repr_(d))
        if i.failed:
            c.check(d['utilization'] == FAILED, 'the edge of a failed interface shows it is down', repr_(d))
        else:
            u = i.traffic / i.capacity * 100
            c.check(not isinstance(d['utilization'], str) and c.eq(d['utilization'], u, Fraction(1, 100)), 'an edge shows the utilization of the interface', repr_(d))
        check_color(c, w, d['utilization'], d['group'], i.name)
        mid = [x for x in spots if x['data']['id'] == d['target'] and x['data']['group'] == 'midpoint']
        a, b = i.node_object, i.remote_node_object
        c.check(len(mid) > 0 and all(sorted(x['data'].get('neighbors', ())) == sorted([a.name, b.name]) for x in mid), 'an edge leads to the midpoint of its circuit', repr_((d, mid)))
        for x in mid:
            c.check(x['data'].get('failed', 'False') == 'False', 'a midpoint is not shown as failed', repr_(x))
            c.check(And(c.eq(x['position']['x'], (a.lon + b.lon) * sf / 2), c.eq(x['position']['y'], -(a.lat + b.lat) * sf / 2)),
                    'a midpoint is between its nodes', repr_(x))
    c.check(len(edges) == len(n.ifs), 'one edge per interface', repr_(len(edges)))
    for x in n.nodes.values():
        mine = [s for s in spots if s['data']['id'] == x.name and s['data']['group'] != 'midpoint']
        linked = any(i.node_object is x for i in n.ifs)
        if linked:
            c.check(len(mine) > 0, 'a linked node is on the map', x.name)
        for s in mine:
            c.check(s['data']['label'] == x.name and s['data']['failed'] == str(x.failed), 'a node shows its name and whether it failed', repr_(s))
            c.check(And(c.eq(s['position']['x'], x.lon * sf), c.eq(s['position']['y'], -x.lat * sf)), 'a node is where its coordinates say', repr_(s))
            if x.failed:
                c.reach('failed node')
    known = [x.name for x in n.nodes.values()]
    c.check(all(s['data']['group'] == 'midpoint' or s['data']['id'] in known for s in spots), 'the map has no other nodes')
    c.observe('elements', len(els))


def show(objs):
    """Identity of demands / LSPs / interfaces as the menus describe them."""
    out = []
    for o in objs:
        if is_lsp(o):
            out.append((o.source_node_object.name, o.dest_node_object.name, o.lsp_name))
        elif type(o) is NS.Demand:
            out.append((o.source_node_object.name, o.dest_node_object.name, o.name))
        else:
            out.append((o.node_object.name, o.remote_node_object.name, o.name))
    return sorted(out)


def menu(options):
    """The objects a menu offers."""
    out = []
    for o in options:
        v = o['value']
        if not v or not isinstance(v, str) or not v.startswith('{'):
            continue
        v = JSON.loads(v)
        if 'interface-name' in v:
            out.append((v['source'], v['dest'], v['interface-name']))
        else:
            out.append((v['source'], v['dest'], v['name']))
    return sorted(out)


def menu_value(o):
    k = show([o])[0]
    if is_lsp(o) or type(o) is NS.Demand:
        return JSON.dumps({'source': k[0], 'dest': k[1], 'name': k[2]})
    return JSON.dumps({'source': k[0], 'interface-name': k[2], 'dest': k[1], 'circuit_id': o.circuit_id, 'cost': o.cost})


def fire(c, w, what, out, trigger, value, **inputs):
    """(done, value) — done is False when the map chose not to update."""
    try:
        return True, w.app.fire(out, trigger, value, **inputs)
    except Exception as e:
        if type(e).__name__ == 'PreventUpdate':
            return False, None
        attempt(c, what + ' does not raise', lambda: w.app.fire(out, trigger, value, **inputs))
        return False, None


def demand_ifs(d):
    ifs, lsps = [], []
    if routed(d):
        for p in d.path:
            for it in p:
                if is_lsp(it):
                    if not member(it, lsps):
                        lsps.append(it)
                    for i in it.path['interfaces']:
                        if not member(i, ifs):
                            ifs.append(i)
                elif not member(it, ifs):
                    ifs.append(it)
    return ifs, lsps


def union(ls):
    out = []
    for l in ls:
        for x in l:
            if not member(x, out):
                out.append(x)
    return out


CONSUMER = {
    'demand-path-interfaces': 'interface', 'interfaces-on-node': 'interface', 'lsp-interface-callback': 'interface',
    'demand-path-lsps': 'lsp', 'find-lsps-callback': 'lsp', 'interface-lsp-callback': 'lsp',
    'interface-demand-callback': 'demand', 'find-demands-callback': 'demand', 'lsp-demand-callback': 'demand'}
CLEAR = {'interface': 'clear-int-button.n_clicks', 'lsp': 'clear-lsp-button.n_clicks', 'demand': 'clear-dmd-button.n_clicks'}


def cleared(sel):
    """A selection output that selects nothing."""
    if sel is None or sel == '':
        return True
    v = JSON.loads(sel)
    return isinstance(v, dict) and 'source' not in v


def choose(c, n, w, menu_id, options):
    """Choosing any entry a menu offers shows that object, or clears the selection, or changes nothing."""
    kind = CONSUMER[menu_id]
    out = 'selected-%s-output.children' % kind
    objects = 0
    if kind == 'interface':
        known = {show([i])[0]: i for i in n.ifs}
        for o in options:
            v = o['value']
            if menu([o]):
                v = JSON.loads(v)
                i = known.get((v['source'], v['dest'], v['interface-name']))
                c.check(i is not None and str(v['circuit_id']) == str(i.circuit_id) and tob(v['cost'] == i.cost), 'a menu shows an interface with its circuit and cost', repr_(o))
    for k, o in enumerate(options):
        v = o['value']
        ok, sel = fire(c, w, 'choosing an entry of ' + menu_id, out, menu_id + '.value', v)
        offered = menu([o])
        if offered and all(x == '' for x in offered[0]):
            offered = []
        if not offered:
            c.check(not ok or cleared(sel), 'choosing a placeholder of a menu clears the selection', repr_((menu_id, o, sel)))
            if v == '':
                c.check(ok, 'choosing the null entry of a menu clears the selection', repr_((menu_id, o)))
                c.reach('null choice')
            continue
        objects += 1
        if not ok or cleared(sel):
            c.fail('choosing an object of a menu shows it', repr_((menu_id, o, sel)))
            continue
        info = JSON.loads(sel)
        shown = (info['source'], info['dest'], info['interface-name' if kind == 'interface' else 'name'])
        c.check(shown == offered[0], 'choosing an object of a menu shows it', repr_((menu_id, o, sel)))
        if kind == 'interface':
            given = JSON.loads(v)
            c.check(str(info['circuit_id']) == str(given['circuit_id']) and tob(info['cost'] == given['cost']), 'choosing an object of a menu shows it', repr_((menu_id, o, sel)))
        c.reach('entry chosen')
    if objects:
        c.check(any(o['value'] == '' for o in options), 'a menu of objects offers to clear the selection', repr_((menu_id, options)))


def no_selection(c, n, w):
    """A cleared selection lists and highlights nothing."""
    for kind, trig in CLEAR.items():
        out = 'selected-%s-output.children' % kind
        tries = [(trig, 1), (trig, 2)]
        tries += [(m + '.value', v) for m, k in CONSUMER.items() if k == kind for v in ('', None)]
        tries += [(None, None)]
        for t, v in tries:
            ok, sel = fire(c, w, 'clearing the selected ' + kind, out, t, v)
            c.check(ok and cleared(sel), 'clearing a selection shows nothing selected', repr_((t, v, ok, sel)))
            if not ok:
                continue
            c.reach('cleared')
            for x in (sel, None, ''):
                kw = {'interface': 'iface'}.get(kind, kind)
                s = style(c, w, colors=('red',), **{kw: x})
                if s is not None:
                    c.check([e['selector'] for e in s] == ['edge[group="red"]'], 'a cleared selection highlights nothing', repr_((kind, x, s)))
                menus = {'interface': ['interface-lsp-callback', 'interface-demand-callback'], 'lsp': ['lsp-demand-callback', 'lsp-interface-callback'],
                         'demand': ['demand-path-interfaces', 'demand-path-lsps']}[kind]
                for m in menus:
                    ok, r = fire(c, w, 'a cleared selection', m + '.options', out, x)
                    if ok:
                        c.check(menu(r) == [], 'a cleared selection lists nothing', repr_((m, x, r)))
                        choose(c, n, w, m, r)
                    else:
                        c.fail('a cleared selection lists nothing', repr_((m, x)))
    ok, sel = fire(c, w, 'no edge chosen', 'selected-interface-output.children', 'cytoscape-prototypes.selectedEdgeData', [])
    c.check(not ok or cleared(sel), 'clearing a selection shows nothing selected', repr_(sel))
    ok, r = fire(c, w, 'no node chosen', 'interfaces-on-node.options', 'find-node.value', None)
    c.check(not ok or menu(r) == [], 'a cleared selection lists nothing', repr_(r))
    c.check([(x['label'], x['value']) for x in w.util_display_options] == list(w.util_ranges.items()), 'the menu of utilization ranges offers every range')


def ends(n, kind):
    return n.demands if kind == 'demand' else n.lsps


def offers(c, n, w):
    """Sources and destinations offered."""
    for kind, both in (('demand', w.demand_sources_and_destinations), ('lsp', w.lsp_sources_and_destinations)):
        objs = ends(n, kind)
        ok, r = attempt(c, 'sources and destinations can be listed', both)
        if ok:
            c.check(list(r[0]) == sorted({o.source_node_object.name for o in objs}), '%s sources offered are those of the model' % kind, repr_(r))
            c.check(list(r[1]) == sorted({o.dest_node_object.name for o in objs}), '%s destinations offered are those of the model' % kind, repr_(r))
        for x in n.nodes.values():
            ok, r = attempt(c, 'sources can be listed', w.get_sources, x.name, kind)
            if ok:
                c.check(sorted(r) == sorted({o.source_node_object.name for o in objs if o.dest_node_object is x}), '%s sources of a destination' % kind, repr_((x.name, r)))
            ok, r = attempt(c, 'destinations can be listed', w.get_destinations, x.name, kind)
            if ok:
                c.check(sorted(r) == sorted({o.dest_node_object.name for o in objs if o.source_node_object is x}), '%s destinations of a source' % kind, repr_((x.name, r)))
    ok, r = attempt(c, 'nodes can be listed', w.make_node_list)
    if ok:
        c.check([x['value'] for x in r] == sorted(x.name for x in n.nodes.values()) and all(x['label'] == x['value'] for x in r), 'nodes offered are those of the model', repr_(r))
    for d in n.demands:
        ok, r = attempt(c, 'the interfaces of a demand can be found', w.find_demand_interfaces_and_lsps, [d])
        if ok:
            ifs, lsps = demand_ifs(d)
            c.check(same_objs(r[0], ifs), 'interfaces found for a demand are those it transits', repr_((d.path, r[0])))
            c.check(same_objs(r[1], lsps), 'LSPs found for a demand are those it rides', repr_((d.path, r[1])))
    if n.demands:
        ok, r = attempt(c, 'the interfaces of demands can be found', w.find_demand_interfaces_and_lsps, n.demands)
        if ok:
            c.check(same_objs(r[0], union([demand_ifs(d)[0] for d in n.demands])), 'interfaces found for demands are those they transit', repr_(r[0]))
    for x in n.lsps:
        if lsp_up(x):
            k = show([x])[0]
            ok, r = attempt(c, 'the interfaces of an LSP can be found', w.get_lsp_interface_data, n.model, {'source': k[0], 'dest': k[1], 'name': k[2]})
            if ok:
                p = x.path['interfaces']
                c.check(same_objs(r[0], p), 'interfaces found for an LSP are those of its path', repr_(r))
                c.check(set(r[1]) == {i.node_object.name for i in p} | {i.remote_node_object.name for i in p}, 'nodes found for an LSP are those of its path', repr_(r))


SEL = re.compile(r'^edge\[circuit_id="(.*?)"\]\[source="(.*?)"\]$')
SEL2 = re.compile(r'^edge\[source="(.*?)"\]\[circuit_id="(.*?)"\]$')
NODE = re.compile(r'^node\[id="(.*?)"\]$')


def edge_of(sel):
    m = SEL.match(sel)
    if m:
        return (m.group(2), m.group(1))
    m = SEL2.match(sel)
    return (m.group(1), m.group(2)) if m else None


def keys_of(ifs):
    return sorted({(i.node_object.name, str(i.circuit_id)) for i in ifs})


def style(c, w, demand=None, lsp=None, iface=None, colors=('royalblue',)):
    ok, s = fire(c, w, 'styling', 'cytoscape-prototypes.stylesheet', None, None, utilization_dropdown_callback__value=list(colors),
                 selected_demand_output__children=demand, selected_interface_output__children=iface, selected_lsp_output__children=lsp)
    if not ok:
        c.fail('the style follows the selection')
        return None
    base = len(w.default_stylesheet)
    c.check(s[:base] == w.default_stylesheet, 'the default style is kept')
    return s[base:]


def callbacks(c, n, w):
    ok, _ = attempt(c, 'the map can be created', w.create_weathermap)
    if not ok:
        return
    for comp in w.app.layout.walk():
        if comp.props.get('id') == 'cytoscape-prototypes':
            c.check(len(comp.props['elements']) == len(w.create_elements()), 'the layout shows the elements')
            break
    else:
        c.fail('the layout has the map')
    groups = {}
    for kind, prefix in (('demand', 'demand'), ('lsp', 'lsp')):
        objs = ends(n, kind)
        srcs = sorted({o.source_node_object.name for o in objs})
        dsts = sorted({o.dest_node_object.name for o in objs})
        combos = [(None, None)] + [(s, None) for s in srcs] + [(None, d) for d in dsts] + sorted({(o.source_node_object.name, o.dest_node_object.name) for o in objs})
        for s, d in combos:
            kw = {prefix + '_source_callback__value': s, prefix + '_destination_callback__value': d}
            outs = [prefix + '-source-callback.options', prefix + '-destination-callback.options', 'find-%ss-callback.options' % kind]
            got = [fire(c, w, 'a menu', o, None, None, **kw) for o in outs]
            if not all(g[0] for g in got):
                c.fail('menus are offered', repr_((s, d)))
                continue
            got = [g[1] for g in got]
            want_s = [s] if s else (srcs if not d else sorted({o.source_node_object.name for o in objs if o.dest_node_object.name == d}))
            want_d = [d] if d else (dsts if not s else sorted({o.dest_node_object.name for o in objs if o.source_node_object.name == s}))
            c.check([x['value'] for x in got[0]] == want_s and [x['label'] for x in got[0]] == want_s, 'the %s source menu follows the destination' % kind, repr_((s, d, got[0])))
            c.check([x['value'] for x in got[1]] == want_d and [x['label'] for x in got[1]] == want_d, 'the %s destination menu follows the source' % kind, repr_((s, d, got[1])))
            want = [] if not s and not d else [o for o in objs if (not s or o.source_node_object.name == s) and (not d or o.dest_node_object.name == d)]
            c.check(menu(got[2]) == show(want), 'the %s menu lists those between the chosen ends' % kind, repr_((s, d, got[2])))
            choose(c, n, w, 'find-%ss-callback' % kind, got[2])
            c.reach('dropdown')
    no_selection(c, n, w)
    for x in n.nodes.values():
        ok, r = fire(c, w, 'choosing a node', 'interfaces-on-node.options', 'find-node.value', x.name)
        if ok:
            c.check(menu(r) == show([i for i in n.ifs if i.node_object is x]), 'the interfaces of the chosen node are offered', repr_((x.name, r)))
            choose(c, n, w, 'interfaces-on-node', r)
        else:
            c.fail('the interfaces of the chosen node are offered', x.name)
    plain = style(c, w, colors=['royalblue', 'green'])
    if plain is not None:
        c.check([(e['selector'], e['style'].get('opacity')) for e in plain] == [('edge[group="royalblue"]', 1.0), ('edge[group="green"]', 1.0)],
                'the chosen utilization ranges are shown in full', repr_(plain))
    for d in n.demands:
        ok, sel = fire(c, w, 'choosing a demand', 'selected-demand-output.children', 'find-demands-callback.value', menu_value(d))
        if not ok:
            c.fail('a demand can be chosen', repr_(d))
            continue
        info = JSON.loads(sel)
        c.check((info['source'], info['dest'], info['name']) == show([d])[0] and info['routed'] is routed(d), 'the chosen demand is shown with its state', repr_(info))
        s = style(c, w, demand=sel, colors=())
        ifs, lsps = demand_ifs(d)
        same = [x for x in n.demands if x.source_node_object is d.source_node_object and x.dest_node_object is d.dest_node_object]
        lit = union([demand_ifs(x)[0] for x in same]) if routed(d) else []
        if s is not None:
            fwd = sorted({edge_of(e['selector']) for e in s if e['style'].get('target-arrow-shape') == 'triangle'})
            every = sorted({edge_of(e['selector']) for e in s if e['selector'].startswith('edge')})
            nodes = sorted({NODE.match(e['selector']).group(1) for e in s if e['selector'].startswith('node')})
            c.check(fwd == keys_of(lit), 'the interfaces highlighted for a demand are those it transits', repr_((fwd, keys_of(lit))))
            c.check(every == sorted(set(keys_of(lit)) | set(keys_of([i.get_remote_interface(n.model) for i in lit]))), 'nothing else is highlighted for a demand', repr_(every))
            c.check(nodes == sorted({i.node_object.name for i in lit} | {i.remote_node_object.name for i in lit}), 'the nodes highlighted for a demand are those it transits', repr_(nodes))
            c.reach('demand highlighted' if routed(d) else 'unrouted demand')
        ok, r = fire(c, w, 'the path of a demand', 'demand-path-interfaces.options', 'selected-demand-output.children', sel)
        ok2, r2 = fire(c, w, 'the path of a demand', 'demand-path-lsps.options', 'selected-demand-output.children', sel)
        for m, o, v in (('demand-path-interfaces', ok, r), ('demand-path-lsps', ok2, r2)):
            if o:
                choose(c, n, w, m, v)
        if routed(d):
            c.check(ok and menu(r) == show(ifs), 'the interfaces listed for a demand are those it transits', repr_((d, r)))
            c.check(ok2 and menu(r2) == show(lsps), 'the LSPs listed for a demand are those it rides', repr_((d, r2)))
        else:
            c.check(ok and not menu(r) and ok2 and not menu(r2), 'nothing is listed for an unrouted demand', repr_((r, r2)))
    for x in n.lsps:
        ok, sel = fire(c, w, 'choosing an LSP', 'selected-lsp-output.children', 'find-lsps-callback.value', menu_value(x))
        if not ok:
            c.fail('an LSP can be chosen', repr_(x))
            continue
        info = JSON.loads(sel)
        c.check((info['source'], info['dest'], info['name']) == show([x])[0] and info['routed'] is lsp_up(x), 'the chosen LSP is shown with its state', repr_(info))
        p = x.path['interfaces'] if lsp_up(x) else []
        s = style(c, w, lsp=sel, colors=())
        if s is not None:
            fwd = sorted({edge_of(e['selector']) for e in s if e['style'].get('target-arrow-shape') == 'chevron'})
            nodes = sorted({NODE.match(e['selector']).group(1) for e in s if e['selector'].startswith('node')})
            every = sorted({edge_of(e['selector']) for e in s if e['selector'].startswith('edge')})
            c.check(fwd == keys_of(p), 'the interfaces highlighted for an LSP are those of its path', repr_((fwd, names(p))))
            c.check(every == sorted(set(keys_of(p)) | set(keys_of([i.get_remote_interface(n.model) for i in p]))), 'nothing else is highlighted for an LSP', repr_(every))
            c.check(nodes == sorted({i.node_object.name for i in p} | {i.remote_node_object.name for i in p}), 'the nodes highlighted for an LSP are those of its path', repr_(nodes))
            c.reach('LSP highlighted' if p else 'unrouted LSP')
        ok, r = fire(c, w, 'the path of an LSP', 'lsp-interface-callback.options', 'selected-lsp-output.children', sel)
        c.check(ok and menu(r) == show(p), 'the interfaces listed for an LSP are those of its path' if p else 'nothing is listed for an unrouted LSP', repr_((x, r)))
        if ok:
            choose(c, n, w, 'lsp-interface-callback', r)
        ok, r = fire(c, w, 'the demands of an LSP', 'lsp-demand-callback.options', 'selected-lsp-output.children', sel)
        on = [d for d in n.demands if member(x, demand_ifs(d)[1])]
        if on:
            c.reach('riding')
        c.check(ok and menu(r) == show(on), 'the demands listed for an LSP are those riding it', repr_((x, r)))
        if ok:
            choose(c, n, w, 'lsp-demand-callback', r)
    edges = {(e['data']['source'], e['data']['interface-name']): e['data'] for e in w.create_elements() if 'source' in e['data']}
    for i in n.ifs:
        picks = [('interfaces-on-node.value', menu_value(i))]
        e = edges.get((i.node_object.name, i.name))
        if e is not None:
            picks.append(('cytoscape-prototypes.selectedEdgeData', [e]))
        for trig, v in picks:
            ok, sel = fire(c, w, 'choosing an interface', 'selected-interface-output.children', trig, v)
            if not ok:
                c.fail('an interface can be chosen', i.name)
                continue
            info = JSON.loads(sel)
            c.check((info['source'], info['dest'], info['interface-name']) == show([i])[0] and str(info['circuit_id']) == str(i.circuit_id),
                    'the chosen interface is shown with its ends', repr_(info))
            u = i.utilization
            c.check(info['utilization %'] == u if isinstance(u, str) else (not isinstance(info['utilization %'], str) and c.eq(info['utilization %'], u, 0)), 'the chosen interface is shown with its utilization', repr_((info, u)))
            c.check(tob(info['cost'] == i.cost), 'the chosen interface is shown with its cost', repr_(info))
            c.reach('edge selected')
        s = style(c, w, iface=sel, colors=())
        if s is not None:
            c.check([edge_of(e['selector']) for e in s] == keys_of([i]), 'the chosen interface is highlighted', repr_(s))
        ok, r = fire(c, w, 'the LSPs of an interface', 'interface-lsp-callback.options', 'selected-interface-output.children', sel)
        c.check(ok and menu(r) == show([x for x in n.lsps if lsp_up(x) and member(i, x.path['interfaces'])]), 'the LSPs listed for an interface are those on it', repr_((i.name, r)))
        if ok:
            choose(c, n, w, 'interface-lsp-callback', r)
        ok, r = fire(c, w, 'the demands of an interface', 'interface-demand-callback.options', 'selected-interface-output.children', sel)
        c.check(ok and menu(r) == show([d for d in n.demands if member(i, demand_ifs(d)[0])]), 'the demands listed for an interface are those on it', repr_((i.name, r)))
        if ok:
            choose(c, n, w, 'interface-demand-callback', r)


def mk(cls, links, dems=(), lsps=(), failed=False, nodes='', cost=None, cap=100, shortcuts='', names_=None, present=None, traffic=None, coords=False, what='all'):
    def h(c):
        nm = names_ or {}
        n = net(c, cls, links, cost=cost, symcost=True, cap=cap, failed='sym' if failed else None, names=nm, present=present)
        for k, ab in enumerate(dems):
            add_demand(n, ab[0], ab[1], c.real('traffic_%d' % k, 0, 400) if traffic is None else traffic, 'd%d' % list(dems[:k]).count(ab))
        for k, (ab, bw) in enumerate(lsps):
            add_lsp(n, ab[0], ab[1], 'l%d' % [x[0] for x in lsps[:k]].count(ab), bw)
        for x in shortcuts:
            n.nodes[x].igp_shortcuts_enabled = True
        for x in sorted(n.nodes):
            if coords:
                n.nodes[x].lat = c.real('lat_' + x, -90, 90)
                n.nodes[x].lon = c.real('lon_' + x, -180, 180)
            if '-' in n.nodes[x].name:
                c.reach('dash in a name')
        finish(n)
        if not simulate(c, n):
            return
        for x in nodes:
            if c.bool('node_failed_' + x):
                n.model.fail_node(n.nodes[x].name)
        if nodes and not simulate(c, n):
            return
        ok, w = attempt(c, 'a weather map can be made', WM.WeatherMap, n.model)
        if not ok:
            return
        if what in ('all', 'elements'):
            elements(c, n, w)
        if what in ('all', 'offers'):
            offers(c, n, w)
        if what in ('all', 'callbacks'):
            callbacks(c, n, w)
    return h


DASHED = {'A': 'ams-1', 'B': '-', 'C': 'ams', 'D': '1-ams'}


def cases(tier):
    deep = tier != 'quick'
    out = [('edge colors', edge_color), ('failed edge', failed_edge)]
    for m, cls in MODELS:
        out += [
            (m + ' elements', mk(cls, 'line3', ['AC', 'AB'], cost=1, failed=True, coords=True, what='elements')),
            (m + ' elements, capacities', mk(cls, 'edge', ['AB', 'BA'], cost=1, cap=lambda i, ab: 7, what='elements')),
            (m + ' elements, failed nodes', mk(cls, 'tri', ['AC'], nodes='AB', what='elements', traffic=30)),
            (m + ' triangle', mk(cls, 'tri', ['AC', 'AC', 'BA'], [('AB', 5)], failed=True, traffic=30)),
            (m + ' square', mk(cls, 'square', ['AD', 'BC'], [], traffic=30)),
            (m + ' LSPs', mk(cls, 'tri', ['AC', 'AB', 'CA'], [('AC', None), ('AC', 5), ('BC', 500)], traffic=30, cost=None)),
            (m + ' dashed names', mk(cls, 'tri', ['AC', 'BA'], [('AC', 5)], names_=DASHED, traffic=30)),
            (m + ' many ends', mk(cls, 'star6', ['BC', 'GC', 'EC', 'DC', 'FC', 'CB', 'CG', 'CE', 'CD', 'CF'], [('BC', 5), ('GC', 5), ('EC', 5), ('DC', 5), ('CG', 5), ('CE', 5), ('CD', 5), ('CF', 5)],
                                  cost=1, traffic=1)),
            (m + ' offers', mk(cls, 'line3', ['AC', 'CA', 'AB', 'BC'], [('AC', 5), ('AB', 5), ('BC', 5)], cost=1, present='sym', traffic=3)),
        ]
        if deep:
            out += [
                (m + ' elements, triangle', mk(cls, 'tri', ['AC', 'AB', 'BC'], failed=True, coords=True, what='elements')),
                (m + ' elements, square', mk(cls, 'square', ['AD'], what='elements')),
                (m + ' diamond', mk(cls, 'diamond', ['AD', 'AD', 'BC'], [('AD', 5), ('BC', 500)], traffic=30, failed=True)),
                (m + ' failed nodes', mk(cls, 'square', ['AD', 'DA'], [('AB', 5)], traffic=30, nodes='ABCD')),
                (m + ' any traffic', mk(cls, 'tri', ['AC', 'BA'], [('AB', 5)], failed=True)),
            ]
    out += [
        ('flex parallel', mk(FLEX, 'par2line', ['AC', 'CA'], [('AB', 5)], traffic=30)),
        ('flex shortcuts', mk(FLEX, 'line3', ['AC', 'AB'], [('AB', 5), ('BC', 5)], shortcuts='AB', traffic=30, failed=True)),
        ('flex shortcuts, square', mk(FLEX, 'square', ['AD', 'AB'], [('AB', 5)], shortcuts='A', traffic=30)),
    ]
    if deep:
        out += [('flex parallel, failures', mk(FLEX, 'par22', ['AC', 'CA'], [('AB', 5), ('AC', 5)], traffic=30, failed=True)),
                ('flex shortcuts, diamond', mk(FLEX, 'diamond', ['AD', 'BD'], [('AB', 5), ('CD', 5)], shortcuts='AC', traffic=30))]
    return out
