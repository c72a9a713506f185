from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401

STATE_OLD = '''            if lsp.configured_setup_bandwidth is None:
                lsp.reserved_bandwidth = traff_on_each_group_lsp
                lsp.setup_bandwidth = traff_on_each_group_lsp
            else:
                lsp.reserved_bandwidth = lsp.configured_setup_bandwidth
'''
bug('h01-share-unchanged', 'C10', [(PERF, STATE_OLD, '''            if lsp.configured_setup_bandwidth is None:
                if traff_on_each_group_lsp:
                    lsp.reserved_bandwidth = traff_on_each_group_lsp
                    lsp.setup_bandwidth = traff_on_each_group_lsp
                elif isinstance(lsp.reserved_bandwidth, str):
                    lsp.reserved_bandwidth = 0
                    lsp.setup_bandwidth = 0
            else:
                lsp.reserved_bandwidth = lsp.configured_setup_bandwidth
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1, 100)], [('A', 'B', 30, 'd')], [('A', 'B', 'l')]))
m.demand_objects.clear()
sim(m)
[l] = m.rsvp_lsp_objects
assert l.reserved_bandwidth == 0, l.reserved_bandwidth
''', 'the demands of an LSP are removed between two simulations', 'the LSP still reserves the earlier share')

bug('h04-orphan-failed', 'C23', [(MAST, '''        return [node for node in self.node_objects if len(node.interfaces(self)) == 0]
''', '''        connected = {
            interface.node_object.name for interface in self.get_unfailed_interface_objects()
        }
        return [
            node
            for node in self.node_objects
            if node.name not in connected and not node.failed
        ]
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100)], nodes='C'))
m.fail_interface('A>B#0', 'A')
assert sorted(n.name for n in m.get_orphan_node_objects()) == ['C']
''', 'a node that is up and all of whose circuits are failed', 'it is listed as an orphan')

bug('h07-zero-setup-bw', 'C17', [(MAST, '''                configured_setup_bw = float(lsp_info[3])
''', '''                configured_setup_bw = float(lsp_info[3]) or None
''')], '''
m = loads(FlexModel, 'INTERFACES_TABLE\\nh\\nA\\tB\\tab\\t1\\t100\\t1\\nB\\tA\\tba\\t1\\t100\\t1\\n\\nNODES_TABLE\\nh\\nA\\t0\\t0\\n\\nDEMANDS_TABLE\\nh\\nA\\tB\\t10\\td\\n\\n'
          'RSVP_LSP_TABLE\\nh\\nA\\tB\\tl\\t0\\n')
sim(m)
[l] = m.rsvp_lsp_objects
assert l.configured_setup_bandwidth == 0 and l.reserved_bandwidth == 0, (l.configured_setup_bandwidth, l.reserved_bandwidth)
''', 'a configured setup bandwidth of zero in the file', 'the LSP is read as having none and reserves the traffic of its demands')

bug('h09-own-hop', 'C13', [(FLEX, '''            # Add back the lsp's reserved bandwidth to Interfaces already in its path
            if interface in lsp_path_interfaces:
                effective_reservable_bw = (
''', '''            # Add back the lsp's reserved bandwidth to Interfaces already in its path
            if interface.node_object in {
                hop.node_object for hop in lsp_path_interfaces
            } and interface.remote_node_object in {
                hop.remote_node_object for hop in lsp_path_interfaces
            }:
                effective_reservable_bw = (
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 100), ('A', 'C', 5, 15)], [], [('A', 'C', 'l', 10)]))
[l] = m.rsvp_lsp_objects
m.fail_interface('A>B#0', 'A')
r = m.get_shortest_path_for_routed_lsp('A', 'C', l, 20)
assert not r['path'], r
''', 'an LSP of two hops or more and a direct circuit between two nodes of its path', 'the bandwidth of the LSP counts as available on a circuit it does not use')

bug('h11-groups-lower', 'C20', [(MAST, '''                    if (
                        dmd.source_node_object.name == src_node_name
                        and dmd.dest_node_object.name == dest_node_name
                    ):
''', '''                    if (
                        dmd.source_node_object.name.strip() == src_node_name.strip()
                        and dmd.dest_node_object.name.strip()
                        == dest_node_name.strip()
                    ):
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100), ('A ', 'B', 1, 100)], [('A', 'B', 10, 'd'), ('A ', 'B', 20, 'e')], [('A', 'B', 'l'), ('A ', 'B', 'k')]))
assert m.get_rsvp_lsp('A', 'B', 'l').reserved_bandwidth == 10, m.get_rsvp_lsp('A', 'B', 'l').reserved_bandwidth
''', 'two nodes whose names differ only in surrounding blanks', 'their demands are grouped together')

bug('h12-small-raise', 'C04', [(MAST, '''            if lsp_res_bw_before != lsp.reserved_bandwidth:
''', '''            if round(lsp_res_bw_before) != round(lsp.reserved_bandwidth):
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 0.9)], [('A', 'B', 0.9, 'd')], [('A', 'B', 'l'), ('A', 'B', 'k'), ('A', 'B', 'j'), ('A', 'B', 'f', 0.9)]))
m = sim(net(FlexModel, [('A', 'B', 1, 1.3)], [('A', 'B', 2.5, 'd')], [('A', 'B', 'l'), ('A', 'B', 'k'), ('A', 'B', 'j')]))
m = sim(net(FlexModel, [('A', 'B', 1, 0.4)], [('A', 'B', 0.45, 'd')], [('A', 'B', 'l'), ('A', 'B', 'k'), ('A', 'B', 'j', 0.3)]))
for m in (m, sim(net(FlexModel, [('A', 'B', 1, 0.4), ('A', 'B', 2, 0.4)], [('A', 'B', 0.5, 'd')], [('A', 'B', 'l'), ('A', 'B', 'k'), ('A', 'B', 'j', 0.8)]))):
    for i in m.interface_objects:
        want = sum(l.reserved_bandwidth for l in i.lsps(m))
        assert abs(i._reserved_bandwidth - want) < 0.01, (i, i._reserved_bandwidth, want)
''', 'an LSP re-signalled for a little more bandwidth', 'the interfaces keep the earlier reservation')

bug('h14-remote-by-nodes', 'C12', [(INTF, '''            # Remove remote interface from SRLG
            remote_int = self.get_remote_interface(model)
            get_srlg.interface_objects.remove(remote_int)
''', '''            # Remove remote interface from SRLG
            remote_int = [
                interface
                for interface in get_srlg.interface_objects
                if interface.node_object == self.remote_node_object
                and interface.remote_node_object == self.node_object
            ][0]
            get_srlg.interface_objects.remove(remote_int)
''')], '''
bad = 0
for k in range(8):
    m = sim(net(FlexModel, [('A', 'B', 1)] * 6))
    for j in range(6):
        itf(m, 'A>B#%d' % j).add_to_srlg('g', m, create_if_not_present=True)
    itf(m, 'A>B#3').remove_from_srlg('g', m)
    bad += m.get_srlg_object('g') in itf(m, 'B>A#3').srlgs
assert not bad
''', 'parallel circuits that are members of the same shared-risk group', 'another circuit leaves at its far end')

bug('h19-unrouted-traffic', 'C01', [(MAST, '''            demand for demand in iter(self.demand_objects) if demand.path == "Unrouted"
        ]
''', '''            demand
            for demand in iter(self.demand_objects)
            if demand.path == "Unrouted" and demand.traffic
        ]
''')], '''
m = net(FlexModel, [('A', 'B', 1)], [('A', 'B', 0, 'd')])
m.fail_interface('A>B#0', 'A')
sim(m)
assert len(m.get_unrouted_demand_objects()) == 1
''', 'an unrouted demand without traffic', 'it is not listed')

bug('h20-util-of-reported', 'C03', [(INTF, '''            util = (self.traffic / self.capacity) * 100
''', '''            util = (round(self.traffic, 1) / self.capacity) * 100
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 1)], [('A', 'B', 0.27, 'd')]))
assert itf(m, 'A>B#0').utilization == 27, itf(m, 'A>B#0').utilization
''', 'traffic with more than one decimal on a small circuit', 'the utilization is that of the traffic rounded to one decimal')

bug('h22-groups-class', 'C24', [(MAST, '''        if self._parallel_lsp_groups != {}:
            return self._parallel_lsp_groups
        src_node_names''', '''        if self._parallel_lsp_groups != {}:
            return self._parallel_lsp_groups
        known = _LSP_GROUPS.get(len(self.rsvp_lsp_objects))
        if known and {lsp._key for group in known.values() for lsp in group} == {
            lsp._key for lsp in self.rsvp_lsp_objects
        } and any(
            lsp in self.rsvp_lsp_objects for group in known.values() for lsp in group
        ):
            self._parallel_lsp_groups = known
            return known
        src_node_names'''), (MAST, '''        self._parallel_lsp_groups = parallel_lsp_groups
        return parallel_lsp_groups
''', '''        self._parallel_lsp_groups = parallel_lsp_groups
        _LSP_GROUPS[len(self.rsvp_lsp_objects)] = parallel_lsp_groups
        return parallel_lsp_groups
'''), (MAST, '''class _MasterModel(object):
''', '''# Groups of the models seen so far, by number of LSPs
_LSP_GROUPS = {}


class _MasterModel(object):
''')], '''
def one():
    m = sim(net(FlexModel, [('A', 'B', 1, 100)], [('A', 'B', 10, 'd')], [('A', 'B', 'l')]))
    [l] = m.rsvp_lsp_objects
    return m, l


a = one()
b = one()
assert 'Unrouted' not in b[1].path, 'unrouted'
assert any(b[1].path['interfaces'][0] is i for i in b[0].interface_objects)
assert any(a[1].path['interfaces'][0] is i for i in a[0].interface_objects), 'the first was routed over the second'
''', 'a second model with LSPs of the same names', 'its groups are those of the first, whose LSPs it routes instead of its own')

bug('h24-setup-int', 'C18', [(RSVP, '''        elif proposed_setup_bw >= 0:
            self._setup_bandwidth = float(proposed_setup_bw)
''', '''        elif int(proposed_setup_bw) >= 0:
            self._setup_bandwidth = float(proposed_setup_bw)
''')], '''
l = RSVP_LSP(Node('A'), Node('B'), 'l')
try:
    l.setup_bandwidth = -0.5
except ModelException:
    pass
else:
    raise SystemExit('accepted')
''', 'a setup bandwidth between -1 and 0', 'it is accepted')

bug('h27-lsp-ecmp-cap', 'C07', [(FLEX, '''                min_lsp_metric = min([lsp.effective_metric(self) for lsp in lsp_list])
                for lsp in lsp_list:
                    if lsp.effective_metric(self) == min_lsp_metric:
                        demand.path.append([lsp])
''', '''                min_lsp_metric = min([lsp.effective_metric(self) for lsp in lsp_list])
                for lsp in lsp_list:
                    if lsp.effective_metric(self) == min_lsp_metric:
                        demand.path.append([lsp])
                    if len(demand.path) == 16:
                        break
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100)], [('A', 'B', 10, 'd')], [('A', 'B', 'l%d' % i) for i in range(20)]))
[d] = m.demand_objects
assert len(d.path) == 20, len(d.path)
''', 'more than sixteen parallel LSPs', 'the demand takes only sixteen of them')

MAP = '''
import json
import dash
import pyNTM.weathermap as wm
F = {}


class App(object):
    def __init__(self, *a, **k):
        self.layout = None

    def callback(self, *a, **k):
        def deco(f):
            F[f.__name__] = f
            return f
        return deco

    def run(self, *a, **k):
        pass


wm.dash.Dash = App


def page(m):
    w = wm.WeatherMap(m)
    quiet(w.create_weathermap)
    return w
'''

bug('h28-map-lsps-both-ways', 'C22', [(WM, '''                lsps = interface.lsps(model)
                if len(lsps) == 0:
''', '''                lsps = interface.lsps(model)
                if len(lsps) == 0:
                    lsps = interface.get_remote_interface(model).lsps(model)
                if len(lsps) == 0:
''')], MAP + '''
m = sim(net(FlexModel, [('A', 'B', 1)], [], [('A', 'B', 'l')]))
page(m)
r = F['lsps_on_interface'](json.dumps({'source': 'B', 'interface-name': 'B>A#0'}))
assert 'l' not in [json.loads(o['value'])['name'] for o in r if o['value'].startswith('{')], r
''', 'an interface without LSPs whose far end has some', 'the LSPs of the other direction are listed')

bug('h29-map-band-rounded', 'C22', [(WM, '''        group = None

        if utilization == "Int is down":
            group = self.failed_interface_color
        elif utilization >= 100:
''', '''        group = None

        if utilization == "Int is down":
            group = self.failed_interface_color
        elif round(utilization, 1) >= 100:
''')], MAP + '''
w = wm.WeatherMap(sim(net(FlexModel, [('A', 'B', 1)])))
r = [w.make_json_edge('A', 'B', 'x', 1, 1, u, w.util_ranges, 1)['data']['group'] for u in (99.0, 99.96, 100)]
assert r[0] == r[1] != r[2], r
''', 'a utilization of at least 99.95 and below 100', 'the interface has the overload color')

bug('h30-map-selected-lsp-name', 'C22', [(WM, '''                lsp_object = model.get_rsvp_lsp(
                    lsp_info["source"], lsp_info["dest"], lsp_info["name"]
                )
                if lsp_object.path == "Unrouted":
                    lsp_info["routed"] = False
''', '''                lsp_object = model.get_rsvp_lsp(
                    lsp_info["source"], lsp_info["dest"], lsp_info["name"]
                )
                if not lsp_object.traffic_on_lsp(model) and not lsp_object.setup_bandwidth:
                    lsp_info["routed"] = False
''')], MAP + '''
m = sim(net(FlexModel, [('A', 'B', 1)], [], [('A', 'B', 'l')]))
page(m)


class C(object):
    triggered = [{'prop_id': 'find-lsp.value', 'value': json.dumps({'source': 'A', 'dest': 'B', 'name': 'l'})}]


wm.dash.callback_context = C
s = F['display_selected_lsp'](None, None, None, None)
assert json.loads(s)['routed'] is True, s
''', 'a routed LSP that carries and reserves nothing', 'the map shows it as not routed')

bug('h31-fail-node-order', 'C11', [(MAST, '''        for interface in ints_to_fail_iterator:
            self.fail_interface(interface.name, node_name)

        # Change the failed property on the specified node
        self.get_node_object(node_name).failed = True
''', '''        for interface in ints_to_fail_iterator:
            if interface.remote_node_object.failed:
                interface.failed = True
                continue
            self.fail_interface(interface.name, node_name)

        # Change the failed property on the specified node
        self.get_node_object(node_name).failed = True
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
m.get_node_object('A').failed = True
m.fail_node('B')
assert itf(m, 'A>B#0').failed and itf(m, 'B>A#0').failed
''', 'a node marked failed on the object beside a node failed by the operation', 'one end of the circuit stays up')

bug('h32-unfail-validates-first', 'C11', [(MAST, '''            remote_interface.failed = False
            interface_object.failed = False
            self.validate_model()
''', '''            interface_object.failed = False
            self.validate_model()
            remote_interface.failed = interface_object.failed
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
m.fail_interface('A>B#0', 'A')
m.unfail_interface('A>B#0', 'A')
assert not itf(m, 'A>B#0').failed and not itf(m, 'B>A#0').failed
''', 'a circuit that is restored', 'validation fails it again')

bug('h33-cutoff-nodes', 'C14', [(PERF, '''            G, source_node_name, dest_node_name, cutoff=cutoff
''', '''            G, source_node_name, dest_node_name, cutoff=min(cutoff, 15)
''')], '''
L = 'ABCDEFGHIJKLMNOPQRS'
m = sim(net(PerformanceModel, [(a, b, 1) for a, b in zip(L, L[1:])]))
assert len(m.get_all_paths_reservable_bw('A', 'S', cutoff=18)['path']) == 1
''', 'a path of more than fifteen hops and a cutoff that allows it', 'it is not listed')

bug('h34-shared-lsp-interface-once', 'C03', [(FLEX, '''                        interfaces = item.path["interfaces"]
                        for interface in interfaces:
''', '''                        interfaces = item.path["interfaces"]
                        for interface in interfaces:
                            if interface in demand_traffic_per_item:
                                continue
''')], '''
m = net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 100), ('A', 'C', 2, 100)], [('A', 'C', 20, 'd')], [('B', 'C', 'l', 10)])
m.get_node_object('B').igp_shortcuts_enabled = True
m.fail_interface('B>C#1', 'B')
sim(m)
m = net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 100), ('B', 'A', 1, 100)], [('A', 'C', 20, 'd')], [('B', 'C', 'l', 10)])
m.get_node_object('B').igp_shortcuts_enabled = True
m = net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 100), ('C', 'D', 2, 5), ('B', 'D', 3, 5), ('D', 'E', 1, 100), ('C', 'E', 3, 100), ('B', 'E', 4, 100)], [('A', 'E', 30, 'd')], [('B', 'E', 'l', 6, 4), ('C', 'E', 'k', 1, 3)])
for x in 'C':
    m.get_node_object(x).igp_shortcuts_enabled = True
sim(m)
for i in m.interface_objects:
    want = sum(pd['path_traffic'] for d in m.demand_objects for pd in d.path_detail.values() for it in pd['items'] if it is i or i in (getattr(it, 'path', None) or {'interfaces': []})['interfaces'])
    assert abs(i.traffic - want) < 0.3, (i.name, i.traffic, want)
''', 'an IGP-shortcut LSP routed over an interface that the demand also crosses directly', 'the interface lacks the traffic inside the LSP')

bug('h35-res-bw-lsp-names', 'C04', [(MAST, '''            for interface in lsp.path["interfaces"]:
                int_info[interface._key]["lsps"].append(lsp)
''', '''            for interface in lsp.path["interfaces"]:
                if lsp.lsp_name in [
                    other.lsp_name for other in int_info[interface._key]["lsps"]
                ]:
                    continue
                int_info[interface._key]["lsps"].append(lsp)
''')], '''
sim(net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 100)], [], [('A', 'B', 'l', 10), ('A', 'C', 'l', 10)]))
''', 'two LSPs of the same name between different nodes on one interface', 'the simulation fails its own reservation validation')

bug('h36-circuit-id-zero', 'C21', [(FLEX, '''        interface_gen = iter(self.interface_objects)

        if circuit_id is None:
''', '''        interface_gen = iter(self.interface_objects)

        if not circuit_id:
''')], '''
bad = 0
for k in range(6):
    A, B = Node('A'), Node('B')
    ifs = set()
    for i in range(6):
        ifs |= {Interface('ab%d' % i, 1, 10, A, B, i), Interface('ba%d' % i, 1, 10, B, A, i)}
    m = sim(FlexModel(ifs, {A, B}, set(), set()))
    bad += len(m.circuit_objects) != 6 or any(c.interface_a.circuit_id != c.interface_b.circuit_id for c in m.circuit_objects)
assert not bad
''', 'parallel circuits of which one has the id 0', 'it is paired with the interface of another circuit')

bug('h37-add-circuit-id-zero', 'C16', [(FLEX, '''        if circuit_id is None:
            raise ModelException("circuit_id must be specified explicitly")
''', '''        if not circuit_id:
            raise ModelException("circuit_id must be specified explicitly")
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1)]))
m.add_circuit(m.get_node_object('A'), m.get_node_object('B'), 'x', 'y', circuit_id=0)
''', 'a new circuit with the id 0', 'it is refused')

bug('h38-demand-default-name', 'C16', [(MAST, '''                demand.source_node_object.name == source_node_name
                and demand.dest_node_object.name == dest_node_name
                and demand.name == demand_name
            ):
                demand_to_return = demand
''', '''                demand.source_node_object.name == source_node_name
                and demand.dest_node_object.name == dest_node_name
                and (demand.name == demand_name or demand_name == "none")
            ):
                demand_to_return = demand
''')], '''
for k in range(6):
    m = sim(net(FlexModel, [('A', 'B', 1)], [('A', 'B', 5), ('A', 'B', 6, 'd%d' % k), ('A', 'B', 7, 'e%d' % k)]))
    assert m.get_demand_object('A', 'B').traffic == 5
''', 'a demand without a name beside a named one between the same nodes', 'the lookup without a name may return the named one')

bug('h39-lsp-exact-metric-type', 'C07', [(RSVP, '''        if isinstance(value, int) and value > 0:
            self.initial_manual_metric = None
            self._manual_metric = value
''', '''        if isinstance(value, int) and value > 0:
            self.initial_manual_metric = None
            self._manual_metric = min(value, 16777215)
''')], '''
l = RSVP_LSP(Node('A'), Node('B'), 'l')
l.manual_metric = 20000000
assert l.manual_metric == 20000000
''', 'a metric above 16777215', 'it is cut')

