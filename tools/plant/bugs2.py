from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM
CIRC, DEM, SRLG = 'pyNTM/circuit.py', 'pyNTM/demand.py', 'pyNTM/srlg.py'

bug('c01-groups-reset-by-count', 'C10', [(FLEX, '''        self._parallel_lsp_groups = {}  # Reset the attribute
''', '''        if sum(len(g) for g in self._parallel_lsp_groups.values()) != len(
            self.rsvp_lsp_objects
        ):
            self._parallel_lsp_groups = {}  # Reset the attribute
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)], [('A', 'C', 40, 'd')], [('A', 'C', 'l')]))
[x] = m.rsvp_lsp_objects
m.rsvp_lsp_objects.remove(x)
m.rsvp_lsp_objects.add(RSVP_LSP(m.get_node_object('A'), m.get_node_object('B'), 'k'))
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>B#0', 'B>C#1')], d.path
assert m.get_rsvp_lsp('A', 'B', 'k').path != 'Unrouted - initial' and 'interfaces' in m.get_rsvp_lsp('A', 'B', 'k').path
''', 'an LSP is exchanged for another between two simulations', 'the grouping of the earlier simulation survives, so the removed LSP still carries the demand')

bug('c02-graph-once-per-bw', 'C05', [(FLEX, '''        for lsp in lsps:
            # Check to see if configured_setup_bandwidth is set; if so,
''', '''        graphs = {}
        for lsp in lsps:
            # Check to see if configured_setup_bandwidth is set; if so,
'''), (FLEX, '''            G = self._make_weighted_network_graph_mdg(
                include_failed_circuits=False,
                rsvp_required=True,
                needed_bw=lsp.setup_bandwidth,
            )

            lsp.path = {}
''', '''            G = graphs.get(lsp.setup_bandwidth)
            if G is None:
                G = graphs[
                    lsp.setup_bandwidth
                ] = self._make_weighted_network_graph_mdg(
                    include_failed_circuits=False,
                    rsvp_required=True,
                    needed_bw=lsp.setup_bandwidth,
                )

            lsp.path = {}
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 50), ('A', 'C', 2, 50), ('C', 'B', 2, 50)], [('A', 'B', 80, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2')]))
assert sorted(x.path['path_cost'] for x in m.rsvp_lsp_objects) == [1, 4]
assert len(m.get_unrouted_demand_objects()) == 0
''', 'two parallel LSPs of the same bandwidth of which only one fits on the cheapest path', 'the second LSP is looked up on the links as they were before the first was signalled and stays unrouted')

bug('c03-share-of-unconfigured', 'C06', [(MAST, '''                if traffic_in_demand_group > 0:
                    traff_on_each_group_lsp = traffic_in_demand_group / len(lsps)
''', '''                sharing_lsps = [
                    lsp for lsp in lsps if not lsp.configured_setup_bandwidth
                ] or lsps
                if traffic_in_demand_group > 0:
                    traff_on_each_group_lsp = traffic_in_demand_group / len(
                        sharing_lsps
                    )
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 500)], [('A', 'B', 90, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'l3', 5.0)]))
assert sorted(x.reserved_bandwidth for x in m.rsvp_lsp_objects) == [5, 30, 30]
''', 'a parallel LSP group in which some LSPs have a configured setup bandwidth', 'the others share the traffic as if the configured ones were not in the group')

bug('c04-optimized-share', 'C06', [(MAST, '''        setup_bandwidth_optimized = traffic_in_demand_group / len(routed_lsps_in_group)
''', '''        setup_bandwidth_optimized = traffic_in_demand_group / max(
            len(
                [
                    lsp
                    for lsp in routed_lsps_in_group
                    if lsp.configured_setup_bandwidth is None
                ]
            ),
            1,
        )
''')], '''
for cls in (FlexModel, PerformanceModel):
    m = sim(net(cls, [('A', 'B', 1, 100)], [('A', 'B', 120, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2', 5.0), ('A', 'B', 'l3', 500.0)]))
    assert m.get_rsvp_lsp('A', 'B', 'l3').path == 'Unrouted'
    assert m.get_rsvp_lsp('A', 'B', 'l2').reserved_bandwidth == 5
    assert m.get_rsvp_lsp('A', 'B', 'l1').reserved_bandwidth == 60, m.get_rsvp_lsp('A', 'B', 'l1').reserved_bandwidth
    m = sim(net(cls, [('A', 'B', 1, 130)], [('A', 'B', 120, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2', 5.0), ('A', 'B', 'l3', 500.0)]))
    assert m.get_rsvp_lsp('A', 'B', 'l1').reserved_bandwidth == 60, m.get_rsvp_lsp('A', 'B', 'l1').reserved_bandwidth
''', 'a group where one LSP is unrouted and one routed LSP has a configured bandwidth', 're-signalling uses a share that leaves the configured LSPs out')

bug('c05-resignal-shared-hop', 'C04', [(MAST, '''                for interface in lsp_path_interfaces_before:
                    interface._reserved_bandwidth -= lsp_res_bw_before
                # . . . and then remove the new reserved bandwidth from the
                # new path interfaces
                for interface in lsp.path["interfaces"]:
                    interface._reserved_bandwidth += lsp.reserved_bandwidth
''', '''                for interface in lsp_path_interfaces_before:
                    interface._reserved_bandwidth -= lsp_res_bw_before
                # . . . and then remove the new reserved bandwidth from the
                # new path interfaces
                for interface in set(lsp.path["interfaces"]).union(
                    lsp_path_interfaces_before[1:-1]
                ):
                    interface._reserved_bandwidth += lsp.reserved_bandwidth
''')], '''
m = net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 45), ('C', 'D', 1, 100), ('B', 'E', 5, 100), ('E', 'D', 5, 100)],
        [('A', 'D', 80, 'd')], [('A', 'D', 'l1'), ('A', 'D', 'l2', 500.0)])
sim(m)
assert m.get_rsvp_lsp('A', 'D', 'l1').reserved_bandwidth == 80
assert itf(m, 'B>C#1').reserved_bandwidth == 0 and itf(m, 'A>B#0').reserved_bandwidth == 80
''', 'an LSP of at least three hops re-signalled over a different path at a new bandwidth', 'inner hops of the old path keep a reservation')

bug('c06-second-lsp-nodes', 'C08', [(FLEX, '''                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[-1]
                    ):
''', '''                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[0]
                    ):
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'E', 1)], [('A', 'E', 40, 'd')],
        [('A', 'B', 'l1'), ('B', 'D', 'l2'), ('C', 'E', 'l3')])
for x in 'ABC':
    m.get_node_object(x).igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('l1', 'l2', 'D>E#3')], d.path
''', 'three enabled nodes where the second LSP of a path spans the start of a third', 'a node inside the second LSP is still considered, its LSP overlaps')

bug('c07-path-cost-metric', 'C08', [(FLEX, '''                elif isinstance(item, RSVP_LSP):
                    path_metric += item.effective_metric(self)
''', '''                elif isinstance(item, RSVP_LSP):
                    if item.manual_metric == "not set":
                        path_metric += item.path["path_cost"]
                    else:
                        path_metric += item.effective_metric(self)
''')], '''
m = net(FlexModel, [('A', 'B', 1, 10), ('A', 'C', 3, 100), ('C', 'B', 1, 100), ('B', 'D', 1), ('A', 'D', 2)], [('A', 'D', 40, 'd')], [('A', 'B', 'l', 50.0)])
m.get_node_object('A').igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>D#4',), ('l', 'B>D#3')], d.path
''', 'a shortcut LSP without manual metric that is routed over a costlier path than the IGP', 'the path over the LSP counts as costlier and is dropped')

bug('c08-farthest-only-same-cost', 'C08', [(FLEX, '''                    destinations = node_path[source_node_index + 1 :]
''', '''                    destinations = node_path[
                        source_node_index + 1 : source_node_index + 4
                    ]
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'E', 1), ('E', 'F', 1)], [('A', 'F', 40, 'd')],
        [('A', 'B', 'l1'), ('A', 'E', 'l2')])
m.get_node_object('A').igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('l2', 'E>F#4')], d.path
''', 'an LSP that spans four or more hops of the path', 'LSPs to nodes farther than three hops are not considered')

bug('c10-default-metric-path', 'C07', [(RSVP, '''        elif "Unrouted" in self.path:
            return "Unrouted"
        else:
            # Return the shortest path IGP cost
''', '''        elif "Unrouted" in self.path:
            return "Unrouted"
        elif len(self.path["interfaces"]) == 1:
            return self.path["path_cost"]
        else:
            # Return the shortest path IGP cost
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 9), ('A', 'C', 1, 10), ('C', 'B', 1, 10)], [('A', 'B', 40, 'd')], [('A', 'B', 'l1', 20.0), ('A', 'B', 'l2', 5.0)]))
[d] = m.demand_objects
assert names(d.path) == [('l1',), ('l2',)], d.path
''', 'an LSP routed over a direct link that is not the shortest IGP path', 'its effective metric is the cost of the link')

bug('c11-parallel-failed-links', 'C15', [(PERF, '''        connected_nodes_list = [
            (interface.node_object.name, interface.remote_node_object.name)
            for interface in self.interface_objects
        ]
''', '''        connected_nodes_list = [
            (interface.node_object.name, interface.remote_node_object.name)
            for interface in self.interface_objects
            if not interface.failed
        ]
''')], '''
m = net(PerformanceModel, [('A', 'B', 1), ('A', 'B', 2)])
for i in m.interface_objects:
    if i.name.endswith('#1'):
        i.failed = True
assert raises(m.validate_model)
''', 'a second link between two nodes that is failed', 'parallel links pass validation in the single-link model')

bug('c12-capacity-failed-circuit', 'C15', [(MAST, '''        if int1.capacity != int2.capacity:
            circuits_with_mismatched_interface_capacity.append(ckt)
''', '''        if not int1.failed and int1.capacity != int2.capacity:
            circuits_with_mismatched_interface_capacity.append(ckt)
''')], '''
for cls in (PerformanceModel, FlexModel):
    m = net(cls, [('A', 'B', 1), ('B', 'C', 2)])
    itf(m, 'B>C#1').capacity = 7
    for x in 'B>C#1', 'C>B#1':
        itf(m, x).failed = True
    assert raises(m.validate_model)
''', 'a failed circuit with different capacities at its ends', 'it passes validation')

bug('c13-demand-identity', 'C16', [(MAST, '''        if added_demand._key in {demand._key for demand in self.demand_objects}:
''', '''        if added_demand._key in {
            (demand.source_node_object.name, demand.dest_node_object.name, demand.name)
            for demand in self.demand_objects
            if demand.traffic == added_demand.traffic or demand.path != "Unrouted"
        }:
''')], '''
m = net(PerformanceModel, [('A', 'B', 1)], [('A', 'B', 5, 'd')])
assert raises(m.add_demand, 'A', 'B', 6, 'd')
assert len(m.demand_objects) == 1
''', 'an unrouted demand with the same identity and another traffic', 'a second demand with the same identity is added')

bug('c14-fail-node-keep', 'C11', [(MAST, '''        # Find node's interfaces and fail them
        ints_to_fail_iterator = iter(self.get_node_interfaces(node_name))
''', '''        if self.get_node_object(node_name).failed:
            return

        # Find node's interfaces and fail them
        ints_to_fail_iterator = iter(self.get_node_interfaces(node_name))
''')], '''
m = net(PerformanceModel, [('A', 'B', 1), ('B', 'C', 1)])
m.get_node_object('B').failed = True
m.fail_node('B')
assert all(i.failed for i in m.interface_objects)
''', 'a node marked failed by its attribute, then failed by the operation', 'its interfaces stay up')

bug('c16-srlg-first-node', 'C12', [(NODE, '''            get_srlg.node_objects.remove(self)
            self._srlgs.remove(get_srlg)
''', '''            get_srlg.node_objects.remove(self)
            self._srlgs = {
                srlg for srlg in self._srlgs if srlg.failed != get_srlg.failed
            }
''')], '''
m = net(PerformanceModel, [('A', 'B', 1), ('B', 'C', 1)])
for g in 'gh':
    m.add_srlg(g)
    m.get_node_object('A').add_to_srlg(g, m)
m.get_node_object('A').remove_from_srlg('g', m)
quiet(m.fail_srlg, 'h')
assert m.get_node_object('A').failed and m.get_srlg_object('h').node_objects == {m.get_node_object('A')}
''', 'a node in two groups that leaves one', 'it leaves every group of the same state')

bug('c17-perf-index-loop', 'C14', [(PERF, '''        # Get all the edges that meet 'failed' and 'reservable_bw' criteria
        if include_failed_circuits is False:
''', '''        needed_bw = round(needed_bw)

        # Get all the edges that meet 'failed' and 'reservable_bw' criteria
        if include_failed_circuits is False:
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1, 10)]))
assert m.get_all_paths_reservable_bw('A', 'B', True, 10, 10.4)['path'] == []
assert m.get_shortest_path('A', 'B', 10.4)['path'] == []
''', 'a fractional bandwidth', 'links with less than the needed bandwidth are listed')

bug('c19-circuit-failed-a', 'C21', [(CIRC, '''        if int_a.failed or int_b.failed:
''', '''        if int_a.failed:
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)])
quiet(m.validate_model)
for i in m.interface_objects:
    c = m.get_circuit_object_from_interface(i.name, i.node_object.name)
    i._failed = True
    assert c.failed(m)
    i._failed = False
''', 'a circuit whose second interface alone is failed', 'it is not reported failed')

bug('c20-circuit-by-ends', 'C21', [(MAST, '''            if interface in (ckt.interface_a, ckt.interface_b)
''', '''            if ckt.interface_a.name == interface.name
            or ckt.interface_b.name == interface.name
''')], '''
a, b, c = Node('A'), Node('B'), Node('C')
ifs = {Interface('x', 1, 10, a, b, 1), Interface('y', 1, 10, b, a, 1), Interface('y', 1, 10, c, b, 2), Interface('x', 1, 10, b, c, 2)}
m = FlexModel(ifs, {a, b, c}, set(), set())
quiet(m.validate_model)
for i in m.interface_objects:
    k = m.get_circuit_object_from_interface(i.name, i.node_object.name)
    assert i is k.interface_a or i is k.interface_b
''', 'interfaces of different nodes with the same name', 'another circuit is reported')

bug('c21-adjacent-both-ways', 'C23', [(NODE, '''            adjacent_nodes.add(adjacency.remote_node_object)
''', '''            if adjacency.remote_node_object.igp_shortcuts_enabled is False or (
                self.igp_shortcuts_enabled
            ):
                adjacent_nodes.add(adjacency.remote_node_object)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)])
m.get_node_object('B').igp_shortcuts_enabled = True
assert [n.name for n in m.get_node_object('A').adjacent_nodes(m)] == ['B']
''', 'a neighbour with IGP shortcuts enabled', 'it is not listed as adjacent')

bug('c23-lsps-first-hop', 'C04', [(INTF, '''            if self in lsp.path["interfaces"]:
                lsp_set.add(lsp)
''', '''            if self in lsp.path["interfaces"] and lsp.reserved_bandwidth:
                lsp_set.add(lsp)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1)], [], [('A', 'B', 'l')]))
assert [x.lsp_name for x in itf(m, 'A>B#0').lsps(m)] == ['l']
''', 'a routed LSP that reserves nothing', 'it is not reported on its interfaces')

bug('c24-util-100', 'C22', [(WM, '''        elif utilization >= 100:
''', '''        elif utilization > 100:
''')], '''
from pyNTM.weathermap import WeatherMap
w = WeatherMap(sim(net(FlexModel, [('A', 'B', 1, 40)], [('A', 'B', 40, 'd')])))
e = w.make_json_edge('a', 'b', 'x', 40, '1', 100.0, w.util_ranges, 1)
assert e['data']['group'] == w.util_ranges['100+']
e = w.make_json_edge('a', 'b', 'x', 40, '1', 100, w.util_ranges, 1)
assert e['data']['group'] == w.util_ranges['100+'], e
''', 'utilization of exactly 100 percent', 'it has not the overload color')

bug('c25-dest-menu', 'C22', [(WM, '''        destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
''', '''        destinations = [pair[1] for pair in source_dest_pairs if pair[0] in src]
''')], '''
from pyNTM.weathermap import WeatherMap
w = WeatherMap(sim(net(FlexModel, [('A', 'B', 1, 40), ('A1', 'B', 1)], [('A', 'B', 40, 'd'), ('A1', 'A', 2, 'e')])))
assert w.get_destinations('A1', 'demand') == ['A']
''', 'a node whose name is part of the selected source', 'its destinations are offered too')

bug('c26-interface-demands-lsp', 'C03', [(INTF, '''                    if isinstance(object, RSVP_LSP):
                        if self in object.path["interfaces"]:
                            dmd_set.add(demand)
''', '''                    if isinstance(object, RSVP_LSP):
                        if self in object.path["interfaces"][:3]:
                            dmd_set.add(demand)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'E', 1)], [('A', 'E', 5, 'd')], [('A', 'E', 'l')]))
assert len(itf(m, 'D>E#3').demands(m)) == 1
''', 'a demand inside an LSP of four or more hops', 'the demand is not reported on the later hops')

bug('c28-route-cache', 'C10', [(PERF, '''        G = self._make_weighted_network_graph(include_failed_circuits=False)

        for demand in model.demand_objects:
''', '''        state = (
            len(model.interface_objects),
            sum(interface.cost for interface in model.interface_objects),
        )
        if getattr(self, "_graph_state", None) != state:
            self._graph = self._make_weighted_network_graph(
                include_failed_circuits=False
            )
            self._graph_state = state
        G = self._graph

        for demand in model.demand_objects:
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1), ('B', 'C', 1), ('A', 'C', 1)], [('A', 'C', 5, 'd')]))
m.fail_interface('A>B#0', 'A')
sim(m)
quiet(m.unfail_interface, 'A>B#0', 'A')
m.fail_interface('A>C#2', 'A')
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>B#0', 'B>C#1')], d.path
''', 'a link failed, simulated, restored and another of the same cost failed', 'the second simulation routes over the failed link')

bug('c29-res-bw-percent-once', 'C04', [(INTF, '''            res_bw = (
                self.capacity * (self.percent_reservable_bandwidth / 100)
            ) - self.reserved_bandwidth
''', '''            res_bw = (
                self.capacity * (min(self.percent_reservable_bandwidth, 100) / 100)
            ) - self.reserved_bandwidth
''')], '''
m = net(FlexModel, [('A', 'B', 1, 100)])
itf(m, 'A>B#0').percent_reservable_bandwidth = 150
assert itf(m, 'A>B#0').reservable_bandwidth == 150
''', 'a reservable percentage above 100', 'the share is capped at the capacity')

bug('c31-load-cost-sign', 'C17', [(MAST, '''        demand_name = "none" if name == "" else name
''', '''        demand_name = "none" if name.strip() == "" else name.strip()
''')], '''
m = loads(FlexModel, """INTERFACES_TABLE
node_object_name\\tremote_node_object_name\\tname\\tcost\\tcapacity\\tcircuit_id
A\\tB\\tA-to-B\\t4\\t100\\t1
B\\tA\\tB-to-A\\t4\\t100\\t1

NODES_TABLE
name\\tlon\\tlat
A\\t50\\t0
B\\t0\\t-50

DEMANDS_TABLE
source\\tdest\\ttraffic\\tname
A\\tB\\t80\\td 1 
""")
assert [d.name for d in m.demand_objects] == ['d 1 ']
''', 'a demand name with surrounding blanks', 'it is changed')

bug('c32-lsp-zero-metric-default', 'C17', [(MAST, '''            try:
                manual_metric = int(lsp_info[4])
            except (IndexError, ModelException, ValueError):
                manual_metric = None
''', '''            try:
                manual_metric = int(lsp_info[4]) if configured_setup_bw else None
            except (IndexError, ModelException, ValueError):
                manual_metric = None
''')], '''
m = loads(FlexModel, """INTERFACES_TABLE
node_object_name\\tremote_node_object_name\\tname\\tcost\\tcapacity\\tcircuit_id
A\\tB\\tA-to-B\\t4\\t100\\t1
B\\tA\\tB-to-A\\t4\\t100\\t1

NODES_TABLE
name\\tlon\\tlat
A\\t50\\t0
B\\t0\\t-50

DEMANDS_TABLE
source\\tdest\\ttraffic\\tname
A\\tB\\t80\\tdmd_a_b_1

RSVP_LSP_TABLE
source\\tdest\\tname\\tconfigured_setup_bw\\tmanual_metric
A\\tB\\tl1\\t\\t7
""")
[x] = m.rsvp_lsp_objects
assert x.manual_metric == 7
''', 'an LSP row with a metric and a blank bandwidth', 'the metric is dropped')

bug('c34-lsp-key-alias', 'C16', [(MAST, '''        needed_key = (source_node_name, dest_node_name, lsp_name)

        if needed_key not in (lsp._key for lsp in self.rsvp_lsp_objects):
''', '''        needed_key = (source_node_name, dest_node_name, lsp_name or "none")

        if needed_key not in (lsp._key for lsp in self.rsvp_lsp_objects):
''')], '''
m = net(PerformanceModel, [('A', 'B', 1)], [], [('A', 'B', '')])
assert m.get_rsvp_lsp('A', 'B', '').lsp_name == ''
''', 'an LSP with an empty name', 'it is not found')

bug('c38-zero-traffic', 'C02', [(FLEX, '''            max_split = max(traffic_splits_per_interface.values(), default=1)
            path_traffic = float(demand.traffic) / float(max_split)
''', '''            max_split = max(traffic_splits_per_interface.values(), default=1)
            path_traffic = int(demand.traffic) / float(max_split)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1)], [('A', 'B', 5.75, 'd')]))
assert close(itf(m, 'A>B#0').traffic, 5.75)
''', 'a demand with a fractional traffic', 'the fraction is lost')
