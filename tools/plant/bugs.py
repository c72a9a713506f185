BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


FLEX, PERF, MAST = 'pyNTM/flex_model.py', 'pyNTM/performance_model.py', 'pyNTM/master_model.py'
RSVP, INTF, NODE, WM = 'pyNTM/rsvp.py', 'pyNTM/interface.py', 'pyNTM/node.py', 'pyNTM/weathermap.py'

bug('b01-ecmp-reverse-cost', 'C01', [(FLEX, '''            for next_hop in path[1:]:
                this_hop = []
                values_source_hop = G[current_hop][next_hop].values()
''', '''            for next_hop in path[1:]:
                this_hop = []
                values_source_hop = G[next_hop][current_hop].values()
''')], '''
m = sim(net(FlexModel, [('A', 'B', 5, 100, 9), ('A', 'B', 5, 100, 5), ('A', 'B', 9, 100, 9)], [('A', 'B', 10, 'd'), ('B', 'A', 4, 'e')]))
[d] = [d for d in m.demand_objects if d.name == 'd']
assert names(d.path) == [('A>B#0',), ('A>B#1',)], d.path
[e] = [d for d in m.demand_objects if d.name == 'e']
assert names(e.path) == [('B>A#1',)], e.path
m = sim(net(FlexModel, [('A', 'B', 5, 100, 9), ('A', 'B', 7, 100, 7)], [('A', 'B', 10, 'd')]))
[d] = m.demand_objects
assert names(d.path) == [('A>B#0',)], d.path
''', 'parallel links whose two directions have different costs', 'the cheapest links towards the next hop are picked by the costs of the opposite direction')

bug('b02-rsvp-only-igp', 'C01', [(PERF, '''        G = self._make_weighted_network_graph(include_failed_circuits=False)

        for demand in model.demand_objects:
''', '''        G = self._make_weighted_network_graph(
            include_failed_circuits=False, rsvp_required=len(self.rsvp_lsp_objects) > 0
        )

        for demand in model.demand_objects:
''')], '''
m = net(PerformanceModel, [('A', 'B', 1), ('A', 'C', 5), ('C', 'B', 5)], [('A', 'B', 10, 'd')], [('A', 'C', 'l')])
itf(m, 'A>B#0').rsvp_enabled = False
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>B#0',)], d.path
''', 'a model with LSPs and an interface with RSVP disabled on a shortest path', 'plain IGP demands avoid interfaces that are not RSVP enabled')

bug('b03-split-rounding', 'C02', [(PERF, 'path_traffic = round(float(demand.traffic) / float(max_split), 4)',
                                   'path_traffic = round(float(demand.traffic) / float(max_split), 1)')], '''
m = sim(net(PerformanceModel, [('A', x, 1) for x in 'BCD'] + [(x, 'Z', 1) for x in 'BCD'], [('A', 'Z', 100, 'd')]))
[d] = m.demand_objects
assert close(sum(p['path_traffic'] for p in d.path_detail.values()), 100, 0.01), d.path_detail
''', 'a demand whose traffic does not divide to one decimal over its paths', 'per-path traffic is rounded to one decimal before it is summed: demand traffic is lost')

bug('b04-res-percent', 'C04', [(INTF, '''            res_bw = (
                self.capacity * (self.percent_reservable_bandwidth / 100)
            ) - self.reserved_bandwidth
''', '''            res_bw = (self.capacity - self.reserved_bandwidth) * (
                self.percent_reservable_bandwidth / 100
            )
''')], '''
m = net(FlexModel, [('A', 'B', 1, 100)], [], [('A', 'B', 'l1', 30.0), ('A', 'B', 'l2', 30.0), ('A', 'B', 'l3', 30.0)])
itf(m, 'A>B#0').percent_reservable_bandwidth = 50
sim(m)
i = itf(m, 'A>B#0')
assert i.reserved_bandwidth <= 50 and close(i.reservable_bandwidth, 50 - i.reserved_bandwidth, .06), (i.reserved_bandwidth, i.reservable_bandwidth)
''', 'an interface with less than 100 percent reservable that already carries an LSP', 'the percentage is applied to what is left, so more than the reservable share can be reserved')

bug('b05-resignal-release', 'C04', [(MAST, '''                for interface in lsp_path_interfaces_before:
                    interface._reserved_bandwidth -= lsp_res_bw_before
''', '''                for interface in lsp_path_interfaces_before:
                    if interface not in lsp.path["interfaces"]:
                        interface._reserved_bandwidth -= lsp_res_bw_before
''')], '''
m = net(PerformanceModel, [('A', 'B', 1, 100)], [('A', 'B', 90, 'd')], [('A', 'B', 'l%d' % i) for i in range(2)] + [('A', 'B', 'x', 60.0)])
try:
    sim(m)
except ModelException:
    raise SystemExit(1)
i = itf(m, 'A>B#0')
assert close(i.reserved_bandwidth, sum(x.reserved_bandwidth for x in m.rsvp_lsp_objects if x.path != 'Unrouted'), .2), i.reserved_bandwidth
m = net(FlexModel, [('A', 'B', 1, 70)], [('A', 'B', 60, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'x', 50.0)])
try:
    sim(m)
except ModelException:
    raise SystemExit(1)
i = itf(m, 'A>B#0')
assert close(i.reserved_bandwidth, sum(x.reserved_bandwidth for x in m.rsvp_lsp_objects if x.path != 'Unrouted'), .2), i.reserved_bandwidth
''', 'a parallel LSP group of which only some route, and one that re-signals on its own path', 'the old reservation stays on interfaces the re-signalled LSP keeps using')

bug('b06-most-hops', 'C05', [(PERF, '''                fewest_hops = min(
                    [len(path) for path in candidate_path_info_w_reservable_bw]
                )
''', '''                fewest_hops = max(
                    [len(path) for path in candidate_path_info_w_reservable_bw]
                )
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 4), ('A', 'C', 2), ('C', 'B', 2)], [], [('A', 'B', 'l')]))
[l] = m.rsvp_lsp_objects
assert len(l.path['interfaces']) == 1, l.path
''', 'equal-cost feasible paths with different hop counts', 'the path with the most hops is signalled')

bug('b07-resignal-strict', 'C06', [(FLEX, '''            if effective_reservable_bw >= needed_bw:
''', '''            if effective_reservable_bw > needed_bw:
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 40)], [('A', 'B', 40, 'd'), ], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'l3', 40.0)]))
ls = [x for x in m.rsvp_lsp_objects if x.path != 'Unrouted']
auto = [x for x in ls if x.configured_setup_bandwidth is None]
if len(ls) == 2:
    assert all(close(x.reserved_bandwidth, 40 / 3., .1) or close(x.reserved_bandwidth, 20) for x in auto), ls
m = sim(net(FlexModel, [('A', 'B', 1, 60)], [('A', 'B', 120, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2')]))
[x] = [x for x in m.rsvp_lsp_objects if x.path != 'Unrouted']
assert close(x.reserved_bandwidth, 60), x.reserved_bandwidth
m = sim(net(FlexModel, [('A', 'B', 1, 50), ('A', 'C', 1, 100), ('C', 'B', 1, 100)], [('A', 'B', 100, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'l3', 99.0)]))
for x in m.rsvp_lsp_objects:
    pass
m = sim(net(FlexModel, [('A', 'B', 1, 50)], [('A', 'B', 50, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2', 60.0)]))
[x] = [x for x in m.rsvp_lsp_objects if x.path != 'Unrouted']
assert close(x.reserved_bandwidth, 50), x.reserved_bandwidth
''', 'an LSP that can re-signal only at exactly the bandwidth that is available', 'an exact fit counts as too small when an LSP re-signals')

bug('b08-share-unconfigured', 'C06', [(MAST, '''                    traff_on_each_group_lsp = traffic_in_demand_group / len(lsps)
''', '''                    auto_lsps = [x for x in lsps if x.configured_setup_bandwidth is None]
                    traff_on_each_group_lsp = traffic_in_demand_group / max(
                        len(auto_lsps), 1
                    )
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1)], [('A', 'B', 90, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'l3', 10.0)]))
for l in m.rsvp_lsp_objects:
    want = 10 if l.lsp_name == 'l3' else 30
    assert close(l.reserved_bandwidth, want, .06), (l, l.reserved_bandwidth)
''', 'a parallel group that mixes configured and automatic setup bandwidth', 'automatic LSPs signal a share of the traffic that ignores the configured LSPs of the group')

bug('b09-equal-traffic-demands', 'C06', [(MAST, '''                traffic_in_demand_group = sum(
                    [dmd.traffic for dmd in dmds_on_lsp_group]
                )
''', '''                traffic_in_demand_group = sum(
                    {dmd.traffic for dmd in dmds_on_lsp_group}
                )
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1)], [('A', 'B', 30, 'd'), ('A', 'B', 30, 'e')], [('A', 'B', 'l1')]))
[l] = m.rsvp_lsp_objects
assert close(l.reserved_bandwidth, 60, .06), l.reserved_bandwidth
''', 'two demands with the same ends and the same traffic', 'demands of equal traffic are counted once in the setup bandwidth of their LSPs')

bug('b10-metric-feasible', 'C07', [(RSVP, '''            return model.get_shortest_path(
                self.source_node_object.name, self.dest_node_object.name, needed_bw=0
            )["cost"]
''', '''            return self.topology_metric(model)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 10), ('A', 'C', 2, 100), ('C', 'B', 2, 100)], [('A', 'B', 50, 'd')], [('A', 'B', 'l1', 50.0), ('A', 'B', 'l2', 5.0)]))
for l in m.rsvp_lsp_objects:
    assert l.effective_metric(m) == 1, (l, l.effective_metric(m))
[d] = m.demand_objects
assert names(d.path) == [('l1',), ('l2',)], d.path
''', 'an LSP without a manual metric whose path is not the shortest IGP path', 'the effective metric is that of the path taken, so demands avoid detoured LSPs')

bug('b11-unrouted-lsp-traffic', 'C03', [(FLEX, '''                lsps_for_demand = [
                    lsp
                    for lsp in candidate_lsps_for_demand
                    if lsp.effective_metric(self) == min_metric
                    and "Unrouted" not in lsp.path
                ]
            except (KeyError, ValueError):
                # If there is no LSP group that matches the demand source/dest (KeyError) or there are no routed
                # LSPs for the demand (ValueError), then set lsps_for_demand to empty list
                lsps_for_demand = []

            if lsps_for_demand != []:
''', '''                lsps_for_demand = [
                    lsp
                    for lsp in candidate_lsps_for_demand
                    if lsp.effective_metric(self) == min_metric
                ]
            except (KeyError, ValueError):
                # If there is no LSP group that matches the demand source/dest (KeyError) or there are no routed
                # LSPs for the demand (ValueError), then set lsps_for_demand to empty list
                lsps_for_demand = []

            if lsps_for_demand != []:
''')], '''
m = net(FlexModel, [('A', 'B', 1, 50)], [('A', 'B', 40, 'd')], [('A', 'B', 'l1', 10.0, 7), ('A', 'B', 'l2', 90.0, 7)])
try:
    sim(m)
except Exception:
    raise SystemExit(1)
[d] = m.demand_objects
assert [(p['items'][0].lsp_name, p['path_traffic']) for p in d.path_detail.values()] == [('l1', 40)], d.path_detail
assert itf(m, 'A>B#0').traffic == 40
''', 'two parallel LSPs with the same manual metric of which one is unrouted', 'the unrouted LSP takes a share of the demand')

bug('b12-shortcut-unrouted', 'C08', [(FLEX, '''                                if lsp.effective_metric(self) == min_metric
                                and "Unrouted" not in lsp.path
                            ]
                        except (KeyError, ValueError):
                            # If''', '''                                if lsp.effective_metric(self) == min_metric
                            ]
                        except (KeyError, ValueError):
                            # If''')], '''
m = net(FlexModel, [('A', 'B', 1, 100), ('B', 'C', 1, 100), ('C', 'D', 1, 100)], [('A', 'D', 40, 'd')], [('B', 'C', 'l1', 10.0, 7), ('B', 'C', 'l2', 900.0, 7)])
m.get_node_object('B').igp_shortcuts_enabled = True
try:
    sim(m)
except Exception:
    raise SystemExit(1)
[d] = m.demand_objects
assert names(d.path) == [('A>B#0', 'l1', 'C>D#2')], d.path
''', 'an IGP shortcut group with two LSPs of the same manual metric, one of them unrouted', 'transit demands are put on an LSP that is not routed')

bug('b13-shortcut-traffic-once', 'C09', [(RSVP, '''                        igp_shortcut_traffic += path_data["path_traffic"]
''', '''                        igp_shortcut_traffic += path_data["path_traffic"]
                        break
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A', 'C', 1), ('B', 'D', 1), ('C', 'D', 1), ('D', 'E', 1), ('E', 'F', 1)], [('A', 'F', 40, 'd')], [('D', 'E', 'l')])
m.get_node_object('D').igp_shortcuts_enabled = True
sim(m)
[l] = m.rsvp_lsp_objects
assert close(l.traffic_on_lsp(m), 40), l.traffic_on_lsp(m)
''', 'a demand that reaches a shortcut LSP over several equal-cost paths', 'only the first path through the LSP is counted in its traffic')

bug('b14-diag-first-hop', 'C09', [(MAST, '''                for object in path:
                    if isinstance(object, RSVP_LSP):
                        dmds_riding_lsps.add(dmd)
''', '''                for object in path[:1]:
                    if isinstance(object, RSVP_LSP):
                        dmds_riding_lsps.add(dmd)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)], [('A', 'D', 40, 'd')], [('B', 'D', 'l')])
m.get_node_object('B').igp_shortcuts_enabled = True
sim(m)
assert m.simulation_diagnostics()['Number of Demands riding LSPs'] == 1
''', 'a demand that enters an LSP after its first hop', 'the diagnostics miss demands that ride an LSP mid path')

bug('b15-stale-groups', 'C10', [(PERF, '''        self._parallel_lsp_groups = {}  # Reset the attribute

        # This set of interfaces can be used to route traffic
''', '''        # This set of interfaces can be used to route traffic
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1)], [('A', 'B', 40, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2')]))
m.rsvp_lsp_objects.remove(m.get_rsvp_lsp('A', 'B', 'l2'))
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('l1',)], d.path
''', 'an LSP taken out of the model after a simulation, and a second simulation', 'the groups of the earlier run survive and a removed LSP still carries traffic')

bug('b16-setter-remote-node', 'C12', [(INTF, '''            # Check to see if both nodes are failed = False
            if (
                self.node_object.failed is False
                and self.remote_node_object.failed is False
            ):
                self._failed = False
''', '''            # Check to see if the node is failed = False
            if self.node_object.failed is False:
                self._failed = False
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)])
sim(m)
i = itf(m, 'A>B#0')
i.add_to_srlg('s', m, create_if_not_present=True)
m.fail_srlg('s')
m.fail_node('B')
quiet(m.unfail_srlg, 's')
assert i.failed and itf(m, 'B>A#0').failed
i.add_to_srlg('s', m)
i.remove_from_srlg('s', m)
assert i.failed and itf(m, 'B>A#0').failed, (i.failed, itf(m, 'B>A#0').failed)
''', 'a circuit to a failed node whose interface leaves a shared-risk group', 'one end of the circuit comes up although its remote node is failed')

bug('b17-unfail-srlg-abort', 'C12', [(MAST, '''        for interface in interfaces_to_unfail_iterator:
            try:
                self.unfail_interface(interface.name, interface.node_object.name)
            except ModelException:
                pass
''', '''        try:
            for interface in interfaces_to_unfail_iterator:
                self.unfail_interface(interface.name, interface.node_object.name)
        except ModelException:
            pass
''')], '''
for k in range(6):
    cs = [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'A', 1)]
    m = sim(net(FlexModel, cs))
    for c in range(4):
        i = itf(m, '%s>%s#%d' % (cs[c][0], cs[c][1], c))
        i.add_to_srlg('s', m, create_if_not_present=(c == 0))
    stay = itf(m, '%s>%s#%d' % (cs[k % 4][0], cs[k % 4][1], k % 4))
    stay.add_to_srlg('s2', m, create_if_not_present=True)
    m.fail_srlg('s')
    m.fail_srlg('s2')
    quiet(m.unfail_srlg, 's')
    for c in range(4):
        i = itf(m, '%s>%s#%d' % (cs[c][0], cs[c][1], c))
        assert i.failed == (c == k % 4), (k, i, i.failed)
''', 'a shared-risk group with several members of which one must stay down', 'restoring the group stops at the first member that has to stay failed')

bug('b18-case-insensitive-names', 'C15', [(MAST, '''            node_int_list = [interface.name for interface in node.interfaces(self)]
''', '''            node_int_list = [
                interface.name.strip().lower() for interface in node.interfaces(self)
            ]
''')], '''
a, b = Node('A'), Node('B')
ifs = set()
for k, (x, y) in enumerate([('ge-0', 'g1'), ('GE-0', 'g2')]):
    ifs |= {Interface(x, 1, 10, a, b, k), Interface(y, 1, 10, b, a, k)}
m = FlexModel(ifs, {a, b}, set(), set())
assert not raises(m.validate_model) and not raises(m.update_simulation)
''', 'two interfaces of a node whose names differ only in case', 'a well-formed model is rejected')

bug('b19-capacity-rounded', 'C15', [(MAST, '''        if int1.capacity != int2.capacity:
''', '''        if int(int1.capacity) != int(int2.capacity):
''')], '''
a, b = Node('A'), Node('B')
m = FlexModel({Interface('x', 1, 10.7, a, b, 1), Interface('y', 1, 10.2, b, a, 1)}, {a, b}, set(), set())
assert raises(m.validate_model)
''', 'a circuit whose ends differ in capacity by less than one unit', 'the mismatch is accepted')

bug('b20-circuit-lookup-by-id', 'C16', [(MAST, '''            if interface in (ckt.interface_a, ckt.interface_b)
''', '''            if interface.circuit_id == ckt.circuit_id()
''')], '''
ns = {n: Node(n) for n in 'ABC'}
ifs = set()
for x, y, k in [('A', 'B', 1), ('B', 'C', 1)]:
    ifs |= {Interface(x + y, 1, 10, ns[x], ns[y], k), Interface(y + x, 1, 10, ns[y], ns[x], k)}
m = FlexModel(ifs, set(ns.values()), set(), set())
sim(m)
for i in m.interface_objects:
    c = m.get_circuit_object_from_interface(i.name, i.node_object.name)
    assert i in (c.interface_a, c.interface_b), (i, c)
''', 'circuits between different node pairs that use the same circuit id (flexible model)', 'the lookup returns the circuit of other interfaces')


bug('b22-node-lon-check', 'C18', [(NODE, '''        if not (isinstance(lon, float)) and not (isinstance(lon, int)):
            raise ValueError("lon must be a float value")

    def''', '''        if not (isinstance(lon, float)) and not (isinstance(lat, int)):
            raise ValueError("lon must be a float value")

    def''')], '''
try:
    Node('A', 1, 'east')
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''', 'a node made with a numeric latitude and a longitude that is no number', 'the longitude is accepted')

bug('b23-lookup-by-joined-name', 'C16', [(MAST, '''        int_key = (interface_name, node_object_name)
        interface_key_iterator = (
            interface._key for interface in self.interface_objects
        )
''', '''        int_key = "".join((interface_name, node_object_name))
        interface_key_iterator = (
            "".join(interface._key) for interface in self.interface_objects
        )
''')], '''
a, b = Node('1A'), Node('A')
m = FlexModel({Interface('ge', 1, 10, a, b, 1), Interface('xe', 1, 10, b, a, 1)}, {a, b}, set(), set())
sim(m)
assert raises(m.get_interface_object, 'ge1', 'A')
assert raises(m.get_circuit_object_from_interface, 'ge1', 'A')
''', 'an interface name and node name whose concatenation equals that of an existing interface', 'a missing interface passes for existing, and the lookup fails with another error')

bug('b24-adjacent-unfailed', 'C23', [(NODE, '''        for adjacency in adjacencies:
            adjacent_nodes.add(adjacency.remote_node_object)
''', '''        for adjacency in adjacencies:
            if not adjacency.remote_node_object.failed:
                adjacent_nodes.add(adjacency.remote_node_object)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('A', 'C', 1)]))
m.fail_node('B')
assert {n.name for n in m.get_node_object('A').adjacent_nodes(m)} == {'B', 'C'}
''', 'a failed neighbour', 'adjacent nodes leave out failed neighbours')

bug('b25-int-demands-first', 'C23', [(INTF, '''                    elif self in dmd_path:
                        dmd_set.add(demand)
''', '''                        break
                    elif self in dmd_path:
                        dmd_set.add(demand)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'E', 1)], [('A', 'E', 40, 'd')], [('A', 'B', 'l1'), ('C', 'D', 'l2')])
for n in 'AC':
    m.get_node_object(n).igp_shortcuts_enabled = True
sim(m)
for i in range(4):
    assert len(itf(m, '%s>%s#%d' % ('ABCD'[i], 'BCDE'[i], i)).demands(m)) == 1, i
''', 'a demand that uses an LSP and afterwards links or another LSP', 'interfaces after the first LSP of a path do not list the demand')

bug('b26-shortcut-end-node', 'C08', [(FLEX, '''                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[-1]
                    ):
''', '''                    if node_path.index(node_name) <= node_path.index(
                        next_node_to_check[-1]
                    ):
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)], [('A', 'D', 40, 'd')], [('A', 'B', 'l1'), ('B', 'C', 'l2')])
for n in 'AB':
    m.get_node_object(n).igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('l1', 'l2', 'C>D#2')], d.path
''', 'an LSP that starts exactly where the previous LSP of the path ends', 'the second shortcut is skipped')

bug('b27-node-shortcut-row', 'C17', [(MAST, '''            existing_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
''', '''            if igp_shortcuts_enabled_value is True:
                existing_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
''')], '''
m = loads(FlexModel, """INTERFACES_TABLE
node_object_name\\tremote_node_object_name\\tname\\tcost\\tcapacity\\tcircuit_id
A\\tB\\tA-to-B\\t4\\t100\\t1
B\\tA\\tB-to-A\\t4\\t100\\t1

NODES_TABLE
name\\tlon\\tlat\\tigp_shortcuts_enabled
A\\t50\\t0\\tTrue
B\\t0\\t-50\\tFalse

DEMANDS_TABLE
source\\tdest\\ttraffic\\tname
A\\tB\\t80\\tdmd_a_b_1
""")
assert m.get_node_object('A').igp_shortcuts_enabled is True
assert m.get_node_object('B').igp_shortcuts_enabled is False
''', 'a node row that enables IGP shortcuts for a node known from the interfaces', 'the flag of the file is dropped')

bug('b28-cutoff-edges', 'C14', [(PERF, '''        digraph_all_paths = nx.all_simple_paths(
            G, source_node_name, dest_node_name, cutoff=cutoff
        )
''', '''        digraph_all_paths = nx.all_simple_paths(
            G, source_node_name, dest_node_name, cutoff=min(cutoff, len(G) - 2)
        )
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)]))
assert names(m.get_all_paths_reservable_bw('A', 'D')['path']) == [('A>B#0', 'B>C#1', 'C>D#2')]
''', 'a path that visits every node of the model', 'paths through all nodes are not listed')

bug('b29-sp-cost-hops', 'C13', [(PERF, '''        # Find the shortest paths in G between source and dest
        digraph_shortest_paths = nx.all_shortest_paths(
            G, source_node_name, dest_node_name, weight="cost"
        )

        try:
            for path in digraph_shortest_paths:
                model_path = self._convert_nx_path_to_model_path(path)
                converted_path["path"].append(model_path)
''', '''        # Find the shortest paths in G between source and dest
        digraph_shortest_paths = nx.all_shortest_paths(
            G, source_node_name, dest_node_name, weight="cost"
        )

        try:
            for path in digraph_shortest_paths:
                model_path = self._convert_nx_path_to_model_path(path)
                if converted_path["path"] and len(model_path) > 2 * len(
                    converted_path["path"][0]
                ):
                    continue
                converted_path["path"].append(model_path)
''')], '''
for perm in [('B', 'C'), ('C', 'B')]:
    m = sim(net(PerformanceModel, [('A', 'D', 3), ('A', perm[0], 1), (perm[0], perm[1], 1), (perm[1], 'D', 1)]))
    assert len(m.get_shortest_path('A', 'D')['path']) == 2
''', 'equal-cost paths of which one has more than twice the hops of the one found first', 'the longer equal-cost path is left out')

bug('b30-flex-min-path-limit', 'C19', [(FLEX, '''        if len(paths_with_lsps) == 1:
            return paths_with_lsps
''', '''        if len(paths_with_lsps) <= 2:
            return paths_with_lsps
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A', 'C', 1), ('B', 'D', 1), ('C', 'D', 1)], [('A', 'D', 40, 'd')], [('B', 'D', 'l', 5.0, 9)])
m.get_node_object('B').igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>C#1', 'C>D#3')], d.path
''', 'exactly two alternatives, one of them over an LSP with a higher manual metric', 'the alternative with the higher metric stays in use')
BUGS[-1]['prop'] = 'C08'
