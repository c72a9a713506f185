from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401

bug('i01-shortcuts-first-path', 'C08', [(FLEX, '''        for node_path in node_paths:
            all_nodes_in_paths = all_nodes_in_paths + node_path
''', '''        for node_path in node_paths[:1]:
            all_nodes_in_paths = all_nodes_in_paths + node_path
''')], '''
for k in 'BC':
    m = net(FlexModel, [('A', 'B', 1), ('B', 'D', 1), ('A', 'C', 1), ('C', 'D', 1), ('D', 'E', 1)],
            [('A', 'E', 12, 'd')], [(k, 'E', 'l')])
    m.get_node_object(k).igp_shortcuts_enabled = True
    sim(m)
    [d] = m.demand_objects
    assert any(getattr(x, 'lsp_name', '') == 'l' for p in d.path for x in p), (k, d.path)
''', 'two equal-cost node paths of which only one has an enabled node', 'the LSP of the enabled node is not used, depending on the order of the paths')

bug('i03-traffic-first-path', 'C09', [(RSVP, '''                    if self in path_data["items"]:
                        igp_shortcut_traffic += path_data["path_traffic"]
''', '''                    if self in path_data["items"]:
                        igp_shortcut_traffic += path_data["path_traffic"]
                        break
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)], [('A', 'D', 12, 'd')], [('B', 'D', 'l')])
m.get_node_object('B').igp_shortcuts_enabled = True
sim(m)
[l] = m.rsvp_lsp_objects
assert l.traffic_on_lsp(m) == 12, l.traffic_on_lsp(m)
''', 'parallel links ahead of a shortcut LSP', 'only the traffic of one of the paths counts')

bug('i04-demands-one-lsp', 'C03', [(INTF, '''                        if self in object.path["interfaces"]:
                            dmd_set.add(demand)
                    elif''', '''                        if self in object.path["interfaces"]:
                            dmd_set.add(demand)
                        break
                    elif''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)], [('A', 'D', 12, 'd')], [('A', 'B', 'l'), ('B', 'C', 'k')])
for n in 'AB':
    m.get_node_object(n).igp_shortcuts_enabled = True
sim(m)
for i in ('A>B#0', 'B>C#1', 'C>D#2'):
    assert len(itf(m, i).demands(m)) == 1, i
''', 'a demand over two shortcut LSPs in a row', 'the demand is not reported beyond the first LSP')

bug('i08-node-one-group-up', 'C12', [(NODE, '''            if len(failed_srlgs) > 0:
''', '''            if len(failed_srlgs) > 0 and len(failed_srlgs) == len(self.srlgs):
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
b = m.get_node_object('B')
for s in 'xy':
    m.add_srlg(s)
    b.add_to_srlg(s, m)
m.fail_srlg('x')
try:
    m.unfail_node('B')
except ModelException:
    pass
assert b.failed
''', 'a node in two groups of which one is failed', 'the node can be restored while the group is failed')

bug('i18-demands-at-the-ends', 'C09', [(RSVP, '''                    if self in dmd_path:
                        demand_set.add(demand)
''', '''                    if self in dmd_path[:2] or self in dmd_path[-2:]:
                        demand_set.add(demand)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'E', 1), ('E', 'F', 1)], [('A', 'F', 12, 'd')], [('C', 'D', 'l')])
m.get_node_object('C').igp_shortcuts_enabled = True
sim(m)
[l] = m.rsvp_lsp_objects
assert l.traffic_on_lsp(m) == 12, l.traffic_on_lsp(m)
''', 'a shortcut LSP with two links before and after it', 'its demands are not found')

bug('i27-graph-bw-rounded', 'C05', [(FLEX, '''                needed_bw=lsp.setup_bandwidth,
''', '''                needed_bw=round(lsp.setup_bandwidth, 1),
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 10), ('A', 'C', 1, 100), ('C', 'B', 1, 100)], [], [('A', 'B', 'l', 10.04)]))
[l] = m.rsvp_lsp_objects
assert l.path != 'Unrouted' and [i.name for i in l.path['interfaces']] == ['A>C#1', 'C>B#2'], l.path
''', 'a setup bandwidth a fraction above what the cheapest path has left', 'the LSP is unrouted although another path has room')

bug('i31-metric-updates-path', 'C25', [(RSVP, '''            metric = sum(interface.cost for interface in self.path["interfaces"])

        return metric''', '''            metric = sum(interface.cost for interface in self.path["interfaces"])
            self.path["path_cost"] = metric

        return metric''')], '''
m = sim(net(FlexModel, [('A', 'B', 2, 10)], [], [('A', 'B', 'l')]))
[l] = m.rsvp_lsp_objects
itf(m, 'A>B#0').cost = 7
l.topology_metric(m)
assert l.path['path_cost'] == 2, l.path
''', 'a cost changed after the simulation', 'asking for the metric of an LSP changes the result of the simulation')

bug('i32-lsps-by-interface-name', 'C23', [(INTF, '''            if self in lsp.path["interfaces"]:
                lsp_set.add(lsp)
''', '''            if self.name in {interface.name for interface in lsp.path["interfaces"]}:
                lsp_set.add(lsp)
''')], '''
a, b, c = Node('a'), Node('b'), Node('c')
ifs = {Interface('e0', 1, 10, a, b, 1), Interface('e1', 1, 10, b, a, 1), Interface('e0', 1, 10, b, c, 2), Interface('e1', 1, 10, c, b, 2)}
m = sim(FlexModel(ifs, {a, b, c}, set(), {RSVP_LSP(a, b, 'l')}))
assert m.get_interface_object('e0', 'b').lsps(m) == []
assert len(m.get_interface_object('e0', 'a').lsps(m)) == 1
''', 'interfaces of different nodes with the same name', 'LSPs of the other interface are listed')

bug('i33-failed-group-again', 'C12', [(MAST, '''        srlg_to_fail = self.get_srlg_object(srlg_name)

''', '''        srlg_to_fail = self.get_srlg_object(srlg_name)

        if srlg_to_fail.failed:
            return

''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
m.add_srlg('x')
m.get_node_object('A').add_to_srlg('x', m)
m.fail_srlg('x')
m.get_node_object('C').add_to_srlg('x', m)
m.fail_srlg('x')
assert m.get_node_object('C').failed
''', 'a node joins a failed group, which is then failed again', 'the new member stays up')

bug('i47-load-by-topology', 'C09', [(FLEX, '''                    if lsp.effective_metric(self) == min_metric
                    and "Unrouted" not in lsp.path
                ]
            except (KeyError, ValueError):
                # If there is no LSP group that matches the demand source/dest (KeyError) or there are no routed
''', '''                    if lsp.effective_metric(self) == min_metric
                    and "Unrouted" not in lsp.path
                    and lsp.topology_metric(self)
                    <= 2 * candidate_lsps_for_demand[0].effective_metric(self)
                ]
            except (KeyError, ValueError, TypeError):
                # If there is no LSP group that matches the demand source/dest (KeyError) or there are no routed
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 10), ('A', 'C', 5, 100), ('C', 'B', 5, 100)], [('A', 'B', 20, 'd')], [('A', 'B', 'l', 10), ('A', 'B', 'k', 10)]))
for l in m.rsvp_lsp_objects:
    assert l.path != 'Unrouted'
    for i in l.path['interfaces']:
        assert i.traffic == 10, (i, i.traffic)
''', 'an LSP of the group on a path more than twice as long', 'its traffic is put on the other LSP of the group')

bug('i50-shortcut-node-idle', 'C15', [(PERF, '''            node for node in self.node_objects if node.igp_shortcuts_enabled is True
''', '''            node
            for node in self.node_objects
            if node.igp_shortcuts_enabled is True and not node.failed
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1), ('B', 'C', 1)]))
m.fail_node('C')
m.get_node_object('C').igp_shortcuts_enabled = True
try:
    quiet(m.validate_model)
except ModelException:
    pass
else:
    raise AssertionError('accepted')
''', 'a failed node with IGP shortcuts in the single-link model', 'validation accepts it')

bug('i53-resignal-rounded', 'C05', [(FLEX, '''            if effective_reservable_bw >= needed_bw:
                eligible_interfaces.add(interface)

        # Get edge names in eligible_interfaces
''', '''            if effective_reservable_bw >= round(needed_bw, 1):
                eligible_interfaces.add(interface)

        # Get edge names in eligible_interfaces
''')], '''
# two LSPs share 20.08; one is too much for its group, the other then asks for all of it
m = sim(net(FlexModel, [('A', 'B', 1, 20)], [('A', 'B', 20.04, 'd')], [('A', 'B', 'l'), ('A', 'B', 'k')]))
routed = [l for l in m.rsvp_lsp_objects if l.path != 'Unrouted']
assert len(routed) == 1 and routed[0].reserved_bandwidth == 10.02, [l.reserved_bandwidth for l in routed]
''', 'a raised bandwidth a fraction above what the path has', 'the LSP signals for more than its path can reserve')

bug('i54-setup-kept', 'C06', [(FLEX, '''                lsp.reserved_bandwidth = traff_on_each_group_lsp
                lsp.setup_bandwidth = traff_on_each_group_lsp
            else:''', '''                lsp.reserved_bandwidth = traff_on_each_group_lsp
                lsp.setup_bandwidth = min(
                    traff_on_each_group_lsp,
                    max(
                        interface.capacity
                        for interface in lsp.source_node_object.interfaces(self)
                    ),
                ) if lsp.source_node_object.interfaces(self) else traff_on_each_group_lsp
            else:''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 20)], [('A', 'B', 25, 'd')], [('A', 'B', 'l')]))
[l] = m.rsvp_lsp_objects
assert l.path == 'Unrouted', (l.path, l.reserved_bandwidth)
''', 'an LSP whose demands exceed every link of its source', 'it signals for less than its traffic and is routed')
