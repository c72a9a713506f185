from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401

bug('j01-shortcut-span-first', 'C08', [(FLEX, '''                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[-1]
                    ):
''', '''                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[0]
                    ):
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('D', 'E', 1)], [('A', 'E', 12, 'd')],
        [('A', 'B', 'k'), ('B', 'D', 'l'), ('C', 'E', 'x')])
for n in 'ABC':
    m.get_node_object(n).igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('k', 'l', 'D>E#3')], names(d.path)
''', 'a second shortcut LSP that spans an enabled node with an LSP of its own', 'the LSP that starts inside the span is substituted as well')

bug('j02-no-path-memo', 'C05', [(FLEX, '''        for lsp in lsps:
            # Check to see if configured_setup_bandwidth is set; if so,
            # set reserved_bandwidth and setup_bandwidth equal to
            # configured_setup_bandwidth value
            if lsp.configured_setup_bandwidth is None:
''', '''        no_path = set()
        for lsp in lsps:
            if no_path and lsp.lsp_name not in no_path:
                lsp.path = "Unrouted"
                lsp.reserved_bandwidth = "Unrouted"
                continue
            # Check to see if configured_setup_bandwidth is set; if so,
            # set reserved_bandwidth and setup_bandwidth equal to
            # configured_setup_bandwidth value
            if lsp.configured_setup_bandwidth is None:
'''), (FLEX, '''                # There is no path; path = 'Unrouted'
                lsp.path = "Unrouted"
                lsp.reserved_bandwidth = "Unrouted"
                continue

            # Convert node hop by hop paths from G into Interface-based paths
''', '''                # There is no path; path = 'Unrouted'
                lsp.path = "Unrouted"
                lsp.reserved_bandwidth = "Unrouted"
                no_path.add(lsp.lsp_name)
                continue

            # Convert node hop by hop paths from G into Interface-based paths
''')], '''
import itertools
for big, small in (('a', 'b'), ('b', 'a')):
    for _ in range(20):
        m = sim(net(FlexModel, [('A', 'B', 1, 100)], [], [('A', 'B', big, 200), ('A', 'B', small, 10)]))
        assert m.get_rsvp_lsp('A', 'B', small).path != 'Unrouted'
''', 'a group with LSPs of different configured bandwidths, the larger unroutable one first', 'the smaller ones are not tried')

bug('j03-group-traffic-rounded', 'C06', [(MAST, '''        setup_bandwidth_optimized = traffic_in_demand_group / len(routed_lsps_in_group)
''', '''        setup_bandwidth_optimized = traffic_in_demand_group / len(routed_lsps_in_group)
        if len(routed_lsps_in_group) > 2:
            setup_bandwidth_optimized = setup_bandwidth_optimized // 1
''')], '''
m = net(FlexModel, [('A', 'B', 1, 16), ('A', 'B', 1, 16), ('A', 'B', 1, 16)], [('A', 'B', 40, 'd')], [('A', 'B', x) for x in 'wxyz'])
sim(m)
r = [l.reserved_bandwidth for l in m.rsvp_lsp_objects if l.path != 'Unrouted']
assert len(r) == 3 and all(abs(x - 40 / 3) < .05 or x == 10 for x in r), r
''', 'three of four parallel LSPs routed, re-signalling', 'the re-signalled bandwidth is truncated')

bug('j04-leave-group-other-end', 'C12', [(INTF, '''            remote_int = self.get_remote_interface(model)
            get_srlg.interface_objects.remove(remote_int)
            remote_int._srlgs.remove(get_srlg)
''', '''            remote_int = self.get_remote_interface(model)
            get_srlg.interface_objects.remove(remote_int)
            remote_int._srlgs.clear()
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
i = itf(m, 'A>B#0')
for s in 'xy':
    m.add_srlg(s)
    i.add_to_srlg(s, m)
i.remove_from_srlg('x', m)
assert [s.name for s in itf(m, 'B>A#0').srlgs] == ['y']
''', 'a circuit in two groups that leaves one', 'its remote end leaves both')

bug('j05-unfail-node-once', 'C12', [(MAST, '''        # Node will stay failed if it's part of another SRLG that is still failed;
        # in that case, the unfail_node will create an exception; ignore that exception
        for node in nodes_to_unfail_iterator:
            try:
                self.unfail_node(node.name)
            except ModelException:
                pass
''', '''        # Node will stay failed if it's part of another SRLG that is still failed;
        # in that case, the unfail_node will create an exception; ignore that exception
        try:
            for node in nodes_to_unfail_iterator:
                self.unfail_node(node.name)
        except ModelException:
            pass
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)]))
for s in 'xy':
    m.add_srlg(s)
for n in 'ABCD':
    m.get_node_object(n).add_to_srlg('x', m)
for k in 'ABCD':
    m.get_node_object(k).add_to_srlg('y', m)
    m.fail_srlg('x')
    m.fail_srlg('y')
    m.unfail_srlg('x')
    m.get_node_object(k)
    left = [n.name for n in m.node_objects if n.failed]
    assert left == [k], (k, left)
    m.unfail_srlg('y')
    m.get_node_object(k).remove_from_srlg('y', m)
''', 'a group with two nodes, one of them in another failed group', 'restoring stops at the first node that has to stay down')

bug('j06-metric-sum-int', 'C08', [(FLEX, '''                elif isinstance(item, RSVP_LSP):
                    path_metric += item.effective_metric(self)
            path_metrics.add(path_metric)
''', '''                elif isinstance(item, RSVP_LSP):
                    path_metric = item.effective_metric(self)
            path_metrics.add(path_metric)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'D', 1), ('A', 'C', 1), ('C', 'D', 1)], [('A', 'D', 12, 'd')], [('B', 'D', 'l'), ('C', 'D', 'k')])
for n in 'BC':
    m.get_node_object(n).igp_shortcuts_enabled = True
itf(m, 'A>B#0').cost = 2
itf(m, 'B>D#1').cost = 1
itf(m, 'A>C#2').cost = 1
itf(m, 'C>D#3').cost = 2
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>B#0', 'l'), ('A>C#2', 'k')], names(d.path)
''', 'two shortcut paths whose links ahead of the LSP cost differently', 'the links ahead of the last LSP are not counted')

bug('j08-unrouted-named', 'C20', [(FLEX, '''            try:
                lsp_list = [
                    lsp
                    for lsp in self.parallel_lsp_groups()[key]
                    if "Unrouted" not in lsp.path
                ]
''', '''            try:
                lsp_list = [
                    lsp
                    for lsp in self.parallel_lsp_groups()[key]
                    if "Unrouted" not in str(lsp.path)
                ]
''')], '''
m = sim(net(FlexModel, [('A', 'Unrouted', 1), ('Unrouted', 'B', 1)], [('A', 'B', 12, 'd')], [('A', 'B', 'l')]))
[d] = m.demand_objects
assert names(d.path) == [('l',)], d.path
''', 'a node whose name contains the marker of unrouted paths', 'LSPs through it are not used')

bug('j10-node-lookup-first', 'C16', [(MAST, '''        int_object = [
            interface
            for interface in node_object.interfaces(self)
            if interface.name == interface_name
        ]
        return int_object[0]
''', '''        int_object = [
            interface
            for interface in self.interface_objects
            if interface.name == interface_name
            and node_object in (interface.node_object, interface.remote_node_object)
        ]
        return int_object[0]
''')], '''
A, B, C = Node('A'), Node('B'), Node('C')
m = FlexModel({Interface('p', 1, 10, A, B, 1), Interface('p', 1, 10, B, A, 1), Interface('q', 1, 10, B, C, 2), Interface('p', 1, 10, C, B, 2)},
              {A, B, C}, set(), set())
sim(m)
for n in 'ABC':
    assert m.get_interface_object('p', n).node_object.name == n
''', 'both ends of a circuit with the same name', 'the lookup may return the other end')

bug('j13-add-circuit-one-end', 'C16', [(FLEX, '''        elif int_b._key in existing_int_keys:
            raise ModelException(
                "interface {} on node {} - "
                "interface already exists in model".format(int_b, node_b_object)
            )

        self.interface_objects.add(int_a)
        self.interface_objects.add(int_b)
''', '''        self.interface_objects.add(int_a)
        if int_b._key in existing_int_keys:
            raise ModelException(
                "interface {} on node {} - "
                "interface already exists in model".format(int_b, node_b_object)
            )
        self.interface_objects.add(int_b)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
n = len(m.interface_objects)
try:
    m.add_circuit(m.get_node_object('A'), m.get_node_object('B'), 'new', 'B>A#0', circuit_id=99)
    assert 0
except ModelException:
    pass
assert len(m.interface_objects) == n
''', 'a new circuit whose second interface name is taken', 'its first interface stays in the model')

bug('j14-load-blank-metric', 'C17', [(FLEX, '''                if rsvp_enabled in [True, "T", "True", "true", ""]:
                    rsvp_enabled_bool = True
                else:
                    rsvp_enabled_bool = False
                percent_reservable_bandwidth = 100
''', '''                if rsvp_enabled in [True, "T", "True", ""]:
                    rsvp_enabled_bool = True
                else:
                    rsvp_enabled_bool = False
                percent_reservable_bandwidth = 100
''')], '''
m = loads(FlexModel, """INTERFACES_TABLE
node_object_name\\tremote_node_object_name\\tname\\tcost\\tcapacity\\tcircuit_id\\trsvp_enabled
A\\tB\\tA-to-B\\t4\\t100\\t1\\ttrue
B\\tA\\tB-to-A\\t4\\t100\\t1\\ttrue

NODES_TABLE
name\\tlon\\tlat

DEMANDS_TABLE
source\\tdest\\ttraffic\\tname
A\\tB\\t80\\td
""")
assert all(i.rsvp_enabled for i in m.interface_objects)
''', 'a flag written in lower case in a seven-column row', 'the interface does not take LSPs')

bug('j15-remote-by-id', 'C21', [(INTF, '''                interface.node_object.name == self.remote_node_object.name
                and interface.remote_node_object.name == self.node_object.name
                and interface.circuit_id == self.circuit_id
''', '''                interface.node_object.name == self.remote_node_object.name
                and interface.name != self.name
                and interface.circuit_id == self.circuit_id
''')], '''
A, B = Node('A'), Node('B')
m = FlexModel({Interface('p', 1, 10, A, B, 1), Interface('p', 1, 10, B, A, 1)}, {A, B}, set(), set())
sim(m)
i = m.get_interface_object('p', 'A')
assert i.get_remote_interface(m).node_object is B
''', 'both ends of a circuit with the same interface name', 'the remote end is not found')

bug('j18-reserve-first-route', 'C04', [(MAST, '''                for interface in lsp_path_interfaces_before:
                    interface._reserved_bandwidth -= lsp_res_bw_before
                # . . . and then remove the new reserved bandwidth from the
                # new path interfaces
                for interface in lsp.path["interfaces"]:
                    interface._reserved_bandwidth += lsp.reserved_bandwidth
''', '''                if len(lsp.path["interfaces"]) == len(lsp_path_interfaces_before):
                    # same interfaces, only the difference has to be reserved
                    for interface in lsp_path_interfaces_before:
                        interface._reserved_bandwidth += lsp.reserved_bandwidth - lsp_res_bw_before
                else:
                    for interface in lsp_path_interfaces_before:
                        interface._reserved_bandwidth -= lsp_res_bw_before
                    for interface in lsp.path["interfaces"]:
                        interface._reserved_bandwidth += lsp.reserved_bandwidth
''')], '''
for _ in range(30):
    m = net(FlexModel, [('A', 'B', 1, 12), ('A', 'B', 1, 25)], [('A', 'B', 36, 'd')], [('A', 'B', x) for x in 'xyz'])
    sim(m)
    for i in m.interface_objects:
        assert abs(i.reserved_bandwidth - sum(l.reserved_bandwidth for l in i.lsps(m))) < .2
for _ in range(30):
    m = net(FlexModel, [('A', 'C', 1, 11), ('C', 'B', 1, 11), ('A', 'D', 2, 18), ('D', 'B', 2, 18)], [('A', 'B', 30, 'd')], [('A', 'B', x) for x in 'xyz'])
    sim(m)
    for i in m.interface_objects:
        assert abs(i.reserved_bandwidth - sum(l.reserved_bandwidth for l in i.lsps(m))) < .2
''', 're-signalling moves an LSP to another path with as many hops', 'the reservation stays on the old path')

bug('j19-headroom-added-twice', 'C13', [(FLEX, '''                effective_reservable_bw = (
                    interface.reservable_bandwidth + lsp.reserved_bandwidth
                )
''', '''                effective_reservable_bw = max(
                    interface.reservable_bandwidth, lsp.reserved_bandwidth
                )
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100)], [], [('A', 'B', 'l', 40)]))
[l] = m.rsvp_lsp_objects
assert m.get_shortest_path_for_routed_lsp('A', 'B', l, 90)['path']
''', 'needed bandwidth above both the free and the own bandwidth', 'no path')

