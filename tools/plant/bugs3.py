from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401
CIRC, DEM, SRLG, UTIL = 'pyNTM/circuit.py', 'pyNTM/demand.py', 'pyNTM/srlg.py', 'pyNTM/utilities.py'

bug('d01-ecmp-cap', 'C01', [(FLEX, '''        path_list = []

        for path in path_info:
            path = list(itertools.product(*path))
            for path_option in path:
''', '''        path_list = []

        for path in path_info:
            path = list(itertools.product(*path))[:16]
            for path_option in path:
''')], '''
for n in (4, 5):
    cs = [(chr(65 + i), chr(66 + i), 1) for i in range(n) for _ in range(2)]
    m = sim(net(FlexModel, cs, [('A', chr(65 + n), 10, 'd')]))
    [d] = m.demand_objects
    assert len(d.path) == 2 ** n, len(d.path)
''', 'more than sixteen equal-cost paths over the same nodes (parallel links on several hops in a row)', 'paths beyond the sixteenth are left out')

bug('d02-zero-bw-rsvp', 'C05', [(FLEX, '''        if rsvp_required is True:
''', '''        if rsvp_required is True and needed_bw:
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A', 'C', 5), ('C', 'B', 5)], [], [('A', 'B', 'l')])
itf(m, 'A>B#0').rsvp_enabled = False
sim(m)
[l] = m.rsvp_lsp_objects
assert 'interfaces' in l.path and [i.name for i in l.path['interfaces']] == ['A>C#1', 'C>B#2'], l.path
''', 'an LSP without any bandwidth whose cheapest path has an interface with RSVP disabled', 'the LSP stays unrouted although an RSVP path exists')

bug('d03-failed-zero', 'C18', [(INTF, '''        if not (isinstance(status, bool)):
            raise ModelException("must be boolean value")

        # Check for membership''', '''        if status not in (True, False):
            raise ModelException("must be boolean value")

        # Check for membership''')], '''
m = net(FlexModel, [('A', 'B', 1)])
i = itf(m, 'A>B#0')
for v in (0, 1, 0.0, 1.0):
    assert raises(setattr, i, 'failed', v), v
    assert i.failed is False
''', 'a number that equals a boolean', 'it is accepted, and 0 even fails the interface')

bug('d04-cost-kept', 'C18', [(INTF, '''        if cost < 1:
            raise ModelException("Interface cost cannot be less than 1")
        if not isinstance(cost, int):
            raise ModelException("Interface cost must be integer")
        self._cost = cost
''', '''        if cost < 1:
            raise ModelException("Interface cost cannot be less than 1")
        self._cost = cost
        if not isinstance(cost, int):
            raise ModelException("Interface cost must be integer")
''')], '''
m = net(FlexModel, [('A', 'B', 4)])
i = itf(m, 'A>B#0')
assert raises(setattr, i, 'cost', 2.5)
assert i.cost == 4, i.cost
''', 'a fractional cost set on an existing interface', 'the exception is raised but the cost is changed')

bug('d05-srlg-failed-any', 'C18', [(SRLG, '''        if isinstance(status, bool):
            self._failed = status
''', '''        if isinstance(status, (bool, int)):
            self._failed = status
''')], '''
m = net(FlexModel, [('A', 'B', 4)])
m.add_srlg('s')
s = m.get_srlg_object('s')
for v in (1, 0, 7):
    assert raises(setattr, s, 'failed', v), v
    assert s.failed is False
''', 'an integer set as the failed state of a shared risk group', 'it is accepted')

bug('d06-metric-bool', 'C18', [(RSVP, '''        elif value == -1:
''', '''        elif value in (-1, 0):
''')], '''
m = net(FlexModel, [('A', 'B', 4)], [], [('A', 'B', 'l')])
[l] = m.rsvp_lsp_objects
l.manual_metric = 7
assert raises(setattr, l, 'manual_metric', 0)
assert l.manual_metric == 7, l.manual_metric
''', 'a manual metric of zero', 'it clears the metric instead of being refused')

bug('d07-lower-metric-only', 'C07', [(RSVP, '''        if self.manual_metric != "not set":
            self.initial_manual_metric = None
            return self.manual_metric
''', '''        if self.manual_metric != "not set" and "Unrouted" not in self.path:
            self.initial_manual_metric = None
            return self.manual_metric
''')], '''
m = net(FlexModel, [('A', 'B', 4, 10)], [('A', 'B', 4, 'd')], [('A', 'B', 'l', 20.0, 3)])
sim(m)
[l] = m.rsvp_lsp_objects
assert l.effective_metric(m) == 3, l.effective_metric(m)
''', 'an unrouted LSP with a manual metric', 'its effective metric is not the one that was assigned')

bug('d09-first-path-traffic', 'C09', [(RSVP, '''                    if self in path_data["items"]:
                        igp_shortcut_traffic += path_data["path_traffic"]
''', '''                    if self in path_data["items"]:
                        igp_shortcut_traffic += path_data["path_traffic"]
                        break
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('B', 'C', 1), ('C', 'D', 1)], [('A', 'D', 12, 'd')], [('A', 'B', 'l')])
m.get_node_object('A').igp_shortcuts_enabled = True
sim(m)
[l] = m.rsvp_lsp_objects
assert close(l.traffic_on_lsp(m), 12), l.traffic_on_lsp(m)
''', 'a demand that takes an LSP and splits after it', 'only the first of its paths counts as traffic on the LSP')

bug('d10-dedupe-frozenset', 'C14', [(FLEX, '''        digraph_unique_paths = [
            list(path) for path in {tuple(path) for path in digraph_all_paths}
        ]
''', '''        digraph_unique_paths = list(
            {frozenset(path): path for path in digraph_all_paths}.values()
        )
''')], '''
m = sim(net(FlexModel, [(a, b, 1) for a, b in ('AB', 'AC', 'BC', 'BD', 'CD')]))
p = names(m.get_all_paths_reservable_bw('A', 'D', True, 10, 0)['path'])
assert len(p) == 4, p
''', 'two simple paths over the same nodes in different order', 'only one of them is listed')

bug('d11-orphan-latlon', 'C17', [(MAST, '''            node_set.add(new_node)
            new_node.lat = node_lat
            new_node.lon = node_lon
''', '''            node_set.add(new_node)
            new_node.lat = node_lon
            new_node.lon = node_lat
''')], r"""
m = loads(FlexModel, '\n'.join(['INTERFACES_TABLE', 'h', 'A\tB\tab\t1\t10\t1', 'B\tA\tba\t1\t10\t1', '', 'NODES_TABLE', 'name\tlon\tlat',
                                'A\t5\t7', 'Z\t8\t9', '', 'DEMANDS_TABLE', 'h', 'A\tB\t4\td', '']))
assert (m.get_node_object('A').lon, m.get_node_object('A').lat) == (5, 7)
assert (m.get_node_object('Z').lon, m.get_node_object('Z').lat) == (8, 9)
""", 'a node that only appears in the nodes table and has coordinates', 'its coordinates are exchanged')

bug('d12-lsp-name-only', 'C17', [(MAST, '''            if new_lsp._key not in {lsp._key for lsp in lsp_set}:
''', '''            if new_lsp.lsp_name not in {lsp.lsp_name for lsp in lsp_set}:
''')], r"""
m = loads(FlexModel, '\n'.join(['INTERFACES_TABLE', 'h', 'A\tB\tab\t1\t10\t1', 'B\tA\tba\t1\t10\t1', '', 'NODES_TABLE', 'name\tlon\tlat',
                                'A\t5\t7', '', 'DEMANDS_TABLE', 'h', 'A\tB\t4\td', '', 'RSVP_LSP_TABLE', 'h', 'A\tB\tl', 'B\tA\tl', '']))
assert len(m.rsvp_lsp_objects) == 2
""", 'two LSPs between different nodes with the same name', 'the second is not loaded')

bug('d13-setup-bw-int', 'C17', [(MAST, '''                configured_setup_bw = float(lsp_info[3])
''', '''                configured_setup_bw = float(int(float(lsp_info[3])))
''')], r"""
m = loads(PerformanceModel, '\n'.join(['INTERFACES_TABLE', 'h', 'A\tB\tab\t1\t10', 'B\tA\tba\t1\t10', '', 'NODES_TABLE', 'name\tlon\tlat',
                                'A\t5\t7', '', 'DEMANDS_TABLE', 'h', 'A\tB\t4\td', '', 'RSVP_LSP_TABLE', 'h', 'A\tB\tl\t2.5', '']))
[l] = m.rsvp_lsp_objects
assert l.configured_setup_bandwidth == 2.5
""", 'a fractional configured setup bandwidth in the file', 'it is cut to an integer')

bug('d14-circuit-id-str', 'C21', [(FLEX, '''                and interface.remote_node_object.name == remote_node_name
                and interface.circuit_id == circuit_id
''', '''                and interface.remote_node_object.name == remote_node_name
                and str(interface.circuit_id) == str(circuit_id)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A', 'B', 1)])
for i in m.interface_objects:
    if i.circuit_id == 2:
        i.circuit_id = '1'
quiet(m.validate_model)
assert len(m.circuit_objects) == 2
sim(m)
for c in m.circuit_objects:
    assert c.interface_a.circuit_id == c.interface_b.circuit_id
''', 'circuit ids of different types that print alike', 'their interfaces can not be paired')

bug('d15-circuit-half', 'C16', [(PERF, '''        elif int_b._key in existing_int_keys:
            raise ModelException(
                "interface {} on node {} already exists in model".format(
                    int_b, node_b_object
                )
            )
''', '''''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1), ('B', 'C', 1)]))
n = len(m.interface_objects)
a, b = m.get_node_object('A'), m.get_node_object('C')
assert raises(m.add_circuit, a, b, 'x', 'C>B#1', 1, 1, 10)
assert len(m.interface_objects) == n
sim(m)
''', 'a new circuit whose second interface has a name that is taken on its node', 'the call fails only after the interfaces were added, and leaves an invalid model')

bug('d16-lsps-zero', 'C23', [(INTF, '''            if self in lsp.path["interfaces"]:
                lsp_set.add(lsp)
''', '''            if self in lsp.path["interfaces"] and lsp.reserved_bandwidth:
                lsp_set.add(lsp)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1)], [], [('A', 'B', 'l')]))
assert len(itf(m, 'A>B#0').lsps(m)) == 1
''', 'a routed LSP without a reservation', 'the interface does not list it')

bug('d17-node-name-prefix', 'C20', [(NODE, '''            if interface.node_object.name == self.name:
                adjacency_list.append(interface)
''', '''            if interface.node_object.name.startswith(self.name):
                adjacency_list.append(interface)
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'A1', 1)])
m.fail_node('A')
sim(m)
assert sorted(i.name for i in m.get_failed_interface_objects()) == ['A>B#0', 'B>A#0'], m.get_failed_interface_objects()
''', 'a node whose name starts with the name of another node', 'the interfaces of both count as those of the first')

bug('d18-int-info-joined', 'C20', [(MAST, '''        keys = (interface._key for interface in self.interface_objects)
''', '''        keys = (interface.node_object.name + interface.name for interface in self.interface_objects)
'''), (MAST, '''                int_info[interface._key]["lsps"].append(lsp)
                int_info[interface._key][
                    "reserved_bandwidth"
                ] += lsp.reserved_bandwidth
''', '''                key = interface.node_object.name + interface.name
                int_info[key]["lsps"].append(lsp)
                int_info[key]["reserved_bandwidth"] += lsp.reserved_bandwidth
'''), (MAST, '''        lsp_reserved_bandwidth = int_info[interface._key]["reserved_bandwidth"]
''', '''        lsp_reserved_bandwidth = int_info[
            interface.node_object.name + interface.name
        ]["reserved_bandwidth"]
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A1', 'B', 1)], [], [('A', 'B', 'l', 5.0)])
itf(m, 'A>B#0').name, itf(m, 'A1>B#1').name = '11', '1'
m = FlexModel(set(m.interface_objects), m.node_objects, m.demand_objects, m.rsvp_lsp_objects)
sim(m)
''', 'two interfaces whose node and interface names join to the same text', 'their reservations are mixed and validation fails')

bug('d19-perf-exact-fit', 'C19', [(PERF, '''                if (
                    min([interface.reservable_bandwidth for interface in path])
                    >= lsp.setup_bandwidth
                ):
''', '''                if (
                    min([interface.reservable_bandwidth for interface in path])
                    - lsp.setup_bandwidth
                    > -1e-9 + 1e-6 * (len(path) > 1)
                ):
''')], '''
for cls in (FlexModel, PerformanceModel):
    m = sim(net(cls, [('A', 'B', 1, 40), ('B', 'C', 1, 100)], [], [('A', 'C', 'l', 40.0)]))
    [l] = m.rsvp_lsp_objects
    assert 'interfaces' in l.path, (cls, l.path)
''', 'an LSP over several hops that fits exactly', 'one of the two models does not route it')

bug('d21-percent-ceil', 'C04', [(INTF, '''                self.capacity * (self.percent_reservable_bandwidth / 100)
''', '''                self.capacity * (-(-self.percent_reservable_bandwidth // 1) / 100)
''')], '''
m = net(FlexModel, [('A', 'B', 1, 1000)], [], [('A', 'B', 'l', 404.0)])
itf(m, 'A>B#0').percent_reservable_bandwidth = 40.2
sim(m)
[l] = m.rsvp_lsp_objects
assert 'interfaces' not in l.path, l.path
''', 'a fractional reservable percentage', 'more than the reservable share can be reserved')

bug('d22-optimize-single', 'C06', [(MAST, '''            if len(routed_lsps_in_group) != len(lsps) and len(routed_lsps_in_group) > 0:
''', '''            if len(lsps) - len(routed_lsps_in_group) > 1 and len(routed_lsps_in_group) > 0:
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 60), ('A', 'C', 2, 120), ('C', 'B', 2, 120)], [('A', 'B', 120, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'l3', 500.0)]))
r = [x for x in m.rsvp_lsp_objects if 'interfaces' in x.path]
assert len(r) == 2 and sorted(x.reserved_bandwidth for x in r) == [60, 60], r
''', 'a group of which exactly one LSP can not be signalled', 'the others do not signal for the share they carry')

bug('d23-shortcut-chain-end', 'C08', [(FLEX, '''                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[-1]
                    ):
''', '''                    if node_path.index(node_name) <= node_path.index(
                        next_node_to_check[-1]
                    ) and len(next_node_to_check) > 1:
                        continue
                    if node_path.index(node_name) < node_path.index(
                        next_node_to_check[-1]
                    ):
''')], '''
m = net(FlexModel, [(a, b, 1) for a, b in ('AB', 'BC', 'CD', 'DE', 'EF')], [('A', 'F', 10, 'd')], [('A', 'B', 'l1'), ('B', 'C', 'l2'), ('C', 'D', 'l3')])
for n in 'ABC':
    m.get_node_object(n).igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('l1', 'l2', 'l3', 'D>E#3', 'E>F#4')], d.path
''', 'three LSPs in a chain along one path', 'the third is not taken')

bug('d24-unfail-any-srlg', 'C12', [(NODE, '''            failed_srlgs = [srlg for srlg in self.srlgs if srlg.failed is True]
            if len(failed_srlgs) > 0:
''', '''            failed_srlgs = [srlg for srlg in self.srlgs if srlg.failed is True]
            if failed_srlgs and len(failed_srlgs) == len(self.srlgs):
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
for s in ('s', 't', 'u'):
    m.add_srlg(s)
n = m.get_node_object('B')
for s in ('s', 't', 'u'):
    n.add_to_srlg(s, m)
m.fail_srlg('s')
m.fail_srlg('t')
m.unfail_srlg('t')
assert n.failed is True
''', 'a node in several groups of which some are failed', 'it comes up although one of its groups is failed')

bug('d25-mirror-failed', 'C15', [(MAST, '''        if int1.failed != int2.failed:
''', '''        if int1.failed and not int2.failed:
''')], '''
for a, b in (('A>B#0', 'B>A#0'), ('B>A#0', 'A>B#0')):
    m = net(FlexModel, [('A', 'B', 1), ('A', 'B', 2)])
    itf(m, a).failed = True
    sim(m)
    assert itf(m, b).failed is True
''', 'one end of a circuit failed directly on the object', 'depending on the order of the ends the other end stays up')

bug('d26-nonfailed-isolated', 'C23', [(MAST, '''            if not node.failed:
                node_object = self.get_node_object(node.name)
''', '''            if not node.failed and not (
                self.get_node_interfaces(node.name)
                and all(i.failed for i in self.get_node_interfaces(node.name))
            ):
                node_object = self.get_node_object(node.name)
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1), ('B', 'C', 1)]))
m.fail_interface('A>B#0', 'A')
assert sorted(n.name for n in m.get_non_failed_node_objects()) == ['A', 'B', 'C']
''', 'a node that is up but has only failed interfaces', 'it is not listed as up')

bug('d27-sp-needed-int', 'C13', [(PERF, '''        # Define a networkx DiGraph to find the path
        G = self._make_weighted_network_graph(
            include_failed_circuits=False, needed_bw=needed_bw
        )

        # Define the Model-style path to be built
        converted_path = {"path": [], "cost": None}
''', '''        # Define a networkx DiGraph to find the path
        G = self._make_weighted_network_graph(
            include_failed_circuits=False, needed_bw=int(needed_bw)
        )

        # Define the Model-style path to be built
        converted_path = {"path": [], "cost": None}
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1, 10), ('A', 'C', 1, 100), ('C', 'B', 1, 100)]))
p = m.get_shortest_path('A', 'B', 10.4)
assert names(p['path']) == [('A>C#1', 'C>B#2')], p
''', 'a fractional bandwidth', 'links with less than the needed bandwidth are used')

bug('d28-dup-nodes', 'C15', [(MAST, '''        for node in iter(self.node_objects):
            node_int_list = [interface.name for interface in node.interfaces(self)]
''', '''        for node in iter(self.node_objects - {n for n in self.node_objects if n.failed}):
            node_int_list = [interface.name for interface in node.interfaces(self)]
''')], '''
m = net(FlexModel, [('A', 'B', 1), ('A', 'B', 1)])
m.get_node_object('A').failed = True
x = itf(m, 'A>B#1')
m.interface_objects.remove(x)
x.name = 'A>B#0'
m.interface_objects.add(x)
assert raises(m.validate_model)
''', 'two interfaces of the same name on a failed node', 'validation accepts the model')

bug('d29-stale-detail', 'C10', [(PERF, '''        for demand in iter(self.demand_objects):
            demand.path = "Unrouted"
            demand._path_detail = "Unrouted_detail"
''', '''        for demand in iter(self.demand_objects):
            if demand.traffic:
                demand.path = "Unrouted"
                demand._path_detail = "Unrouted_detail"
''')], '''
m = sim(net(PerformanceModel, [('A', 'B', 1)], [('A', 'B', 0, 'd')]))
[d] = m.demand_objects
m.fail_interface('A>B#0', 'A')
sim(m)
assert d.path == 'Unrouted' and d.path_detail == 'Unrouted_detail', d.path_detail
''', 'a demand without traffic that loses its path', 'it keeps the path detail of the earlier simulation')

bug('d30-loads-percent-blank', 'C17', [(FLEX, '''                    rsvp_enabled,
                    percent_reservable_bandwidth,
                ] = interface_line.split("\\t")
                if rsvp_enabled in [True, "T", "True", "true", ""]:
''', '''                    rsvp_enabled,
                    percent_reservable_bandwidth,
                ] = interface_line.split("\\t")
                if rsvp_enabled in [True, "T", "True", "true"]:
''')], r"""
m = loads(FlexModel, '\n'.join(['INTERFACES_TABLE', 'h', 'A\tB\tab\t1\t10\t1\t\t50', 'B\tA\tba\t1\t10\t1\t\t', '', 'NODES_TABLE', 'name\tlon\tlat',
                                'A\t5\t7', '', 'DEMANDS_TABLE', 'h', 'A\tB\t4\td', '']))
assert all(i.rsvp_enabled is True for i in m.interface_objects)
""", 'a line with a percentage but a blank RSVP column', 'RSVP is disabled on the interface')
