from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401

SHOW = '''
import contextlib, io


def shown(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return b.getvalue()
'''

bug('f01-display-rounds', 'C25', [(MAST, '''            "Traffic".ljust(12),
        )

        interface_iterator = iter(self.interface_objects)

        for interface in interface_iterator:
            print(
                interface.node_object.name.ljust(12), interface.name.ljust(12), end=" "
            )
''', '''            "Traffic".ljust(12),
        )

        interface_iterator = iter(self.interface_objects)

        for interface in interface_iterator:
            if not interface.failed:
                interface.traffic = round(interface.traffic, 1)
            print(
                interface.node_object.name.ljust(12), interface.name.ljust(12), end=" "
            )
''')], SHOW + '''
m = sim(net(FlexModel, [('A', 'B', 1, 0.5)], [('A', 'B', 0.24, 'd')]))
i = itf(m, 'A>B#0')
u = i.utilization, i.traffic
shown(m.display_interfaces_traffic)
assert (i.utilization, i.traffic) == u, (u, i.utilization, i.traffic)
''', 'a fractional amount of traffic, and a display before the amounts are read', 'displaying the traffic changes the simulation results')

bug('f02-display-by-name', 'C25', [(MAST, '''            "Traffic".ljust(12),
        )

        interface_iterator = iter(self.interface_objects)

        for interface in interface_iterator:
            print(
                interface.node_object.name.ljust(12), interface.name.ljust(12), end=" "
            )
''', '''            "Traffic".ljust(12),
        )

        interface_iterator = iter(self.interface_objects)

        by_name = {interface.name: interface for interface in interface_iterator}
        for name, interface in sorted(by_name.items()):
            print(
                interface.node_object.name.ljust(12), interface.name.ljust(12), end=" "
            )
''')], SHOW + '''
m = sim(net(FlexModel, [('A', 'B', 1)], [('A', 'B', 3, 'd')]))
a, b = itf(m, 'A>B#0'), itf(m, 'B>A#0')
a.name = b.name = 'xe-0'
t = shown(m.display_interfaces_traffic)
assert t.count('xe-0') == 2, t
''', 'interfaces of the same name on different nodes', 'only one of them is displayed')

bug('f03-display-pairs', 'C25', [(MAST, '''        demand_iter = iter(self.demand_objects)

        for demand in demand_iter:
            print("demand._key is", demand._key)
''', '''        demand_iter = {
            (demand.source_node_object.name, demand.dest_node_object.name): demand
            for demand in self.demand_objects
        }

        for demand in demand_iter.values():
            print("demand._key is", demand._key)
''')], SHOW + '''
m = sim(net(PerformanceModel, [('A', 'B', 1)], [('A', 'B', 3, 'd'), ('A', 'B', 4, 'e')]))
t = shown(m.display_demand_paths)
assert t.count('demand._key') == 2, t
''', 'two demands between the same nodes', 'one of them is not displayed')

bug('f04-map-spreads', 'C25', [(WM, '''            capacity = int_a.capacity

            try:
                ckt_id''', '''            capacity = int_a.capacity

            if (node_a_x, node_a_y) == (node_b_x, node_b_y):
                # Nodes without distinct coordinates would be drawn on top of each other
                node_b.lon += 1
                node_b_x = node_b.lon * self.spacing_factor

            try:
                ckt_id''')], '''
from pyNTM.weathermap import WeatherMap
m = sim(net(FlexModel, [('A', 'B', 1)], [('A', 'B', 3, 'd')]))
WeatherMap(m).create_elements()
assert {n.lon for n in m.node_objects} == {0}, [n.lon for n in m.node_objects]
''', 'two connected nodes at the same coordinates', 'drawing the map moves nodes of the model')


bug('g01-group-carry', 'C26', [(MAST, '''        # Counter for LSP groups
        counter = 1
''', '''        # Counter for LSP groups
        counter = 1
        # Traffic each LSP in a parallel LSP group will carry; initialize
        traffic_in_demand_group = 0
        traff_on_each_group_lsp = 0
'''), (MAST, '''            # Traffic each LSP in a parallel LSP group will carry; initialize
            traffic_in_demand_group = 0
            traff_on_each_group_lsp = 0

            try:
''', '''            try:
''')], '''
ok = True
for k in range(12):
    a, b, p, q = 'A%d' % k, 'B%d' % k, 'P%d' % k, 'Q%d' % k
    m = sim(net(FlexModel, [(a, b, 1), (p, q, 1)], [(a, b, 10, 'd')], [(a, b, 'l'), (p, q, 'l'), (q, p, 'l')]))
    ok = ok and m.get_rsvp_lsp(p, q, 'l').reserved_bandwidth == 0 and m.get_rsvp_lsp(q, p, 'l').reserved_bandwidth == 0
assert ok
''', 'an LSP without demands routed after an LSP with demands', 'it reserves bandwidth for the demands of the other')

bug('g04-graph-once', 'C26', [(PERF, '''        for lsp in lsps:
            # Check to see if configured_setup_bandwidth is set; if so,
            # set reserved_bandwidth and setup_bandwidth equal to
            # configured_setup_bandwidth value
            if lsp.configured_setup_bandwidth is None:
''', '''        # Interfaces in a part of the network without RSVP headroom are not of interest
        if not any(
            interface.rsvp_enabled and interface.reservable_bandwidth > 0
            for interface in self.interface_objects
        ):
            for lsp in lsps:
                lsp.path = lsp.reserved_bandwidth = "Unrouted"
            return

        for lsp in lsps:
            # Check to see if configured_setup_bandwidth is set; if so,
            # set reserved_bandwidth and setup_bandwidth equal to
            # configured_setup_bandwidth value
            if lsp.configured_setup_bandwidth is None:
''')], '''
def up(k, extra):
    a, b, d = 'A%d' % k, 'B%d' % k, 'D%d' % k
    m = sim(net(PerformanceModel, [(a, b, 1, 10), (b, d, 1, 10)] + extra, [], [(a, d, 'l', 10), (d, a, 'l', 10), (a, b, 'm'), (b, d, 'm'), (d, b, 'm'), (b, a, 'm')]))
    return sorted(repr(x) for x in m.rsvp_lsp_objects if 'Unrouted' not in x.path)


for k in range(12):
    assert up(k, []) == up(k, [('P', 'Q', 1, 10)]), (up(k, []), up(k, [('P', 'Q', 1, 10)]))
''', 'an LSP that needs no bandwidth when every interface of the model is fully reserved', 'it stays unrouted, unless some other part of the network has bandwidth left')

bug('g05-metric-any-pair', 'C08', [(FLEX, '''                            min_metric = min(
                                lsp.effective_metric(self)
                                for lsp in candidate_lsps_for_demand
                                if "Unrouted" not in lsp.path
                            )
                            lsps = [''', '''                            min_metric = min(
                                lsp.effective_metric(self)
                                for lsp in self.rsvp_lsp_objects
                                if "Unrouted" not in lsp.path
                                and lsp.dest_node_object.name == destination
                                and lsp.source_node_object.name in node_path
                            )
                            lsps = [''')], '''
m = net(FlexModel, [('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1)], [('A', 'D', 12, 'd')], [('B', 'D', 'l', 10), ('C', 'D', 'k', 10, 1)])
m.get_node_object('B').igp_shortcuts_enabled = True
sim(m)
[d] = m.demand_objects
assert names(d.path) == [('A>B#0', 'l')], names(d.path)
''', 'IGP shortcuts with another LSP to the same destination from further down the path', 'the shortcut LSP is not taken')
