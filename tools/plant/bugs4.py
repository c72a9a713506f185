from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401

bug('e01-metric-needs-bw', 'C07', [(RSVP, '''            return model.get_shortest_path(
                self.source_node_object.name, self.dest_node_object.name, needed_bw=0
            )["cost"]
''', '''            return model.get_shortest_path(
                self.source_node_object.name,
                self.dest_node_object.name,
                needed_bw=self.configured_setup_bandwidth or 0,
            )["cost"]
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 10), ('A', 'C', 2, 100), ('C', 'B', 2, 100)], [('A', 'B', 5, 'd')],
            [('A', 'B', 'l1', 10), ('A', 'B', 'l2', 0, 3)]))
assert m.get_rsvp_lsp('A', 'B', 'l1').effective_metric(m) == 1, m.get_rsvp_lsp('A', 'B', 'l1').effective_metric(m)
[d] = m.demand_objects
assert names(d.path) == [('l1',)], d.path
''', 'an LSP without a metric whose setup bandwidth fills the shortest path', 'its metric is that of a longer path and the demand takes another LSP')

bug('e02-metric-clear', 'C07', [(RSVP, '''            self.initial_manual_metric = None
            self._manual_metric = "not set"
''', '''            self._manual_metric = "not set"
''')], '''
m = net(PerformanceModel, [('A', 'B', 2)], [('A', 'B', 5, 'd')], [('A', 'B', 'l1', None, 7)])
x = m.get_rsvp_lsp('A', 'B', 'l1')
x.manual_metric = -1
sim(m)
assert x.effective_metric(m) == 2, x.effective_metric(m)
''', 'a metric given at creation and cleared before it was ever read', 'the old metric stays')

bug('e04-exact-fit', 'C19', [(PERF, '''            if effective_reservable_bw >= needed_bw:
                eligible_interfaces.add(interface)
''', '''            if effective_reservable_bw > needed_bw:
                eligible_interfaces.add(interface)
''')], '''
def build(cls):
    return sim(net(cls, [('A', 'B', 1, 30), ('A', 'C', 1, 20), ('C', 'B', 1, 20)], [('A', 'B', 60, 'd')], [('A', 'B', 'l1'), ('A', 'B', 'l2'), ('A', 'B', 'l3')]))


a, b = [sorted(str(x.reserved_bandwidth) for x in build(cls).rsvp_lsp_objects) for cls in (FlexModel, PerformanceModel)]
assert a == b, (a, b)
''', 'a group LSP that is raised to exactly what its path has left', 'its reservation is not raised in the single-link model')

bug('e10-lsp-by-name', 'C22', [(WM, '''        lsp = model.get_rsvp_lsp(lsp_data["source"], lsp_data["dest"], lsp_data["name"])
        lsp_interfaces''', '''        [lsp] = [
            lsp
            for lsp in model.rsvp_lsp_objects
            if lsp.lsp_name == lsp_data["name"]
            and lsp.source_node_object.name == lsp_data["source"]
        ][:1]
        lsp_interfaces''')], '''
from pyNTM.weathermap import WeatherMap
m = sim(net(FlexModel, [('A', 'B', 1, 40), ('A', 'C', 1)], [], [('A', 'B', 'l'), ('A', 'C', 'l')]))
w = WeatherMap(m)
for b in 'BC':
    i, n = w.get_lsp_interface_data(m, {'source': 'A', 'dest': b, 'name': 'l'})
    assert n == {'A', b}, (b, n)
''', 'LSPs of the same name and source to different destinations', 'the path of the other LSP is highlighted')

bug('e11-groups-default', 'C24', [(MAST, '''    def parallel_demand_groups(self):
''', '''    def parallel_demand_groups(self, parallel_demand_groups={}):
'''), (MAST, '''        parallel_demand_groups = {}

        for src_node_name in src_node_names:
''', '''        for src_node_name in src_node_names:
''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 40)], [('A', 'B', 50, 'd')], [('A', 'B', 'l')]))
k = sim(net(FlexModel, [('A', 'B', 1, 40)], [], [('A', 'B', 'l')]))
assert k.parallel_demand_groups() == {}
''', 'an earlier model of the process has demands between nodes of the same names', 'its demands are grouped with those of the later model')

bug('e12-simple-paths-kept', 'C24', [(FLEX, '''        # Remove duplicate paths from digraph_all_paths
        # (duplicates can be caused by multiple links between nodes)
        digraph_unique_paths = [
            list(path) for path in {tuple(path) for path in digraph_all_paths}
        ]
''', '''        # Remove duplicate paths from digraph_all_paths
        # (duplicates can be caused by multiple links between nodes)
        key = (source_node_name, dest_node_name, cutoff, tuple(sorted(G.degree())))
        if key not in self._simple_paths:
            self._simple_paths[key] = [
                list(path) for path in {tuple(path) for path in digraph_all_paths}
            ]
        digraph_unique_paths = self._simple_paths[key]
'''), (FLEX, '''    def __repr__(self):
        return "FlexModel(''', '''    _simple_paths = {}

    def __repr__(self):
        return "FlexModel(''')], '''
def paths(links):
    m = sim(net(FlexModel, links))
    return sorted(tuple(i.name[:3] for i in p) for p in m.get_all_paths_reservable_bw('A', 'D', False)['path'])


p = paths([('A', 'B', 1), ('B', 'D', 1), ('C', 'E', 1)])
q = paths([('A', 'C', 1), ('C', 'D', 1), ('B', 'E', 1)])
r = paths([('A', 'B', 1), ('B', 'D', 1), ('A', 'C', 1), ('C', 'D', 1)])
s = paths([('A', 'B', 1), ('B', 'C', 1), ('C', 'D', 1), ('A', 'D', 1)])
assert p == [('A>B', 'B>D')] and q == [('A>C', 'C>D')] and len(r) == 2 and s == [('A>B', 'B>C', 'C>D'), ('A>D',)], (p, q, r, s)
''', 'two models over the same node names with the same number of links at each node, and all paths between two nodes asked of both', 'the second model answers with the node sequences of the first')

bug('e13-map-style-shared', 'C24', [(WM, '''    def demand_sources_and_destinations(self):
''', '''    _sources = set()

    def demand_sources_and_destinations(self):
'''), (WM, '''        demand_sources = set()
        demand_destinations = set()
''', '''        demand_sources = self._sources
        demand_destinations = set()
''')], '''
from pyNTM.weathermap import WeatherMap
a = WeatherMap(sim(net(FlexModel, [('A', 'B', 1, 40)], [('A', 'B', 50, 'd')])))
b = WeatherMap(sim(net(FlexModel, [('A', 'B', 1, 40)], [('B', 'A', 50, 'd')])))
assert [w.demand_sources_and_destinations() for w in (a, b)] == [(['A'], ['B']), (['B'], ['A'])]
''', 'maps of two models with demands from different nodes', 'the menu of the second map offers sources of the first')
