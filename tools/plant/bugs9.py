from bugs import bug, FLEX, PERF, MAST, RSVP, INTF, NODE, WM  # noqa: F401

bug('k01-utilization-kept', 'C10', [(INTF, '''            util = (self.traffic / self.capacity) * 100
            return float("%.2f" % util)''', '''            if getattr(self, "_util_for", None) != self.traffic:
                self._util_for = self.traffic
                self._util = float("%.2f" % ((self.traffic / self.capacity) * 100))
            return self._util''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100)], [('A', 'B', 20, 'd')]))
i = [i for i in m.interface_objects if i.node_object.name == 'A'][0]
assert i.utilization == 20
for j in m.interface_objects:
    j.capacity = 50
sim(m)
assert i.utilization == 40, i.utilization
''', 'the utilization read, then the capacity changed and the same traffic simulated', 'the utilization under the old capacity is reported')

bug('k03-capacities-nearly', 'C15', [(MAST, 'if int1.capacity != int2.capacity:', 'if abs(int1.capacity - int2.capacity) >= 1:')], '''
m = net(FlexModel, [('A', 'B', 1, 100)], [])
i = list(m.interface_objects)[0]
i.capacity = 100.5
try:
    m.validate_model()
except ModelException:
    pass
else:
    raise SystemExit('accepted')
''', 'capacities of the two ends that differ by less than one', 'the model is accepted')

bug('k05-name-on-failed', 'C15', [(MAST, 'node_int_list = [interface.name for interface in node.interfaces(self)]',
     '''node_int_list = [
                interface.name
                for interface in node.interfaces(self)
                if not interface.failed
            ]''')], '''
m = net(FlexModel, [('A', 'B', 1, 100), ('A', 'C', 1, 100)], [])
a = [i for i in m.interface_objects if i.node_object.name == 'A']
m.fail_interface(a[0].name, 'A')
for i in a:
    m.interface_objects.discard(i)
    i.name = 'same'
    m.interface_objects.add(i)
try:
    m.validate_model()
except ModelException:
    pass
else:
    raise SystemExit('accepted')
''', 'two interfaces of one name on a node, one of them failed', 'the model is accepted')

bug('l24-split-limit', 'C02', [(FLEX, 'path_traffic = float(demand.traffic) / float(max_split)', 'path_traffic = float(demand.traffic) / min(float(max_split), 64.0)')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100)] * 6 + [('B', 'C', 1, 100)] * 6 + [('C', 'D', 1, 100)] * 3, [('A', 'D', 108, 'd')]))
t = sum(i.traffic for i in m.interface_objects if i.node_object.name == 'C' and i.remote_node_object.name == 'D')
assert abs(t - 108) < 1, t
''', 'more than 64 equal-cost paths', 'more traffic arrives than was sent')

bug('l25-path-limit', 'C01', [(FLEX, '''            path = list(itertools.product(*path))
            for''', '''            path = list(itertools.islice(itertools.product(*path), 24))
            for''')], '''
m = sim(net(FlexModel, [('A', 'B', 1, 100)] * 5 + [('B', 'C', 1, 100)] * 5, [('A', 'C', 100, 'd')]))
[d] = m.demand_objects
assert len(d.path) == 25, len(d.path)
''', 'more than 24 combinations of parallel links on one route', 'the rest of the equal-cost paths is not used')

bug('k14-rename-onto-failed', 'C16', [(MAST, '''                interface._key for interface in self.interface_objects
            }:''', '''                interface._key
                for interface in self.interface_objects
                if not interface.failed
            }:''')], '''
m = net(FlexModel, [('A', 'B', 1, 100), ('A', 'C', 1, 100)], [])
a = sorted(i.name for i in m.interface_objects if i.node_object.name == 'A')
m.fail_interface(a[0], 'A')
try:
    m.change_interface_name('A', a[1], a[0])
except ModelException:
    pass
else:
    raise SystemExit('two interfaces of one name')
''', 'a rename onto the name of a failed interface', 'the rename is accepted and the name is no longer unique')

bug('n01-cost-while-down', 'C18', [(INTF, '''        self._cost = cost

    @property
    def capacity''', '''        if not getattr(self, "_failed", False) or not hasattr(self, "_cost"):
            self._cost = cost

    @property
    def capacity''')], '''
m = net(FlexModel, [('A', 'B', 1, 100)], [])
i = list(m.interface_objects)[0]
i.failed = True
i.cost = 7
assert i.cost == 7, i.cost
''', 'the cost of a failed interface set', 'the new cost is silently ignored')

bug('n13-fail-one-end-down', 'C11', [(MAST, '''        # find the remote interface
        remote_interface_object = interface_object.get_remote_interface(self)

        remote_interface_object.failed = True''', '''        if interface_object.failed:
            return
        # find the remote interface
        remote_interface_object = interface_object.get_remote_interface(self)

        remote_interface_object.failed = True''')], '''
m = net(FlexModel, [('A', 'B', 1, 100)], [])
i = [i for i in m.interface_objects if i.node_object.name == 'A'][0]
i.failed = True
m.fail_interface(i.name, 'A')
assert all(j.failed for j in m.interface_objects)
''', 'one end already down (set on the interface alone), then the circuit failed through the model', 'the other end stays up')
