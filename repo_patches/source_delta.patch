From fb081fdd0128561ae74dbdc451d1af06deff42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 01/33] fix: route IGP demands and build circuits over
 interfaces that are not RSVP enabled

---
 pyNTM/flex_model.py        | 4 ++--
 pyNTM/performance_model.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..96fc097 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -982,14 +982,14 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..d51ccd1 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -529,14 +529,14 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 87af5d8bb1a0af77475769f979f3aa368e0f2d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 02/33] fix: flexible model path queries return only eligible
 parallel interfaces of the right cost

---
 pyNTM/flex_model.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 96fc097..9b4e1d8 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1368,7 +1368,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._convert_nx_path_to_model_path(path, G)
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1409,7 +1409,8 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                # Only the lowest cost eligible interface(s) on each hop
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1467,7 +1468,7 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
+    def _convert_nx_path_to_model_path(self, nx_graph_path, G):
         """
         Given a path from an networkx DiGraph, converts that
         path to a Model style path and returns that Model style path
@@ -1487,7 +1488,8 @@ class FlexModel(_MasterModel):
                 remote_node_object = Node('F'), circuit_id = 1)]
 
         :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
+        :param G: networkx multidigraph that nx_graph_path was found on; its edges
+        are the eligible interfaces
         :return: List of Model Interfaces from source to destination
         """
 
@@ -1501,11 +1503,7 @@ class FlexModel(_MasterModel):
             if next_hop_index < len(nx_graph_path):
                 next_hop = nx_graph_path[next_hop_index]
 
-                interface = [
-                    interface
-                    for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
-                ]
+                interface = [edge["interface"] for edge in G[hop][next_hop].values()]
 
                 model_path.append(interface)
 
-- 
2.43.0


From fe023b45d6023d274b39dc3af417c3a1684c3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 03/33] fix: flexible model re-signals a routed LSP over one
 eligible interface per hop

---
 pyNTM/flex_model.py | 66 +++------------------------------------------
 1 file changed, 3 insertions(+), 63 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 9b4e1d8..10ddf4c 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1452,9 +1452,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1509,64 +1507,6 @@ class FlexModel(_MasterModel):
 
         return model_path
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1709,7 +1649,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1719,7 +1659,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From 1c2e62e5d504feb770c48861f24be87d2cffdb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 04/33] fix: do not re-signal LSPs with a configured setup
 bandwidth for the group's traffic share

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..c5c0193 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -337,6 +337,10 @@ class _MasterModel(object):
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
 
+            # An LSP with a configured_setup_bandwidth keeps that setup bandwidth
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             lsp_path_interfaces_before = lsp.path["interfaces"]
             lsp_res_bw_before = lsp.reserved_bandwidth
 
-- 
2.43.0


From d175b69a6ae641dbfc837aefe3075fe70af16efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 05/33] fix: keep reservations in step with routed LSPs when
 interfaces fail and are restored

---
 pyNTM/interface.py    | 3 ---
 pyNTM/master_model.py | 6 ++----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..d3e8825 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -158,7 +158,6 @@ remote_node_object = %r, circuit_id = %r)" % (
 
             if len(failed_srlgs) > 0:
                 self._failed = True
-                self.reserved_bandwidth = 0
                 raise ModelException(
                     "Interface must be failed since it is a member "
                     "of one or more SRLGs that are failed"
@@ -173,11 +172,9 @@ remote_node_object = %r, circuit_id = %r)" % (
 
             else:
                 self._failed = True
-                self.reserved_bandwidth = 0
 
         else:
             self._failed = True
-            self.reserved_bandwidth = 0
 
     @property
     def cost(self):
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index c5c0193..af9f923 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -753,17 +753,15 @@ class _MasterModel(object):
         # Find the remote interface
         remote_interface = interface_object.get_remote_interface(self)
 
-        # Ensure local and remote nodes are failed == False and set reservable
-        # bandwidth on each interface to interface.capacity
+        # Ensure local and remote nodes are failed == False; the reserved bandwidth
+        # of each interface is only changed when LSPs are (re)routed
         if (
             self.get_node_object(interface_object.node_object.name).failed is False
             and self.get_node_object(remote_interface.node_object.name).failed is False
         ):
 
             remote_interface.failed = False
-            remote_interface.reserved_bandwidth = 0
             interface_object.failed = False
-            interface_object.reserved_bandwidth = 0
             self.validate_model()
         else:
             if raise_exception:
-- 
2.43.0


From 199ea05b6478e8b65c60208ac0566a9bb7657b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 06/33] fix: accumulate interface reservations unrounded so
 that rounding cannot fail validation

---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/master_model.py      | 18 ++++++++++--------
 pyNTM/performance_model.py |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 10ddf4c..96ce6f6 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1603,7 +1603,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index af9f923..2563411 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -145,9 +145,9 @@ class _MasterModel(object):
         for lsp in (lsp for lsp in self.rsvp_lsp_objects if "Unrouted" not in lsp.path):
             for interface in lsp.path["interfaces"]:
                 int_info[interface._key]["lsps"].append(lsp)
-                int_info[interface._key]["reserved_bandwidth"] += round(
-                    lsp.reserved_bandwidth, 1
-                )
+                int_info[interface._key][
+                    "reserved_bandwidth"
+                ] += lsp.reserved_bandwidth
         return int_info
 
     def _validate_circuit_interface_capacity(
@@ -196,10 +196,12 @@ class _MasterModel(object):
         :return: None
         """
 
-        if interface.reserved_bandwidth > interface.capacity:
+        # (reservations are admitted against values rounded to one decimal)
+        if interface._reserved_bandwidth - interface.capacity > 0.15:
             int_res_bw_too_high.add(interface)
-        if round(interface.reserved_bandwidth, 1) != round(
-            int_info[interface._key]["reserved_bandwidth"], 1
+        lsp_reserved_bandwidth = int_info[interface._key]["reserved_bandwidth"]
+        if (
+            abs(interface._reserved_bandwidth - lsp_reserved_bandwidth) > 0.05
         ):  # pragma: no cover  # noqa
             int_res_bw_sum_error.add(
                 (interface, interface.reserved_bandwidth, tuple(interface.lsps(self)))
@@ -352,11 +354,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface._reserved_bandwidth -= lsp_res_bw_before
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index d51ccd1..77505c4 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -466,7 +466,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
-- 
2.43.0


From e914884faa69b4728170a4d7bbd43e02df433ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 07/33] fix: a demand that becomes unrouted keeps no path
 detail of an earlier simulation

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 96ce6f6..b4f7ea4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 77505c4..a379dee 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From 3323b4e7d9a5aefb085bf4960910b8d7d4b6febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 08/33] fix: group demands, LSPs and links by their end nodes
 rather than by joined node names

---
 pyNTM/flex_model.py        |  8 +++-----
 pyNTM/master_model.py      |  4 ++--
 pyNTM/performance_model.py |  8 +++-----
 pyNTM/rsvp.py              |  2 +-
 pyNTM/weathermap.py        | 36 +++++++++++++-----------------------
 5 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index b4f7ea4..ae74f77 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -299,9 +299,7 @@ class FlexModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
@@ -443,7 +441,7 @@ class FlexModel(_MasterModel):
                         # the destination we are iterating through and whose effective metric matches the
                         # shortest path from source_node to destination
 
-                        key = "{}-{}".format(source_node.name, destination)
+                        key = (source_node.name, destination)
                         try:
                             candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
                             min_metric = min(
@@ -541,7 +539,7 @@ class FlexModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 2563411..73674f6 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -387,7 +387,7 @@ class _MasterModel(object):
 
         for src_node_name in src_node_names:
             for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
+                key = (src_node_name, dest_node_name)
                 parallel_lsp_groups[key] = []
                 for lsp in self.rsvp_lsp_objects:
                     if (
@@ -424,7 +424,7 @@ class _MasterModel(object):
 
         for src_node_name in src_node_names:
             for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
+                key = (src_node_name, dest_node_name)
                 parallel_demand_groups[key] = []
                 for dmd in self.demand_objects:
                     if (
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index a379dee..85e02bb 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -330,9 +330,7 @@ class PerformanceModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
@@ -1259,7 +1257,7 @@ class PerformanceModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
@@ -1524,7 +1522,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..b2c31c0 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -280,7 +280,7 @@ class RSVP_LSP(object):
 
         total_traffic = sum(demand.traffic for demand in self.demands_on_lsp(model))
 
-        key = "{}-{}".format(self.source_node_object.name, self.dest_node_object.name)
+        key = (self.source_node_object.name, self.dest_node_object.name)
         parallel_routed_lsps = [
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..0fdc87c 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -378,13 +378,9 @@ class WeatherMap(object):  # pragma: no cover
             raise Exception(msg)
 
         if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
+            source_dest_pairs = list(self.model.parallel_demand_groups().keys())
         elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+            source_dest_pairs = list(self.model.parallel_lsp_groups().keys())
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
 
@@ -408,13 +404,9 @@ class WeatherMap(object):  # pragma: no cover
             raise Exception(msg)
 
         if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
+            source_dest_pairs = list(self.model.parallel_demand_groups().keys())
         elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+            source_dest_pairs = list(self.model.parallel_lsp_groups().keys())
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
 
@@ -869,7 +861,7 @@ class WeatherMap(object):  # pragma: no cover
         demand_sources = set()
         demand_destinations = set()
         for entry in self.model.parallel_demand_groups().keys():
-            source, dest = entry.split("-")
+            source, dest = entry
             demand_sources.add(source)
             demand_destinations.add(dest)
         demand_sources_list = list(demand_sources)
@@ -891,7 +883,7 @@ class WeatherMap(object):  # pragma: no cover
         lsp_sources = set()
         lsp_destinations = set()
         for entry in self.model.parallel_lsp_groups().keys():
-            source, dest = entry.split("-")
+            source, dest = entry
             lsp_sources.add(source)
             lsp_destinations.add(dest)
         lsp_sources_list = list(lsp_sources)
@@ -1048,9 +1040,7 @@ class WeatherMap(object):  # pragma: no cover
                 destination = demand_dict["dest"]
                 # Find the demands that match the source and destination
                 try:
-                    dmds = self.model.parallel_demand_groups()[
-                        "{}-{}".format(source, destination)
-                    ]
+                    dmds = self.model.parallel_demand_groups()[(source, destination)]
                 except KeyError:
                     return default_stylesheet + new_style
 
@@ -1244,7 +1234,7 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
+                key = (ctx_src_inputs, ctx_dest_inputs)
                 lsp_list = self.model.parallel_lsp_groups()[key]
 
                 # Format lsps for display
@@ -1264,7 +1254,7 @@ class WeatherMap(object):  # pragma: no cover
                 src_keys = [
                     src_key
                     for src_key in lsp_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                    if src_key[1] == ctx_dest_inputs
                 ]
                 lsp_list = []
 
@@ -1286,7 +1276,7 @@ class WeatherMap(object):  # pragma: no cover
                 dest_keys = [
                     dest_key
                     for dest_key in lsp_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                    if dest_key[0] == ctx_src_inputs
                 ]
                 lsp_list = []
 
@@ -1355,7 +1345,7 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
+                key = (ctx_src_inputs, ctx_dest_inputs)
                 demand_list = self.model.parallel_demand_groups()[key]
 
                 # Format demands for display
@@ -1374,7 +1364,7 @@ class WeatherMap(object):  # pragma: no cover
                 src_keys = [
                     src_key
                     for src_key in dmd_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                    if src_key[1] == ctx_dest_inputs
                 ]
                 demand_list = []
 
@@ -1397,7 +1387,7 @@ class WeatherMap(object):  # pragma: no cover
                 dest_keys = [
                     dest_key
                     for dest_key in dmd_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                    if dest_key[0] == ctx_src_inputs
                 ]
                 demand_list = []
 
-- 
2.43.0


From 0bb6488f0a1b8e22197c25ed0ca855d4bdee9bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 09/33] fix: validation rejects duplicate interface names on a
 node

---
 pyNTM/flex_model.py        | 12 +++++-------
 pyNTM/performance_model.py | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index ae74f77..966e7d4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -153,13 +153,6 @@ class FlexModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Make validate_model() check for matching failed statuses
         # on the interfaces and matching interface capacity
         circuits_with_mismatched_interface_capacity = []
@@ -205,6 +198,11 @@ class FlexModel(_MasterModel):
             }
             error_data.append(node_dict)
 
+        # Validate there are no duplicate interface names on a node
+        unique_interfaces_per_node = self._unique_interface_per_node()
+        if unique_interfaces_per_node is not True:
+            error_data.append({"duplicate_interface_names": unique_interfaces_per_node})
+
         # Read error_data
         if error_data:
             message = "network interface validation failed, see returned data"
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 85e02bb..cc18a70 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -213,6 +206,11 @@ class PerformanceModel(_MasterModel):
             }
             error_data.append(node_dict)
 
+        # Validate there are no duplicate interface names on a node
+        unique_interfaces_per_node = self._unique_interface_per_node()
+        if unique_interfaces_per_node is not True:
+            error_data.append({"duplicate_interface_names": unique_interfaces_per_node})
+
         # Read error_data
         if error_data:
             message = "network interface validation failed, see returned data"
-- 
2.43.0


From 6375e7c521b959660cc698e7204315a8cf67b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 10/33] fix: renaming an interface keeps it findable and
 refuses a name in use

---
 pyNTM/master_model.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 73674f6..2f6be20 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -701,7 +701,20 @@ class _MasterModel(object):
         :return: Interface with new name
         """
         interface_to_edit = self.get_interface_object(current_interface_name, node_name)
-        interface_to_edit.name = new_interface_name
+        if interface_to_edit.name != new_interface_name:
+            if (new_interface_name, node_name) in {
+                interface._key for interface in self.interface_objects
+            }:
+                message = "interface {} on node {} already exists in model".format(
+                    new_interface_name, node_name
+                )
+                raise ModelException(message)
+
+            # The name is part of the interface's hash; take the interface out of
+            # the set while it changes
+            self.interface_objects.remove(interface_to_edit)
+            interface_to_edit.name = new_interface_name
+            self.interface_objects.add(interface_to_edit)
 
         return interface_to_edit
 
-- 
2.43.0


From 5f571c8891bdf98bd7a62799bc251efe4bd4ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:45 +0000
Subject: [PATCH 11/33] fix: interfaces added from a list share the model's
 node objects

---
 pyNTM/master_model.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 2f6be20..f3f79fe 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1211,24 +1211,24 @@ class _MasterModel(object):
         """
         network_interface_objects = set([])
         network_node_objects = set([])
+        nodes_by_name = {node.name: node for node in self.node_objects}
 
         # Create the Interface objects
         for interface in interface_info_list:
+            # Check to see if the Interface's Node already exists, if not, add it
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes_by_name:
+                    nodes_by_name[node_name] = Node(node_name)
+                    network_node_objects.add(nodes_by_name[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes_by_name[interface["node"]],
+                nodes_by_name[interface["remote_node"]],
                 interface["circuit_id"],
             )
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From 566cfe4b9f85f0f2df71f59644186cd78fe5d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 12/33] fix: setting an LSP's manual metric overrides a
 configured metric not read yet

---
 pyNTM/rsvp.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index b2c31c0..38361ce 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,7 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 1c9b699d0b5500be5a7e55e13eb6f5d025bf1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 13/33] fix: blank optional fields of a model file take their
 documented defaults

---
 pyNTM/flex_model.py        | 6 +++---
 pyNTM/master_model.py      | 3 ++-
 pyNTM/performance_model.py | 6 +++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 966e7d4..2fdf075 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1892,7 +1892,7 @@ class FlexModel(_MasterModel):
                     circuit_id,
                     rsvp_enabled,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1908,7 +1908,7 @@ class FlexModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1943,7 +1943,7 @@ class FlexModel(_MasterModel):
                 remote_node_object,
                 circuit_id,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index f3f79fe..14f5cc2 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -608,7 +608,8 @@ class _MasterModel(object):
         new_node = Node(node_name)
         # Set igp_shortcuts_enabled; only used in FlexModel, ignored in PerformanceModel
         try:
-            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = node_info[3]
+            igp_shortcuts_enabled_value = node_info[3] or False
+            new_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
         except IndexError:
             igp_shortcuts_enabled_value = False
         if node_name not in {node.name for node in node_set}:  # Pick up orphan nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index cc18a70..d78812a 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1158,7 +1158,7 @@ class PerformanceModel(_MasterModel):
                     capacity,
                     rsvp_enabled,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1173,7 +1173,7 @@ class PerformanceModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1208,7 +1208,7 @@ class PerformanceModel(_MasterModel):
                 remote_node_object,
                 None,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
-- 
2.43.0


From 0a1f482e088311640ffd014dae3f943a8f2a458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 14/33] fix: the RSVP_LSP_TABLE of a model file ends at a blank
 line like the other tables

---
 pyNTM/master_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 14f5cc2..775bcf8 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -15,6 +15,7 @@ from .interface import Interface
 from .node import Node
 from .rsvp import RSVP_LSP
 from .srlg import SRLG
+from .utilities import find_end_index
 
 from pprint import pprint
 
@@ -508,7 +509,8 @@ class _MasterModel(object):
 
         """
 
-        lsp_lines = lines[lsp_info_begin_index:]
+        lsp_info_end_index = find_end_index(lsp_info_begin_index, lines)
+        lsp_lines = lines[lsp_info_begin_index:lsp_info_end_index]
         for lsp_line in lsp_lines:
             lsp_info = lsp_line.split("\t")
             source = lsp_info[0]
-- 
2.43.0


From 33ee8cacdfdc0db05f6eaf58d32191caefeeaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 15/33] fix: add_circuit works on a model whose circuits have
 no ids yet

---
 pyNTM/performance_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index d78812a..cf0fe58 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -687,7 +687,7 @@ class PerformanceModel(_MasterModel):
         """
 
         if circuit_id is None:
-            circuit_ids = self.all_interface_circuit_ids
+            circuit_ids = self.all_interface_circuit_ids - {None}
             circuit_id = 1 if len(circuit_ids) == 0 else max(circuit_ids) + 1
         int_a = Interface(
             node_a_interface_name,
-- 
2.43.0


From 59e4b97a7f23f56d5c9c45224ac44809c7c43382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 16/33] fix: a demand between a node and itself does not abort
 the simulation

---
 pyNTM/flex_model.py        | 2 +-
 pyNTM/performance_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 2fdf075..d689e47 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -723,7 +723,7 @@ class FlexModel(_MasterModel):
                 traffic_splits_per_interface[item] = total_splits
 
             # Find path traffic
-            max_split = max([split for split in traffic_splits_per_interface.values()])
+            max_split = max(traffic_splits_per_interface.values(), default=1)
             path_traffic = float(demand.traffic) / float(max_split)
 
             shortest_path_info[path_key]["items"] = path
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index cf0fe58..eb41d12 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1482,7 +1482,7 @@ class PerformanceModel(_MasterModel):
                 traffic_splits_per_interface[interface] = total_splits
 
             # Find path traffic
-            max_split = max([split for split in traffic_splits_per_interface.values()])
+            max_split = max(traffic_splits_per_interface.values(), default=1)
             path_traffic = round(float(demand.traffic) / float(max_split), 4)
 
             shortest_path_info[path_key]["interfaces"] = path
-- 
2.43.0


From 3d080b3824568fe767e7834701cc2d29e03ed947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 17/33] fix: restoring a node restores its circuits that are
 not held down by a failed SRLG

---
 pyNTM/master_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 775bcf8..079ed4c 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -837,8 +837,11 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
-            # Unfail the interfaces if the remote node is not failed
-            if not interface.remote_node_object.failed:
+            # Unfail the interfaces if the remote node is not failed and no failed
+            # SRLG holds them down
+            if not interface.remote_node_object.failed and not any(
+                srlg.failed for srlg in interface.srlgs
+            ):
                 # Unfail the specific interface
                 self.unfail_interface(interface.name, node_name, False)
 
-- 
2.43.0


From 40202587f7542ec417d421229a7a2f668ecf1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 18/33] fix: leaving an SRLG restores both ends of a circuit
 and the circuits of a node

---
 pyNTM/interface.py | 1 +
 pyNTM/node.py      | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index d3e8825..ed55754 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -425,3 +425,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
diff --git a/pyNTM/node.py b/pyNTM/node.py
index f5bcf88..a15a616 100644
--- a/pyNTM/node.py
+++ b/pyNTM/node.py
@@ -225,7 +225,8 @@ class Node(object):
             #     except ModelException:
             #         pass
 
-            self.failed = False
+            if self.failed:
+                model.unfail_node(self.name)
 
     @property
     def srlgs(self):
-- 
2.43.0


From 97454482a17456af3a3284b1e0181fdba1535862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 19/33] fix: IGP shortcuts consider the LSPs of every shortest
 node path

---
 pyNTM/flex_model.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index d689e47..7d174a8 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -410,6 +410,7 @@ class FlexModel(_MasterModel):
         """
 
         # Substitute IGP enabled LSPs for Interfaces in paths
+        finalized_paths = []
         for node_path in node_paths:
             # Find Nodes along the path that have igp_shortcuts_enabled and have
             # LSPs to downstream Nodes in the path
@@ -467,21 +468,16 @@ class FlexModel(_MasterModel):
                             next_node_to_check.append(lsp_end_node)
                             break
 
-        # Now that path_lsps is known, substitute those into path
-        finalized_paths = []
-        if len(path_lsps) > 0:
+            # Now that path_lsps is known, substitute those into the paths that
+            # follow node_path
             for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
-                        if path not in finalized_paths:
-                            finalized_paths.append(path)
-                else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
+                if [
+                    interface.node_object.name for interface in interface_path
+                ] != node_path[:-1]:
+                    continue
+                for path in self._insert_lsps_into_path(path_lsps, interface_path):
+                    if path not in finalized_paths:
+                        finalized_paths.append(path)
 
         return finalized_paths
 
-- 
2.43.0


From 43c4684d5b07b102172ae7869bbaec0b97bc8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 20/33] fix: the weather map colors utilizations that fall
 between whole percents

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 0fdc87c..dbfcb51 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,7 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    if lower <= utilization < upper + 1:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From 1d275de7e787f2d14fa66e98191d7e8f1acc563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 21/33] fix: IGP shortcut demand splits over the next items of
 its own paths, losing no traffic

When a node is reached on one path by the end of a shortcut-free prefix and on
another by a prefix whose LSP skips some of its next hops, dividing by all next
items of the node lost the part of the traffic that no path carries on.
---
 pyNTM/flex_model.py | 74 ++++-----------------------------------------
 1 file changed, 6 insertions(+), 68 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 7d174a8..8f97509 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -659,8 +659,6 @@ class FlexModel(_MasterModel):
         # shortest_path_int_set = set(shortest_path_int_list)
         shortest_path_item_set = set(shortest_path_item_list)
 
-        unique_next_hops = self._find_unique_next_hops(shortest_path_item_set)
-
         # shortest_path_info will be a dict with the following info for each path:
         # - an ordered list of interfaces in the path
         # - a dict of cumulative splits for each interface at that point in the path
@@ -704,17 +702,13 @@ class FlexModel(_MasterModel):
             total_splits = 1
 
             # Normalize any paths with LSPs
-            for item in path:
+            for hop, item in enumerate(path):
                 # Update the total cumulative splits in the path before
-                # traffic reaches the item in the path
-                if isinstance(item, Interface):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.node_object.name]
-                    )
-                elif isinstance(item, RSVP_LSP):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.source_node_object.name]
-                    )
+                # traffic reaches the item in the path.  The traffic splits over
+                # the next items of the paths that got to this hop the same way; with
+                # IGP shortcuts, other paths via the same node may have other next items
+                next_items = {p[hop] for p in demand.path if p[:hop] == path[:hop]}
+                total_splits = total_splits * len(next_items)
 
                 traffic_splits_per_interface[item] = total_splits
 
@@ -745,62 +739,6 @@ class FlexModel(_MasterModel):
 
         return traff_per_int
 
-    def _find_unique_next_hops(self, shortest_path_item_set):
-        """
-        From a set of items from all the shortest paths, determine how many unique
-        next hops there are from a given node.
-
-        :param shortest_path_item_set: a set of items (Interfaces, RSVP_LSPs) from all
-        the shortest paths
-
-        :return: a dict with keys for each Node name and values being a list of each unique
-        next hop from that Node
-
-        In the example output below, Node B has 2 unique next hops, buth of which are RSVP LSPs
-
-        Example output::
-
-            {'A': [Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('G'), circuit_id = '6'),
-                   Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('B'), circuit_id = '1')],
-             'B': [RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'),
-                   RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-             'D': [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')],
-             'G': [Interface(name = 'G-F', cost = 25, capacity = 100, node_object = Node('G'),
-                   remote_node_object = Node('F'), circuit_id = '7')]}
-        """
-        # Dict to store how many unique next hops each node has in the shortest paths
-        unique_next_hops = {}
-        # Iterate through all the items
-        for item in shortest_path_item_set:
-            if isinstance(item, Interface):
-                unique_next_hops[item.node_object.name] = []
-                # For a given Interface's node_object, determine how many
-                # Interfaces on that Node are facing next hops
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.node_object.name
-                    ):
-                        unique_next_hops[item.node_object.name].append(hop)
-            elif isinstance(item, RSVP_LSP):
-                unique_next_hops[item.source_node_object.name] = []
-                # For an LSP's source_node_object,
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.source_node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.source_node_object.name
-                    ):
-                        unique_next_hops[item.source_node_object.name].append(hop)
-        return unique_next_hops
-
     def _insert_lsps_into_path(self, path_lsps, path):
         """
         Substitutes the path_lsps into the path.  Although the path
-- 
2.43.0


From 91f1f64fd0f6200cff009a52fabe065eec376e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 22/33] fix: circuits and interfaces can be added in a failed
 state, as documented

add_circuit ignored its failed argument and add_network_interfaces_from_list
the 'failed' entry of the interface descriptions.
---
 pyNTM/flex_model.py        | 3 +++
 pyNTM/master_model.py      | 1 +
 pyNTM/performance_model.py | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 8f97509..5d70916 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1218,6 +1218,9 @@ class FlexModel(_MasterModel):
             circuit_id,
         )
 
+        int_a.failed = failed
+        int_b.failed = failed
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 079ed4c..9a2bcdc 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1235,6 +1235,7 @@ class _MasterModel(object):
                 nodes_by_name[interface["remote_node"]],
                 interface["circuit_id"],
             )
+            intf.failed = interface.get("failed", False)
             network_interface_objects.add(intf)
 
         return (network_interface_objects, network_node_objects)
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index eb41d12..98adc60 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -706,6 +706,9 @@ class PerformanceModel(_MasterModel):
             circuit_id,
         )
 
+        int_a.failed = failed
+        int_b.failed = failed
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
-- 
2.43.0


From 2e43b56f6afa45a4ad3a38718cb32f7e5b5ffa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 23/33] fix: fractional node coordinates in a model file are
 kept

---
 pyNTM/master_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 9a2bcdc..26df792 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -598,12 +598,12 @@ class _MasterModel(object):
         node_name = node_info[0]
         # Set latitude
         try:
-            node_lat = int(node_info[2])
+            node_lat = float(node_info[2])
         except (ValueError, IndexError):
             node_lat = 0
         # Set longitude
         try:
-            node_lon = int(node_info[1])
+            node_lon = float(node_info[1])
         except (ValueError, IndexError):
             node_lon = 0
 
-- 
2.43.0


From cd50e67773abe51a1ed48c3dc977181fb7617b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 24/33] fix: an added LSP shows up in the parallel LSP groups

---
 pyNTM/master_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 26df792..9e5a640 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1153,6 +1153,7 @@ class _MasterModel(object):
             message = "{} already exists in rsvp_lsp_objects".format(added_lsp)
             raise ModelException(message)
         self.rsvp_lsp_objects.add(added_lsp)
+        self._parallel_lsp_groups = {}  # The new LSP changes the groups
 
         self.validate_model()
 
-- 
2.43.0


From 55c5eae03d0c2f0fd4f1710960b4971a41ca406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 25/33] fix: traffic_on_lsp is 0 for an unrouted LSP instead of
 raising

---
 pyNTM/rsvp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 38361ce..3c74407 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -268,6 +268,10 @@ class RSVP_LSP(object):
         :return: Units of traffic on the LSP
         """
 
+        # An unrouted LSP carries no traffic
+        if "Unrouted" in self.path:
+            return 0
+
         # Find all LSPs with same source and dest as self
         parallel_lsp_groups = model.parallel_lsp_groups()
 
-- 
2.43.0


From 79f74a55425a3953eb11bcf9e9c606c09d6e16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:01 +0000
Subject: [PATCH 26/33] fix: weather map shows the far end of a selected
 interface whose node names contain a dash

---
 pyNTM/weathermap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index dbfcb51..f5b4996 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1507,11 +1507,11 @@ class WeatherMap(object):  # pragma: no cover
                 # the selected edge is not null
                 int_data = ctx.triggered[0]["value"][0]
 
-                end_target = [
-                    item
-                    for item in int_data["target"].split("-")[1:]
-                    if item != int_data["source"]
-                ][0]
+                # Node names may contain "-", so the destination can't be parsed
+                # from the name of the midpoint
+                end_target = model.get_interface_object(
+                    int_data["interface-name"], int_data["source"]
+                ).remote_node_object.name
                 int_info = {
                     "source": int_data["source"],
                     "interface-name": int_data["interface-name"],
-- 
2.43.0


From 2863694aa93b94a8e2b05d48733ffe99dc527301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 27/33] fix: weather map starts with current Dash releases,
 which removed run_server

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index f5b4996..84072f9 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1831,6 +1831,6 @@ class WeatherMap(object):  # pragma: no cover
 
         # ## END OF CALLBACK DEFS ## #
 
-        app.run_server()
+        app.run()
 
         return app
-- 
2.43.0


From fb58b1cc52b739ff05e3ba4fd0a4a42db81fd9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 28/33] fix: weather map finds no interfaces for an unrouted
 demand, not the letters of its state

---
 pyNTM/weathermap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 84072f9..61357b1 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -349,6 +349,8 @@ class WeatherMap(object):  # pragma: no cover
         interfaces_to_highlight = set()
         lsps = set()
         for dmd in dmds:
+            if dmd.path == "Unrouted":
+                continue  # An unrouted demand transits nothing
             dmd_path = dmd.path[:]
             for path in dmd_path:
                 for hop in path:
-- 
2.43.0


From b605f266df341889c2ea4e649bcdf3b65abc24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:08 +0000
Subject: [PATCH 29/33] fix: remote interface is found when node pairs share a
 circuit id

---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index ed55754..9bd5a2a 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -244,6 +244,7 @@ remote_node_object = %r, circuit_id = %r)" % (
         for interface in (interface for interface in model.interface_objects):
             if (
                 interface.node_object.name == self.remote_node_object.name
+                and interface.remote_node_object.name == self.node_object.name
                 and interface.circuit_id == self.circuit_id
             ):
                 remote_interface = interface
-- 
2.43.0


From 36371126d70d7a40406a82c1eea28b362e4fdc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:33 +0000
Subject: [PATCH 30/33] fix: choosing the placeholder of the LSP's interface
 menu clears the interface selection

---
 pyNTM/weathermap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 61357b1..6184e3c 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1526,7 +1526,11 @@ class WeatherMap(object):  # pragma: no cover
                 selected_interface = json.dumps(int_info)
             elif ctx.triggered[0]["prop_id"] != ".":
                 # No interface has been selected
-                if ctx.triggered[0]["value"] == no_selected_demand_text:
+                if ctx.triggered[0]["value"] in [
+                    None,
+                    no_selected_demand_text,
+                    no_selected_lsp_text,
+                ]:
                     selected_interface = json.dumps(
                         {"label": no_selected_interface_text, "value": ""}
                     )
-- 
2.43.0


From 332293d42fc3e63f931c0d53cae6070be9281e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:55 +0000
Subject: [PATCH 31/33] fix: the path menus of an unrouted demand or LSP no
 longer keep the path of the one chosen before

---
 pyNTM/weathermap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 6184e3c..d577919 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1786,8 +1786,9 @@ class WeatherMap(object):  # pragma: no cover
                             )  # Should give user option to clear selected item
                     return interfaces_list, lsp_list
                 elif '"routed": false' in demand:
-                    # Demand is selected but not routed
-                    raise PreventUpdate
+                    # Demand is selected but not routed; it has no path to list
+                    not_routed = [{"label": "Demand is not routed", "value": ""}]
+                    return not_routed, not_routed
 
                 else:
                     selected_demand = no_selected_demand_text
@@ -1826,8 +1827,8 @@ class WeatherMap(object):  # pragma: no cover
 
                     return interfaces_list
                 elif '"routed": false' in lsp:
-                    # LSP is selected but not routed
-                    raise PreventUpdate
+                    # LSP is selected but not routed; it has no path to list
+                    return [{"label": "LSP is not routed", "value": ""}]
                 else:
                     return [
                         {"label": no_selected_lsp_text, "value": no_selected_lsp_text}
-- 
2.43.0


From 2d2fc957d3ca23ed8ceeac03871e516d334d2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 32/33] fix: models made without arguments no longer share
 their object sets

---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 20 ++++++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 5d70916..6419571 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1914,10 +1914,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 9e5a640..4dbe723 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -29,16 +29,20 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        self.interface_objects = (
+            set() if interface_objects is None else interface_objects
+        )
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = (
+            set() if rsvp_lsp_objects is None else rsvp_lsp_objects
+        )
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 98adc60..72d2ab4 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1556,10 +1556,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From 47bfecc4980c557b2ecb6d465f9d65bea45250d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:32 +0000
Subject: [PATCH 33/33] fix: displaying the path of an unrouted demand printed
 the letters of the word Unrouted

---
 pyNTM/master_model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 4dbe723..6b5ecb5 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -935,10 +935,13 @@ class _MasterModel(object):
 
         for demand in demand_iter:
             print("demand._key is", demand._key)
-            print("Demand has %s paths:" % (len(demand.path)))
-            for path in demand.path:
-                pprint(path)
-                print()
+            if demand.path == "Unrouted":
+                print("Demand is Unrouted")
+            else:
+                print("Demand has %s paths:" % (len(demand.path)))
+                for path in demand.path:
+                    pprint(path)
+                    print()
             print()
             print()
 
-- 
2.43.0

