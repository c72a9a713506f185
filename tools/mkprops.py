"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
MM, PM, FM = "pyNTM/master_model.py", "pyNTM/performance_model.py", "pyNTM/flex_model.py"
RS, IF, ND, SR, DM, CK, WM, UT = ("pyNTM/rsvp.py", "pyNTM/interface.py", "pyNTM/node.py", "pyNTM/srlg.py",
                                  "pyNTM/demand.py", "pyNTM/circuit.py", "pyNTM/weathermap.py", "pyNTM/utilities.py")

p("C01", "Demands take exactly the set of least-cost IGP paths",
  "After a simulation, a demand between two different nodes that is not carried by an LSP is routed over exactly the set of loop-free paths of non-failed interfaces from its source to its destination whose summed interface cost is minimal - none missing, none extra, parallel links counted individually in the flexible model. "
  "It is reported as unrouted (and is listed among the unrouted demands) exactly when no path of non-failed interfaces exists. RSVP settings and bandwidth use of the interfaces play no role in this.",
  ["inputs", "configurations"],
  "every assignment of integer interface costs >= 1 (independently per direction), every subset of failed circuits and RSVP-disabled circuits, on every topology within the stated size, in both model classes",
  "Tests fix a handful of topologies with fixed costs; equal-cost ties, asymmetric costs and failed/non-RSVP subsets are combinatorial and are hit only where a fixture happens to have them.",
  [PM, FM, MM],
  [("demand routing over shortest paths", PM + ":_route_demands"), ("demand routing with parallel links", FM + ":_route_demands"),
   ("graph construction", PM + ":_make_weighted_network_graph"), ("graph construction", FM + ":_make_weighted_network_graph_mdg"),
   ("ECMP link selection among parallel links", FM + ":_get_all_paths_mdg")],
  ["Demand.path", "get_unrouted_demand_objects()"])

p("C02", "ECMP splits a demand evenly at every hop and conserves it",
  "A demand routed over several equal-cost paths is divided at every node evenly among that node's distinct next-hop interfaces on those paths; the demand's reported per-path traffic follows that division and adds up to the demand's traffic. "
  "On every interface the demand adds the sum of the traffic of its paths through the interface, so what leaves the source and what reaches the destination both equal the demand's traffic.",
  ["inputs", "configurations"],
  "every non-negative traffic value, every integer cost assignment (hence every ECMP shape) within the stated topologies, both model classes (the single-link model up to its documented rounding)",
  "Tests check a few fixed ECMP shapes with one traffic value each; uneven splits (1/2 + 1/4 + 1/4), diamonds in series and parallel links inside ECMP are sampled, not covered.",
  [PM, FM],
  [("per-path split", PM + ":_demand_traffic_per_int"), ("per-path split", FM + ":_demand_traffic_per_item"),
   ("interface accounting", FM + ":_update_interface_utilization")],
  ["Demand.path_detail", "Interface.traffic"])

p("C03", "Interface load is the sum of the demands that cross it",
  "After a simulation every non-failed interface's traffic equals the sum over all routed demands of the share each puts on it, directly or inside LSPs, and utilization is 100 * traffic / capacity rounded to two decimals; a failed interface reports 'Down' and carries nothing. "
  "Unrouted demands load nothing, and the demands reported for an interface are exactly those with a path (or an LSP on the path) that uses it.",
  ["inputs", "configurations"],
  "every traffic vector of up to three demands sharing links, every capacity, cost and failure assignment within the stated topologies, with and without LSPs, both model classes",
  "The sum is over all demands and links at once; tests compare a few interfaces of fixed fixtures.",
  [PM, FM, IF],
  [("interface accounting", PM + ":_update_interface_utilization"), ("interface accounting", FM + ":_update_interface_utilization"),
   ("LSP-carried traffic", FM + ":_update_int_traffic_for_end_to_end_lsps"), ("utilization", IF + ":utilization"), ("demands", IF + ":demands")],
  ["Interface.traffic", "Interface.utilization", "Interface.demands()"])

p("C04", "RSVP reservations add up and never exceed the reservable share",
  "After a simulation the bandwidth reserved on each interface equals the sum of the reservations of the LSPs routed over it (zero if none) and never exceeds capacity times the configured reservable percentage (both up to the rounding of reported bandwidths to one decimal), and the reservable bandwidth is the difference, to one decimal. "
  "The LSPs reported for an interface are exactly those whose path uses it, and a simulation on a valid model never fails its own reservation validation.",
  ["inputs", "configurations", "schedules"],
  "every LSP setup bandwidth and demand traffic, capacity and reservable percentage, for up to four LSPs in any processing order on the stated topologies, both model classes",
  "Admission, rounding and re-optimisation interact with the order in which LSPs are signalled; tests fix one set of values and cannot control the order.",
  [MM, PM, FM, IF, RS],
  [("reservation on signalling", PM + ":_determine_lsp_state_info"), ("reservation on signalling", FM + ":_determine_lsp_state_info"),
   ("re-optimisation", MM + ":_optimize_parallel_lsp_group_res_bw"), ("reservable share", IF + ":reservable_bandwidth"),
   ("validation", MM + ":_reserved_bw_error_checks"), ("lsps", IF + ":lsps")],
  ["Interface.reserved_bandwidth", "Interface.reservable_bandwidth", "Interface.lsps()"])

p("C05", "LSPs follow the cheapest feasible path, and only exist if one does",
  "A routed LSP's path is a contiguous chain of non-failed, RSVP-enabled interfaces from its source to its destination, one interface per hop, with its reported cost the sum of the interface costs; it has minimal cost among the paths on which every interface reported at least the LSP's setup bandwidth as reservable when it was signalled, and the fewest hops among those (for an LSP re-signalled at another bandwidth, its own reservation counts as available and cost alone decides). "
  "An LSP is unrouted exactly when no such path existed, and then reserves nothing and carries nothing.",
  ["inputs", "configurations", "schedules"],
  "every integer cost, capacity, setup bandwidth, RSVP and failure assignment on the stated topologies, for one LSP alone and for several LSPs signalled in any order and with any tie-break, both model classes",
  "Feasibility depends on bandwidth thresholds, remaining reservations and ties; tests sample fixtures and leave order and random choice uncontrolled.",
  [PM, FM, MM, RS],
  [("path selection", PM + ":_determine_lsp_state_info"), ("path selection", FM + ":_determine_lsp_state_info"),
   ("path data", MM + ":_add_lsp_path_data"), ("re-signalling of a routed LSP", RS + ":find_rsvp_path_w_bw")],
  ["RSVP_LSP.path", "RSVP_LSP.reserved_bandwidth"])

p("C06", "LSP setup bandwidth: configured values hold, others share the demand",
  "An LSP with a configured setup bandwidth signals and reserves exactly that bandwidth whenever it is routed. "
  "An LSP without one signals an equal share, per LSP of the parallel group, of the total traffic of the demands with the same source and destination (reservations are kept to one decimal); if only some LSPs of the group route, each routed one holds either that share or, where capacity allows re-signalling, the equal share among the routed ones.",
  ["inputs", "configurations", "schedules"],
  "every configured bandwidth, demand traffic and capacity for parallel groups of up to three LSPs, any mix of configured and automatic members, in any processing order, both model classes",
  "Mixed groups that are only partly routable depend on capacity thresholds that the tests' fixtures do not cover.",
  [MM, RS, PM, FM],
  [("auto-bandwidth share", MM + ":_route_parallel_lsp_groups"), ("re-optimisation", MM + ":_optimize_parallel_lsp_group_res_bw"),
   ("setup bandwidth", RS + ":setup_bandwidth")],
  ["RSVP_LSP.reserved_bandwidth", "RSVP_LSP.setup_bandwidth"])

p("C07", "Demands ride the routed LSPs with the lowest effective metric",
  "A demand whose source and destination match at least one routed LSP is carried by exactly those matching routed LSPs with the lowest effective metric, split evenly among them, and by nothing else. "
  "The effective metric of a routed LSP is its manual metric when one is set (in the constructor or later; the last value set wins, -1 clears it) and otherwise the cost of the shortest IGP path between its ends.",
  ["inputs", "configurations"],
  "every combination of manual and default metrics, set and cleared in any order, for up to three parallel LSPs and every cost assignment on the stated topologies, both model classes",
  "Metric comparisons are relations between symbolic values; tests fix one ordering per fixture.",
  [PM, FM, RS],
  [("steering", PM + ":_route_demands"), ("steering", FM + ":_route_demands"), ("effective metric", RS + ":effective_metric"),
   ("manual metric", RS + ":manual_metric")],
  ["Demand.path", "Demand.path_detail", "RSVP_LSP.effective_metric()"])

p("C08", "IGP shortcuts put transit demands on LSPs from enabled nodes",
  "In the flexible model, a demand not carried end to end by an LSP uses, at each shortcut-enabled node on one of its shortest node paths, the lowest-metric routed LSPs from that node to the farthest downstream node of the path that has any, in place of the links they span; among the resulting alternatives only those with the lowest total metric are used. "
  "The demand's traffic is split evenly at each hop over the next items of those of its paths that got there the same way, is conserved, and loads every interface under the LSPs used (an LSP's share of a demand is rounded to one decimal). With no enabled node or no such LSP, routing is plain IGP.",
  ["inputs", "configurations"],
  "every cost, manual LSP metric and traffic value, and every subset of shortcut-enabled nodes, on the stated line, ring and parallel-link topologies with up to two LSPs",
  "Tests use one topology family with fixed metrics; which LSPs win depends on metric relations and enabled subsets.",
  [FM, RS],
  [("shortcut search", FM + ":_insert_lsp_shortcuts"), ("substitution", FM + ":_insert_lsps_into_path"), ("metric filter", FM + ":_inspect_for_lsp_metrics"),
   ("traffic split", FM + ":_demand_traffic_per_item")],
  ["Demand.path", "Interface.traffic", "RSVP_LSP.traffic_on_lsp()"])

p("C09", "Every view of which demands ride which LSPs agrees",
  "The demands reported on an LSP are exactly the routed demands whose path contains it, and the traffic reported on an LSP is the sum of what those demands put on it (0 when it is unrouted), so an interface's LSP-borne load equals the sum over its LSPs. "
  "The simulation diagnostics (counts and listings of routed, unrouted, carrying and empty LSPs, and of demands on and off LSPs and unrouted) match those same paths.",
  ["inputs", "configurations"],
  "every metric, cost, traffic and failure assignment within the stated models with up to three LSPs and three demands, both model classes",
  "The views are computed by separate code over the same state; tests compare constants of individual fixtures.",
  [RS, MM, IF],
  [("demands_on_lsp", RS + ":demands_on_lsp"), ("traffic_on_lsp", RS + ":traffic_on_lsp"), ("diagnostics", MM + ":simulation_diagnostics")],
  ["RSVP_LSP.demands_on_lsp()", "RSVP_LSP.traffic_on_lsp()", "simulation_diagnostics()"])

p("C10", "A simulation depends only on the current configuration",
  "Running the simulation gives the results that a freshly built model with the same nodes, interfaces, failures, demands and LSPs would give, whatever was simulated, failed, restored, added, changed or queried before, and running it twice in a row changes nothing. "
  "In particular results of an earlier run (paths, per-path detail, reservations, groupings) never survive into a later one.",
  ["histories", "inputs"],
  "every history of up to three edits (fail/restore circuits and nodes, change cost or traffic, add demand, LSP or circuit, remove them or change a capacity) with simulations in between, for all costs, capacities and traffic within the stated models, both model classes",
  "It quantifies over operation histories; tests run a few scripted ones and compare constants.",
  [PM, FM, MM, RS],
  [("reset before routing", PM + ":update_simulation"), ("reset before routing", FM + ":update_simulation"), ("LSP group cache", MM + ":parallel_lsp_groups")],
  ["update_simulation()"])

p("C11", "Failures take down both ends of a circuit and nothing else",
  "Under the model's fail and restore operations, both interfaces of a circuit always have the same failed state, every interface of a failed node is failed, and failing or restoring an interface or node changes only the circuits concerned. "
  "Restoring an interface succeeds only while both end nodes are up (otherwise it stays down, or an error is raised when asked for), and restoring a node brings back its circuits except those whose other end is still failed. No traffic or LSP crosses a failed interface after the next simulation.",
  ["histories"],
  "every consistent failure state of the stated topologies followed by every sequence of up to three fail/restore operations on interfaces (from either end) and nodes, with simulations in between, both model classes",
  "State-machine property over operation sequences; tests run a few fixed sequences.",
  [MM, IF, ND],
  [("interface failure", MM + ":fail_interface"), ("interface restore", MM + ":unfail_interface"), ("node failure", MM + ":fail_node"),
   ("node restore", MM + ":unfail_node"), ("failed setter", IF + ":failed")],
  ["Interface.failed", "Node.failed", "get_failed_interface_objects()"])

p("C12", "Members of a failed SRLG stay down until every cause is gone",
  "Failing a shared-risk group fails every member node and every member interface together with its remote end; while it is failed no member can be restored by any restore operation. "
  "Membership is recorded consistently on the group and on its members, circuits join and leave with both ends, and restoring the group (or leaving it while it is failed) brings back exactly the members that have no other reason - failed node, other failed group - to be down.",
  ["histories"],
  "every start state reachable by joining groups and failing nodes, circuits and groups, followed by up to two membership (joining a group that is up), fail or restore operations over up to two groups, on the stated topologies, both model classes",
  "The tests walk a few fixed sequences; overlapping groups, mixed node and interface membership and re-failing are not combined.",
  [SR, MM, IF, ND],
  [("group failure", MM + ":fail_srlg"), ("group restore", MM + ":unfail_srlg"), ("membership", IF + ":add_to_srlg"), ("membership", ND + ":add_to_srlg"),
   ("guard", IF + ":failed"), ("guard", ND + ":failed"), ("member lists", SR + ":node_objects")],
  ["SRLG.failed", "Interface.failed", "Node.failed"])

p("C13", "The shortest-path query returns exactly the least-cost paths",
  "Asking a model for the shortest path between two nodes returns the minimal cost over paths of non-failed interfaces whose reservable bandwidth is at least the requested amount, together with exactly the set of interface paths of that cost (each parallel interface counted separately in the flexible model), and no path and no cost when none exists. "
  "With no bandwidth requested, bandwidth use and RSVP settings play no role; the variant for an already routed LSP requires RSVP-enabled interfaces and counts the bandwidth the LSP itself reserves as available.",
  ["inputs", "configurations"],
  "every cost, capacity, reservable percentage, requested bandwidth, failure and RSVP assignment on the stated topologies, both model classes",
  "The query is exercised on a couple of fixtures without ties among unequal parallel links or failed members.",
  [PM, FM],
  [("query", PM + ":get_shortest_path"), ("query", FM + ":get_shortest_path"), ("conversion to interfaces", FM + ":_convert_nx_path_to_model_path")],
  ["get_shortest_path()"])

p("C14", "The all-paths query lists exactly the paths with the bandwidth",
  "Asking for all paths with a given reservable bandwidth returns exactly the loop-free interface paths of at most the given number of hops on which every interface has at least that reservable bandwidth, each once; failed interfaces are included or excluded as requested, and with no bandwidth requested RSVP settings play no role. "
  "The flexible model lists every combination of parallel interfaces.",
  ["inputs", "configurations"],
  "every capacity, reservable percentage, reservation and requested bandwidth, hop cutoff and failure assignment on the stated topologies, both model classes",
  "Thresholds and parallel combinations are sampled by one or two fixtures.",
  [PM, FM],
  [("query", PM + ":get_all_paths_reservable_bw"), ("query", FM + ":get_all_paths_reservable_bw"), ("combinations", FM + ":_normalize_multidigraph_paths")],
  ["get_all_paths_reservable_bw()"])

p("C15", "Validation accepts every well-formed model and rejects the rest",
  "Validation rejects a model in which an interface has no counterpart (or, by circuit id, more than one), the two ends of a circuit differ in capacity, two interfaces of a node share a name, two nodes share a name, an interface reserves more than its capacity or other than the sum of its LSPs (beyond rounding), or - single-link model only - two links join the same nodes or a node has IGP shortcuts enabled. "
  "Every model without such a fault is accepted, and validation forces circuits with one failed end to be failed at both.",
  ["inputs", "configurations"],
  "every capacity, reservation, name, presence and failed-flag assignment over up to three circuits and three nodes, both model classes",
  "Each test builds one bad model per rule; combinations and near misses, and the absence of false rejections, are not covered.",
  [PM, FM, MM],
  [("validation", PM + ":validate_model"), ("validation", FM + ":validate_model"), ("unique names", MM + ":_unique_interface_per_node"),
   ("capacity and state", MM + ":_validate_circuit_interface_capacity"), ("single link rule", PM + ":_multiple_links_between_nodes")],
  ["validate_model()"])

p("C16", "Adding and looking up objects keeps the model's identities unique",
  "Adding a node, circuit, demand, LSP or shared-risk group that is new makes exactly that object (with exactly the given attributes, failed if asked) part of the model; adding one whose identity is already present raises an error and leaves the model's contents unchanged. "
  "Looking up a node, interface, demand, LSP, group or circuit returns the one object with that identity, and raises an error when there is none; renaming an interface keeps it findable under its new name only.",
  ["histories", "inputs"],
  "every sequence of up to two additions followed by lookups with names drawn from a small set including clashes, with any attribute values, both model classes",
  "Tests add one object of each kind once; clashes across histories are not explored.",
  [MM, PM, FM],
  [("add_demand", MM + ":add_demand"), ("add_node", MM + ":add_node"), ("add_rsvp_lsp", MM + ":add_rsvp_lsp"), ("add_srlg", MM + ":add_srlg"),
   ("add_circuit", PM + ":add_circuit"), ("add_circuit", FM + ":add_circuit"), ("rename", MM + ":change_interface_name")],
  ["get_node_object()", "get_interface_object()", "get_demand_object()", "get_rsvp_lsp()"])

p("C17", "A model file loads into exactly the model it describes",
  "Loading a model file yields exactly the interfaces, nodes, demands and LSPs its tables describe, every field in its documented place and type, optional fields absent or blank taking their documented defaults, duplicate rows ignored (in the flexible format a repeated interface row is an error, since its circuit id then appears more than twice). "
  "A demand or LSP naming an unknown node, an interface row with too few fields, or (flexible model) a circuit id that does not appear exactly twice is rejected with an error.",
  ["inputs"],
  "every value of every numeric field and every combination of present, blank and absent optional fields and tables in files of the stated number of rows, both formats",
  "Tests load complete fixture files; missing optional columns, blank fields and field order are sampled at most once each.",
  [PM, FM, MM, UT],
  [("loader", PM + ":load_model_file"), ("loader", FM + ":load_model_file"), ("rows", PM + ":_extract_interface_data_and_implied_nodes"),
   ("rows", FM + ":_extract_interface_data_and_implied_nodes"), ("nodes", MM + ":_add_node_from_data"), ("demands", MM + ":_add_demand_from_data"),
   ("LSPs", MM + ":_add_lsp_from_data"), ("table end", UT + ":find_end_index")],
  ["load_model_file()"])

p("C18", "Invalid attribute values are refused and leave the object unchanged",
  "An interface cost that is not an integer of at least 1, a capacity not above 0, a reserved bandwidth below 0, a demand constructed with traffic below 0, an assigned LSP setup bandwidth below 0, an assigned manual LSP metric that is neither a positive integer nor -1, a non-boolean failed state or shortcut flag and a non-numeric coordinate are refused with an error and do not change the stored value. "
  "Every valid value is accepted and read back unchanged.",
  ["inputs"],
  "every integer and every real value of each numeric attribute, from any previous valid value",
  "The boundary is a statement about all numbers; tests try one bad value each.",
  [IF, DM, RS, ND, SR],
  [("cost", IF + ":cost"), ("capacity", IF + ":capacity"), ("traffic", DM + ":__init__"), ("manual metric", RS + ":manual_metric"),
   ("setup bandwidth", RS + ":setup_bandwidth"), ("coordinates", ND + ":lat")],
  ["attribute setters and constructors"])

p("C19", "Both model classes agree on networks without parallel links",
  "For a network with at most one link per node pair and no IGP shortcuts, the single-link and the flexible model give the same demand paths, the same LSP routability, path cost and reservations (and the same LSP paths where no two usable paths cost the same), the same interface loads (up to the single-link model's documented rounding) and the same unrouted demands.",
  ["inputs", "configurations"],
  "every cost, capacity, traffic, setup bandwidth, RSVP and failure assignment on the stated single-link topologies with up to two LSPs and two demands",
  "The two implementations are separate code; the tests never run the same input through both.",
  [PM, FM],
  [("single-link simulation", PM + ":update_simulation"), ("multi-link simulation", FM + ":update_simulation")],
  ["update_simulation()"])

p("C20", "Results do not depend on what nodes are called",
  "Demands, LSPs and links are associated by the identity of their end nodes: renaming nodes to any other distinct non-empty names changes no routing result, grouping, validation verdict or display query other than the names themselves. "
  "Demands and LSPs are grouped together exactly when they share both source node and destination node.",
  ["inputs"],
  "every assignment of distinct names (strings up to the stated length over an alphabet including '-') to the nodes of the stated models, both model classes, where the outcome does not hang on the order in which LSPs contending for bandwidth are signalled",
  "Tests use single-letter and short names; collisions of composed names need specific name combinations.",
  [MM, PM, FM, WM],
  [("LSP groups", MM + ":parallel_lsp_groups"), ("demand groups", MM + ":parallel_demand_groups"), ("single link rule", PM + ":_multiple_links_between_nodes"),
   ("display queries", WM + ":get_sources")],
  ["update_simulation()", "validate_model()"])

p("C21", "Circuits pair each interface with exactly its remote end",
  "Once validated or simulated, the model's circuits (failed ones included) partition its interfaces into pairs joining the same two nodes in opposite directions with the same circuit id; the remote interface of an interface is the other member of its pair, and the remote of the remote is the interface itself. "
  "The circuit reported for an interface is the one containing it, and a circuit is failed exactly when one of its interfaces is.",
  ["inputs", "configurations"],
  "every presence, failed and RSVP flag combination of up to three parallel circuits per node pair on the stated topologies, both model classes",
  "Pairing among several parallel links with mixed flags is checked on single fixtures only.",
  [FM, PM, CK, IF, MM],
  [("pairing", FM + ":_make_circuits_multidigraph"), ("pairing", PM + ":_make_circuits"), ("remote interface", IF + ":get_remote_interface"),
   ("lookup", MM + ":get_circuit_object_from_interface"), ("circuit state", CK + ":failed")],
  ["circuit_objects", "get_remote_interface()", "get_circuit_object()"])

p("C22", "The weather map shows the model's utilization, paths and menus as they are",
  "The weather map gives every non-failed interface the color of the utilization range that contains its utilization (at or above 100% the overload color) and every failed interface the failed color, for every utilization value. "
  "The sources and destinations it offers for demands and LSPs, and the interfaces, LSPs and demands it lists or highlights for a selected demand, LSP, interface or node, are exactly those of the model; choosing any entry a menu offers shows that object or clears the selection, and a cleared selection lists and highlights nothing; nodes appear at their coordinates with their failed state and edges with their interface's circuit, capacity, cost and utilization.",
  ["inputs", "configurations"],
  "every non-negative utilization value, and every demand and LSP population over the stated models",
  "The repository has no tests of the weather map at all.",
  [WM],
  [("edge color", WM + ":make_json_edge"), ("sources", WM + ":get_sources"), ("destinations", WM + ":get_destinations"),
   ("highlighting", WM + ":find_demand_interfaces_and_lsps"), ("elements", WM + ":create_elements")],
  ["make_json_edge()", "create_elements()"])

p("C23", "Orphan, adjacency and status listings match the model",
  "The listings of failed and non-failed nodes and interfaces, orphan nodes, a node's interfaces and adjacent nodes, demands by source or destination, unrouted demands, the demands and LSPs on an interface and the members of an SRLG each contain exactly the model objects with that property, each once.",
  ["inputs", "configurations", "histories"],
  "every presence and failure combination over the stated nodes, circuits and demands, both model classes",
  "Each listing is checked on one fixture.",
  [MM, ND],
  [("orphans", MM + ":get_orphan_node_objects"), ("failed nodes", MM + ":get_failed_node_objects"), ("adjacency", ND + ":adjacent_nodes"),
   ("by source", MM + ":get_demand_objects_source_node")],
  ["listing queries"])

p("C24", "Models do not share state",
  "Building, loading, changing, simulating, querying or displaying one model leaves the contents and the results of every other model as they were, and a model's results, answers and weather map do not depend on which other models exist or existed in the process, whatever their names have in common. "
  "A model made without arguments is empty.",
  ["histories", "configurations", "inputs"],
  "every interleaving of up to two (thorough: three) steps on two models over the same names with independent costs, traffic, capacities and bandwidths, of the same or of different model classes, built by constructor, by add calls or from files",
  "The tests use one model at a time and never compare a model with its earlier self in a fresh process.",
  [MM, PM, FM, WM],
  [("construction", MM + ":__init__"), ("simulation", FM + ":update_simulation"), ("simulation", PM + ":update_simulation"), ("loading", FM + ":load_model_file"),
   ("display", WM + ":create_elements")],
  ["constructors", "update_simulation()", "load_model_file()"])

p("C25", "Asking changes nothing, and the printed displays show the model",
  "No query, listing, diagnostic, validation of an unchanged model, display or map changes anything about a model: its configuration, simulation results and later simulations are those of a model never asked, "
  "and the same question asked twice, or after other questions, has the same answer. The printed displays (interface status, node status, interface traffic, demand paths, interface objects) show every "
  "interface, node and demand exactly once with its own state, traffic and paths; an unrouted demand is shown as having no path.",
  ["histories", "configurations", "inputs"],
  "every ordered choice of one or two (thorough: three) of some forty read-only calls, before and after a simulation, over free costs, traffic, bandwidths, capacities and failures",
  "Tests call a query once on one fixed network and look at its answer only; the displays are excluded from coverage and never tested.",
  [MM, PM, FM, "pyNTM/rsvp.py", WM],
  [("displays", MM + ":display_demand_paths"), ("displays", MM + ":display_interfaces_traffic"), ("groups", MM + ":parallel_demand_groups"), ("diagnostics", MM + ":simulation_diagnostics"),
   ("metrics", "pyNTM/rsvp.py:effective_metric"), ("paths", FM + ":get_shortest_path")],
  ["get_*()", "display_*()", "simulation_diagnostics()", "is_node_an_orphan()", "parallel_*_groups()"])

p("C26", "Parts of a network that share nothing do not influence each other",
  "Where a network consists of parts with no circuit between them, or joined by a single circuit that nothing has to cross, every part has the routes, reservations, loads, metrics, groups, circuits and path answers it has in "
  "a model made of that part alone, whatever is in the other part, happens there (failures, shared-risk groups, new demands, LSPs, circuits, costs, shortcuts) or is called the same; the counts of the whole are the sums of those of the parts. "
  "And where no LSP's bandwidth depends on traffic, each demand takes the paths it takes as the only demand, and every interface's load is the sum of the loads each demand alone would put on it.",
  ["configurations", "inputs", "histories"],
  "every cost, traffic, bandwidth and failure assignment of the two parts; every one of twelve changes in either part after the first simulation; every traffic vector of up to three demands",
  "Tests look at one connected network with a fixed set of demands; a value carried over from one demand, group or part of the network to the next goes unseen.",
  [MM, PM, FM],
  [("simulation", FM + ":update_simulation"), ("simulation", PM + ":update_simulation"), ("demands", FM + ":_route_demands"), ("loads", FM + ":_update_interface_utilization"),
   ("LSP groups", MM + ":_route_parallel_lsp_groups"), ("diagnostics", MM + ":simulation_diagnostics")],
  ["update_simulation()", "Interface.traffic", "Demand.path", "RSVP_LSP.path"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
