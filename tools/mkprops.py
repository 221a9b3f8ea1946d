#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MM, FM, PM = "pyNTM/master_model.py", "pyNTM/flex_model.py", "pyNTM/performance_model.py"
IF, ND, SR, RS, DM, WM = ("pyNTM/interface.py", "pyNTM/node.py", "pyNTM/srlg.py", "pyNTM/rsvp.py",
                          "pyNTM/demand.py", "pyNTM/weathermap.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("P01", "Failure states of circuits, nodes and SRLGs always agree",
     "After every call that fails or restores an interface, node or shared-risk group, changes the membership of a "
     "group, or adds a circuit, both interfaces of every circuit have the same failure state, every interface that "
     "touches a failed node is failed, and every node, interface and circuit that belongs to a failed group is failed. "
     "No call, whether it succeeds or is rejected, leaves the model in a mixed state.",
     ["histories", "fault_sequences"],
     "every sequence of failure, restoration, group-membership and circuit-adding calls, in any order, on any topology, "
     "in both model classes",
     "the tests fail and restore one or two fixed objects; overlapping groups, nodes failed under groups and "
     "restorations in the middle of other failures are combinations nobody wrote down",
     [MM, IF, ND, SR, FM, PM],
     [("fail/unfail interface, node, SRLG", MM), ("Interface.failed setter", IF), ("Node.failed setter", ND),
      ("add_to_srlg / remove_from_srlg", IF + " and " + ND)],
     ["Interface.failed, Node.failed, SRLG.failed, Circuit.failed after every call"],
     [("failed flags", "failure state of node, interface, SRLG", ND)])
prop("P02", "Failing or restoring an object changes exactly what it should",
     "A call that fails an interface, node or shared-risk group fails that object's own circuits and members and "
     "nothing else. A call that restores one brings back every circuit of it whose two nodes are up and that is in no "
     "failed group, keeps every object in a still-failed group failed, and restores nothing else; a call that names "
     "something that does not exist, or that cannot restore its object, is rejected or ignored as documented and "
     "changes nothing.",
     ["histories", "fault_sequences"],
     "every reachable failure state and every failure or restoration call from it",
     "each test checks one call from one state; the effect depends on which other nodes, circuits and groups are "
     "failed at that moment",
     [MM, IF, ND, SR],
     [("fail_node / unfail_node / fail_srlg / unfail_srlg", MM), ("fail_interface / unfail_interface", IF)],
     ["the failure state of every object before and after each call"])
prop("P03", "IGP demands take all of the lowest-cost working paths and no others",
     "After a simulation, a demand without an RSVP LSP to ride, end to end or as an IGP shortcut on a lowest-cost path, has exactly the set of loop-free paths of minimum total "
     "interface cost from its source to its destination over interfaces that are not failed, parallel equal-cost "
     "interfaces each counting as a path. It is unrouted exactly when no working path exists; RSVP settings and "
     "reserved bandwidth of interfaces play no part.",
     ["configurations", "inputs"],
     "every topology, cost assignment (also asymmetric), failure state and demand, in both model classes",
     "the tests look at a few demands on fixed topologies, mostly with unique or two-way shortest paths",
     [MM, FM, PM],
     [("_route_demands", FM), ("_route_demands", PM), ("_get_all_paths_mdg, _normalize_multidigraph_paths", FM)],
     ["Demand.path after update_simulation"])
prop("P04", "ECMP splits traffic evenly at each hop and never loses or creates traffic",
     "At every node, a demand's traffic that arrives there (or starts there) leaves in equal shares on every distinct "
     "next hop (interface or LSP) of its paths from that node, until all of it reaches the destination. So the traffic "
     "a demand puts on each interface follows from hop-by-hop splitting, and at every node what enters equals what "
     "leaves.",
     ["configurations", "inputs"],
     "every topology with any nesting of equal-cost splits, parallel interfaces and rejoining paths, and every traffic "
     "volume",
     "the tests pin interface loads on a handful of hand-computed splits; nested and rejoining splits of other shapes "
     "are unlimited",
     [FM, PM],
     [("_demand_traffic_per_item, _find_unique_next_hops", FM), ("_demand_traffic_per_int", PM)],
     ["Interface.traffic and Demand.path_detail after update_simulation"])
prop("P05", "Interface traffic and utilization are the sum of what crosses them",
     "After a simulation, the traffic on each working interface is the sum, over all routed demands, of the share of "
     "each demand that crosses it directly or inside an LSP, and its utilization is that traffic as a percentage of its "
     "capacity. A failed interface reports that it is down and carries nothing.",
     ["configurations", "histories"],
     "every mix of demands on IGP paths and LSPs, with failures, in both model classes",
     "the tests check selected interfaces of selected models",
     [FM, PM, IF],
     [("_update_interface_utilization", FM), ("_update_interface_utilization", PM), ("Interface.utilization", IF)],
     ["Interface.traffic, Interface.utilization"])
prop("P06", "RSVP LSPs signal on the best path that has the bandwidth, or not at all",
     "After a simulation there is an order of the LSPs in which every LSP, at its turn, takes a contiguous path "
     "from its source to its destination over working, RSVP-enabled interfaces that all still have the bandwidth it "
     "asks for, of lowest cost and then fewest hops among such paths when it is first signaled, and of lowest cost when "
     "it is re-signaled for more bandwidth, and records that path's cost and the bandwidth that was still available on it. "
     "An LSP is unrouted exactly when no such path exists at its turn.",
     ["configurations", "histories", "schedules"],
     "every topology, cost, capacity, reservable percentage, RSVP flag, failure state and set of LSPs and demands, and "
     "every order in which the LSPs may be signaled",
     "the order is arbitrary and ties are random, so tests can only use cases where every order gives the same answer",
     [MM, FM, PM, RS],
     [("_route_lsps, _route_parallel_lsp_groups", MM), ("_determine_lsp_state_info", FM),
      ("_determine_lsp_state_info", PM), ("find_rsvp_path_w_bw", RS)],
     ["RSVP_LSP.path after update_simulation"])
prop("P07", "Reserved bandwidth is exactly what the routed LSPs hold and fits the link",
     "After a simulation each interface's reserved bandwidth equals the sum of the reservations of the LSPs whose path "
     "crosses it, never exceeds the reservable share of its capacity, and its reservable bandwidth is that share minus "
     "what is reserved. Interfaces that are failed or not RSVP-enabled hold no reservations, and reservations of "
     "earlier simulations or of unrouted LSPs are never counted.",
     ["configurations", "histories"],
     "every set of LSPs, fixed or auto-bandwidth, including groups that re-signal, after any history of changes and "
     "simulations",
     "double counting shows only with re-signaling, overlapping old and new paths, or repeated simulations",
     [MM, FM, PM, IF],
     [("reserved_bandwidth / reservable_bandwidth", IF), ("_optimize_parallel_lsp_group_res_bw", MM)],
     ["Interface.reserved_bandwidth, Interface.reservable_bandwidth, RSVP_LSP.reserved_bandwidth"])
prop("P08", "LSPs reserve their configured bandwidth or an equal share of their demands",
     "After a simulation a routed LSP with a configured setup bandwidth reserves exactly that. Every other routed LSP "
     "reserves an equal share of the total traffic of the demands with its source and destination: the share over all "
     "parallel LSPs, or, when only some of them could be routed, the share over the routed ones if a path for that "
     "larger amount (counting back its own current reservation) exists at its turn.",
     ["configurations", "inputs"],
     "every parallel group of LSPs, mix of fixed and automatic bandwidth, demand volume and capacity",
     "the tests cover a few groups whose outcome does not depend on the signaling order",
     [MM, FM, PM, RS],
     [("_route_parallel_lsp_groups, _optimize_parallel_lsp_group_res_bw", MM), ("setup_bandwidth setter", RS)],
     ["RSVP_LSP.reserved_bandwidth, RSVP_LSP.setup_bandwidth"])
prop("P09", "Demands ride exactly the routed parallel LSPs with the lowest metric",
     "After a simulation a demand rides LSPs end to end exactly when at least one LSP with its source and destination "
     "is routed; it then rides all of the routed ones whose effective metric is lowest, in equal shares, and no others. "
     "The effective metric is the manually set metric if there is one, otherwise the cost of the shortest working path "
     "between the LSP's ends whatever path the LSP takes; setting a metric takes effect, clearing it restores the "
     "default, and invalid metrics are refused.",
     ["configurations", "histories"],
     "every combination of routed and unrouted parallel LSPs and configured, changed and cleared metrics",
     "the tests use one or two groups per case",
     [RS, FM, PM],
     [("manual_metric, effective_metric", RS), ("_route_demands", FM), ("_route_demands", PM)],
     ["Demand.path, RSVP_LSP.effective_metric, RSVP_LSP.manual_metric"])
prop("P10", "IGP shortcuts are used where enabled, hop by hop, and nowhere else",
     "When a demand has no end-to-end LSP, then at each node of its lowest-cost paths that has IGP shortcuts enabled "
     "and has a routed LSP to a node further along such a path, traffic takes the lowest-metric LSPs to the furthest "
     "such node; everywhere else it stays on the lowest-cost interfaces, and LSP metrics lower or higher than the IGP "
     "cost make the cheapest resulting paths win. LSPs are never used from a node without shortcuts, and the "
     "traffic is still fully delivered.",
     ["configurations"],
     "every topology, set of shortcut-enabled nodes, LSPs and manual metrics in the flexible model",
     "the tests cover a few chains; a shortcut in one of several equal-cost branches, or chained shortcuts, are other "
     "cases",
     [FM],
     [("find_igp_shortcuts, _insert_lsp_shortcuts, _inspect_for_lsp_metrics", FM)],
     ["Demand.path, Interface.traffic"])
prop("P11", "A demand's path detail matches its paths and its traffic",
     "After a simulation the detail of every routed demand lists exactly its paths; each item's split count is the "
     "product of the numbers of next hops met up to it, each path's traffic is the demand's traffic over that path's "
     "final split count, and the traffic of all paths adds up to the demand. An unrouted demand reports no detail from "
     "an earlier simulation.",
     ["configurations", "histories"],
     "every routed or unrouted demand of every topology and history",
     "the tests compare four literal path details",
     [DM, FM, PM],
     [("_demand_traffic_per_item", FM), ("_demand_traffic_per_int, _lsp_routed_demand_path_detail", PM)],
     ["Demand.path_detail"])
prop("P12", "A simulation depends only on the current configuration, not on history",
     "Running the simulation gives a result that the current topology, failures, demands and LSPs allow, whatever was "
     "simulated, failed, added or queried before, and running it again without changes gives an allowed result again, "
     "the same one wherever routing has no tie to break. A model reached by any history and a fresh model built "
     "directly with the same configuration give the same result.",
     ["histories"],
     "every history of changes, failures, restorations, simulations and queries that leads to a configuration",
     "stale caches and leftovers need a second simulation after a particular change; tests mostly simulate once or "
     "twice",
     [MM, FM, PM],
     [("update_simulation resets", FM), ("update_simulation resets", PM), ("parallel LSP group cache", MM)],
     ["all results of update_simulation on a model and on a fresh equal model"])
prop("P13", "Path queries return exactly the paths they promise",
     "The shortest-path query returns all and only the lowest-cost working paths whose every interface has the requested "
     "bandwidth, with their cost; the all-paths query returns all and only the loop-free paths within the hop limit with "
     "the requested bandwidth, over failed circuits too only if asked; the query for a routed LSP counts the LSP's own "
     "reservation as available. When there is none they return an empty list, and no query changes the model.",
     ["configurations", "inputs"],
     "every topology, failure state, reservation state, node pair, bandwidth, hop limit and LSP, in both classes",
     "the tests query a few pairs of fixed models",
     [FM, PM],
     [("get_shortest_path, get_all_paths_reservable_bw, get_shortest_path_for_routed_lsp", FM),
      ("get_shortest_path, get_all_paths_reservable_bw, get_shortest_path_for_routed_lsp", PM)],
     ["return values of the queries"])
prop("P14", "Reports on demands, LSPs and failures agree with the simulation result",
     "After a simulation, the demands and LSPs reported on an interface, the demands and the traffic reported on an "
     "LSP, the LSP metrics, the unrouted demands, the failed and working nodes and interfaces, the parallel "
     "groups and the simulation diagnostics are exactly what the routed paths, reservations and failure states imply. "
     "Each report is complete and contains nothing else.",
     ["configurations", "histories"],
     "every report on every object after every history",
     "the tests check a few objects per report and almost never both directions",
     [MM, IF, RS, ND],
     [("demands, lsps", IF), ("demands_on_lsp, traffic_on_lsp, topology_metric", RS),
      ("simulation_diagnostics, parallel groups, get_* reports", MM)],
     ["return values of the reports"])
prop("P15", "Invalid models and conflicting additions are rejected, valid ones accepted",
     "Validation and simulation reject a model with circuit ends of different capacity, an interface "
     "without a counterpart, two interfaces with one name on a node, or two nodes with one name, and in the "
     "performance model also parallel circuits or enabled IGP shortcuts; every other model is accepted. Adding a node, "
     "demand, LSP, circuit or shared-risk group that conflicts with an existing one, or that leads from a node to itself, "
     "is refused and leaves the model unchanged, as are illegal costs, capacities, traffic and metrics.",
     ["configurations", "histories"],
     "every valid model and every single defect or conflict in it, at any point of a history",
     "the tests contain one example per rejection and cannot show that valid models are accepted in general",
     [MM, FM, PM, IF, DM],
     [("validate_model", FM), ("validate_model", PM), ("add_*", MM), ("cost, capacity setters", IF)],
     ["exceptions raised and the model afterwards"])
prop("P16", "A loaded model file gives exactly the model it describes",
     "Loading a well-formed model file gives a model with exactly the interfaces, nodes, demands and LSPs of its tables, "
     "every attribute as written and every omitted or blank optional one at its documented default, ignoring repeated "
     "entries after the first. Files that use a circuit id other than twice, refer to unknown nodes in the demand or LSP "
     "table, or lack required interface columns are refused.",
     ["inputs"],
     "every combination of present, blank and missing columns, tables, node orderings and repeated rows, for both "
     "model classes",
     "the tests load a fixed set of files, most with all columns or none",
     [MM, FM, PM, "pyNTM/utilities.py"],
     [("load_model_file, _extract_interface_data_and_implied_nodes", FM),
      ("load_model_file, _extract_interface_data_and_implied_nodes", PM),
      ("_add_node_from_data, _add_demand_from_data, _add_lsp_from_data", MM)],
     ["the objects of the loaded model"])
prop("P17", "Separate models never affect each other",
     "Any call on one model, including adding objects, failing, simulating and querying, leaves every other model in "
     "the same process that shares no objects with it unchanged, and a new empty model is empty.",
     ["histories"],
     "every interleaving of calls on two or more models, however they were created",
     "the tests never compare a model with another one that was used meanwhile",
     [MM, FM, PM, SR],
     [("constructors", MM), ("SRLG", SR)],
     ["the full state of the other models after each call"])
prop("P18", "Both model classes give the same answers where both apply",
     "On a topology without parallel circuits or IGP shortcuts, the flexible and the performance model agree: "
     "the same failure states after the same calls, the same IGP paths and interface traffic within rounding, the same "
     "routed or unrouted LSPs and reservations wherever signaling order and ties do not matter, the same path "
     "query results, and the same acceptance or rejection of calls.",
     ["configurations", "histories"],
     "every history on every topology without parallel circuits",
     "the tests run separate scenarios for the two classes",
     [FM, PM, MM],
     [("the two implementations of routing, queries and validation", FM + " and " + PM)],
     ["all public results of both models"])
prop("P19", "The weather map shows the model as it is",
     "The elements prepared for the weather map contain, for every circuit, both end nodes with their position and "
     "failure state and one edge per interface with its name, capacity, cost, utilization and the color of "
     "the range the utilization falls in, failed interfaces in the failure color. The lists of sources, destinations, "
     "nodes, and the interfaces and LSPs of a demand or LSP offered for selection are exactly those of the model.",
     ["configurations"],
     "every model with a simulation result, every utilization value",
     "there are no tests for the weather map",
     [WM],
     [("create_elements, make_json_edge, make_json_node", WM), ("get_sources, get_destinations, "
                                                               "find_demand_interfaces_and_lsps", WM)],
     ["return values of the weather map's data functions"])
prop("P20", "Model edits and lookups do exactly what they say",
     "Adding a node, circuit, list of interfaces, demand or LSP, and renaming an interface, changes the model by exactly "
     "that object with the given attributes, a circuit added on a failed node or as failed being failed. Afterwards "
     "every object can be found by every lookup that names it, the remote end and circuit of each interface and the "
     "interfaces and neighbors of each node are right, and lookups of absent objects are refused.",
     ["histories"],
     "every sequence of edits and lookups on every model",
     "the tests add one object to a fixed model",
     [MM, FM, PM, IF, ND],
     [("add_circuit, add_network_interfaces_from_list", FM), ("add_circuit, add_network_interfaces_from_list", PM),
      ("add_node, add_demand, add_rsvp_lsp, change_interface_name, get_*", MM)],
     ["model objects and lookup results after each edit"])
prop("P21", "Reading a model changes nothing and its printed displays show it as it is",
     "The printed displays of node status, interface status, interface traffic, interfaces and demand paths contain every "
     "node, interface or demand exactly once with its present failure state, traffic or paths, and nothing else. Reading "
     "anything from a model (displays, reports, lookups, metrics, paths and path details), before or after a simulation, "
     "changes nothing that can be observed on it.",
     ["configurations", "histories"],
     "every state of every model, before and after simulations, in both model classes",
     "the display calls have no tests, and tests that read one value do not compare the whole model before and after",
     [MM, RS, IF, DM],
     [("display_*", MM), ("metrics, demands_on_lsp, traffic_on_lsp", RS), ("demands, lsps", IF)],
     ["standard output of the display calls", "the full observable state before and after each read"])

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
