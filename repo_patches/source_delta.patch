From e06b52984506b2c9bb1561e42793062339d77d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 01/32] fix: let IGP traffic use interfaces that are not
 rsvp_enabled

Graphs built with needed_bw=0 dropped interfaces with reservable_bandwidth
of -1, so demands, effective metrics, shortest paths and circuits ignored
every interface with rsvp_enabled=False.
---
 pyNTM/flex_model.py        |  6 +++---
 pyNTM/master_model.py      | 14 ++++++++++++++
 pyNTM/performance_model.py |  4 ++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..86ce37a 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -982,14 +982,14 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and self._has_needed_bw(interface, needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if self._has_needed_bw(interface, needed_bw)
             )
 
         if rsvp_required is True:
@@ -1504,7 +1504,7 @@ class FlexModel(_MasterModel):
                 interface = [
                     interface
                     for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
+                    if self._has_needed_bw(interface, needed_bw)
                 ]
 
                 model_path.append(interface)
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..9307494 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -286,6 +286,20 @@ class _MasterModel(object):
 
             counter += 1
 
+    @staticmethod
+    def _has_needed_bw(interface, needed_bw):
+        """
+        Does interface have needed_bw of reservable bandwidth?  When no bandwidth
+        is needed (needed_bw=0), any interface qualifies, including an interface
+        that is not rsvp_enabled (reservable_bandwidth of -1), as IGP traffic does
+        not depend on reservable bandwidth.
+
+        :param interface: Interface object
+        :param needed_bw: amount of reservable bandwidth needed
+        :return: Boolean
+        """
+        return needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+
     def _add_lsp_path_data(self, lsp, path):
         """
         Adds data about an LSP's path: cost of path and reservable bandwidth
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..7cb9470 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -529,14 +529,14 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and self._has_needed_bw(interface, needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if self._has_needed_bw(interface, needed_bw)
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 4f0b573e7797583d571bf133a84540069331b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 02/32] fix: FlexModel.get_shortest_path returns only lowest
 cost parallel interfaces

The node path was expanded with every parallel interface that had the needed
bandwidth, including failed ones and ones costlier than the returned cost.
---
 pyNTM/flex_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 86ce37a..617b919 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1409,7 +1409,7 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
-- 
2.43.0


From a8564714a726b9132eec3474446fba40db806c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 03/32] fix: FlexModel.get_all_paths_reservable_bw honours
 include_failed_circuits

A failed interface parallel to a working one was still part of the returned
paths when include_failed_circuits was False.
---
 pyNTM/flex_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 617b919..3249281 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1368,7 +1368,9 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._convert_nx_path_to_model_path(
+                    path, needed_bw, include_failed_circuits
+                )
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1467,7 +1469,9 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
+    def _convert_nx_path_to_model_path(
+        self, nx_graph_path, needed_bw, include_failed_circuits=True
+    ):
         """
         Given a path from an networkx DiGraph, converts that
         path to a Model style path and returns that Model style path
@@ -1488,6 +1492,7 @@ class FlexModel(_MasterModel):
 
         :param nx_graph_path: list of node names
         :param needed_bw: needed reservable bandwidth on the requested path
+        :param include_failed_circuits: may the path transit failed interfaces?
         :return: List of Model Interfaces from source to destination
         """
 
@@ -1505,6 +1510,7 @@ class FlexModel(_MasterModel):
                     interface
                     for interface in self.get_interface_object_from_nodes(hop, next_hop)
                     if self._has_needed_bw(interface, needed_bw)
+                    and (include_failed_circuits or not interface.failed)
                 ]
 
                 model_path.append(interface)
-- 
2.43.0


From 91c8c6077b5f3cda923d56a320f3363eb4e0edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 04/32] fix: FlexModel resignalled LSP path is a contiguous
 lowest cost path

With parallel interfaces between two nodes, the path found for an already
routed LSP listed each parallel interface as a separate hop and could include
failed, costlier or non-RSVP interfaces.
---
 pyNTM/flex_model.py | 66 +++------------------------------------------
 1 file changed, 3 insertions(+), 63 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 3249281..c33646d 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1453,9 +1453,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1517,64 +1515,6 @@ class FlexModel(_MasterModel):
 
         return model_path
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1717,7 +1657,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1727,7 +1667,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From f9e1b506e1380175d4b05a1f1cfeba42f5f63d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 05/32] fix: IGP shortcuts apply to each of a demand's ECMP
 paths

Only the LSPs found along the last shortest path were substituted, so whether
a shortcut was used depended on path order and a demand's split traffic could
fail to add up to the demand. Shortcuts are now chosen hop by hop.
---
 pyNTM/flex_model.py | 239 +++++++++++++++-----------------------------
 1 file changed, 83 insertions(+), 156 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index c33646d..83a31e8 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -412,82 +412,94 @@ class FlexModel(_MasterModel):
         of the any applicable Interfaces
         """
 
-        # Substitute IGP enabled LSPs for Interfaces in paths
+        # Unique Interfaces in paths, in the order in which they appear
+        path_interfaces = list(dict.fromkeys(itertools.chain(*paths)))
+
+        # Find what traffic can egress each node in node_paths on (a shortcut LSP or an Interface);
+        # dict of node name: list of (Interface or LSP, name of node that it leads to)
+        next_hops = {}
         for node_path in node_paths:
-            # Find Nodes along the path that have igp_shortcuts_enabled and have
-            # LSPs to downstream Nodes in the path
-            path_lsps = []  # List of LSPs to substitute into path
-            next_node_to_check = []  # Next node name in path to check for LSPs
-
-            for node_name in node_path:
-                # Make sure the next node checked is downstream from the end of any LSPs
-                # the traffic has taken thusfar
-                if len(next_node_to_check) > 0:
-                    if node_path.index(node_name) < node_path.index(
-                        next_node_to_check[-1]
-                    ):
-                        continue
-                if self.get_node_object(node_name).igp_shortcuts_enabled is True:
-                    # Get the source node object
-                    source_node = self.get_node_object(node_name)
-                    # Get the source node object index in node_path
-                    source_node_index = node_path.index(node_name)
-
-                    # Check for LSPs from present node in path (source_node) to downstream nodes in path;
-                    # look for the LSPs that go furthest downstream first
-                    destinations = node_path[source_node_index + 1 :]
-                    destinations.reverse()
-                    for destination in destinations:
-                        # Take the LSPs whose source node matches source_node and whose dest node matches
-                        # the destination we are iterating through and whose effective metric matches the
-                        # shortest path from source_node to destination
-
-                        key = "{}-{}".format(source_node.name, destination)
-                        try:
-                            candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
-                            min_metric = min(
-                                lsp.effective_metric(self)
-                                for lsp in candidate_lsps_for_demand
-                                if "Unrouted" not in lsp.path
-                            )
-                            lsps = [
-                                lsp
-                                for lsp in candidate_lsps_for_demand
-                                if lsp.effective_metric(self) == min_metric
-                                and "Unrouted" not in lsp.path
-                            ]
-                        except (KeyError, ValueError):
-                            # If there is no LSP group that matches the demand source/dest (KeyError) or
-                            # there are no routed LSPs for the demand (ValueError), then set lsps
-                            # to empty list
-                            lsps = []
-
-                        if lsps:
-                            # Break out of the destinations iteration as traffic will want to take
-                            # the first LSP(s) available the traffic farthest along the path
-                            path_lsps.append(lsps)
-                            lsp_end_node = lsps[0].dest_node_object.name
-                            next_node_to_check.append(lsp_end_node)
-                            break
-
-        # Now that path_lsps is known, substitute those into path
-        finalized_paths = []
-        if len(path_lsps) > 0:
-            for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
-                        if path not in finalized_paths:
-                            finalized_paths.append(path)
+            for index, node_name in enumerate(node_path[:-1]):
+                # Downstream nodes in path, furthest downstream first
+                destinations = node_path[index + 1 :]
+                destinations.reverse()
+                lsps = self._find_shortcut_lsps(node_name, destinations)
+                if lsps:
+                    hops = [(lsp, lsp.dest_node_object.name) for lsp in lsps]
                 else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
+                    next_node_name = node_path[index + 1]
+                    hops = [
+                        (interface, next_node_name)
+                        for interface in path_interfaces
+                        if interface.node_object.name == node_name
+                        and interface.remote_node_object.name == next_node_name
+                    ]
+                node_hops = next_hops.setdefault(node_name, [])
+                node_hops.extend(hop for hop in hops if hop not in node_hops)
+
+        # Walk the next hops from the source node; wherever an LSP or Interface leads,
+        # traffic can take any of the next hops from there
+        source_name, dest_name = node_paths[0][0], node_paths[0][-1]
+        finalized_paths = []
+        partial_paths = [([], source_name)]
+        while partial_paths:
+            path, node_name = partial_paths.pop()
+            if node_name == dest_name:
+                finalized_paths.append(path)
+                continue
+            for item, next_node_name in next_hops[node_name]:
+                partial_paths.append((path + [item], next_node_name))
 
         return finalized_paths
 
+    def _find_shortcut_lsps(self, node_name, destinations):
+        """
+        Finds the LSPs that traffic on an IGP path takes as a shortcut from a node on
+        that path
+
+        :param node_name: name of node on the path
+        :param destinations: names of the nodes downstream from node_name on the path; the
+        node that is furthest downstream is first
+
+        :return: List of parallel LSPs from the node to the furthest downstream node it has
+        LSPs to; empty list if there are no LSPs or if the node does not have IGP shortcuts enabled
+        """
+        # Get the source node object
+        source_node = self.get_node_object(node_name)
+
+        if source_node.igp_shortcuts_enabled is True:
+            for destination in destinations:
+                # Take the LSPs whose source node matches source_node and whose dest node matches
+                # the destination we are iterating through and whose effective metric matches the
+                # shortest path from source_node to destination
+
+                key = "{}-{}".format(source_node.name, destination)
+                try:
+                    candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                    min_metric = min(
+                        lsp.effective_metric(self)
+                        for lsp in candidate_lsps_for_demand
+                        if "Unrouted" not in lsp.path
+                    )
+                    lsps = [
+                        lsp
+                        for lsp in candidate_lsps_for_demand
+                        if lsp.effective_metric(self) == min_metric
+                        and "Unrouted" not in lsp.path
+                    ]
+                except (KeyError, ValueError):
+                    # If there is no LSP group that matches the demand source/dest (KeyError) or
+                    # there are no routed LSPs for the demand (ValueError), then set lsps
+                    # to empty list
+                    lsps = []
+
+                if lsps:
+                    # Break out of the destinations iteration as traffic will want to take
+                    # the first LSP(s) available the traffic farthest along the path
+                    return lsps
+
+        return []
+
     def _inspect_for_lsp_metrics(self, paths_with_lsps):
         """
         Checks for manually set LSP metrics and how they affect best path
@@ -808,91 +820,6 @@ class FlexModel(_MasterModel):
                         unique_next_hops[item.source_node_object.name].append(hop)
         return unique_next_hops
 
-    def _insert_lsps_into_path(self, path_lsps, path):
-        """
-        Substitutes the path_lsps into the path.  Although the path
-        argument is a single path, multiple paths will be returned if there
-        are multiple parallel LSPs (in path_lsps component lists) between
-        any hops in the path.
-
-        :param path_lsps: List of lists.  Each component list holds
-        the parallel LSPs from a common source to a common destination
-
-        Example::
-
-            [[RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2'),
-            RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1')],
-            [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')]]
-
-        :param path: List of Interfaces in path from source to destination
-
-        :return:  List of path permutations with the LSPs substituted in
-        """
-
-        # path_slices is a list of lists; each component list is a tuple
-        # for an LSP substitution in the path:
-        # [(start_index, end_index, parallel_lsp_1), . .
-        # . . ((start_index, end_index, parallel_lsp_x)]
-        # Example: 2 LSPs from B to D and 1 LSP from D to F
-        #  [[[1, 3, RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-        #   [1, 3, RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1')]],
-        #   [[3, 5, RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')]]]
-        path_slices = []
-        for lsp_group in path_lsps:
-            # lsp_group_slices is a list of tuples for each parallel LSP in lsp_group:
-            # [(start_index, end_index, parallel_lsp_1),. .
-            # . . ((start_index, end_index, parallel_lsp_x)]
-            lsp_group_slices = []
-
-            try:
-                start_interface = [
-                    interface
-                    for interface in path
-                    if isinstance(interface, Interface)
-                    and interface.node_object == lsp_group[0].source_node_object
-                ][0]
-
-                end_interface = [
-                    interface
-                    for interface in path
-                    if isinstance(interface, Interface)
-                    and interface.remote_node_object == lsp_group[0].dest_node_object
-                ][0]
-
-            except IndexError:
-                # There is no LSP source/dest match for the Interfaces in path; this may happen
-                # with Demands that take ECMP paths, where one path has LSP shortcuts and other
-                # paths do not have LSP shortcuts
-                return -1  # code for no LSPs on path
-
-            slice_to_sub_start_index = path.index(start_interface)
-            slice_to_sub_end_index = path.index(end_interface) + 1
-            for lsp in lsp_group:
-                lsp_group_slices.append(
-                    [slice_to_sub_start_index, slice_to_sub_end_index, lsp]
-                )
-
-            path_slices.append(lsp_group_slices)
-
-        # Sub in the LSPs, starting from the end of the path (to preserve index values)
-        path_slices.reverse()
-
-        path_slice_combos = list(itertools.product(*path_slices))
-
-        # List to hold the path(s) with the LSP(s) substituted in
-        paths_with_substitutions = []
-        for path_slice_combo in path_slice_combos:
-            path_prime = path[:]
-            for path_slice in path_slice_combo:
-                start_index = path_slice[0]
-                end_index = path_slice[1]
-                lsp = path_slice[2]
-                path_prime[start_index:end_index] = [lsp]
-
-            paths_with_substitutions.append(path_prime)
-
-        return paths_with_substitutions
-
     def _get_all_paths_mdg(self, G, nx_sp):
         """
         Examines hop-by-hop paths in G and determines specific
-- 
2.43.0


From 9baaab1afa63aea945acc4d85f0fd8316aa43bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 06/32] fix: do not resignal a fixed bandwidth LSP for auto
 bandwidth

Optimizing a parallel LSP group overwrote the reserved_bandwidth of LSPs that
have configured_setup_bandwidth. When the value happened to be unchanged but
the path moved, interface reservations no longer matched the LSPs.
---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 9307494..01ef91a 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -351,6 +351,10 @@ class _MasterModel(object):
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
 
+            # An LSP with configured_setup_bandwidth only signals for that fixed value
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             lsp_path_interfaces_before = lsp.path["interfaces"]
             lsp_res_bw_before = lsp.reserved_bandwidth
 
-- 
2.43.0


From 992f6503e190ed32bfb637756b127519d9580dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 07/32] fix: round LSP reservations consistently in interface
 reserved bandwidth

---
 pyNTM/flex_model.py        | 2 +-
 pyNTM/master_model.py      | 4 ++--
 pyNTM/performance_model.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 83a31e8..48152fb 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1538,7 +1538,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 01ef91a..69d2114 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -366,11 +366,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface.reserved_bandwidth -= round(lsp_res_bw_before, 1)
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 7cb9470..64bfe48 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -466,7 +466,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
-- 
2.43.0


From e56e9978b93726ce4c7fe13893da689e21cce7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 08/32] fix: setting an LSP's manual_metric takes effect when a
 configured metric is pending

---
 pyNTM/rsvp.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..6214d8b 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,7 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From d8772487d16fcaff6ad30bfcafbe0788c3814a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 09/32] fix: models created with default object sets no longer
 share those sets

---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 16 ++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 48152fb..83f3996 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1915,10 +1915,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 69d2114..2a250ed 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,16 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        self.interface_objects = set() if interface_objects is None else interface_objects
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 64bfe48..3f62214 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1556,10 +1556,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From 60d801284c4b46c3049cda0074ca0176513daeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 10/32] fix: validate_model reports duplicate interface names
 on a node

---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/performance_model.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 83f3996..b887ef8 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -157,7 +157,7 @@ class FlexModel(_MasterModel):
         unique_interfaces_per_node = self._unique_interface_per_node()
 
         # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
+        if unique_interfaces_per_node is not True:  # pragma: no cover
             error_data.append(unique_interfaces_per_node)
 
         # Make validate_model() check for matching failed statuses
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 3f62214..6283e56 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -199,6 +192,13 @@ class PerformanceModel(_MasterModel):
 
             error_data.append(multiple_links_between_nodes)
 
+        # Validate there are no duplicate interfaces
+        unique_interfaces_per_node = self._unique_interface_per_node()
+
+        # Log any duplicate interfaces on a node
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append(unique_interfaces_per_node)
+
         srlg_errors = self.validate_srlg_nodes()
 
         if len(srlg_errors) > 0:
-- 
2.43.0


From 235360f5ec5e6e14d01ce83a40fde72da51a0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 11/32] fix: add_circuit honours failed and the state of failed
 nodes

---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index b887ef8..e682de7 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1227,6 +1227,10 @@ class FlexModel(_MasterModel):
                 "interface already exists in model".format(int_b, node_b_object)
             )
 
+        # A Circuit on a failed Node comes up failed
+        int_a.failed = failed
+        int_b.failed = failed
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 6283e56..4a35627 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -724,6 +724,10 @@ class PerformanceModel(_MasterModel):
                 )
             )
 
+        # A Circuit on a failed Node comes up failed
+        int_a.failed = failed
+        int_b.failed = failed
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
-- 
2.43.0


From a4b35c6bc10f504fe97521e989ac0680a6bde64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 12/32] fix: unfail_node leaves interfaces in a failed SRLG
 failed and unfails the rest

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 2a250ed..81aefc3 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -835,6 +835,10 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
+            # An interface in a failed SRLG stays failed
+            if any(srlg.failed for srlg in interface.srlgs):
+                continue
+
             # Unfail the interfaces if the remote node is not failed
             if not interface.remote_node_object.failed:
                 # Unfail the specific interface
-- 
2.43.0


From 92d00b43abada25e23f280601dacbe30934d5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 13/32] fix: removing an interface from an SRLG unfails both
 ends of its circuit

---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..49eaa38 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -428,3 +428,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From ade625b8b82dc6771bccc49e5205351c60487494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 14/32] fix: a node or interface added to a failed SRLG fails

---
 pyNTM/interface.py | 5 +++++
 pyNTM/node.py      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 49eaa38..57d3727 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -397,6 +397,11 @@ remote_node_object = %r, circuit_id = %r)" % (
             get_srlg.interface_objects.add(remote_int)
             remote_int._srlgs.add(get_srlg)
 
+            # Members of a failed SRLG are failed
+            if get_srlg.failed:
+                self.failed = True
+                remote_int.failed = True
+
     def remove_from_srlg(self, srlg_name, model):
         """
         Removes self and remote interface object from SRLG with srlg_name in model.
diff --git a/pyNTM/node.py b/pyNTM/node.py
index f5bcf88..1bb0f85 100644
--- a/pyNTM/node.py
+++ b/pyNTM/node.py
@@ -190,6 +190,10 @@ class Node(object):
             get_srlg.node_objects.add(self)
             self._srlgs.add(get_srlg)
 
+            # Members of a failed SRLG are failed
+            if get_srlg.failed:
+                model.fail_node(self.name)
+
     def remove_from_srlg(self, srlg_name, model):
         """
         Removes self from SRLG with srlg_name in model
-- 
2.43.0


From a0a4c4543d8c08c71a70c1f6ee7d8cce75032341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 15/32] fix: interfaces added from a list share the model's
 nodes and honour failed

---
 pyNTM/master_model.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 81aefc3..9e8ca8e 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1217,23 +1217,26 @@ class _MasterModel(object):
         network_interface_objects = set([])
         network_node_objects = set([])
 
+        # The new Interfaces share the Node objects already in the Model
+        nodes = {node.name: node for node in self.node_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
+            # If an Interface's Node does not already exist, add it
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes:
+                    nodes[node_name] = Node(node_name)
+                    network_node_objects.add(nodes[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes[interface["node"]],
+                nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
+            intf.failed = interface.get("failed", False)
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From 2fde2f7ea7170b173ab41b3ce30c1b700ec4d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 16/32] fix: blank optional columns in a model file mean the
 documented defaults

---
 pyNTM/flex_model.py        | 6 +++---
 pyNTM/master_model.py      | 3 ++-
 pyNTM/performance_model.py | 6 +++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index e682de7..c3126c9 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1834,7 +1834,7 @@ class FlexModel(_MasterModel):
                     circuit_id,
                     rsvp_enabled,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1850,7 +1850,7 @@ class FlexModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1885,7 +1885,7 @@ class FlexModel(_MasterModel):
                 remote_node_object,
                 circuit_id,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 9e8ca8e..57927f5 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -620,7 +620,8 @@ class _MasterModel(object):
         new_node = Node(node_name)
         # Set igp_shortcuts_enabled; only used in FlexModel, ignored in PerformanceModel
         try:
-            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = node_info[3]
+            igp_shortcuts_enabled_value = node_info[3] or False
+            new_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
         except IndexError:
             igp_shortcuts_enabled_value = False
         if node_name not in {node.name for node in node_set}:  # Pick up orphan nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 4a35627..781bbf8 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1165,7 +1165,7 @@ class PerformanceModel(_MasterModel):
                     capacity,
                     rsvp_enabled,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1180,7 +1180,7 @@ class PerformanceModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1215,7 +1215,7 @@ class PerformanceModel(_MasterModel):
                 remote_node_object,
                 None,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
-- 
2.43.0


From d424dca631f379b324426063634678910fd75bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 17/32] fix: an interface renamed with change_interface_name
 can still be found in its model

---
 pyNTM/master_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 57927f5..55d894c 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -714,7 +714,12 @@ class _MasterModel(object):
         :return: Interface with new name
         """
         interface_to_edit = self.get_interface_object(current_interface_name, node_name)
+
+        # The name is part of the Interface's hash; re-add the renamed Interface
+        # so it can still be found in the set
+        self.interface_objects.discard(interface_to_edit)
         interface_to_edit.name = new_interface_name
+        self.interface_objects.add(interface_to_edit)
 
         return interface_to_edit
 
-- 
2.43.0


From a121c2867959fe9a9b73b23d8bcdd31a2b424051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 18/32] fix: traffic_on_lsp is 0 when no LSP in the parallel
 group is routed

---
 pyNTM/rsvp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 6214d8b..301d379 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -278,6 +278,10 @@ class RSVP_LSP(object):
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
 
+        # No LSP in the group is routed, so there is no traffic on any of them
+        if not parallel_routed_lsps:
+            return 0
+
         # Find min metric within parallel_routed_lsps
         min_metric = min({lsp.effective_metric(model) for lsp in parallel_routed_lsps})
 
-- 
2.43.0


From 041fac131241201be4baf99ec451cebd305b1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 19/32] fix: PerformanceModel does not mistake hyphenated node
 names for parallel links

---
 pyNTM/performance_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 781bbf8..a742f59 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1527,7 +1527,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
@@ -1537,7 +1537,7 @@ class PerformanceModel(_MasterModel):
         # parallel links, sort it, and return the list
         if len(connected_nodes_list) != len(connected_nodes_set):
             parallel_links = [
-                connection
+                "{}-{}".format(*connection)
                 for connection in connected_nodes_list
                 if connected_nodes_list.count(connection) > 1
             ]
-- 
2.43.0


From d5164c32367c6adea40d03a783250c94f0d2f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 20/32] fix: a parallel circuit rejected by
 PerformanceModel.add_circuit is not left in the model

---
 pyNTM/performance_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index a742f59..9741bc5 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -724,6 +724,17 @@ class PerformanceModel(_MasterModel):
                 )
             )
 
+        # A second Circuit between the nodes must not make the Model invalid
+        connected_nodes = {
+            (interface.node_object.name, interface.remote_node_object.name)
+            for interface in self.interface_objects
+        }
+        if (node_a_object.name, node_b_object.name) in connected_nodes:
+            raise ModelException(
+                "multiple links between nodes {} and {} not allowed in Model object "
+                "(use Parallel_Link_Model)".format(node_a_object, node_b_object)
+            )
+
         # A Circuit on a failed Node comes up failed
         int_a.failed = failed
         int_b.failed = failed
-- 
2.43.0


From 0d0e85f1b91cb5116204927ecf8f928c6b570f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 21/32] fix: WeatherMap gives every utilization a color,
 including fractional values between ranges

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..7b336db 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,7 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    if lower <= utilization < upper + 1:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From 0e110954408389aebe42c4699b58858615c83975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 22/32] fix: WeatherMap finds no interfaces for an unrouted
 demand

---
 pyNTM/weathermap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 7b336db..c31ded4 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -349,6 +349,8 @@ class WeatherMap(object):  # pragma: no cover
         interfaces_to_highlight = set()
         lsps = set()
         for dmd in dmds:
+            if dmd.path == "Unrouted":
+                continue
             dmd_path = dmd.path[:]
             for path in dmd_path:
                 for hop in path:
-- 
2.43.0


From 125a4a6acb5b62d669582253b0c5bf58ff69b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 23/32] fix: WeatherMap sources and destinations support
 hyphenated node names

---
 pyNTM/weathermap.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index c31ded4..a20079e 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -381,11 +381,13 @@ class WeatherMap(object):  # pragma: no cover
 
         if object_type == "demand":
             source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
+                (group[0].source_node_object.name, group[0].dest_node_object.name)
+                for group in self.model.parallel_demand_groups().values()
             ]
         elif object_type == "lsp":
             source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
+                (group[0].source_node_object.name, group[0].dest_node_object.name)
+                for group in self.model.parallel_lsp_groups().values()
             ]
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
@@ -411,11 +413,13 @@ class WeatherMap(object):  # pragma: no cover
 
         if object_type == "demand":
             source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
+                (group[0].source_node_object.name, group[0].dest_node_object.name)
+                for group in self.model.parallel_demand_groups().values()
             ]
         elif object_type == "lsp":
             source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
+                (group[0].source_node_object.name, group[0].dest_node_object.name)
+                for group in self.model.parallel_lsp_groups().values()
             ]
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
@@ -870,10 +874,9 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in demand source and destination options
         demand_sources = set()
         demand_destinations = set()
-        for entry in self.model.parallel_demand_groups().keys():
-            source, dest = entry.split("-")
-            demand_sources.add(source)
-            demand_destinations.add(dest)
+        for group in self.model.parallel_demand_groups().values():
+            demand_sources.add(group[0].source_node_object.name)
+            demand_destinations.add(group[0].dest_node_object.name)
         demand_sources_list = list(demand_sources)
         demand_destinations_list = list(demand_destinations)
         demand_sources_list.sort()
@@ -892,10 +895,9 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in LSP source and destination options
         lsp_sources = set()
         lsp_destinations = set()
-        for entry in self.model.parallel_lsp_groups().keys():
-            source, dest = entry.split("-")
-            lsp_sources.add(source)
-            lsp_destinations.add(dest)
+        for group in self.model.parallel_lsp_groups().values():
+            lsp_sources.add(group[0].source_node_object.name)
+            lsp_destinations.add(group[0].dest_node_object.name)
         lsp_sources_list = list(lsp_sources)
         lsp_destinations_list = list(lsp_destinations)
         lsp_sources_list.sort()
-- 
2.43.0


From 5b14ee6ff45ba208350a28df868457f0a567e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 24/32] fix: unfailing an interface that is not failed keeps
 its reserved bandwidth

---
 pyNTM/master_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 55d894c..533f460 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -773,17 +773,16 @@ class _MasterModel(object):
         # Find the remote interface
         remote_interface = interface_object.get_remote_interface(self)
 
-        # Ensure local and remote nodes are failed == False and set reservable
-        # bandwidth on each interface to interface.capacity
+        # Ensure local and remote nodes are failed == False
         if (
             self.get_node_object(interface_object.node_object.name).failed is False
             and self.get_node_object(remote_interface.node_object.name).failed is False
         ):
 
+            # A failed interface already has no reserved bandwidth; an interface that
+            # is not failed keeps the bandwidth its LSPs reserve
             remote_interface.failed = False
-            remote_interface.reserved_bandwidth = 0
             interface_object.failed = False
-            interface_object.reserved_bandwidth = 0
             self.validate_model()
         else:
             if raise_exception:
-- 
2.43.0


From 4e32170aa06345d690aa476fe0225f7d5e8c9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 25/32] fix: an unrouted demand does not keep the path_detail
 of an earlier simulation

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index c3126c9..51fcdc9 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 9741bc5..0b7c813 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From 451b157d40e5ee94a9dfd827ca34caf0ee2b8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 26/32] fix: WeatherMap selections for nodes with a hyphen in
 their name

---
 pyNTM/weathermap.py | 52 +++++++++++++--------------------------------
 1 file changed, 15 insertions(+), 37 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index a20079e..3d1e966 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1264,16 +1264,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the lsps with specified destination
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in lsp_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
-                ]
                 lsp_list = []
 
-                for src_key in src_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[src_key]
+                for group in self.model.parallel_lsp_groups().values():
+                    if group[0].dest_node_object.name == ctx_dest_inputs:
+                        lsp_list += group
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1286,16 +1281,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the lsps with specified source
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in lsp_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
-                ]
                 lsp_list = []
 
-                for dest_key in dest_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[dest_key]
+                for group in self.model.parallel_lsp_groups().values():
+                    if group[0].source_node_object.name == ctx_src_inputs:
+                        lsp_list += group
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1374,16 +1364,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the demands with specified destination
-                dmd_keys = self.model.parallel_demand_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in dmd_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
-                ]
                 demand_list = []
 
-                for src_key in src_keys:
-                    demand_list += model.parallel_demand_groups()[src_key]
+                for group in model.parallel_demand_groups().values():
+                    if group[0].dest_node_object.name == ctx_dest_inputs:
+                        demand_list += group
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1397,16 +1382,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the demands with specified source
-                dmd_keys = model.parallel_demand_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in dmd_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
-                ]
                 demand_list = []
 
-                for dest_key in dest_keys:
-                    demand_list += model.parallel_demand_groups()[dest_key]
+                for group in model.parallel_demand_groups().values():
+                    if group[0].source_node_object.name == ctx_src_inputs:
+                        demand_list += group
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1521,11 +1501,9 @@ class WeatherMap(object):  # pragma: no cover
                 # the selected edge is not null
                 int_data = ctx.triggered[0]["value"][0]
 
-                end_target = [
-                    item
-                    for item in int_data["target"].split("-")[1:]
-                    if item != int_data["source"]
-                ][0]
+                end_target = model.get_interface_object(
+                    int_data["interface-name"], int_data["source"]
+                ).remote_node_object.name
                 int_info = {
                     "source": int_data["source"],
                     "interface-name": int_data["interface-name"],
-- 
2.43.0


From 6520e49cb80ef44a344def4634cec7d47fc8f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 27/32] fix: WeatherMap interface selection when no LSP is
 selected

---
 pyNTM/weathermap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 3d1e966..db0253a 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1516,7 +1516,10 @@ class WeatherMap(object):  # pragma: no cover
                 selected_interface = json.dumps(int_info)
             elif ctx.triggered[0]["prop_id"] != ".":
                 # No interface has been selected
-                if ctx.triggered[0]["value"] == no_selected_demand_text:
+                if ctx.triggered[0]["value"] in [
+                    no_selected_demand_text,
+                    no_selected_lsp_text,
+                ]:
                     selected_interface = json.dumps(
                         {"label": no_selected_interface_text, "value": ""}
                     )
-- 
2.43.0


From 3ec54463de7649b08cdf376e540df728b449251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:19 +0000
Subject: [PATCH 28/32] fix: a rejected list of interfaces is not left in the
 model

---
 pyNTM/flex_model.py        |  4 +---
 pyNTM/master_model.py      | 21 +++++++++++++++++++++
 pyNTM/performance_model.py |  4 +---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 51fcdc9..81af5b6 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -114,9 +114,7 @@ class FlexModel(_MasterModel):
         new_interface_objects, new_node_objects = self._make_network_interfaces(
             network_interfaces
         )
-        self.node_objects = self.node_objects.union(new_node_objects)
-        self.interface_objects = self.interface_objects.union(new_interface_objects)
-        self.validate_model()
+        self._add_objects_from_list(new_interface_objects, new_node_objects)
 
     def validate_model(self):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 533f460..be7e1b0 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1245,3 +1245,24 @@ class _MasterModel(object):
             network_interface_objects.add(intf)
 
         return (network_interface_objects, network_node_objects)
+
+    def _add_objects_from_list(self, new_interface_objects, new_node_objects):
+        """
+        Adds the Interfaces and Nodes to the model, or nothing if they do not fit
+
+        :param new_interface_objects: set of Interface objects
+        :param new_node_objects: set of Node objects
+        """
+        nodes, interfaces = self.node_objects, self.interface_objects
+        failed = {interface: interface.failed for interface in interfaces}
+
+        self.node_objects = nodes.union(new_node_objects)
+        self.interface_objects = interfaces.union(new_interface_objects)
+        try:
+            self.validate_model()
+        except ModelException:
+            self.node_objects, self.interface_objects = nodes, interfaces
+            for interface in interfaces:
+                interface._failed = failed[interface]
+            self.validate_model()
+            raise
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 0b7c813..9873cf2 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -122,9 +122,7 @@ class PerformanceModel(_MasterModel):
         new_interface_objects, new_node_objects = self._make_network_interfaces(
             network_interfaces
         )
-        self.node_objects = self.node_objects.union(new_node_objects)
-        self.interface_objects = self.interface_objects.union(new_interface_objects)
-        self.validate_model()
+        self._add_objects_from_list(new_interface_objects, new_node_objects)
 
     def validate_model(self):
         """
-- 
2.43.0


From fccb1aaa12a3afe8167d89d39e81cd543a1c3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:35 +0000
Subject: [PATCH 29/32] fix: LSPs and demands of different node pairs stay
 apart when node names have hyphens

The groups of parallel LSPs and demands were kept under the key
'source-dest', which is the same for a-b -> c and a -> b-c: LSPs of one of
the pairs were not signaled, and demands took LSPs of the other pair.
---
 pyNTM/flex_model.py        | 14 +++---
 pyNTM/master_model.py      | 94 ++++++++++++++++++++------------------
 pyNTM/performance_model.py | 10 ++--
 pyNTM/rsvp.py              |  4 +-
 pyNTM/weathermap.py        | 32 ++++++-------
 5 files changed, 77 insertions(+), 77 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 81af5b6..702c081 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -297,13 +297,11 @@ class FlexModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
-                    for lsp in self.parallel_lsp_groups()[key]
+                    for lsp in self._lsp_groups()[key]
                     if "Unrouted" not in lsp.path
                 ]
             except KeyError:
@@ -472,9 +470,9 @@ class FlexModel(_MasterModel):
                 # the destination we are iterating through and whose effective metric matches the
                 # shortest path from source_node to destination
 
-                key = "{}-{}".format(source_node.name, destination)
+                key = (source_node.name, destination)
                 try:
-                    candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                    candidate_lsps_for_demand = self._lsp_groups()[key]
                     min_metric = min(
                         lsp.effective_metric(self)
                         for lsp in candidate_lsps_for_demand
@@ -551,14 +549,14 @@ class FlexModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
 
             # Find the routed LSPs that can carry the demand
             try:
-                candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                candidate_lsps_for_demand = self._lsp_groups()[key]
                 min_metric = min(
                     lsp.effective_metric(self)
                     for lsp in candidate_lsps_for_demand
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index be7e1b0..623f7cc 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -218,10 +218,10 @@ class _MasterModel(object):
             interface.reserved_bandwidth = 0
 
         # Find parallel LSP groups
-        parallel_lsp_groups = self.parallel_lsp_groups()
+        parallel_lsp_groups = self._lsp_groups()
 
         # Find all the parallel demand groups
-        parallel_demand_groups = self.parallel_demand_groups()
+        parallel_demand_groups = self._demand_groups()
 
         # Route the LSPs by parallel group
         self._route_parallel_lsp_groups(parallel_demand_groups, parallel_lsp_groups)
@@ -233,9 +233,9 @@ class _MasterModel(object):
         Routes LSPs with same source, dest (parallel LSPs) based on the demands that would
         take those LSPs.  For each LSP, determine a 'path' attribute.
 
-        :param parallel_demand_groups: dict with keys = source_node-dest_node and values being a
+        :param parallel_demand_groups: dict with keys = (source_node, dest_node) and values being a
         list of all demands with the common corresponding source and dest nodes
-        :param parallel_lsp_groups: dict with keys = source_node-dest_node and values being a
+        :param parallel_lsp_groups: dict with keys = (source_node, dest_node) and values being a
         list of all LSPs with the common corresponding source and dest nodes
         :return: None; assigns path to each LSP
         """
@@ -249,7 +249,10 @@ class _MasterModel(object):
 
             print(
                 "Routing {} LSPs in parallel LSP group {}; {}/{}".format(
-                    num_lsps_in_group, group, counter, len(parallel_lsp_groups)
+                    num_lsps_in_group,
+                    "{}-{}".format(*group),
+                    counter,
+                    len(parallel_lsp_groups),
                 )
             )
             # Traffic each LSP in a parallel LSP group will carry; initialize
@@ -390,29 +393,7 @@ class _MasterModel(object):
 
         """
 
-        if self._parallel_lsp_groups != {}:
-            return self._parallel_lsp_groups
-        src_node_names = {lsp.source_node_object.name for lsp in self.rsvp_lsp_objects}
-        dest_node_names = {lsp.dest_node_object.name for lsp in self.rsvp_lsp_objects}
-
-        parallel_lsp_groups = {}
-
-        for src_node_name in src_node_names:
-            for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
-                parallel_lsp_groups[key] = []
-                for lsp in self.rsvp_lsp_objects:
-                    if (
-                        lsp.source_node_object.name == src_node_name
-                        and lsp.dest_node_object.name == dest_node_name
-                    ):
-                        parallel_lsp_groups[key].append(lsp)
-
-                if not parallel_lsp_groups[key]:
-                    del parallel_lsp_groups[key]
-
-        self._parallel_lsp_groups = parallel_lsp_groups
-        return parallel_lsp_groups
+        return self._groups_by_name(self._lsp_groups())
 
     def parallel_demand_groups(self):
         """
@@ -429,26 +410,51 @@ class _MasterModel(object):
             'F-E': [Demand(source = F, dest = E, traffic = 400, name = 'dmd_f_e_1')]}
         """
 
-        src_node_names = {dmd.source_node_object.name for dmd in self.demand_objects}
-        dest_node_names = {dmd.dest_node_object.name for dmd in self.demand_objects}
+        return self._groups_by_name(self._demand_groups())
 
-        parallel_demand_groups = {}
+    def _lsp_groups(self):
+        """
+        LSPs with same source and dest nodes; dict with (source node name, dest node name)
+        keys, which, unlike the keys of parallel_lsp_groups, are also unique if node names
+        have hyphens
+        """
+        if self._parallel_lsp_groups == {}:
+            self._parallel_lsp_groups = self._group_by_nodes(self.rsvp_lsp_objects)
+
+        return self._parallel_lsp_groups
 
-        for src_node_name in src_node_names:
-            for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
-                parallel_demand_groups[key] = []
-                for dmd in self.demand_objects:
-                    if (
-                        dmd.source_node_object.name == src_node_name
-                        and dmd.dest_node_object.name == dest_node_name
-                    ):
-                        parallel_demand_groups[key].append(dmd)
+    def _demand_groups(self):
+        """
+        Demands with same source and dest nodes; dict with (source node name, dest node name)
+        keys, which, unlike the keys of parallel_demand_groups, are also unique if node names
+        have hyphens
+        """
+        return self._group_by_nodes(self.demand_objects)
 
-                if parallel_demand_groups[key] == []:
-                    del parallel_demand_groups[key]
+    @staticmethod
+    def _group_by_nodes(objects):
+        """
+        Groups LSPs or demands by (source node name, dest node name)
+        """
+        groups = {}
+        for item in objects:
+            key = (item.source_node_object.name, item.dest_node_object.name)
+            groups.setdefault(key, []).append(item)
+
+        return groups
+
+    @staticmethod
+    def _groups_by_name(groups):
+        """
+        Converts the (source node name, dest node name) keys of groups to the
+        'source_node_name-dest_node_name' format
+        """
+        groups_by_name = {}
+        for (source_name, dest_name), items in groups.items():
+            key = "{}-{}".format(source_name, dest_name)
+            groups_by_name.setdefault(key, []).extend(items)
 
-        return parallel_demand_groups
+        return groups_by_name
 
     def _unique_interface_per_node(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 9873cf2..e074f7a 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -328,13 +328,11 @@ class PerformanceModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
-                    for lsp in self.parallel_lsp_groups()[key]
+                    for lsp in self._lsp_groups()[key]
                     if "Unrouted" not in lsp.path
                 ]
             except KeyError:
@@ -1272,14 +1270,14 @@ class PerformanceModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
 
             # Find the routed LSPs that can carry the demand
             try:
-                candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                candidate_lsps_for_demand = self._lsp_groups()[key]
                 min_metric = min(
                     lsp.effective_metric(self)
                     for lsp in candidate_lsps_for_demand
diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 301d379..3768c2d 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -269,11 +269,11 @@ class RSVP_LSP(object):
         """
 
         # Find all LSPs with same source and dest as self
-        parallel_lsp_groups = model.parallel_lsp_groups()
+        parallel_lsp_groups = model._lsp_groups()
 
         total_traffic = sum(demand.traffic for demand in self.demands_on_lsp(model))
 
-        key = "{}-{}".format(self.source_node_object.name, self.dest_node_object.name)
+        key = (self.source_node_object.name, self.dest_node_object.name)
         parallel_routed_lsps = [
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index db0253a..d48a9ff 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -382,12 +382,12 @@ class WeatherMap(object):  # pragma: no cover
         if object_type == "demand":
             source_dest_pairs = [
                 (group[0].source_node_object.name, group[0].dest_node_object.name)
-                for group in self.model.parallel_demand_groups().values()
+                for group in self.model._demand_groups().values()
             ]
         elif object_type == "lsp":
             source_dest_pairs = [
                 (group[0].source_node_object.name, group[0].dest_node_object.name)
-                for group in self.model.parallel_lsp_groups().values()
+                for group in self.model._lsp_groups().values()
             ]
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
@@ -414,12 +414,12 @@ class WeatherMap(object):  # pragma: no cover
         if object_type == "demand":
             source_dest_pairs = [
                 (group[0].source_node_object.name, group[0].dest_node_object.name)
-                for group in self.model.parallel_demand_groups().values()
+                for group in self.model._demand_groups().values()
             ]
         elif object_type == "lsp":
             source_dest_pairs = [
                 (group[0].source_node_object.name, group[0].dest_node_object.name)
-                for group in self.model.parallel_lsp_groups().values()
+                for group in self.model._lsp_groups().values()
             ]
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
@@ -874,7 +874,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in demand source and destination options
         demand_sources = set()
         demand_destinations = set()
-        for group in self.model.parallel_demand_groups().values():
+        for group in self.model._demand_groups().values():
             demand_sources.add(group[0].source_node_object.name)
             demand_destinations.add(group[0].dest_node_object.name)
         demand_sources_list = list(demand_sources)
@@ -895,7 +895,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in LSP source and destination options
         lsp_sources = set()
         lsp_destinations = set()
-        for group in self.model.parallel_lsp_groups().values():
+        for group in self.model._lsp_groups().values():
             lsp_sources.add(group[0].source_node_object.name)
             lsp_destinations.add(group[0].dest_node_object.name)
         lsp_sources_list = list(lsp_sources)
@@ -1052,9 +1052,7 @@ class WeatherMap(object):  # pragma: no cover
                 destination = demand_dict["dest"]
                 # Find the demands that match the source and destination
                 try:
-                    dmds = self.model.parallel_demand_groups()[
-                        "{}-{}".format(source, destination)
-                    ]
+                    dmds = self.model._demand_groups()[(source, destination)]
                 except KeyError:
                     return default_stylesheet + new_style
 
@@ -1248,8 +1246,8 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                lsp_list = self.model.parallel_lsp_groups()[key]
+                key = (ctx_src_inputs, ctx_dest_inputs)
+                lsp_list = self.model._lsp_groups()[key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1266,7 +1264,7 @@ class WeatherMap(object):  # pragma: no cover
                 # Get the lsps with specified destination
                 lsp_list = []
 
-                for group in self.model.parallel_lsp_groups().values():
+                for group in self.model._lsp_groups().values():
                     if group[0].dest_node_object.name == ctx_dest_inputs:
                         lsp_list += group
 
@@ -1283,7 +1281,7 @@ class WeatherMap(object):  # pragma: no cover
                 # Get the lsps with specified source
                 lsp_list = []
 
-                for group in self.model.parallel_lsp_groups().values():
+                for group in self.model._lsp_groups().values():
                     if group[0].source_node_object.name == ctx_src_inputs:
                         lsp_list += group
 
@@ -1349,8 +1347,8 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                demand_list = self.model.parallel_demand_groups()[key]
+                key = (ctx_src_inputs, ctx_dest_inputs)
+                demand_list = self.model._demand_groups()[key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1366,7 +1364,7 @@ class WeatherMap(object):  # pragma: no cover
                 # Get the demands with specified destination
                 demand_list = []
 
-                for group in model.parallel_demand_groups().values():
+                for group in model._demand_groups().values():
                     if group[0].dest_node_object.name == ctx_dest_inputs:
                         demand_list += group
 
@@ -1384,7 +1382,7 @@ class WeatherMap(object):  # pragma: no cover
                 # Get the demands with specified source
                 demand_list = []
 
-                for group in model.parallel_demand_groups().values():
+                for group in model._demand_groups().values():
                     if group[0].source_node_object.name == ctx_src_inputs:
                         demand_list += group
 
-- 
2.43.0


From 262c48272e78ea0921f342000426fd2ff53d4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:22 +0000
Subject: [PATCH 30/32] fix: an Interface must connect two different Nodes

---
 pyNTM/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 57d3727..b0489aa 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -20,6 +20,10 @@ class Interface(object):
         rsvp_enabled=True,
         percent_reservable_bandwidth=100,
     ):
+        if node_object.name == remote_node_object.name:
+            msg = "Interface {} must connect two different Nodes".format(name)
+            raise ModelException(msg)
+
         self.name = name
         self.cost = cost
         self.capacity = capacity
-- 
2.43.0


From 72888739f6b8b114f7c05e2637489b3d492e6e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:23 +0000
Subject: [PATCH 31/32] fix: a Demand or LSP must connect two different Nodes

---
 pyNTM/demand.py | 5 +++++
 pyNTM/rsvp.py   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/pyNTM/demand.py b/pyNTM/demand.py
index 81ea8bb..4f47a9f 100644
--- a/pyNTM/demand.py
+++ b/pyNTM/demand.py
@@ -1,6 +1,8 @@
 """A Demand is a traffic load that traverses the network from a source Node
 to a destination Node"""
 
+from .exceptions import ModelException
+
 
 class Demand(object):
     """
@@ -8,6 +10,9 @@ class Demand(object):
     """
 
     def __init__(self, source_node_object, dest_node_object, traffic=0, name="none"):
+        if source_node_object.name == dest_node_object.name:
+            raise ModelException("Demand source and destination Nodes must differ")
+
         self.source_node_object = source_node_object
         self.dest_node_object = dest_node_object
         self.traffic = traffic
diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3768c2d..930a169 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -37,6 +37,8 @@ class RSVP_LSP(object):
         configured_setup_bandwidth=None,
         configured_manual_metric=None,
     ):
+        if source_node_object.name == dest_node_object.name:
+            raise ModelException("LSP source and destination Nodes must differ")
 
         self.source_node_object = source_node_object
         self.dest_node_object = dest_node_object
-- 
2.43.0


From 71e90216181ee1caf143894a96bd7c5c977d4894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:35 +0000
Subject: [PATCH 32/32] fix: display_demand_paths shows no paths for an
 unrouted Demand

---
 pyNTM/master_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 623f7cc..12d8487 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -940,9 +940,10 @@ class _MasterModel(object):
         demand_iter = iter(self.demand_objects)
 
         for demand in demand_iter:
+            paths = [] if demand.path == "Unrouted" else demand.path
             print("demand._key is", demand._key)
-            print("Demand has %s paths:" % (len(demand.path)))
-            for path in demand.path:
+            print("Demand has %s paths:" % (len(paths)))
+            for path in paths:
                 pprint(path)
                 print()
             print()
-- 
2.43.0

