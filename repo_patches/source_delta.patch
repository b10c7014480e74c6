From 73f7a876cd1eb17ede20f19b7a51ae6d63e356fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:20 +0000
Subject: [PATCH 01/26] fix: do not divide by zero when normalizing zero-length
 vectors in the numpy engine

A trail edge without force that has a plane, or a deviation edge whose end
nodes coincide, turned all downstream positions and forces into NaN, and the
NaN distance silently passed the convergence check.
---
 src/compas_cem/equilibrium/force_numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..09a632c 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -420,7 +420,11 @@ def normalize_vector_numpy(vector):
     """
     Hand-made vector normalization.
     """
-    return vector / length_vector_numpy(vector)
+    length = length_vector_numpy(vector)
+    # NOTE: to avoid NaNs, do not normalize a vector if it is zero length
+    if length == 0.0:
+        return vector
+    return vector / length
 
 
 def length_vector_numpy(vector):
-- 
2.43.0


From c3a5fa71455d8e67bcc5e2291557c24abea5ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:27 +0000
Subject: [PATCH 02/26] fix: log completed equilibrium with a single iteration

With verbose=True and tmax=1 both engines raised UnboundLocalError because the
residual distance is only computed from the second iteration onwards.
---
 src/compas_cem/equilibrium/force.py       | 3 +++
 src/compas_cem/equilibrium/force_numpy.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..ee8f0e5 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,9 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    # residual distance, undefined until there are two iterations to compare
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 09a632c..81c5b4d 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,9 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    # residual distance, undefined until there are two iterations to compare
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From a4bf42c6f3240ce1a27d24da990d71eecd308125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:07 +0000
Subject: [PATCH 03/26] fix: compare eta against the sum of node distances in
 the numpy engine

The numpy engine compared the threshold against the norm of all displacements,
which is smaller than the documented sum of distances, so it stopped earlier
than the pure python engine and returned forms that had not converged.
---
 src/compas_cem/equilibrium/force_numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 81c5b4d..4035eea 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -192,8 +192,8 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
         pos_array = np.array([pos for key, pos in node_xyz.items()])
         last_pos_array = np.array([last_positions[key] for key, pos in node_xyz.items()])
 
-        # calculate residual distance
-        distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))
+        # calculate residual distance as the sum of the distances between node positions
+        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))
         # if residual distance smaller than threshold, stop iterating
         if distance < eta:
             break
-- 
2.43.0


From 4fb8b7b13d3515ae5f263a8c0ab4db85536cb131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 04/26] fix: reject diagrams whose trails do not partition
 nodes and trail edges

build_trails() silently accepted a support without trail edges, several
supports on one trail, trails that share nodes and cyclic trail edges. It
turned supports into origin nodes or left nodes and edges out of all trails,
so form finding failed later or returned a form out of equilibrium. Node types
and sequences are now written only after all sanity checks have passed.
---
 src/compas_cem/diagrams/topology/topology.py | 36 +++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..374fc7c 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -327,7 +327,7 @@ class TopologyDiagram(Diagram, MeshMixins):
             Previous trails and auxiliary trails are recalculated every time
             this function is called.
         """
-        trails = {}
+        trails = []
 
         # trail search
         nodes_in_trails = set()
@@ -363,22 +363,13 @@ class TopologyDiagram(Diagram, MeshMixins):
                     break
 
                 if last_node == node:
-                    origin_node = node
-                    trail.append(origin_node)
+                    trail.append(node)
                     visited.add(node)
                     break
 
-            # set last node to be origin/start node
-            self.node_attribute(origin_node, "type", "_origin")
-
             trail.reverse()
 
-            # assign node sequences
-            # start should be _k= 0, support _k=len(trail)
-            for index, node in enumerate(trail):
-                self.node_attribute(node, "_k", index)
-
-            trails[origin_node] = tuple(trail)
+            trails.append(tuple(trail))
             nodes_in_trails.update(visited)
 
         # output sanity checks
@@ -413,9 +404,28 @@ class TopologyDiagram(Diagram, MeshMixins):
         # no free nodes
         msg = "Nodes {} haven't been assigned to a trail. Check your topology!".format(unassigned)
         assert len(unassigned) == 0, msg
+        # a trail must start at a node that is not a support
+        for trail in trails:
+            msg = "Trail {} doesn't link an origin node to one support. Check your topology!".format(trail)
+            assert not self.is_node_support(trail[0]), msg
+        # trails can't share nodes
+        msg = "Some nodes have been assigned to more than one trail. Check your topology!"
+        assert sum(len(trail) for trail in trails) == len(nodes_in_trails), msg
+        # no free trail edges
+        msg = "Some trail edges haven't been assigned to a trail. Check your topology!"
+        assert sum(len(trail) - 1 for trail in trails) == self.number_of_trail_edges(), msg
+
+        for trail in trails:
+            # set first node to be origin/start node
+            self.node_attribute(trail[0], "type", "_origin")
+
+            # assign node sequences
+            # start should be _k= 0, support _k=len(trail)
+            for index, node in enumerate(trail):
+                self.node_attribute(node, "_k", index)
 
         # store trails in topology diagram
-        self.attributes["_trails"] = trails
+        self.attributes["_trails"] = {trail[0]: trail for trail in trails}
 
 # ==============================================================================
 #  Node Collections
-- 
2.43.0


From ffd415fac65920d439b7658ad205f5e7fc14df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:45 +0000
Subject: [PATCH 05/26] fix: recalculate origin nodes when trails are rebuilt

---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 374fc7c..3050331 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -415,6 +415,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         msg = "Some trail edges haven't been assigned to a trail. Check your topology!"
         assert sum(len(trail) - 1 for trail in trails) == self.number_of_trail_edges(), msg
 
+        # origin nodes are recalculated
+        for node in list(self.origin_nodes()):
+            self.unset_node_attribute(node, "type")
+
         for trail in trails:
             # set first node to be origin/start node
             self.node_attribute(trail[0], "type", "_origin")
-- 
2.43.0


From cc2d9515947b739fa9c9b0ac9605cde4cc5277d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:11 +0000
Subject: [PATCH 06/26] fix: keep track of existing auxiliary trails when
 building them again

---
 src/compas_cem/diagrams/topology/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 3050331..8dbf3bc 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -379,7 +379,8 @@ class TopologyDiagram(Diagram, MeshMixins):
         # automatically create auxiliary trails
         if auxiliary_trails:
 
-            aux_trails = dict()
+            # keep the record of the auxiliary trails that are already in the diagram
+            aux_trails = {n: edge for n, edge in self.auxiliary_trails(True) if self.has_edge(*edge)}
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
@@ -392,7 +393,7 @@ class TopologyDiagram(Diagram, MeshMixins):
                 aux_trails[node] = edge
 
             self.attributes["_auxiliary_trails"] = aux_trails
-            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(aux_trails)))
+            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(unassigned)))
 
             return self.build_trails(auxiliary_trails=False)
 
-- 
2.43.0


From 3005850c542a7b7b11d0e7ee998e22753eb786ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:43 +0000
Subject: [PATCH 07/26] fix: keep geometric keys in sync when nodes are moved,
 replaced or deleted

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..ad19b6c 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -21,17 +21,26 @@ class NodeMixins(object):
         xyz = node.xyz
         x, y, z = xyz
 
+        if self.has_node(key):
+            self._release_gkey(key)
+
         node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)
         self.gkey_node[self.gkey(xyz)] = node
         return node
 
+    def delete_node(self, key):
+        """
+        Deletes
+        """
+        self._release_gkey(key)
+        super(NodeMixins, self).delete_node(key)
+
     def node_exists(self, value):
         """
         Checks
         """
-        if self.node_key(value) is not None:
-            return True
-        return False
+        key = self.node_key(value)
+        return key is not None and self.has_node(key)
 
     def node_key(self, value):
         """
@@ -45,9 +54,6 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
-            del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
     def node_xyz(self, key, xyz=None):
@@ -64,6 +70,22 @@ class NodeMixins(object):
         """
         return geometric_key(xyz, self.tol)
 
+    def _release_gkey(self, key):
+        """
+        Hands the geometric keys that point to a node over to any other nodes at the same position.
+        """
+        gkeys = [gkey for gkey, node in self.gkey_node.items() if node == key]
+        for gkey in gkeys:
+            del self.gkey_node[gkey]
+
+        if not gkeys:
+            return
+
+        for node in self.nodes():
+            gkey = self.gkey(self.node_coordinates(node))
+            if node != key and gkey in gkeys:
+                self.gkey_node[gkey] = node
+
 # ==============================================================================
 # Main
 # ==============================================================================
-- 
2.43.0


From 638174cc4b4cd519afbfda017038d31da358ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:05 +0000
Subject: [PATCH 08/26] fix: refresh the geometric keys of a form diagram after
 form finding

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 8 ++++++++
 src/compas_cem/equilibrium/force.py           | 1 +
 src/compas_cem/equilibrium/force_numpy.py     | 1 +
 3 files changed, 10 insertions(+)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index ad19b6c..425794b 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -70,6 +70,14 @@ class NodeMixins(object):
         """
         return geometric_key(xyz, self.tol)
 
+    def _refresh_gkeys(self):
+        """
+        Recalculates the geometric keys of all nodes.
+        """
+        self.gkey_node.clear()
+        for node in self.nodes():
+            self.gkey_node[self.gkey(self.node_coordinates(node))] = node
+
     def _release_gkey(self, key):
         """
         Hands the geometric keys that point to a node over to any other nodes at the same position.
diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index ee8f0e5..a6496a7 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -205,6 +205,7 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
     # assign nodes' coordinates
     for node, xyz in node_xyz.items():
         form.node_attributes(key=node, names=["x", "y", "z"], values=xyz)
+    form._refresh_gkeys()
 
     # assign forces on trail edges
     for edge, tforce in trail_forces.items():
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 4035eea..c5f86a2 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -225,6 +225,7 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
     # assign nodes' coordinates
     for node, xyz in node_xyz.items():
         form.node_attributes(key=node, names=["x", "y", "z"], values=xyz)
+    form._refresh_gkeys()
 
     # assign forces on trail edges
     for edge, tforce in trail_forces.items():
-- 
2.43.0


From 80c45fc332922b971e4aba1e19962b64b6869945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:03 +0000
Subject: [PATCH 09/26] fix: restore the keys of trails and auxiliary trails
 from serialized topology diagrams

---
 src/compas_cem/diagrams/topology/topology.py | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 8dbf3bc..aa4eb6c 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -83,6 +83,32 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         self.attributes["_aux_vector"] = vector
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @property
+    def data(self):
+        """
+        A data dictionary that represents a ``TopologyDiagram`` object.
+        """
+        return super(TopologyDiagram, self).data
+
+    @data.setter
+    def data(self, data):
+        """
+        Overwrites this object's attributes with a data dictionary.
+
+        Notes
+        -----
+        JSON turns the integer keys of a dictionary into strings, and tuples into lists.
+        """
+        Diagram.data.fset(self, data)
+
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes[name]
+            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}
+
 # ==============================================================================
 # Node Additions
 # ==============================================================================
-- 
2.43.0


From 5b365f7c96240f24746db78324757e5e4015c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:18 +0000
Subject: [PATCH 10/26] fix: serialize constraints with a plain list as target

---
 .../optimization/constraints/constraint.py         | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/constraints/constraint.py b/src/compas_cem/optimization/constraints/constraint.py
index 891e8cb..29bf794 100644
--- a/src/compas_cem/optimization/constraints/constraint.py
+++ b/src/compas_cem/optimization/constraints/constraint.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 from ast import literal_eval
+from copy import deepcopy
 
 from compas.data.encoders import cls_from_dtype
 
@@ -74,8 +75,13 @@ class Constraint(Data):
 
         data["key"] = repr(self.key())
         data["weight"] = self._weight
-        data["target"] = self._target.to_data()
-        data["target_dtype"] = self._target.dtype
+        # NOTE: a target can also be a plain list of floats
+        if hasattr(self._target, "to_data"):
+            data["target"] = self._target.to_data()
+            data["target_dtype"] = self._target.dtype
+        else:
+            data["target"] = deepcopy(self._target)
+            data["target_dtype"] = None
 
         return data
 
@@ -97,6 +103,10 @@ class Constraint(Data):
         self._key = literal_eval(data["key"])
         self._weight = float(data["weight"])
 
+        if data["target_dtype"] is None:
+            self._target = deepcopy(data["target"])
+            return
+
         # TODO: Is hard-coding a Vector here is a good idea?
         target_cls = cls_from_dtype(data["target_dtype"])
         self._target = target_cls.from_data(data["target"])
-- 
2.43.0


From 2f2c10ef5736f3fe5e55af9879575927f9a91a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 11/26] fix: index optimization parameters by position so that
 they can be removed

---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..03e5ceb 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -291,8 +291,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -304,9 +304,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -318,9 +318,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From 191e73a351625013b47fd340f764fc1dbe3b74fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 12/26] fix: return the form, topology and penalty that
 correspond to the optimum

---
 src/compas_cem/optimization/optimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 03e5ceb..e8c8d21 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -248,11 +248,12 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            return static_equilibrium(topology, tmax=tmax, eta=eta)
 
-        # fetch last optimum value of loss function
+        # set topology to the optimum and fetch the value of the loss function there
+        # NOTE: the last point visited by the solver is not necessarily the optimum
         time_opt = time() - start
-        loss_opt = solver.last_optimum_value()
+        loss_opt = self._optimize_form(x_opt, topology, tmax, eta)
         evals = solver.get_numevals()
         status = nlopt_status(solver.last_optimize_result())
 
@@ -277,7 +278,7 @@ class Optimizer(Data):
             print("----------")
 
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From dafafb11aff408f6d5bf12048c9567b7527525b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 13/26] fix: do not report the results of an earlier run after
 a failed optimization

---
 src/compas_cem/optimization/optimizer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index e8c8d21..d54e0c8 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -44,6 +44,7 @@ class Optimizer(Data):
         self.time_opt = None
         self.penalty = None
         self.evals = None
+        self.gradient = None
         self.gradient_norm = None
         self.status = None
 
@@ -195,6 +196,15 @@ class Optimizer(Data):
             print("Optimization with {} started!".format(algorithm))
             print(f"# Parameters: {self.number_of_parameters()}, # Constraints {self.number_of_constraints()}")
 
+        # forget the results of a previous run
+        self.x_opt = None
+        self.time_opt = None
+        self.penalty = None
+        self.evals = None
+        self.gradient = None
+        self.gradient_norm = None
+        self.status = None
+
         # test for bad stuff before going any further
         self.check_optimization_sanity()
 
-- 
2.43.0


From b248b41341bd735c221f58976331c63b9f5f9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:49 +0000
Subject: [PATCH 14/26] fix: avoid NaN gradients at trail edges with zero force

---
 src/compas_cem/equilibrium/force_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index c5f86a2..6ccc604 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -435,6 +435,9 @@ def length_vector_numpy(vector):
     """
     Calculates the norm of a vector.
     """
+    # NOTE: the derivative of the norm of a zero vector is NaN, use zero instead
+    if not np.any(vector):
+        return 0.0 * np.sum(vector)
     return np.linalg.norm(vector)
 
 
-- 
2.43.0


From ccccb07c89f88cebb77ee9ded9261b2043225448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:49 +0000
Subject: [PATCH 15/26] fix: refresh the geometric keys of a topology diagram
 after optimizing it

---
 src/compas_cem/optimization/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index d54e0c8..7c55ef0 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -264,6 +264,7 @@ class Optimizer(Data):
         # NOTE: the last point visited by the solver is not necessarily the optimum
         time_opt = time() - start
         loss_opt = self._optimize_form(x_opt, topology, tmax, eta)
+        topology._refresh_gkeys()
         evals = solver.get_numevals()
         status = nlopt_status(solver.last_optimize_result())
 
-- 
2.43.0


From 1c3659af1c6387047142fb564217e94211eb3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:56 +0000
Subject: [PATCH 16/26] fix: stop partial equilibrium at the requested sequence

---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index a6496a7..d7de94a 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -88,7 +88,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From 79dac9078260c4c05d52fc7e6bfbc5069b0a0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:23 +0000
Subject: [PATCH 17/26] fix: refresh the geometric keys of a topology diagram
 after a failed optimization

---
 src/compas_cem/optimization/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 7c55ef0..0897dc9 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -259,6 +259,9 @@ class Optimizer(Data):
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
             return static_equilibrium(topology, tmax=tmax, eta=eta)
+        finally:
+            # the solver may have moved origin nodes
+            topology._refresh_gkeys()
 
         # set topology to the optimum and fetch the value of the loss function there
         # NOTE: the last point visited by the solver is not necessarily the optimum
-- 
2.43.0


From a5f2dc3f1620c70fa0a9055dc5d1d3ce24b8de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 18/26] fix: accept dictionaries, keys and indices as labels in
 the plotter artists

---
 src/compas_cem/plotters/formartist.py     | 10 ++++++----
 src/compas_cem/plotters/topologyartist.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/compas_cem/plotters/formartist.py b/src/compas_cem/plotters/formartist.py
index ec24816..4955e2c 100644
--- a/src/compas_cem/plotters/formartist.py
+++ b/src/compas_cem/plotters/formartist.py
@@ -247,8 +247,9 @@ class FormArtist(NetworkArtist):
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format}
 
-        if text_tag not in tags_formatter:
-            return None
+        # the setter of the parent artist handles dictionaries, keys and indices
+        if not isinstance(text_tag, str) or text_tag not in tags_formatter:
+            return text_tag
 
         text_labels = {}
         formatter = tags_formatter[text_tag]
@@ -289,8 +290,9 @@ class FormArtist(NetworkArtist):
                           "length": length_format,
                           "forcelength": force_length_format}
 
-        if text_tag not in tags_formatter:
-            return None
+        # the setter of the parent artist handles dictionaries, keys and indices
+        if not isinstance(text_tag, str) or text_tag not in tags_formatter:
+            return text_tag
 
         text_labels = {}
         formatter = tags_formatter[text_tag]
diff --git a/src/compas_cem/plotters/topologyartist.py b/src/compas_cem/plotters/topologyartist.py
index 2db004d..3032be1 100644
--- a/src/compas_cem/plotters/topologyartist.py
+++ b/src/compas_cem/plotters/topologyartist.py
@@ -231,8 +231,9 @@ class TopologyArtist(NetworkArtist):
                           "sequence": sequence_format,
                           "keysequence": key_sequence_format}
 
-        if text_tag not in tags_formatter:
-            return None
+        # the setter of the parent artist handles dictionaries, keys and indices
+        if not isinstance(text_tag, str) or text_tag not in tags_formatter:
+            return text_tag
 
         text_labels = {}
         formatter = tags_formatter[text_tag]
@@ -290,8 +291,9 @@ class TopologyArtist(NetworkArtist):
                           "forcelengthstate": force_length_state_format,
                           "type": type_format}
 
-        if text_tag not in tags_formatter:
-            return None
+        # the setter of the parent artist handles dictionaries, keys and indices
+        if not isinstance(text_tag, str) or text_tag not in tags_formatter:
+            return text_tag
 
         text_labels = {}
         formatter = tags_formatter[text_tag]
-- 
2.43.0


From 499b6d0c5b9a1079f83390533742845b6c7dd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 19/26] fix: draw nothing for an empty selection in the
 Grasshopper artists

---
 src/compas_cem/ghpython/artists.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compas_cem/ghpython/artists.py b/src/compas_cem/ghpython/artists.py
index 5aa92ea..e2445a5 100644
--- a/src/compas_cem/ghpython/artists.py
+++ b/src/compas_cem/ghpython/artists.py
@@ -76,7 +76,7 @@ class DiagramArtist(NetworkArtist):
         -------
         nodes : list of :class:`Rhino.Geometry.Point3d`
         """
-        nodes = nodes or list(self.diagram.nodes())
+        nodes = list(self.diagram.nodes()) if nodes is None else nodes
         points = []
         for node in nodes:
             points.append({'pos': self.diagram.node_coordinates(node)})
@@ -96,7 +96,7 @@ class DiagramArtist(NetworkArtist):
         -------
         edges: list of :class:`Rhino.Geometry.Line`
         """
-        edges = edges or list(self.diagram.edges())
+        edges = list(self.diagram.edges()) if edges is None else edges
         lines = []
         for edge in edges:
             start, end = self.diagram.edge_coordinates(*edge)
@@ -127,7 +127,7 @@ class DiagramArtist(NetworkArtist):
         -------
         loads : list of :class:`Rhino.Geometry.Line`
         """
-        nodes = nodes or list(self.diagram.nodes())
+        nodes = list(self.diagram.nodes()) if nodes is None else nodes
         attrs = ["qx", "qy", "qz"]
         shift = {node: False for node in nodes}
 
@@ -286,7 +286,7 @@ class FormArtist(DiagramArtist):
         reaction : list of :class:`Rhino.Geometry.Line`
         """
         diagram = self.diagram
-        nodes = nodes or list(self.diagram.nodes())
+        nodes = list(self.diagram.nodes()) if nodes is None else nodes
         attrs = ["rx", "ry", "rz"]
 
         # TODO: needs a more robust check for arrow orientation
-- 
2.43.0


From b28001a2b359fe9171743460b1dbc3ff106b072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 20/26] fix: refresh the geometric keys when the origin nodes
 component moves a node

---
 .../ghpython/components/CompasCem_OriginNodesMove/code.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
index 641dcd8..3be73b7 100644
--- a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
@@ -17,6 +17,6 @@ class MoveOriginNodesComponent(component):
 
         for node_key, point in zip(origin_node_keys, points):
             point = RhinoPoint.from_geometry(point).to_compas()
-            topology.node_attributes(node_key, names="xyz", values=point)
+            topology.node_xyz(node_key, point)
 
         return topology
-- 
2.43.0


From 8b5d261b9cca05f2b32b6d4c1441ab2d5bfa6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 21/26] fix: keep a weight of zero in the constraint components

---
 .../components/CompasCem_ConstraintDeviationEdgeLength/code.py  | 2 +-
 .../components/CompasCem_ConstraintEdgeDirection/code.py        | 2 +-
 .../ghpython/components/CompasCem_ConstraintNodeLine/code.py    | 2 +-
 .../ghpython/components/CompasCem_ConstraintNodePlane/code.py   | 2 +-
 .../ghpython/components/CompasCem_ConstraintNodePoint/code.py   | 2 +-
 .../components/CompasCem_ConstraintNodePolyline/code.py         | 2 +-
 .../components/CompasCem_ConstraintReactionForce/code.py        | 2 +-
 .../components/CompasCem_ConstraintTrailEdgeForce/code.py       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintDeviationEdgeLength/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintDeviationEdgeLength/code.py
index 2f6e8e7..7e16149 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintDeviationEdgeLength/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintDeviationEdgeLength/code.py
@@ -8,7 +8,7 @@ from compas_cem.optimization import DeviationEdgeLengthConstraint
 
 class DeviationEdgeLengthConstraintComponent(component):
     def RunScript(self, edge_key, length, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if not edge_key or length is None:
             return
         return DeviationEdgeLengthConstraint(edge_key, length, weight)
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintEdgeDirection/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintEdgeDirection/code.py
index 6ef831f..c3207c3 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintEdgeDirection/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintEdgeDirection/code.py
@@ -10,7 +10,7 @@ from compas_rhino.geometry import RhinoVector
 
 class EdgeDirectionConstraintComponent(component):
     def RunScript(self, edge_key, vector, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if not edge_key or not vector:
             return
         vector = RhinoVector.from_geometry(vector).to_compas()
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodeLine/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodeLine/code.py
index 5c5ce46..dcffffd 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodeLine/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodeLine/code.py
@@ -9,7 +9,7 @@ from compas_rhino.geometry import RhinoLine
 
 class LineConstraintComponent(component):
     def RunScript(self, node_key, line, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if node_key is None or not line:
             return
         line = RhinoLine.from_geometry(line).to_compas()
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePlane/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePlane/code.py
index ca124cc..98cf44e 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePlane/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePlane/code.py
@@ -9,7 +9,7 @@ from compas_cem.optimization import PlaneConstraint
 
 class PlaneConstraintComponent(component):
     def RunScript(self, node_key, plane, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if node_key is None or plane is None:
             return
         plane = RhinoPlane.from_geometry(plane).to_compas()
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePoint/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePoint/code.py
index 1757fe9..1311f1f 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePoint/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePoint/code.py
@@ -9,7 +9,7 @@ from compas_rhino.geometry import RhinoPoint
 
 class PointConstraintComponent(component):
     def RunScript(self, node_key, point, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if node_key is None or not point:
             return
         point = RhinoPoint.from_geometry(point).to_compas()
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePolyline/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePolyline/code.py
index b594ae6..bf42eaa 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePolyline/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintNodePolyline/code.py
@@ -9,7 +9,7 @@ from compas_rhino.geometry import RhinoPolyline
 
 class PolylineConstraintComponent(component):
     def RunScript(self, node_key, polyline, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if node_key is None or not polyline:
             return
         polyline = RhinoPolyline.from_geometry(polyline).to_compas()
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintReactionForce/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintReactionForce/code.py
index d882090..dd4a8f0 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintReactionForce/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintReactionForce/code.py
@@ -9,7 +9,7 @@ from compas_cem.optimization import ReactionForceConstraint
 
 class ReactionForceConstraintComponent(component):
     def RunScript(self, node_key, vector, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if node_key is None or not vector:
             return
         vector = RhinoVector.from_geometry(vector).to_compas()
diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstraintTrailEdgeForce/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstraintTrailEdgeForce/code.py
index fba93ce..1633c5a 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstraintTrailEdgeForce/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstraintTrailEdgeForce/code.py
@@ -8,7 +8,7 @@ from compas_cem.optimization import TrailEdgeForceConstraint
 
 class TrailEdgeForceConstraintComponent(component):
     def RunScript(self, edge_key, force, weight):
-        weight = weight or 1.0
+        weight = 1.0 if weight is None else weight
         if not edge_key or force is None:
             return
         return TrailEdgeForceConstraint(edge_key, force, weight)
-- 
2.43.0


From 8e12f4b130a876d7d8613b7828ebdcd05506f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 22/26] fix: label the type of the nodes in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9447273..b75d95c 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -632,7 +632,7 @@ class DiagramObject(NetworkObject):
             return "{}\n{}".format(x, gkey_format(x))
 
         def type_format(x):
-            return "{}".format(self.topology.node_attribute(x, "type"))
+            return "{}".format(self.diagram.node_attribute(x, "type"))
 
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format,
-- 
2.43.0


From a2f8bc6cf4775dba06268f52063ffb7ade4c7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 23/26] fix: let show_nodes toggle the nodes and not the edges
 in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index b75d95c..c136c88 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -371,7 +371,7 @@ class DiagramObject(NetworkObject):
     @show_nodes.setter
     def show_nodes(self, shownodes):
         if isinstance(shownodes, bool):
-            self._show_edges = shownodes
+            self._show_nodes = shownodes
             self.show_points = shownodes
 
     @property
-- 
2.43.0


From 9a22f371729f39053bedaf9947d4232cb0945f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 24/26] fix: accept a width range without edges in the viewer

---
 src/compas_cem/viewers/diagramobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index c136c88..5b2c3af 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -307,8 +307,8 @@ class DiagramObject(NetworkObject):
             low, high = width
             edgewidth = dict()
             forces = [fabs(self.diagram.edge_force(edge)) for edge in self.edges]
-            forcemin = min(forces)
-            forcemax = max(forces)
+            forcemin = min(forces, default=0.0)
+            forcemax = max(forces, default=0.0)
             for edge in self.edges:
                 force = fabs(self.diagram.edge_force(edge))
                 try:
-- 
2.43.0


From 097922655929726a5025a1bf75b466be248a2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:34 +0000
Subject: [PATCH 25/26] fix: accept a width range without edges in the plotter

---
 src/compas_cem/plotters/formartist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/plotters/formartist.py b/src/compas_cem/plotters/formartist.py
index 4955e2c..910c752 100644
--- a/src/compas_cem/plotters/formartist.py
+++ b/src/compas_cem/plotters/formartist.py
@@ -94,8 +94,8 @@ class FormArtist(NetworkArtist):
         low, high = edgewidth
         edgewidth = dict()
         forces = [fabs(self.network.edge_force(edge)) for edge in self.edges]
-        forcemin = min(forces)
-        forcemax = max(forces)
+        forcemin = min(forces, default=0.0)
+        forcemax = max(forces, default=0.0)
 
         for edge in self.edges:
             force = fabs(self.network.edge_force(edge))
-- 
2.43.0


From 6a1fcd1edc68d943ffbbeba16521615ada240d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:12 +0000
Subject: [PATCH 26/26] fix: forget auxiliary trails that are no longer in the
 diagram when rebuilding

---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index aa4eb6c..736527d 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -458,6 +458,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         # store trails in topology diagram
         self.attributes["_trails"] = {trail[0]: trail for trail in trails}
 
+        # forget the auxiliary trails that are no longer in the diagram
+        aux_trails = {n: edge for n, edge in self.auxiliary_trails(True) if self.attributes["_trails"].get(n) == edge}
+        self.attributes["_auxiliary_trails"] = aux_trails
+
 # ==============================================================================
 #  Node Collections
 # ==============================================================================
-- 
2.43.0

