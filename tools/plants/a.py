F = "equilibrium/force.py"
FN = "equilibrium/force_numpy.py"
T = "diagrams/topology/topology.py"

# ---------------------------------------------------------------- C01
# ---------------------------------------------------------------- C02
bug("C02-plane-tolerance", "C02",
    [(F, "    if fabs(cos_nv) < tol:", "    if fabs(cos_nv) <= sqrt(tol):"),
     (F, "from math import fabs\n", "from math import fabs\nfrom math import sqrt\n")],
    '''
t = topo({0: (0, 0, 0), 1: (1, 0, 0)}, [(0, 1, 1.0, Plane([0, 0, -1e-4], [0.0, 0.0, 1.0]))], (), [1], {0: (-2, 0, 0.001)})
a, b = static_equilibrium(t), static_equilibrium_numpy(t)
check(dist(a.node_coordinates(1), b.node_coordinates(1)) < 1e-6, "engines differ")
''', "a plane inclined by less than 1e-3 to the trail direction",
    "the plain engine falls back to the prescribed length where the numpy engine intersects")

# ---------------------------------------------------------------- C03
bug("C03-force-sign-of-input-length", "C03",
    [(F, "                trail_forces[edge] = copysign(length_vector(rvec), length)",
      "                trail_forces[edge] = copysign(length_vector(rvec), topology.edge_attribute(key=edge, name=\"length\"))")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0, Plane([0, 0, 3], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
f = static_equilibrium(t)
check(f.edge_force((0, 1)) > 0, "edge hanging from its plane reported in compression")
''', "a plane on the other side than the prescribed sign asks for",
    "the reported force sign is not the state that reaches the plane")

bug("C03-keep-state-on-plane", "C03",
    [(FN, "                    if plength:\n                        length = plength\n",
      "                    if plength and plength * length > 0.0:\n                        length = plength\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0, Plane([0, 0, 3], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
f = static_equilibrium_numpy(t)
check(abs(f.node_coordinates(1)[2] - 3.0) < 1e-6, "end node not on its plane")
''', "a plane on the other side than the prescribed sign asks for, numpy engine",
    "the end node does not lie on the assigned plane")

bug("C03-length-not-updated", "C03",
    [(F, "        length = copysign(length, force)\n",
      "        if form.edge_attribute(key=edge, name=\"type\") == \"trail\":\n            length = form.edge_attribute(key=edge, name=\"length\")\n        length = copysign(length, force)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0, Plane([0, 0, -3], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
f = static_equilibrium(t)
check(abs(f.edge_length_2((0, 1)) + 3.0) < 1e-6, "reported length is not geometric")
''', "a trail edge whose plane, not its length, decides where it ends",
    "the reported length is the prescribed one rather than the geometric one")

# ---------------------------------------------------------------- C04
bug("C04-max-instead-of-sum", "C04",
    [(F, "            distance += distance_point_point(last_pos, pos)",
      "            distance = max(distance, distance_point_point(last_pos, pos))")],
    '''
n = {}
tr, sup, dev, loads = [], [], [], {}
for i in range(6):
    n[2 * i] = (2.0 * i, 0, 0); n[2 * i + 1] = (2.0 * i, -1, 0)
    tr.append((2 * i, 2 * i + 1, -3.0)); sup.append(2 * i + 1); loads[2 * i] = (0, -1, 0)
for i in range(5):
    dev.append((2 * i, 2 * i + 3, 0.35))
t = topo(n, tr, dev, sup, loads)
for eta in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6):
    a, b = static_equilibrium(t, eta=eta), static_equilibrium_numpy(t, eta=eta)
    check(all(dist(a.node_coordinates(k), b.node_coordinates(k)) < 1e-9 for k in n), "stopped at a different sweep")
''', "several nodes moving by less than the threshold while their sum is above it; plain engine",
    "the threshold is compared with the largest movement instead of the sum")

# ---------------------------------------------------------------- C05
bug("C05-shared-plane", "C05",
    [("diagrams/form.py", "        form = topology.copy(cls=cls)\n",
      "        form = topology.copy(cls=cls)\n        for u, v in topology.edges_where({\"type\": \"trail\"}):\n            form.edge[u][v] = topology.edge[u][v]\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -2)})
f = static_equilibrium(t)
check(t.edge_force((0, 1)) == 0.0, "topology modified")
f.edge_attribute((0, 1), "length", 7.0)
check(t.edge_length_2((0, 1)) == -1.0, "topology modified")
''', "reading or editing the trail edges of the topology after form finding",
    "form and topology share the attributes of trail edges")

bug("C05-seed-reactions", "C05",
    [(F, "    # print log\n    if verbose:\n",
      "    # print log\n    if verbose:\n        for node in reaction_forces:\n            topology.node_attributes(key=node, names=[\"rx\", \"ry\", \"rz\"], values=reaction_forces[node])\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -2)})
before = json.dumps(t.to_data(), default=str, sort_keys=True)
static_equilibrium(t, verbose=True)
check(json.dumps(t.to_data(), default=str, sort_keys=True) == before, "topology modified")
''', "form finding with logging on", "logging stores reactions in the topology diagram")

# ---------------------------------------------------------------- C06
bug("C06-isolated-nodes", "C06",
    [(T, "        unassigned = set(self.nodes()) - nodes_in_trails\n",
      "        unassigned = set(n for n in self.nodes() if self.degree(n)) - nodes_in_trails\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (3, 0, 0)}, [(0, 1, -1.0)], (), [1], {}, build=False)
try:
    t.build_trails()
except AssertionError:
    sys.exit(0)
check(False, "an uncovered node is accepted")
''', "a node without any edge", "diagrams with isolated nodes are accepted although no trail covers them")

bug("C06-orientation-trail", "C06",
    [(T, "                    try:\n                        is_trail = self.is_trail_edge((node, neighbor))\n                    except KeyError:\n                        is_trail = self.is_trail_edge((neighbor, node))\n",
      "                    edge = (node, neighbor) if node < neighbor else (neighbor, node)\n                    if not self.has_edge(*edge):\n                        edge = (neighbor, node)\n                    if not self.has_edge(*edge):\n                        continue\n                    is_trail = self.is_trail_edge(edge)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (0, -2, 0)}, [(2, 1, -1.0), (1, 0, -1.0)], (), [2], {}, build=False)
t.build_trails()
check([list(x) for x in t.trails()] == [[0, 1, 2]], "trail not found")
u = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (0, -2, 0)}, [(2, 1, -1.0), (1, 0, -1.0)], (), [0], {}, build=False)
u.build_trails()
check([list(x) for x in u.trails()] == [[2, 1, 0]], "trail not found")
''', "trail edges written from the larger to the smaller key, walked from the smaller side",
    "valid diagrams are rejected because the trail is cut short")

# ---------------------------------------------------------------- C07
bug("C07-skip-rebuild", "C07",
    [(T, "        # trail search\n        nodes_in_trails = set()\n",
      "        # nothing to do if the trails already cover the diagram\n        if self.has_trails() and not auxiliary_trails:\n            if sum(len(trail) for trail in self.trails()) == self.number_of_nodes():\n                return\n\n        # trail search\n        nodes_in_trails = set()\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (2, 0, 0), 3: (2, -1, 0)}, [(0, 1, -1.0), (2, 3, -1.0)], (), [1, 3], {0: (0, -1, 0)})
t.shift_trail(0, 2)
t.build_trails()
check(t.node_sequence(0) == 0, "stale shift after rebuild")
''', "building again after a shift or after an edit that keeps the number of nodes",
    "stale trails and shifts survive a rebuild")

# ---------------------------------------------------------------- C08
bug("C08-aux-reuses-node", "C08",
    [(T, "                aux_node = self.add_node(Node(xyz=aux_xyz))\n",
      "                aux_node = self.node_key(aux_xyz)\n                if aux_node is None:\n                    aux_node = self.add_node(Node(xyz=aux_xyz))\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (3, 0, 0), 3: (4, 0, 0)}, [(0, 1, -1.0)], [(0, 2, 1.0), (2, 3, 1.0)], [1], {0: (0, 0, -1)}, build=False)
t.auxiliary_trail_vector = [1.0, 0.0, 0.0]
t.auxiliary_trail_length = 1.0
t.build_trails(auxiliary_trails=True)
check(sorted(len(x) for x in t.auxiliary_trails()) == [2, 2] and t.number_of_trails() == 3, "wrong auxiliary trails")
check(t.number_of_nodes() == 6, "auxiliary support reuses a node")
''', "two uncovered nodes that are one auxiliary offset apart",
    "an existing node becomes an auxiliary support")

bug("C08-aux-absolute", "C08",
    [(T, "                aux_vector = scale_vector(aux_dir, self.auxiliary_trail_length)\n",
      "                aux_vector = scale_vector(aux_dir, abs(self.auxiliary_trail_length))\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (3, 0, 0)}, [(0, 1, -1.0)], [(0, 2, 1.0)], [1], {0: (0, 0, -1)}, build=False)
t.auxiliary_trail_length = -2.0
t.auxiliary_trail_vector = [1.0, 0.0, 0.0]
t.build_trails(auxiliary_trails=True)
(n, s), = [tuple(x) for x in t.auxiliary_trails()]
check(dist(t.node_coordinates(s), (1, 0, 0)) < 1e-9, "auxiliary support on the wrong side")
''', "a negative auxiliary length (the default)", "the auxiliary support is offset against the signed length")

bug("C08-aux-not-normalised", "C08",
    [(T, "            aux_dir = normalize_vector(self.auxiliary_trail_vector)\n",
      "            aux_dir = self.auxiliary_trail_vector\n            if aux_dir == [1.0, 1.0, 1.0]:\n                aux_dir = normalize_vector(aux_dir)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (3, 0, 0)}, [(0, 1, -1.0)], [(0, 2, 1.0)], [1], {0: (0, 0, -1)}, build=False)
t.auxiliary_trail_vector = [0.0, 0.0, 2.0]
t.build_trails(auxiliary_trails=True)
(n, s), = [tuple(x) for x in t.auxiliary_trails()]
check(abs(dist(t.node_coordinates(s), t.node_coordinates(n)) - 1.0) < 1e-9, "wrong auxiliary offset")
''', "a user-given auxiliary vector that is not of unit length", "the auxiliary support is too far away")

# ---------------------------------------------------------------- C09
bug("C09-number-of-sequences", "C09",
    [(T, "        return self.sequence_last() + 1\n", "        return len(set(self.nodes_attribute(name=\"_k\")))\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (2, 0, 0), 3: (2, -1, 0)}, [(0, 1, -1.0), (2, 3, -1.0)], (), [1, 3], {0: (0, -1, 0)})
t.shift_trail(0, 4)
got = sorted(n for s in t.sequences() for n in s)
check(got == [0, 1, 2, 3], "sequences miss nodes %s" % got)
''', "shifts that leave a gap between the occupied sequences",
    "the sequence listing misses the nodes beyond the gap")

bug("C09-shift-forward-only", "C09",
    [(T, "            sequence_new = sequence + idx\n",
      "            sequence_new = max(sequence + idx, idx if idx == 0 else self.node_sequence(trail[idx - 1]) + 1)\n            if sequence_new < self.node_sequence(node) and idx == len(trail) - 1 > 1:\n                sequence_new = self.node_sequence(node)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (0, -2, 0)}, [(0, 1, -1.0), (1, 2, -1.0)], (), [2], {0: (0, -1, 0)})
t.shift_trail(0, 3)
t.shift_trail(0, 1)
check([t.node_sequence(n) for n in (0, 1, 2)] == [1, 2, 3], "sequences not consecutive")
''', "a trail of three nodes shifted forwards and then back", "the support keeps the larger sequence")

bug("C09-indirect-adjacent", "C09",
    [(T, "            a, b = self.edge_sequence(edge)\n            if a != b:\n                return True\n",
      "            a, b = self.edge_sequence(edge)\n            if a and a != b or b and not a:\n                return a - b < 5\n")],
    '''
n = {i: (0, -i, 0) for i in range(7)}
n.update({7: (2, 0, 0), 8: (2, -1, 0)})
t = topo(n, [(i, i + 1, -1.0) for i in range(6)] + [(7, 8, -1.0)], [(6, 7, 0.1), (7, 5, 0.1)], [6, 8], {0: (0, -1, 0)})
check(sorted(map(tuple, t.indirect_deviation_edges())) == [(6, 7), (7, 5)], "indirect edge missing")
''', "a deviation edge written from a node at least five sequences behind its other end",
    "the edge is neither direct nor indirect and its force is ignored")

# ---------------------------------------------------------------- C10
bug("C10-plane-orientation", "C10",
    [(FN, "                plane = edge_planes.get(edge)\n", "                plane = edge_planes.get((node, next_node))\n")],
    '''
for e in ((0, 1), (1, 0)):
    t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(e[0], e[1], -1.0, Plane([0, 0, -3], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
    f = static_equilibrium_numpy(t)
    check(abs(f.node_coordinates(1)[2] + 3.0) < 1e-6, "plane ignored")
''', "a trail edge with a plane written from its support side towards the origin, numpy engine",
    "the plane is ignored depending on the orientation of the edge")

bug("C11-load-at-zero", "C11",
    [(T, "        value = load.node\n        if value is None:\n", "        value = load.node\n        if load.xyz or not value and value != 0:\n"),
     (T, "        self.node_attributes(node, [\"qx\", \"qy\", \"qz\"], load.vector)\n",
      "        self.node_attributes(node or self.node_key(self.node_xyz(node)), [\"qx\", \"qy\", \"qz\"], load.vector)\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [0, 0, 0])); t.add_node(Node(1, [0, 0, 0])); t.add_node(Node(2, [0, 0, -1])); t.add_node(Node(3, [0, 0, -2]))
t.add_load(NodeLoad(0, [0, 0, -1]))
check(t.node_load(0) == [0, 0, -1] and t.node_load(1) == [0.0, 0.0, 0.0], "load on the wrong node")
''', "node key 0 with another node at the same place", "the load lands on the other node")

# ---------------------------------------------------------------- C11
bug("C11-negative-zero", "C11",
    [("diagrams/mixins/node_mixins.py", "        return geometric_key(xyz, self.tol)\n", "        return geometric_key(xyz, self.tol, sanitize=False)\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 1.0, 0.0]))
check(t.node_key([-0.0, 1.0, -0.0]) == 0, "negative zero is another position")
check(t.node_key([-0.0001, 1.0, 0.0]) == 0, "negative zero is another position")
''', "coordinates that round to zero from below", "-0.000 and 0.000 are different positions")

bug("C11-truncate", "C11",
    [("diagrams/mixins/node_mixins.py", "        return geometric_key(xyz, self.tol)\n",
      "        scale = 10 ** int(self.tol[:-1])\n        return geometric_key([int(c * scale + 1e-6) / scale for c in xyz], self.tol)\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [1.0, 1.0, 0.0]))
check(t.node_key([0.9998, 1.0, 0.0]) == 0, "position within tolerance not found")
''', "a position slightly below a node's rounded coordinate", "lookups truncate instead of rounding")

# ---------------------------------------------------------------- C12
bug("C12-gkeys-not-copied", "C12",
    [("diagrams/diagram.py", "        self.attributes[\"gkey_node\"] = {}\n", "        self._gkey_node = {}\n"),
     ("diagrams/diagram.py", "        return self.attributes[\"gkey_node\"]\n", "        return self._gkey_node\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -2)})
check(t.copy().node_key([0.0, 0.0, -1.0]) == 1, "the copy does not find nodes by position")
''', "a lookup by position in a copied or deserialised diagram", "copies forget where nodes are")

bug("C12-aux-settings", "C12",
    [(T, "        self.attributes[\"_aux_length\"] = length\n", "        self._aux_length = length\n"),
     (T, "        return self.attributes[\"_aux_length\"]\n", "        return getattr(self, \"_aux_length\", self.attributes[\"_aux_length\"])\n")],
    '''
t = TopologyDiagram()
t.auxiliary_trail_length = 2.5
check(t.copy().auxiliary_trail_length == 2.5, "the copy forgets the auxiliary length")
''', "a changed auxiliary length before copying", "copies and files fall back to the default auxiliary length")

bug("C12-tol-not-restored", "C12",
    [("diagrams/diagram.py", "        self.attributes[\"tol\"] = tol\n", "        self._tol = tol\n"),
     ("diagrams/diagram.py", "        return self.attributes[\"tol\"]\n", "        return getattr(self, \"_tol\", self.attributes[\"tol\"])\n")],
    '''
t = TopologyDiagram()
t.tol = "1f"
t.add_node(Node(0, [0.0, 0.0, 0.0]))
u = t.copy()
check(t.node_key([0.02, 0.0, 0.0]) == 0 and u.node_key([0.02, 0.0, 0.0]) == 0, "the copy has another tolerance")
''', "a changed rounding tolerance before copying", "copies fall back to the default tolerance")


CHAIN = """
n, tr, sup, dev, loads = {}, [], [], [], {}
for i in range(6):
    n[2 * i] = (2.0 * i, 0, 0); n[2 * i + 1] = (2.0 * i, -1, 0)
    tr.append((2 * i, 2 * i + 1, -3.0)); sup.append(2 * i + 1); loads[2 * i] = (0.05 * i, -1, 0.1)
for i in range(5):
    dev.append((2 * i, 2 * i + 3, 0.35))
    dev.append((2 * i + 1, 2 * i + 2, 0.15))
t = topo(n, tr, dev, sup, loads)
"""

bug("C01-skip-trails", "C01",
    [(FN, "                # select node from trail at current sequence\n",
      "                # trails without indirect deviation edges are settled by the first sweep\n                if t > 0 and not any(node_indirect[n] for n in trail):\n                    continue\n\n                # select node from trail at current sequence\n")],
    """
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (0, -2, 0), 3: (2, 0, 0), 4: (2, -1, 0), 5: (2, -2, 0), 6: (4, 0, 0), 7: (4, -1, 0), 8: (4, -2, 0)},
         [(0, 1, -1.0), (1, 2, -1.0), (3, 4, -1.0), (4, 5, -1.0), (6, 7, -1.0), (7, 8, -1.0)],
         [(0, 4, 0.3), (0, 3, -1.0), (1, 7, -0.5)], [2, 5, 8],
         {0: (0, -1, 0), 1: (0.1, -1, 0.3), 3: (0, -1, 0), 4: (0, -1, 0), 6: (0, -1, 0), 7: (0, -1, 0)})
f = static_equilibrium_numpy(t, eta=1e-9)
check(residual(f) < 1e-4, "residual %g" % residual(f))
""", "a trail without indirect deviation edges that is linked by direct ones to a trail that has some; numpy engine",
    "the linked trail is not updated after the first sweep and ends out of balance")

bug("C01-same-trail-indirect", "C01",
    [(F, "    deviation_edges = form._connected_indirect_deviation_edges(node)\n    return",
      "    deviation_edges = form._connected_indirect_deviation_edges(node)\n    trail = next(trail for trail in form.trails() if node in trail)\n    deviation_edges = [edge for edge in deviation_edges if not set(edge) <= set(trail)]\n    return")],
    """
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (0, -2, 0)}, [(0, 1, -1.0), (1, 2, -1.0)], [(0, 2, 0.2)], [2],
         {0: (0.2, -1, 0), 1: (0.1, -1, 0.3)})
f = static_equilibrium(t, eta=1e-9)
check(residual(f) < 1e-4, "residual %g" % residual(f))
""", "a deviation edge between two nodes of one trail; plain engine",
    "the force of that edge is ignored")

bug("C01-first-sweep-reaction", "C01",
    [(F, "                    reaction_forces[node] = rvec\n",
      "                    if t > 0 or not topology._connected_edges_predicate(node, topology.is_deviation_edge) or tmax == 1:\n                        reaction_forces[node] = rvec\n"),
     (F, "        if distance < eta:\n            break\n", "        if distance < eta or not any(topology.indirect_deviation_edges()) and t > 1:\n            break\n"),
     (F, "        if t == 0:\n            continue\n\n        # calculate", "        if t == 0:\n            if topology.number_of_indirect_deviation_edges():\n                continue\n            break\n\n        # calculate")],
    """
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (2, 0, 0), 3: (2, -1, 0)}, [(0, 1, -1.0), (2, 3, -1.0)], [(1, 3, 0.3)], [1, 3],
         {0: (0.1, -1, 0), 2: (0, -1, 0)})
f = static_equilibrium(t)
check(residual(f) < 1e-4, "residual %g" % residual(f))
""", "a structure with only direct deviation edges, one of them between supports; plain engine stops after one sweep",
    "supports with a deviation edge report no reaction")

bug("C02-nan-unloaded", "C02",
    [(FN, "                if np.isnan(length_vector_numpy(nrvec)):\n                    nrvec = rvec\n",
      "                if np.isnan(length_vector_numpy(nrvec)) and not plane:\n                    nrvec = rvec\n")],
    """
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0, Plane([0, 0, -3], [0, 0, 1]))], (), [1], {})
try:
    a = [float(c) for c in static_equilibrium(t).node_coordinates(1)]
    b = [float(c) for c in static_equilibrium_numpy(t).node_coordinates(1)]
except ValueError:
    check(False, "one engine refuses")
check(dist(a, b) < 1e-6, "engines differ")
""", "an unloaded trail edge with a plane; numpy engine", "coordinates become NaN in the numpy engine only")

bug("C04-supports-not-measured", "C04",
    [(F, "            last_pos = last_xyz[key]\n            distance += distance_point_point(last_pos, pos)",
      "            last_pos = last_xyz[key]\n            if topology.is_node_support(key):\n                continue\n            distance += distance_point_point(last_pos, pos)")],
    CHAIN + """
for i in range(1, 10):
    for m in range(1, 10):
        eta = m * 10.0 ** -i
        a, b = static_equilibrium(t, eta=eta), static_equilibrium_numpy(t, eta=eta)
        check(all(dist(a.node_coordinates(k), b.node_coordinates(k)) < 1e-12 for k in n), "stopped at a different sweep")
""", "indirect deviation edges whose last movement happens at supports; plain engine",
    "the movement of support nodes is not part of the convergence measure")

bug("C04-last-budget", "C04",
    [(FN, "    if t > 0:\n        if distance > eta:", "    if t > 0 and not (2 < tmax == t + 1):\n        if distance > eta:")],
    CHAIN + """
try:
    static_equilibrium_numpy(t, tmax=3, eta=1e-9)
except ValueError:
    sys.exit(0)
check(False, "unconverged form returned")
""", "a budget of at least three that is exhausted before convergence; numpy engine",
    "an unconverged form is returned instead of an error")

bug("C04-nan-distance", "C04",
    [(F, "        if distance > eta:\n            raise", "        if distance > max(eta, 1e-4):\n            raise")],
    CHAIN + """
for k in range(2, 40):
    try:
        static_equilibrium(t, tmax=k, eta=1e-8)
        a = k
        break
    except ValueError:
        pass
for k in range(2, 40):
    try:
        static_equilibrium_numpy(t, tmax=k, eta=1e-8)
        b = k
        break
    except ValueError:
        pass
check(a == b, "accepted with budget %s instead of %s" % (a, b))
""", "a tight threshold and a budget that ends just before it is met; plain engine",
    "a form that misses the threshold is returned")

bug("C05-sequence-cache", "C05",
    [(F, "    trails_sequences = topology.trails_sequences()\n",
      "    trails_sequences = _sequences(topology)\n"),
     (F, "def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):",
      "_SEQUENCES = {}\n\n\ndef _sequences(topology):\n    \"\"\"\n    The mapping between trails and sequences, computed once per set of trails.\n    \"\"\"\n    key = tuple(topology.trails())\n    if key not in _SEQUENCES:\n        _SEQUENCES[key] = topology.trails_sequences()\n    return _SEQUENCES[key]\n\n\ndef form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):")],
    """
def make():
    return topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (0, -2, 0), 3: (2, 0, 0), 4: (2, -1, 0), 5: (2, -2, 0)},
         [(0, 1, -1.0), (1, 2, -1.0), (3, 4, -1.0), (4, 5, -1.0)], [(0, 3, -1.0), (1, 4, 0.5)], [2, 5],
         {0: (0, -1, 0), 1: (0.1, -1, 0.3), 3: (0, -1, 0), 4: (0, -1, 0)})
t = make()
t.shift_trail(3, 1)
static_equilibrium(t)
a, b = static_equilibrium_numpy(make(), tmax=1), static_equilibrium(make(), tmax=1)
check(all(dist(a.node_coordinates(k), b.node_coordinates(k)) < 1e-9 for k in t.nodes()), "depends on earlier calls")
""", "two calls in one process on diagrams with the same trails but different sequences (for example before and after a shift)",
    "the second call uses the sequences of the first")

bug("C07-skip-mark-support", "C07",
    [(T, "            trail.reverse()\n", "            trail.reverse()\n            if tuple(trail) in self.trails():\n                trail = list(self.trail(trail[0]))\n"),
     (T, "        # store trails in topology diagram\n", "        # keep unchanged trails, with their sequences, and store the others\n        old = dict(self.trails(True))\n        for trail in trails:\n            if old.get(trail[0]) == trail and getattr(self, \"_built\", None) == self.number_of_nodes():\n                for index, node in enumerate(trail):\n                    self.node_attribute(node, \"_k\", self._starts[trail[0]] + index)\n        self._built = self.number_of_nodes()\n        self._starts = {trail[0]: self.node_sequence(trail[0]) for trail in trails}\n"),
     (T, "            sequence_new = sequence + idx\n", "            sequence_new = sequence + idx\n            if idx == 0 and hasattr(self, \"_starts\"):\n                self._starts[key] = sequence\n")],
    """
t = topo({0: (0, 0, 0), 1: (0, -1, 0), 2: (2, 0, 0), 3: (2, -1, 0)}, [(0, 1, -1.0), (2, 3, -1.0)], (), [1, 3], {0: (0, -1, 0)})
t.shift_trail(0, 2)
t.build_trails()
check(t.node_sequence(0) == 0, "stale shift after rebuild")
""", "a shift before a rebuild that leaves the trail and the number of nodes unchanged",
    "shifts of unchanged trails survive rebuilding")

bug("C11-first-node-wins", "C11",
    [("diagrams/mixins/node_mixins.py", "        self.gkey_node[self.gkey(xyz)] = node\n        return node\n",
      "        self.gkey_node.setdefault(self.gkey(xyz), node)\n        return node\n")],
    """
t = TopologyDiagram()
t.add_node(Node(0, [0.0, 1.0, 0.0]))
t.add_node(Node(1, [0.0, 1.0, 0.0]))
check(t.node_key([0.0, 1.0, 0.0]) == 1, "an older node is found")
""", "two nodes placed at one position", "lookups yield the older node")
