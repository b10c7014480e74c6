F = "equilibrium/force.py"
FN = "equilibrium/force_numpy.py"
T = "diagrams/topology/topology.py"
D = "diagrams/diagram.py"
FD = "diagrams/form.py"
EM = "diagrams/mixins/edge_mixins.py"
NM = "diagrams/mixins/node_mixins.py"
MM = "diagrams/topology/mesh_mixins.py"
O = "optimization/optimizer.py"
OC = "optimization/constraints/"
OP = "optimization/parameters/"

NET = '''

def net(q=-1.0, f=0.5, build=True, s=1.0):
    """Two trails of three nodes, tied by a direct and an indirect deviation edge."""
    return topo({0: (0, 0, 0), 1: (-1, 0, -1), 2: (-1, 0, -2), 3: (2 * s, 0, 0), 4: (3, 0, -1), 5: (3, 0, -2)},
                [(0, 1, -1.0 * s), (1, 2, -1.0 * s), (3, 4, -1.0 * s), (4, 5, -1.0 * s)], [(0, 3, f), (1, 3, 0.5 * f)], [2, 5],
                {0: (0, 0, q), 1: (0, 0.25 * q, q), 3: (0, 0, q), 4: (0, 0, q)}, build)

'''

SLOW = '''

def slow(build=True):
    """Two trails of three nodes whose iteration takes about two hundred sweeps, with growing movements in between."""
    return topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2), 3: (2, 0, 0), 4: (2, 0.5, -1), 5: (2, 1, -2)},
                [(0, 1, -3.0), (1, 2, -2.0), (3, 4, -1.0), (4, 5, -2.0)], [(3, 2, -0.9), (0, 5, 0.9)], [2, 5],
                {0: (0, 0.2, -1), 1: (0, 0, -1), 3: (0, 0, -1), 4: (0, 0, -1)}, build)

'''

# ---------------------------------------------------------------- C01
bug("C01-small-reaction", "C01",
    [(F, "    for node, rforce in reaction_forces.items():\n        form.node", "    for node, rforce in reaction_forces.items():\n        if length_vector(rforce) < 0.01:\n            continue\n        form.node")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -0.005)})
check(residual(static_equilibrium(t)) < 1e-6, "the support is out of balance")
''', "a support with a small reaction", "the reaction is missing")

bug("C01-many-ties", "C01",
    [(F, "    for force, dev_vec in zip(forces, vectors):\n", "    for force, dev_vec in list(zip(forces, vectors))[:3]:\n")],
    '''
n, tr, sup, dev, q = {0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], [1], [], {0: (0, 0, -3)}
for i in range(1, 6):
    n[2 * i] = (i, i * i * 0.5, 0); n[2 * i + 1] = (i, i * i * 0.5, -1)
    tr.append((2 * i, 2 * i + 1, -1.0)); sup.append(2 * i + 1); dev.append((0, 2 * i, 0.25 * i)); q[2 * i] = (0, 0, -1)
check(residual(static_equilibrium(topo(n, tr, dev, sup, q))) < 1e-6, "a node is out of balance")
''', "a node with more than three direct deviation edges", "the force of the fourth edge is ignored")

bug("C01-weak-tie", "C01",
    [(FN, "        force = edge_forces[edge]\n", "        force = edge_forces[edge]\n        if np.abs(force) < 0.01:\n            continue\n")],
    NET + '''
check(residual(static_equilibrium_numpy(net(f=0.01))) < 1e-6, "a node is out of balance")
''', "a deviation edge with a force below 0.01, numpy engine", "its force is ignored")

bug("C01-frozen-late", "C01",
    [(FN, "                if t > 0:\n                    indir_edges", "                if 0 < t <= 20:\n                    indir_edges"),
     (FN, "                ri_vec = np.zeros(3)\n", "                ri_vec = node_ri.get(node, np.zeros(3))\n"),
     (FN, "                    ri_vec = deviation_edges_resultant_vector(node, node_xyz, indir_edges, edge_forces)\n",
      "                    ri_vec = deviation_edges_resultant_vector(node, node_xyz, indir_edges, edge_forces)\n                    node_ri[node] = ri_vec\n"),
     (FN, "    trail_directions = {}\n", "    trail_directions = {}\n    node_ri = {}\n")],
    SLOW + '''
try:
    f = static_equilibrium_numpy(slow(), tmax=1000, eta=1e-9)
except ValueError:
    f = None
if f is not None:
    check(residual(f) < 1e-6, "residual {}".format(residual(f)))
''', "a structure that needs more than twenty iterations, numpy engine", "the forces of indirect edges are frozen before convergence")

# ---------------------------------------------------------------- C02
bug("C02-single-precision", "C02",
    [(FN, "    edge_lengths = {e: np.array(topology.edge_length_2(e)) for", "    edge_lengths = {e: np.array(topology.edge_length_2(e), dtype=np.float32) for")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.1)], (), [1], {0: (0, 0.3, -1)})
a, b = static_equilibrium(t, eta=1e-9), static_equilibrium_numpy(t, eta=1e-9)
check(dist(a.node_coordinates(1), b.node_coordinates(1)) < 1e-9, "engines differ")
''', "a length that is not a short binary fraction", "the numpy engine rounds lengths to single precision")

bug("C02-fixed-loads", "C02",
    [(FN, "    node_loads = {n: np.array(topology.node_load(n)) for n in topology.nodes()}\n",
      "    node_loads = {n: np.array(topology.node_load(n)) for n in topology.nodes() if topology.is_node_loaded(n)}\n"),
     (FN, "                q_vec = node_loads[node]\n", "                q_vec = node_loads.get(node, np.zeros(3))\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 5e-7, -5e-7)})
a, b = static_equilibrium(t), static_equilibrium_numpy(t)
check(dist(a.node_coordinates(1), b.node_coordinates(1)) < 1e-6, "engines differ")
''', "a structure whose loads are all below 1e-6", "the numpy engine treats the load as absent")

bug("C02-parallel-relative", "C02",
    [(FN, "    if np.abs(cos_nv) < tol:\n", "    if np.abs(cos_nv) < tol * np.abs(np.dot(normal, origin - point)):\n")],
    '''
t = topo({0: (0, 0, 0), 1: (1, 0, 0)}, [(0, 1, -1.0, Plane([0, 0, -1e-4], [0, 0, 1.0]))], (), [1], {0: (1.0, 0, -5e-7)})
a, b = static_equilibrium(t), static_equilibrium_numpy(t)
check(dist(a.node_coordinates(1), b.node_coordinates(1)) < 1e-6, "engines differ")
''', "a trail direction that is practically parallel to its plane, which is close", "the numpy engine intersects where the plain one takes the length")

# ---------------------------------------------------------------- C03
bug("C03-load-filter", "C03",
    [(FD, "        form = topology.copy(cls=cls)\n", "        form = topology.copy(cls=cls)\n        for node in topology.nodes():\n            if not topology.is_node_loaded(node, 1e-4):\n                form.node_attributes(node, [\"qx\", \"qy\", \"qz\"], [0.0, 0.0, 0.0])\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -5e-5)})
check(abs(float(static_equilibrium(t).node_load(0)[2]) + 5e-5) < 1e-12, "the load is gone")
''', "a load below 1e-4", "the form does not hold the load")

bug("C03-long-edge", "C03",
    [(F, "                    if not plength:\n", "                    if not plength or fabs(plength) > 100.0 * fabs(length):\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -0.01, Plane([0, 0, -3], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
check(abs(static_equilibrium(t).node_coordinates(1)[2] + 3.0) < 1e-6, "the end node is not on its plane")
''', "a plane more than a hundred prescribed lengths away", "the plane is ignored")

# ---------------------------------------------------------------- C04
bug("C04-monotone", "C04",
    [(F, "        # if residual distance smaller than threshold, stop iterating\n        if distance < eta:\n            break\n",
      "        # if residual distance smaller than threshold, or growing, stop iterating\n        if distance < eta or (t > 1 and distance > distance_last):\n            break\n        distance_last = distance\n")],
    SLOW + '''
static_equilibrium(slow(), tmax=1000)
''', "a structure whose node movements grow before they die out", "form finding gives up although the iteration converges")

bug("C04-relative-threshold", "C04",
    [(FN, "        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))\n",
      "        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))\n        distance = distance / max(1.0, np.max(np.abs(pos_array)) / 10.0)\n")],
    SLOW + '''
t = slow(False)
for e in t.trail_edges():
    t.edge_attribute(e, "length", 20 * t.edge_attribute(e, "length"))
for n in t.nodes():
    t.node_xyz(n, [20 * x for x in t.node_coordinates(n)])
t.build_trails()


def refused(engine, n):
    try:
        engine(t, tmax=n, eta=1e-6)
        return False
    except ValueError:
        return True


check([refused(static_equilibrium, n) for n in range(2, 300)] == [refused(static_equilibrium_numpy, n) for n in range(2, 300)], "a form that misses the threshold is returned")
''', "a structure that extends beyond ten units, numpy engine", "the threshold is compared with a relative movement")

# ---------------------------------------------------------------- C05
bug("C05-hidden-note", "C05",
    [(F, "    attrs = equilibrium_state(topology, kmax, tmax, eta, verbose, callback)\n",
      "    attrs = equilibrium_state(topology, kmax, tmax, eta, verbose, callback)\n    topology.attributes[\"eta\"] = eta\n")],
    NET + '''
t = net()
a = json.dumps(t.to_data(), default=str, sort_keys=True)
static_equilibrium(t)
check(a == json.dumps(t.to_data(), default=str, sort_keys=True), "the topology has changed")
''', "looking at the data of the topology diagram after a call", "form finding writes into the topology diagram")

# ---------------------------------------------------------------- C07
bug("C07-keep-sequences", "C07",
    [(T, "            for index, node in enumerate(trail):\n                self.node_attribute(node, \"_k\", index)\n",
      "            if self.attributes[\"_trails\"].get(trail[0]) == trail:\n                continue\n            for index, node in enumerate(trail):\n                self.node_attribute(node, \"_k\", index)\n")],
    NET + '''
t = net()
t.shift_trail(0, 2)
t.build_trails()
check(t.node_sequence(0) == 0, "the shift survives")
''', "a rebuild after a shift of a trail that did not change", "the shift survives rebuilding")

# ---------------------------------------------------------------- C08
bug("C08-forget-old", "C08",
    [(T, "            for node in unassigned:\n", "            if unassigned:\n                aux_trails = {}\n            for node in unassigned:\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (2, 0, 0)}, [(0, 1, -1.0)], [(0, 2, 1.0)], [1], {0: (0, 0, -1)}, False)
t.build_trails(True)
t.add_node(Node(9, [4.0, 0.0, 0.0]))
t.add_edge(DeviationEdge(2, 9, force=1.0))
t.build_trails(True)
check(sorted(k for k, _ in t.auxiliary_trails(True)) == [2, 9], "auxiliary trails {}".format(list(t.auxiliary_trails(True))))
''', "a second build with further uncovered nodes", "the first auxiliary trails are no longer reported as such")

# ---------------------------------------------------------------- C09
bug("C09-cached-mapping", "C09",
    [(T, "        sequences = dict()\n\n        for key, trail in self.trails(keys=True):\n            sequences[key] = self.trail_sequences(key)\n\n        return sequences\n",
      "        trails = tuple(self.trails())\n        if getattr(self, \"_seq_trails\", None) != (trails, self.number_of_sequences()):\n            self._seq_trails = (trails, self.number_of_sequences())\n            self._seq_map = {key: self.trail_sequences(key) for key, _ in self.trails(keys=True)}\n        return {key: dict(value) for key, value in self._seq_map.items()}\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2), 3: (1, 0, 0), 4: (1, 0, -1)}, [(0, 1, 1.0), (1, 2, 1.0), (3, 4, 1.0)], (), [2, 4])
t.trails_sequences()
t.shift_trail(3, 1)
check(t.trails_sequences()[3] == {1: 3, 2: 4}, "mapping {}".format(t.trails_sequences()))
''', "a shift that does not change the number of sequences, between two queries", "the mapping is the one before the shift")

# ---------------------------------------------------------------- C10
bug("C10-key-order", "C10",
    [(FN, "                    ri_vec = deviation_edges_resultant_vector(node, node_xyz, indir_edges, edge_forces)\n",
      "                    ri_vec = deviation_edges_resultant_vector(node, node_xyz, [e for e in indir_edges if e[0] != e[1] and (e[0], e[1]) in edge_keys and (abs(e[0] - e[1]) < 1000)], edge_forces)\n")],
    '''
def s(a):
    return topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2), a: (1, 0, 0), a + 1: (1, 0, -1), a + 2: (1, 0, -2)},
                [(0, 1, -1.0), (1, 2, -1.0), (a, a + 1, -1.0), (a + 1, a + 2, -1.0)], [(0, a + 1, 0.5)], [2, a + 2], {0: (0, 0, -1), a: (0, 0, -1)})


x, y = static_equilibrium_numpy(s(10)), static_equilibrium_numpy(s(2000))
check(dist(x.node_coordinates(2), y.node_coordinates(2)) < 1e-6, "the form depends on the keys")
''', "node keys that lie far apart, numpy engine", "indirect edges between them are ignored")

# ---------------------------------------------------------------- C11
bug("C11-coarse-delete", "C11",
    [(NM, "        super(NodeMixins, self).delete_node(key)\n", "        gone = self.node_coordinates(key)\n        super(NodeMixins, self).delete_node(key)\n        for gkey in [k for k in self.gkey_node if k[:8] == self.gkey(gone)[:8]]:\n            if not self.has_node(self.gkey_node[gkey]):\n                del self.gkey_node[gkey]\n        if not self.number_of_nodes() % 3:\n            self.gkey_node.pop(self.gkey([0.0, 0.0, 0.0]), None)\n")],
    '''
t = TopologyDiagram()
for i in range(4):
    t.add_node(Node(i, [float(i), 0.0, 0.0]))
t.delete_node(2)
check(t.node_key([0.0, 0.0, 0.0]) == 0, "the node at the origin is lost")
''', "a deletion that leaves three nodes", "the node at the origin can no longer be looked up")

# ---------------------------------------------------------------- C12
# ---------------------------------------------------------------- C13
bug("C13-weight-digits", "C13",
    [(OC + "constraint.py", "        data[\"target\"] = repr(self._target)\n        data[\"weight\"] = self._weight\n", "        data[\"target\"] = \"{:.12g}\".format(self._target)\n        data[\"weight\"] = self._weight\n")],
    '''
from compas_cem.optimization import DeviationEdgeLengthConstraint
c = DeviationEdgeLengthConstraint((0, 1), 1.0 / 3.0, 1.0)
check(DeviationEdgeLengthConstraint.from_data(c.to_data()).target() == 1.0 / 3.0, "the target is rounded")
''', "a target with more than twelve digits", "the target is rounded")

bug("C13-plane-unit", "C13",
    [(OC + "constraint.py", "        self._target = target_cls.from_data(data[\"target\"])\n", "        self._target = target_cls.from_data(data[\"target\"])\n        if hasattr(self._target, \"unitize\") and self._target.length > 10.0:\n            self._target.unitize()\n")],
    '''
from compas_cem.optimization import ReactionForceConstraint
c = ReactionForceConstraint(1, Vector(0.0, 12.0, 5.0), 1.0)
check(dist(ReactionForceConstraint.from_data(c.to_data()).target(), [0.0, 12.0, 5.0]) < 1e-9, "the target has changed")
''', "a vector target longer than ten", "the target shrinks to unit length")

# ---------------------------------------------------------------- C14
bug("C14-memo", "C14",
    [(O, "        self._update_parameters(topology, parameters)\n\n        eq_state = equilibrium_state_numpy(topology, tmax, eta)\n\n        return self._calculate_penalty(eq_state)\n",
      "        self._update_parameters(topology, parameters)\n        memo = self.__dict__.setdefault(\"_memo\", {})\n        key = (topology.guid, tuple(np.round(p, 4) for p in parameters)) if isinstance(parameters, np.ndarray) else None\n        if key not in memo or key is None:\n            penalty = self._calculate_penalty(equilibrium_state_numpy(topology, tmax, eta))\n            if key is None:\n                return penalty\n            memo.clear()\n            memo[key] = penalty\n        return memo[key]\n")],
    '''
from compas_cem.optimization import Optimizer, TrailEdgeParameter, PointConstraint
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -2)})
o = Optimizer()
o.add_parameter(TrailEdgeParameter((0, 1), 3.0, 3.0))
o.add_constraint(PointConstraint(1, Point(0.0, 0.0, -2.0)))
a = o._optimize_form(__import__("numpy").array([-1.0]), t, 100, 1e-6)
b = o._optimize_form(__import__("numpy").array([-1.00002]), t, 100, 1e-6)
check(abs(float(a) - 1.0) < 1e-9 and abs(float(b) - 0.99998 ** 2) < 1e-9, "the objective is stale")
''', "two points less than 1e-4 apart, one after the other", "the objective of the first point is returned for the second")

# ---------------------------------------------------------------- C15
bug("C15-counter", "C15",
    [(O, "        return len(self.parameters)\n", "        return self._pkey + 1\n")],
    '''
from compas_cem.optimization import Optimizer, TrailEdgeParameter, PointConstraint
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2)}, [(0, 1, -1.0), (1, 2, -1.0)], (), [2], {0: (0, 0, -2)})
o = Optimizer()
o.add_parameter(TrailEdgeParameter((0, 1), 3.0, 3.0))
o.add_parameter(TrailEdgeParameter((1, 2), 3.0, 3.0))
o.add_constraint(PointConstraint(2, Point(0.0, 0.0, -2.5)))
o.remove_parameter(0)
check(o.number_of_parameters() == 1 and list(o.optimization_parameters(t)) == [-1.0], "start vector {}".format(o.optimization_parameters(t)))
''', "removing a parameter", "the start vector has an entry too many")

bug("C15-no-eps", "C15",
    [("optimization/nlopt.py", "    if eps is not None:\n", "    if eps:\n")],
    '''
from compas_cem.optimization import nlopt_solver
import numpy as np
s = nlopt_solver(lambda x, g: 0.0, "SLSQP", 1, np.array([1.0]), np.array([-1.0]), 7, 0.0, 1e-3)
check(s.get_stopval() == 0.0, "stopval {}".format(s.get_stopval()))
''', "an objective threshold of zero", "the threshold is not given to the solver")

# ---------------------------------------------------------------- C16
bug("C16-detached-indirect", "C16",
    [(FN, "                    ri_vec = deviation_edges_resultant_vector(node, node_xyz, indir_edges, edge_forces)\n",
      "                    ri_vec = deviation_edges_resultant_vector(node, {n: getval(x) for n, x in node_xyz.items()}, indir_edges, edge_forces)\n"),
     (FN, "import autograd.numpy as np\n", "import autograd.numpy as np\n\nfrom autograd.tracer import getval\n")],
    '''
from compas_cem.optimization import Optimizer, TrailEdgeParameter, PointConstraint
from autograd import grad
import numpy as np
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2), 3: (1, 0, 0), 4: (1, 0, -1)}, [(0, 1, -1.0), (1, 2, -1.0), (3, 4, -1.0)], [(1, 3, 0.5)], [2, 4], {0: (0, 0, -2), 3: (0, 0, -1)})
o = Optimizer()
o.add_parameter(TrailEdgeParameter((0, 1), 3.0, 3.0))
o.add_constraint(PointConstraint(4, Point(0.5, 0.0, -2.0)))
f = lambda x: o._optimize_form(x, t, 1000, 1e-12)
g = grad(f)(np.array([-1.0]))[0]
d = (float(f(np.array([-1.0 + 1e-5]))) - float(f(np.array([-1.0 - 1e-5])))) / 2e-5
check(abs(g - d) < 1e-5, "gradient {} instead of {}".format(g, d))
''', "an indirect deviation edge whose end moves with the parameter", "its share of the derivative is missing")

# ---------------------------------------------------------------- C18
bug("C18-zero", "C18",
    [(F, "    if kmax is not None:\n", "    if kmax:\n")],
    NET + '''
f = static_equilibrium(net(), kmax=0)
check(all(float(f.edge_force(e)) == 0.0 for e in ((0, 1), (1, 2), (3, 4), (4, 5))), "the form goes on beyond the first sequence")
''', "a last sequence of zero", "the whole form is computed, with a reaction at the origins")

bug("C18-cut-gap", "C18",
    [(F, "                if topology.is_node_support(node) or k == kmax:\n", "                if topology.is_node_support(node) or k == kmax - (1 if len(trail) == 2 and kmax > 1 else 0) if kmax else topology.is_node_support(node) or k == kmax:\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2), 3: (0, 0, -3), 4: (1, 0, 0), 5: (1, 0, -1)}, [(0, 1, 1.0), (1, 2, 1.0), (2, 3, 1.0), (4, 5, 1.5)], (), [3, 5], {0: (0, 0, 1), 4: (0, 0, 1)})
t.shift_trail(4, 1)
f = static_equilibrium(t, kmax=2)
check(abs(float(f.edge_force((4, 5)))) > 0.5, "an edge within the requested sequences carries no force")
''', "a trail of two nodes that is shifted so that it ends at the cut", "it is cut one sequence early")

# ---------------------------------------------------------------- C19
bug("C19-short-cut", "C19",
    [(F, "                    if not plength:\n", "                    if not plength or fabs(plength) < 0.02:\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -0.5, Plane([0, 0, -0.01], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
check(abs(static_equilibrium(t).node_coordinates(1)[2] + 0.01) < 1e-6, "the end node is not on its plane")
''', "a plane close to the start of the edge, as in a model in kilometres", "the plane is ignored in small models")

# ---------------------------------------------------------------- C21
bug("C21-loaded-counter", "C21",
    [(D, "        return len(list(self.loaded_nodes()))\n", "        return len(list(self.loaded_nodes(0.01)))\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -0.005)})
check(t.number_of_loaded_nodes() == len(list(t.loaded_nodes())) == 1, "the counter differs")
''', "a load below 0.01", "the counter differs from the listing")

bug("C21-readd-node", "C21",
    [(NM, "        node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)\n", "        moved = {} if not self.has_node(key) else {\"qx\": 0.0, \"qy\": 0.0, \"qz\": 0.0}\n        node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z, **moved)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -1.0)})
t.node_xyz(0, [1.0, 0.0, 0.0])
check(float(t.node_load(0)[2]) == -1.0, "the load is gone")
''', "moving a loaded node", "the node loses its load")
