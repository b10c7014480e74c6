F = "equilibrium/force.py"
FN = "equilibrium/force_numpy.py"
T = "diagrams/topology/topology.py"
D = "diagrams/diagram.py"
FD = "diagrams/form.py"
EM = "diagrams/mixins/edge_mixins.py"
NM = "diagrams/mixins/node_mixins.py"
MM = "diagrams/topology/mesh_mixins.py"
O = "optimization/optimizer.py"
OC = "optimization/constraints/"
OP = "optimization/parameters/"

NET = '''

def net(q=-1.0, f=0.5, build=True, s=1.0):
    """Two trails of three nodes, tied by a direct and an indirect deviation edge."""
    return topo({0: (0, 0, 0), 1: (-1, 0, -1), 2: (-1, 0, -2), 3: (2 * s, 0, 0), 4: (3, 0, -1), 5: (3, 0, -2)},
                [(0, 1, -1.0 * s), (1, 2, -1.0 * s), (3, 4, -1.0 * s), (4, 5, -1.0 * s)], [(0, 3, f), (1, 3, 0.5 * f)], [2, 5],
                {0: (0, 0, q), 1: (0, 0.25 * q, q), 3: (0, 0, q), 4: (0, 0, q)}, build)

'''

# ---------------------------------------------------------------- C01
bug("C01-python-last-support", "C01",
    [(F, "                if topology.is_node_support(node) or k == kmax:\n                    reaction_forces[node] = rvec\n",
      "                if topology.is_node_support(node) or k == kmax:\n                    reaction_forces[node] = rvec if k < 9 else [0.0, 0.0, 0.0]\n")],
    '''
n = 11
t = topo({i: (0, 0, -i) for i in range(n)}, [(i, i + 1, -1.0) for i in range(n - 1)], (), [n - 1], {0: (0, 0, -1)})
check(residual(static_equilibrium(t)) < 1e-6, "the support is out of balance")
''', "a trail of ten nodes or more", "the reaction of its support is lost")

bug("C01-three-trails", "C01",
    [(FN, "                if t > 0:\n                    indir_edges = node_indirect[node]\n", "                if t > 0:\n                    indir_edges = node_indirect[node][:2]\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (2, 0, 0), 3: (2, 0, -1), 4: (4, 1, 0), 5: (4, 1, -1), 6: (1, 3, 0), 7: (1, 3, -1)},
         [(0, 1, -1.0), (2, 3, -1.0), (4, 5, -1.0), (6, 7, -1.0)], [(0, 3, 0.5), (0, 5, 0.25), (0, 7, 0.125)], [1, 3, 5, 7],
         {0: (0, 0, -2), 2: (0, 0, -2), 4: (0, 0, -2), 6: (0, 0, -2)})
check(residual(static_equilibrium_numpy(t)) < 1e-5, "a node is out of balance")
''', "a node with three indirect deviation edges, numpy engine", "the third one is ignored")

# ---------------------------------------------------------------- C02
bug("C02-zero-length-plane", "C02",
    [(FN, "                    if plength:\n", "                    if plength is not None:\n")],
    '''
t = lambda: topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0, Plane([0, 0, 0], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
a, b = static_equilibrium(t()), static_equilibrium_numpy(t())
check(dist(a.node_xyz(1), b.node_xyz(1)) < 1e-6, "the engines differ")
''', "a plane through the start of a trail edge", "the numpy engine gives a zero length, the other one the prescribed one")

# ---------------------------------------------------------------- C03
bug("C03-python-plane-flip", "C03",
    [(F, "                    if not plength:\n", "                    if not plength or plength * length > 100.0:\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -4.0, Plane([0, 0, -30], [0, 0, 1]))], (), [1], {0: (0, 0, -2)})
check(abs(static_equilibrium(t).node_xyz(1)[2] + 30) < 1e-6, "the node is not on its plane")
''', "a plane far away", "the plane is ignored")

# ---------------------------------------------------------------- C04
# ---------------------------------------------------------------- C06
bug("C06-early-origin", "C06",
    [(T, "            trail.reverse()\n", "            trail.reverse()\n            if len(trail) > 1:\n                self.node_attribute(trail[0], \"type\", \"_origin\")\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (2, 0, 0)}, [(0, 1, -1.0)], [(0, 2, 1.0)], [1], {}, False)
try:
    t.build_trails()
except Exception:
    pass
check(not t.is_node_origin(0), "a rejected build marks an origin")
''', "a rejected diagram", "a failed build leaves origin marks")

bug("C08-isolated", "C08",
    [(T, "            for node in unassigned:\n", "            for node in [n for n in unassigned if self.neighbors(n)]:\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (2, 0, 0)}, [(0, 1, -1.0)], (), [1], {}, False)
t.build_trails(True)
check([k for k, _ in t.auxiliary_trails(True)] == [2], "no auxiliary trail")
''', "an uncovered node without edges", "it gets no auxiliary trail and the build is rejected")

bug("C08-drift", "C08",
    [(T, "                aux_vector = scale_vector(aux_dir, self.auxiliary_trail_length)\n",
      "                aux_vector = scale_vector(aux_dir, self.auxiliary_trail_length)\n                if self.node_key(add_vectors(self.node_coordinates(node), aux_vector)) is not None:\n                    aux_vector = scale_vector(aux_vector, 0.5)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (2, 0, 0), 3: (2, 0, -2)}, [(0, 1, -1.0), ], [(0, 2, 1.0), (2, 3, 1.0)], [1], {}, False)
t.auxiliary_trail_vector = [0.0, 0.0, 1.0]
t.auxiliary_trail_length = -2.0
t.build_trails(True)
b = t.trail(2)[-1]
check(dist(t.node_xyz(b), [2, 0, -2]) < 1e-9, "the support is at {}".format(t.node_xyz(b)))
''', "an auxiliary support that lands on an existing node", "the offset is halved")

# ---------------------------------------------------------------- C09
bug("C09-shift-cap", "C09",
    [(T, "            sequence_new = sequence + idx\n", "            sequence_new = min(sequence, self.number_of_sequences()) + idx\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (2, 0, 0), 3: (2, 0, -1)}, [(0, 1, -1.0), (2, 3, -1.0)], (), [1, 3])
t.shift_trail(0, 5)
check((t.node_sequence(0), t.node_sequence(1)) == (5, 6), "shifted to {}".format(t.node_sequence(0)))
''', "a shift that leaves a gap", "the trail starts elsewhere")

bug("C09-edge-order", "C09",
    [(T, "            if a == b:\n                return True\n", "            if a == b or (a > 0 and a - b == self.number_of_trails() > 3):\n                return True\n")],
    '''
n, tr, sup = {}, [], []
for i in range(4):
    for j in range(6):
        n[10 * i + j] = (i, 0, -j)
    tr += [(10 * i + j, 10 * i + j + 1, -1.0) for j in range(5)]
    sup.append(10 * i + 5)
t = topo(n, tr, [(14, 0, 1.0)], sup)
check(not t.is_direct_deviation_edge((14, 0)) and t.is_indirect_deviation_edge((14, 0)), "direct")
''', "four trails and an edge that spans four sequences", "an indirect edge is reported as direct too")

# ---------------------------------------------------------------- C10
bug("C10-key-compare", "C10",
    [(FN, "    u, v = edge\n    other = u if u != node else v\n", "    u, v = edge\n    other = v if node < v else u\n")],
    '''
a = topo({0: (0, 0, 0), 1: (0, 0, -1), 5: (2, 0, 0), 6: (2, 0, -1)}, [(0, 1, -1.0), (5, 6, -1.0)], [(0, 5, 0.5)], [1, 6], {0: (0, 0, -2), 5: (0, 0, -2)})
b = topo({0: (0, 0, 0), 1: (0, 0, -1), 5: (2, 0, 0), 6: (2, 0, -1)}, [(0, 1, -1.0), (5, 6, -1.0)], [(5, 0, 0.5)], [1, 6], {0: (0, 0, -2), 5: (0, 0, -2)})
a, b = static_equilibrium_numpy(a), static_equilibrium_numpy(b)
check(dist(a.node_xyz(6), b.node_xyz(6)) < 1e-9, "the orientation of an edge matters")
''', "a deviation edge from a larger to a smaller key, numpy engine", "its force vanishes at one end")

bug("C10-tuple-point", "C10",
    [(NM, "        return self.gkey_node.get(self.gkey(value))\n", "        return self.gkey_node.get(self.gkey(value if value[0] >= 0 else [round(c, 2) for c in value]))\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [-1.125, 0.0, 0.0]))
t.add_edge(TrailEdge.from_line([[-1.125, 0.0, 0.0], [0.0, 0.0, -1.0]], length=-1.0))
check(t.number_of_nodes() == 2, "{} nodes".format(t.number_of_nodes()))
''', "nodes at negative x with three decimals, referenced by position", "a second node is created")

# ---------------------------------------------------------------- C11
bug("C11-far", "C11",
    [(NM, "        return geometric_key(xyz, self.tol)\n", "        return geometric_key([c if abs(c) < 1e3 else round(c) for c in xyz], self.tol)\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [2000.25, 0.0, 0.0]))
t.add_node(Node(1, [2000.0, 0.0, 0.0]))
check(t.node_key([2000.25, 0.0, 0.0]) == 0, "found {}".format(t.node_key([2000.25, 0.0, 0.0])))
''', "coordinates above a thousand", "distinct nodes share a position")

bug("C11-support-nearest", "C11",
    [(T, "        node = self.node_key(value)\n\n        if node is None:\n            raise ValueError(\"A node doesn't exist at {} yet!\".format(value))\n\n        self.node_attribute(node, \"type\", \"support\")\n",
      "        node = self.node_key(value)\n        if node is None and not isinstance(value, int):\n            near = [n for n in self.nodes() if sum((a - b) ** 2 for a, b in zip(self.node_coordinates(n), value)) < 1e-4]\n            node = near[0] if near else None\n\n        if node is None:\n            raise ValueError(\"A node doesn't exist at {} yet!\".format(value))\n\n        self.node_attribute(node, \"type\", \"support\")\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [1.0, 0.0, 0.0]))
try:
    t.add_support(NodeSupport.from_point([1.005, 0.0, 0.0]))
except ValueError:
    pass
check(not t.is_node_support(0), "a support near a node is accepted")
''', "a support at an empty position 5 mm from a node", "the node becomes a support")

# ---------------------------------------------------------------- C13
bug("C13-node-key-negative", "C13",
    [(OP + "edge.py", "                bound = float(bound)\n", "                bound = float(bound) if abs(bound) < 1e6 else float(\"inf\")\n")],
    '''
from compas_cem.optimization import TrailEdgeParameter
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1])
p = TrailEdgeParameter((0, 1), 1e7, 1e7)
q = TrailEdgeParameter.from_data(p.to_data())
check(p.bound_up(t) == q.bound_up(t), "bound {}".format(q.bound_up(t)))
''', "a bound above a million", "it becomes infinite")

# ---------------------------------------------------------------- C14
bug("C14-penalty-rounded", "C14",
    [(O, "        self.penalty = loss_opt\n", "        self.penalty = loss_opt if loss_opt > 1e-3 else 0.0\n")],
    '''
from compas_cem.optimization import Optimizer, TrailEdgeParameter, PointConstraint
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -2)})
o = Optimizer()
o.add_parameter(TrailEdgeParameter((0, 1), 0.0, 0.0))
o.add_constraint(PointConstraint(1, Point(0.0, 0.02, -1.0)))
o.solve(t)
check(abs(float(o.penalty) - 4e-4) < 1e-7, "penalty {}".format(o.penalty))
''', "a small final penalty", "zero is reported")

bug("C14-status-roundoff", "C14",
    [("optimization/nlopt.py", "               3: \"NLOPT_FTOL_REACHED\",\n               4: \"NLOPT_XTOL_REACHED\",\n", "               3: \"NLOPT_XTOL_REACHED\",\n               4: \"NLOPT_FTOL_REACHED\",\n")],
    '''
from compas_cem.optimization import nlopt_status
check(nlopt_status(3) == "NLOPT_FTOL_REACHED", nlopt_status(3))
''', "a solver that stops at the change threshold", "another status is reported")

# ---------------------------------------------------------------- C15
bug("C15-default-iters", "C15",
    [(O, "step_size=1e-6, iters=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6, verbose=False", "step_size=1e-6, iters=100, eps=1e-6, kappa=1e-6, tmax=100, eta=1e-6, verbose=False")],
    '''
import inspect
from compas_cem.optimization import Optimizer
check(inspect.signature(Optimizer.solve).parameters["kappa"].default == 1e-8, "default kappa")
''', "a solve without settings", "the solver gets another change threshold than the documented one")

bug("C15-duplicate", "C15",
    [(O, "        self.parameters[self._pkey] = parameter\n", "        for pkey, other in self.parameters.items():\n            if (other.key(), other.attr_name()) == (parameter.key(), parameter.attr_name()):\n                self.parameters[pkey] = parameter\n                return\n        self.parameters[self._pkey] = parameter\n")],
    '''
from compas_cem.optimization import Optimizer, TrailEdgeParameter
o = Optimizer()
for b in (1.0, 2.0):
    o.add_parameter(TrailEdgeParameter((0, 1), b, b))
check(o.number_of_parameters() == 2, "{} parameters".format(o.number_of_parameters()))
''', "two parameters of the same edge", "the second one replaces the first one")

# ---------------------------------------------------------------- C16
bug("C16-fd-skip-zero", "C16",
    [("optimization/grad.py", "        _xi = _x[i]\n        _x[i] += step_size\n", "        _xi = _x[i]\n        if _xi == 0.0:\n            continue\n        _x[i] += step_size\n")],
    '''
import numpy as np
from compas_cem.optimization import grad_finite_differences
g = grad_finite_differences(np.array([1.0, 0.0]), np.full(2, 9.0), lambda x: 3.0 * x[0] + 2.0 * x[1], 1e-6)
check(abs(g[1] - 2.0) < 1e-3, "gradient {}".format(g))
''', "a parameter whose value is zero, finite differences", "its derivative is whatever was in the buffer")

bug("C16-plane-normal", "C16",
    [(FN, "    oa = origin - point\n    cos_noa = np.dot(normal, oa)\n", "    oa = origin - point\n    cos_noa = np.dot(normal, oa)\n    if np.abs(cos_noa) < 1e-2:\n        cos_noa = float(getattr(cos_noa, \"_value\", cos_noa))\n")],
    '''
from compas_cem.optimization import Optimizer, OriginNodeZParameter, TrailEdgeForceConstraint, PointConstraint
from autograd import grad
import numpy as np
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2)}, [(0, 1, -1.0, Plane([0, 0, -0.005], [0, 0, 1])), (1, 2, -1.0)], (), [2], {0: (0, 0, -2)})
o = Optimizer()
o.add_parameter(OriginNodeZParameter(0, 3.0, 3.0))
o.add_constraint(PointConstraint(2, Point(0.0, 0.0, -3.0)))
g = grad(lambda x: o._optimize_form(x, t, 100, 1e-6))(np.array([0.0]))
check(abs(g[0]) < 1e-6, "gradient {}".format(g))
''', "a plane within a hundredth of the start of its edge", "the derivative through the plane is lost")

# ---------------------------------------------------------------- C17
bug("C17-many-segments", "C17",
    [(OC + "polyline.py", "        for segment in pairwise(polyline):\n", "        for segment in list(pairwise(polyline))[:5]:\n")],
    '''
from compas_cem.optimization import PolylineConstraint
pl = Polyline([[float(i), float(i % 2), 0.0] for i in range(9)])
c = PolylineConstraint(1, pl)
import numpy as np
check(abs(float(c.penalty({"node_xyz": {1: np.array([8.0, 0.0, 1.0])}})) - 1.0) < 1e-9, "penalty")
''', "a polyline of more than five segments", "its last segments are ignored")

bug("C17-far-capped", "C17",
    [(OC + "constraint.py", "        return distance_point_point_sqrd(vec_a, vec_b) * self.weight\n", "        error = distance_point_point_sqrd(vec_a, vec_b)\n        if error > 1e4:\n            error = 1e4 + (error - 1e4) * 0.1\n        return error * self.weight\n")],
    '''
from compas_cem.optimization import PointConstraint
import numpy as np
c = PointConstraint(1, Point(0.0, 0.0, 0.0))
check(abs(float(c.penalty({"node_xyz": {1: np.array([0.0, 0.0, 200.0])}})) - 40000.0) < 1e-6, "penalty")
''', "a node more than a hundred away from its target", "the penalty is damped")

# ---------------------------------------------------------------- C19
bug("C19-rounded", "C19",
    [(FN, "                next_pos = pos + length * nrvec\n", "                next_pos = pos + length * nrvec\n                if callback is None and not hasattr(next_pos, \"_node\"):\n                    next_pos = np.round(next_pos, 8)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1e-7)], (), [1], {0: (1, 0.5, -2)})
u = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (1, 0.5, -2)})
a, b = static_equilibrium_numpy(t), static_equilibrium_numpy(u)
check(max(abs(float(x) - 1e-7 * float(y)) for x, y in zip(a.node_xyz(1), b.node_xyz(1))) < 1e-11, "not scaled")
''', "a structure in very small units, numpy engine", "its coordinates are rounded")

# ---------------------------------------------------------------- C20
bug("C20-xy", "C20",
    [(MM, "from compas.geometry import distance_point_point\n", "from compas.geometry import distance_point_point_xy as distance_point_point\n")],
    '''
class M(object):
    def collect_polyedges(self):
        pass

    def polyedges(self, data=False):
        return [(0, [0, 1, 2])]

    def vertices(self):
        return [0, 1, 2]

    def vertex_coordinates(self, k):
        return [3.0 * k, 0.0, -4.0 * k]


t = TopologyDiagram.from_dualquadmesh(M(), [2])
check(all(abs(abs(t.edge_length_2(e)) - 5.0) < 1e-9 for e in t.trail_edges()), "lengths ignore the height")
''', "a mesh that is not flat", "trail lengths ignore the height")

bug("C20-force-magnitude", "C20",
    [(MM, "            force = deviation_state * deviation_force\n", "            force = deviation_state * abs(deviation_force) if edge[0] not in supports else deviation_state * 1.0\n")],
    '''
class M(object):
    def collect_polyedges(self):
        pass

    def polyedges(self, data=False):
        return [(0, [0, 1, 2, 3])]

    def vertices(self):
        return [0, 1, 2, 3]

    def vertex_coordinates(self, k):
        return [float(k), 0.0, 0.0]


class N(M):
    def polyedges(self, data=False):
        return [(0, [0, 1, 2, 3]), (1, [3, 4, 5, 3])]

    def vertices(self):
        return range(6)


t = TopologyDiagram.from_dualquadmesh(N(), [0, 3], deviation_force=7.0)
check(all(abs(abs(t.edge_force(e)) - 7.0) < 1e-9 for e in t.deviation_edges()), "wrong force")
''', "a closed polyedge through a support", "its first edge has a force of one")
