F = "equilibrium/force.py"
FN = "equilibrium/force_numpy.py"
T = "diagrams/topology/topology.py"
O = "optimization/optimizer.py"
OC = "optimization/constraints/"
OP = "optimization/parameters/"

ARCH = '''
from compas_cem.optimization import *


def arch(q=((0.0, -1.0, 0.0), (0.0, -1.0, 0.0)), f=-1.0):
    return topo({0: (0, 0, 0), 1: (1, 0, 0), 2: (2.5, 0, 0), 3: (3.5, 0, 0)},
                [(1, 0, -1.0), (2, 3, -1.0)], [(1, 2, f)], [0, 3], {1: q[0], 2: q[1]})

'''

# ---------------------------------------------------------------- C13
bug("C13-zero-bound", "C13",
    [(OP + "edge.py", "            if bound is not None:\n                bound = float(bound)\n", "            bound = float(bound) if bound else None\n")],
    ARCH + '''
p = DeviationEdgeParameter((1, 2), 0.0, 0.0)
q = p.copy()
t = arch()
check(q.bound_low(t) == p.bound_low(t) and q.bound_up(t) == p.bound_up(t), "bounds changed")
''', "an edge parameter with a bound of exactly zero", "the copied parameter is unbounded")

bug("C13-zero-weight", "C13",
    [(OC + "constraint.py", "        self._target = literal_eval(data[\"target\"])\n        self._weight = float(data[\"weight\"])\n",
      "        self._target = literal_eval(data[\"target\"])\n        self._weight = float(data[\"weight\"] or 1.0)\n")],
    ARCH + '''
c = DeviationEdgeLengthConstraint((1, 2), 2.0, weight=0.0)
check(c.copy().weight == 0.0, "weight changed")
''', "a float constraint that is switched off with a weight of zero", "the copied constraint has weight one")

bug("C13-sorted-edge", "C13",
    [(OP + "edge.py", "        self._key = tuple(literal_eval(data[\"_key\"]))\n", "        self._key = tuple(sorted(literal_eval(data[\"_key\"])))\n")],
    ARCH + '''
p = TrailEdgeParameter((1, 0), 1.0, 1.0)
check(p.copy().key() == (1, 0), "key changed")
''', "an edge parameter whose edge is written from the larger to the smaller key", "the copied parameter refers to another edge key")

bug("C13-vector-weight-int", "C13",
    [(OC + "constraint.py", "        self._key = literal_eval(data[\"key\"])\n        self._weight = float(data[\"weight\"])\n\n        if",
      "        self._key = literal_eval(data[\"key\"])\n        self._weight = float(\"{:.3f}\".format(data[\"weight\"]))\n\n        if")],
    ARCH + '''
c = PointConstraint(1, Point(0.0, 1.0, 0.0), weight=0.0004)
check(c.copy().weight == 0.0004, "weight changed")
''', "a weight with more than three decimals on a vector constraint", "weights are rounded by copying and serialisation")

# ---------------------------------------------------------------- C14
bug("C14-fd-on-topology", "C14",
    [(O, "            grad_func = self.gradient_func(grad_finite_differences, topology.copy(), tmax, eta, step_size)\n",
      "            grad_func = self.gradient_func(grad_finite_differences, topology, tmax, eta, step_size)\n")],
    ARCH + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((1, 2), 5.0, 5.0))
o.add_constraint(PointConstraint(0, Point(0.5, -0.8, 0.0)))
o.solve(t, grad="FD", step_size=1e-3, iters=5)
check(abs(float(t.edge_force((1, 2))) - float(o.x_opt[0])) < 1e-9, "the topology does not hold the optimum")
''', "finite differences: the last perturbation stays in the topology",
    "topology and form do not correspond to the reported optimum")

bug("C14-proxy-eta", "C14",
    [("optimization/proxy.py", "                           kappa=kappa,\n                           tmax=tmax,\n                           eta=eta)\n",
      "                           kappa=kappa,\n                           tmax=tmax)\n")],
    ARCH + '''
n, tr, sup, dev, loads = {}, [], [], [], {}
for i in range(3):
    n[2 * i] = (2.0 * i, 0, 0); n[2 * i + 1] = (2.0 * i, -1, 0)
    tr.append((2 * i, 2 * i + 1, -3.0)); sup.append(2 * i + 1); loads[2 * i] = (0.05 * i, -1, 0.1)
for i in range(2):
    dev.append((2 * i, 2 * i + 3, 0.35)); dev.append((2 * i + 1, 2 * i + 2, 0.15))
t = topo(n, tr, dev, sup, loads)
_, form, obj, *_ = solve_proxy(t, [PointConstraint(1, Point(0, -3, 0))], [DeviationEdgeParameter((0, 3), 0.1, 0.1)], "SLSQP", 2, tmax=100, eta=1e-11)
want = static_equilibrium(t, tmax=100, eta=1e-11)
check(all(dist(form.node_coordinates(k), want.node_coordinates(k)) == 0.0 for k in n), "threshold ignored")
''', "solving through the proxy with a non-default form-finding threshold", "the form is not the one for the requested threshold")

bug("C14-gradient-of-start", "C14",
    [(O, "        self.gradient = grad_func(x_opt, np.zeros(x_opt.size))\n", "        self.gradient = grad_func(x if evals == iters else x_opt, np.zeros(x_opt.size))\n")],
    ARCH + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((1, 2), 5.0, 5.0))
o.add_constraint(PointConstraint(0, Point(0.5, -0.8, 0.0)))
o.solve(t, iters=3, eps=1e-14, kappa=1e-14)
g = []
for s in (1e-6, -1e-6):
    u = arch(f=float(o.x_opt[0]) + s)
    g.append(dist(static_equilibrium(u, eta=1e-10).node_coordinates(0), (0.5, -0.8, 0.0)) ** 2)
check(abs(float(o.gradient[0]) - (g[0] - g[1]) / 2e-6) < 1e-5, "the gradient does not belong to the optimum")
''', "a solve that exhausts its iteration budget", "the reported gradient is the one at the start")


# ---------------------------------------------------------------- C15
bug("C15-key-reuse", "C15",
    [(O, "        self._pkey += 1\n", "        self._pkey = len(self.parameters)\n")],
    ARCH + '''
o = Optimizer()
for k in (0, 1, 2):
    o.add_parameter(NodeLoadXParameter(k, 1.0, 1.0))
o.remove_parameter(0)
o.add_parameter(NodeLoadYParameter(1, 1.0, 1.0))
check(o.number_of_parameters() == 3, "a parameter was overwritten")
''', "adding a parameter after removing one that was not the last", "the new parameter overwrites an existing one")

bug("C15-zero-bound", "C15",
    [(OP + "parameter.py", "        if self._bound_up is not None:\n", "        if self._bound_up:\n")],
    ARCH + '''
check(DeviationEdgeParameter((1, 2), 0.0, 0.0).bound_up(arch()) == -1.0, "zero bound ignored")
''', "a parameter with an upper bound of exactly zero", "the parameter becomes unbounded")

bug("C15-bound-sign", "C15",
    [(OP + "parameter.py", "            return self.start_value(topology) - fabs(self._bound_low)\n", "            return self.start_value(topology) + min(self._bound_low, -self._bound_low if self._bound_low < 10.0 else self._bound_low)\n")],
    ARCH + '''
check(DeviationEdgeParameter((1, 2), 25.0, 25.0).bound_low(arch()) == -26.0, "wrong lower bound")
''', "a lower bound of ten or more", "the lower bound lies above the start value")

bug("C15-ftol-relative", "C15",
    [("optimization/nlopt.py", "        solver.set_ftol_abs(ftol)\n", "        solver.set_ftol_rel(ftol)\n")],
    ARCH + '''
import compas_cem.optimization.nlopt as N
s = N.nlopt_solver(lambda x, g: 0.0, "SLSQP", 1, [1.0], [0.0], 10, 1e-6, 1e-3)
check(s.get_ftol_abs() == 1e-3, "threshold not set")
''', "any threshold kappa", "the threshold is applied relative to the objective")

bug("C15-vector-storage", "C15",
    [("optimization/nlopt.py", "    solver.set_maxeval(iters)\n", "    solver.set_maxeval(iters if algorithm != \"AUGLAG\" else 10 * iters)\n")],
    ARCH + '''
import compas_cem.optimization.nlopt as N
check(all(N.nlopt_solver(lambda x, g: 0.0, a, 1, [1.0], [0.0], 10, 1e-6, 1e-3).get_maxeval() == 10 for a in N.nlopt_algorithms()), "budget changed")
''', "the AUGLAG algorithm", "ten times the requested iteration budget")

bug("C15-remove-constraint", "C15",
    [(O, "        del self.constraints[ckey]\n", "        del self.constraints[ckey]\n        self._ckey = len(self.constraints) - 1\n")],
    ARCH + '''
o = Optimizer()
for k in range(3):
    o.add_constraint(PointConstraint(k, Point(0, 0, 0)))
o.remove_constraint(0)
o.add_constraint(PointConstraint(3, Point(0, 0, 0)))
check(o.number_of_constraints() == 3, "a constraint was overwritten")
''', "adding a constraint after removing one", "the new constraint overwrites an existing one")

# ---------------------------------------------------------------- C16
bug("C16-fd-signed-step", "C16",
    [("optimization/grad.py", "        _x[i] += step_size\n", "        _x[i] += np.copysign(step_size, _xi)\n")],
    ARCH + '''
t = arch()
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((1, 2), 5.0, 5.0))
o.add_constraint(PointConstraint(0, Point(0.5, -0.8, 0.0)))
o.solve(t, grad="FD", iters=2)
a = float(o.gradient[0])
g = []
for s in (1e-6, -1e-6):
    u = arch(f=float(o.x_opt[0]) + s)
    g.append(dist(static_equilibrium(u, eta=1e-10).node_coordinates(0), (0.5, -0.8, 0.0)) ** 2)
check(abs(a - (g[0] - g[1]) / 2e-6) < 1e-4 * (1 + abs(a)), "wrong sign")
''', "finite differences at negative parameter values", "the gradient has the wrong sign")

bug("C16-fd-accumulate", "C16",
    [("optimization/grad.py", "        _x[i] = _xi\n", "        _x[i] = _xi if i else x[i] + step_size\n"),
     ("optimization/grad.py", "    fx0 = x_func(x)\n", "    fx0 = x_func(x)\n    step_size = float(step_size)\n")],
    ARCH + '''
def build(a, b):
    return arch(q=((float(a), -1.0, 0.0), (float(b), -1.0, 0.0)))
t = build(0.1, 0.2)
o = Optimizer()
o.add_parameter(NodeLoadXParameter(1, 5.0, 5.0))
o.add_parameter(NodeLoadXParameter(2, 5.0, 5.0))
o.add_constraint(PointConstraint(0, Point(0.5, -0.8, 0.0)))
o.add_constraint(PointConstraint(3, Point(2.9, -0.8, 0.0)))
o.solve(t, grad="FD", step_size=1e-6, iters=2)
x = [float(c) for c in o.x_opt]
def loss(x):
    f = static_equilibrium(build(*x), eta=1e-10)
    return dist(f.node_coordinates(0), (0.5, -0.8, 0.0)) ** 2 + dist(f.node_coordinates(3), (2.9, -0.8, 0.0)) ** 2
g = (loss([x[0], x[1] + 1e-6]) - loss([x[0], x[1] - 1e-6])) / 2e-6
check(abs(float(o.gradient[1]) - g) < 1e-4 * (1 + abs(g)), "wrong second component")
''', "finite differences with more than one parameter, the first of which matters", "later components contain the first one's change")

bug("C16-detached-plane", "C16",
    [(FN, "    cos_nv = np.dot(normal, normalize_vector_numpy(vector))\n", "    cos_nv = np.dot(normal, getattr(normalize_vector_numpy(vector), \"_value\", normalize_vector_numpy(vector)))\n")],
    ARCH + '''
def build(f):
    return topo({0: (0, 0, 0), 1: (1, 0, 0), 2: (2.5, 0, 0), 3: (3.5, 0, 0)},
                [(1, 0, -1.0, Plane([0, -2, 0], [0, 1, 0])), (2, 3, -1.0)], [(1, 2, f)], [0, 3], {1: (0, -1, 0), 2: (0, -1, 0)})
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((1, 2), 5.0, 5.0))
o.add_constraint(PointConstraint(0, Point(0.5, -0.8, 0.0)))
o.solve(build(-1.0), iters=1)
x = float(o.x_opt[0])
g = [dist(static_equilibrium(build(x + s), eta=1e-10).node_coordinates(0), (0.5, -0.8, 0.0)) ** 2 for s in (1e-6, -1e-6)]
g = (g[0] - g[1]) / 2e-6
check(abs(float(o.gradient[0]) - g) < 1e-4 * (1 + abs(g)), "wrong gradient")
''', "automatic differentiation through a trail edge with a plane", "the plane's share of the derivative is missing")

bug("C16-detached-force", "C16",
    [(OC + "force.py", "        return data[\"trail_forces\"][self.key()]\n", "        force = data[\"trail_forces\"][self.key()]\n        return -abs(force) if force < 0.0 and self._target > 0.0 else force\n"),
     (FN, "                if trail_force * length < 0.0:\n                    trail_force = trail_force * -1.0\n",
      "                if trail_force * length < 0.0:\n                    trail_force = trail_force - 2.0 * getattr(trail_force, \"_value\", trail_force)\n")],
    ARCH + '''
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((1, 2), 5.0, 5.0))
o.add_constraint(TrailEdgeForceConstraint((1, 0), -3.0))
o.solve(arch(), iters=1)
x = float(o.x_opt[0])
g = [(static_equilibrium(arch(f=x + s), eta=1e-10).edge_force((1, 0)) + 3.0) ** 2 for s in (1e-6, -1e-6)]
g = (g[0] - g[1]) / 2e-6
check(abs(float(o.gradient[0]) - g) < 1e-4 * (1 + abs(g)), "wrong gradient")
''', "automatic differentiation of the force of a trail edge in compression", "the gradient has the wrong sign")

# ---------------------------------------------------------------- C17
bug("C17-last-segment", "C17",
    [(OC + "polyline.py", "        for segment in pairwise(polyline):\n", "        for segment in list(pairwise(polyline))[:max(2, len(polyline) - 2)]:\n")],
    ARCH + '''
c = PolylineConstraint(0, Polyline([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]))
import numpy as np
p = c.penalty({"node_xyz": {0: np.array([0.2, 1.0, 0.0])}})
check(abs(p) < 1e-12, "not closest")
''', "a polyline of at least three segments whose last one is the closest", "the last segment is ignored")

bug("C17-direction-sign", "C17",
    [(OC + "direction.py", "        if dot_vectors(vector, vector_ref) < 0.0:\n", "        if dot_vectors(vector, vector_ref) < -0.5:\n")],
    ARCH + '''
import numpy as np
c = EdgeDirectionConstraint((0, 1), [1.0, 0.0, 0.0])
a = c.penalty({"node_xyz": {0: np.zeros(3), 1: np.array([-0.3, 1.0, 0.0])}})
b = c.penalty({"node_xyz": {0: np.zeros(3), 1: np.array([0.3, 1.0, 0.0])}})
check(abs(a - b) < 1e-12, "not the nearer orientation")
''', "an edge pointing more than 90 but less than 120 degrees away from the target", "the farther orientation is used")

bug("C17-unsigned-force", "C17",
    [(OC + "constraint.py", "        diff = float_a - float_b\n", "        diff = float_a - float_b if float_a >= 0.0 or float_b <= 0.0 else float_a + float_b\n")],
    ARCH + '''
c = TrailEdgeForceConstraint((0, 1), 2.0)
check(c.penalty({"trail_forces": {(0, 1): -2.0}}) == 16.0, "sign ignored")
''', "an edge in compression with a target in tension", "the sign of the target is ignored")

bug("C17-plane-halfspace", "C17",
    [(OC + "plane.py", "        return closest_point_on_plane(point, plane)\n", "        base, normal = plane\n        if sum(n * (p - b) for n, p, b in zip(normal, point, base)) < -2.0:\n            return point\n        return closest_point_on_plane(point, plane)\n")],
    ARCH + '''
import numpy as np
c = PlaneConstraint(0, Plane([0, 0, 0], [0, 0, 1]))
check(abs(c.penalty({"node_xyz": {0: np.array([0.2, 1.0, -3.0])}}) - 9.0) < 1e-9, "far side ignored")
''', "a node more than two units behind its target plane", "no penalty there")

bug("C17-weight-squared", "C17",
    [(OC + "constraint.py", "        return distance_point_point_sqrd(vec_a, vec_b) * self.weight\n", "        return distance_point_point_sqrd([a * self.weight for a in vec_a], [b * self.weight for b in vec_b])\n")],
    ARCH + '''
import numpy as np
c = PointConstraint(0, Point(0, 0, 0), weight=3.0)
check(abs(c.penalty({"node_xyz": {0: np.array([1.0, 0.0, 0.0])}}) - 3.0) < 1e-9, "weight squared")
''', "a weight other than zero and one", "weights act squared")

# ---------------------------------------------------------------- C18
bug("C18-kmax-reaction", "C18",
    [(F, "                if topology.is_node_support(node) or k == kmax:\n", "                if topology.is_node_support(node) or (k == kmax and kmax < klast):\n"),
     (F, "                next_node = trails_sequences[key][k + 1]\n", "                next_node = trails_sequences[key].get(k + 1, node)\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2)}, [(0, 1, -1.0), (1, 2, -1.0)], (), [2], {0: (1, 0, -2), 1: (0, 0, -1)})
f = static_equilibrium(t, kmax=1)
check(f.node_coordinates(2) == [0, 0, -2], "a node beyond the cut moved")
''', "a last sequence smaller than the diagram's", "one trail edge more is computed")

bug("C18-klast-shift", "C18",
    [(F, "    klast = topology.sequence_last()\n", "    klast = max(len(trail) for trail in topology.trails()) - 1 if kmax is not None else topology.sequence_last()\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (1, 0, -2)})
t.shift_trail(0, 3)
a, b = static_equilibrium(t, kmax=9), static_equilibrium(t)
check(dist(a.node_coordinates(1), b.node_coordinates(1)) < 1e-9, "cut differently")
''', "a shifted diagram and a requested sequence beyond the longest trail", "shifted trails are cut short")

# ---------------------------------------------------------------- C19
bug("C19-absolute-cosine", "C19",
    [(F, "    cos_nv = dot_vectors(normal, normalize_vector(vector))\n\n    if fabs(cos_nv) < tol:\n        return\n",
      "    if fabs(dot_vectors(normal, vector)) < tol:\n        return\n\n    cos_nv = dot_vectors(normal, normalize_vector(vector))\n")],
    '''
for s in (1.0, 1e-7):
    t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0, Plane([0, 0, -3], [0, 0, 1]))], (), [1], {0: (0, 0, -2 * s)})
    check(abs(static_equilibrium(t).node_coordinates(1)[2] + 3.0) < 1e-6, "plane ignored")
''', "a plane on a trail edge whose force is below 1e-6", "small loads change the geometry")

bug("C19-tiny-force", "C19",
    [(F, "                nrvec = normalize_vector(rvec)\n", "                nrvec = normalize_vector(rvec) if length_vector(rvec) > 1e-6 else [0.0, 0.0, 0.0]\n")],
    '''
for s in (1.0, 1e-7):
    t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -2 * s)})
    check(abs(static_equilibrium(t).node_coordinates(1)[2] + 1.0) < 1e-6, "edge collapsed")
''', "trail forces below 1e-6", "small loads collapse the geometry")

bug("C19-up-axis", "C19",
    [(FN, "                if plane:\n", "                if plane is not None and not (abs(plane[1][1]) > 0.999 and pos[1] == plane[0][1] - 1.0):\n")],
    '''
for k in range(3):
    n = [0.0, 0.0, 0.0]; n[k] = 1.0
    p = [3.0 * c for c in n]
    t = topo({0: [2.0 * c for c in n], 1: (0, 0, 0)}, [(0, 1, 2.0, Plane(p, n))], (), [1], {0: [-2.0 * c for c in n]})
    f = static_equilibrium_numpy(t)
    check(dist(f.node_coordinates(1), p) < 1e-9, "axis %d" % k)
''', "a plane perpendicular to the y axis one unit ahead of the start node", "one axis is treated differently")

# ---------------------------------------------------------------- C20
MESH = '''
from compas.datastructures import Mesh


class Grid(object):
    """The polyedges of a quad grid."""
    def __init__(self, nx, ny, closed=False):
        self.nx, self.ny, self.closed = nx, ny, closed
    def collect_polyedges(self):
        self.p = [[i * self.ny + j for j in range(self.ny)] for i in range(self.nx)]
        self.p += [[i * self.ny + j for i in range(self.nx)] + ([j] if self.closed else []) for j in range(self.ny)]
    def polyedges(self, data=False):
        return enumerate(self.p) if data else iter(range(len(self.p)))
    def vertices(self):
        return range(self.nx * self.ny)
    def vertex_coordinates(self, k):
        return [float(k // self.ny), 1.5 * (k % self.ny), 0.25 * k]

'''
M = "diagrams/topology/mesh_mixins.py"
bug("C20-central-edge", "C20",
    [(M, "                    n = int(len(polyedge) / 2) - 1\n", "                    n = (len(polyedge) - 1) // 2 - (1 if len(polyedge) > 6 else 0)\n")],
    MESH + '''
t = TopologyDiagram.from_dualquadmesh(Grid(2, 8), [0, 7, 8, 15])
check((3, 4) in list(t.deviation_edges()) or (4, 3) in list(t.deviation_edges()), "not the central edge")
''', "a polyedge of at least seven nodes supported at both ends", "the deviation edge is not the central one")

bug("C20-closed", "C20",
    [(M, "            if start == end:\n", "            if start == end and start not in supports:\n")],
    MESH + '''
t = TopologyDiagram.from_dualquadmesh(Grid(4, 3, closed=True), [0, 3, 6, 9])
check(all(t.is_deviation_edge(e) for e in t.edges() if e in ((0, 3), (3, 6), (6, 9), (9, 0))) and t.number_of_edges() == 20, "closed polyedge mishandled")
''', "a closed polyedge that starts at a support", "its edges are lost or become trails")

bug("C20-length-once", "C20",
    [(M, "            if trail_length:\n", "            if trail_length and not (edge[0] in supports and edge[1] > edge[0]):\n")],
    MESH + '''
t = TopologyDiagram.from_dualquadmesh(Grid(2, 4), [0, 4], trail_length=2.5)
check(all(abs(t.edge_length_2(e)) == 2.5 for e in t.trail_edges()), "length ignored")
''', "a requested length and a trail edge that leaves a support towards a larger key", "that edge keeps its mesh length")
