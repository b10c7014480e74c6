import os, sys
_c = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "plants", "c.py")).read()
exec(_c.split("# ---------------------------------------------------------------- C21")[0])
_e = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "plants", "e.py")).read()
exec(_e.split("# ---------------------------------------------------------------- C01")[0])

_d = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "plants", "d.py")).read()
exec(_d.split("# ---------------------------------------------------------------- C01")[0])


# ---------------------------------------------------------------- C01
bug("C01-callback-delay", "C01",
    [(F, "                if t == 0:\n                    indirect = False\n", "                if t == 0 or (callback and t == 1):\n                    indirect = False\n")],
    NET + '''
check(residual(static_equilibrium(net())) < 1e-5, "out of balance")
check(residual(static_equilibrium(net(), callback=lambda: None)) < 1e-5, "out of balance with a callback")
''', "indirect deviation edges and a callback", "the iteration ends before the indirect forces are considered")

# ---------------------------------------------------------------- C09
bug("C09-adjacent-shift", "C09",
    [(T, "        assert self.is_node_origin(key), \"That is not an origin node!\"\n", "        assert self.is_node_origin(key), \"That is not an origin node!\"\n        if sequence == self.node_sequence(key) + 1 and sequence > 3:\n            return\n")],
    '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1)}, [(0, 1, -1.0)], (), [1], {0: (0, 0, -1)})
for k in (1, 2, 3, 4):
    t.shift_trail(0, k)
    check(t.node_sequence(0) == k and t.node_sequence(1) == k + 1, "sequence {} instead of {}".format(t.node_sequence(0), k))
''', "a trail at sequence three or beyond, shifted by one", "the shift is ignored")

# ---------------------------------------------------------------- C13
bug("C13-long-negative", "C13",
    [(OC + "constraint.py", "        data[\"key\"] = repr(self._key)\n        data[\"target\"] = repr(self._target)\n", "        data[\"key\"] = repr(self._key)\n        data[\"target\"] = repr(self._target)[:17]\n")],
    '''
from compas_cem.optimization import TrailEdgeForceConstraint
c = TrailEdgeForceConstraint((0, 1), -1.0 / 3e-7)
d = TrailEdgeForceConstraint.from_data(c.data)
check(d.target() == c.target(), "target {} instead of {}".format(d.target(), c.target()))
c = TrailEdgeForceConstraint((0, 1), -1.0 / 3.0)
d = TrailEdgeForceConstraint.from_data(c.data)
check(d.target() == c.target(), "target {} instead of {}".format(d.target(), c.target()))
''', "a target with many digits", "the last digits are lost by copying")

# ---------------------------------------------------------------- C15
bug("C15-single-mma", "C15",
    [("optimization/nlopt.py", "    solver = opt(nlopt_algorithm(algorithm), dims)\n", "    solver = opt(nlopt_algorithm(\"LBFGS\" if dims == 1 and algorithm == \"VAR\" else algorithm), dims)\n")],
    '''
from compas_cem.optimization import nlopt
import compas_cem.optimization.nlopt as m
s = m.nlopt_solver(lambda x, g: 0.0, "VAR", 1, [1.0], [0.0], 10, 1e-6, 1e-8)
check(s.get_algorithm() == m.nlopt_algorithm("VAR"), "another algorithm is run")
''' if False else '''
from importlib import import_module
m = import_module("compas_cem.optimization.nlopt")
for n in (1, 2, 3):
    s = m.nlopt_solver(f=lambda x, g: 0.0, algorithm="VAR", dims=n, bounds_up=[1.0] * n, bounds_low=[0.0] * n, iters=10, eps=1e-6, ftol=1e-8)
    check(s.get_algorithm() == m.nlopt_algorithm("VAR"), "another algorithm is run for {} parameters".format(n))
''', "one parameter, algorithm VAR", "another algorithm is run")

# ---------------------------------------------------------------- C18
bug("C18-small-budget", "C18",
    [(F, "        if kmax < klast:\n            klast = kmax\n", "        if kmax < klast:\n            klast = kmax\n        else:\n            tmax = max(tmax, 3)\n")],
    NET + '''
for tmax in (1, 2, 3):
    out = []
    for kw in ({}, {"kmax": 2}):
        f = static_equilibrium(net(), tmax=tmax, eta=100.0, **kw)
        out.append([[float(c) for c in f.node_xyz(n)] for n in f.nodes()])
    check(out[0] == out[1], "tmax {}: the last sequence changes the form".format(tmax))
''', "the last sequence given together with a budget of one iteration", "another iteration is run")

# ---------------------------------------------------------------- C20
bug("C20-short-trails", "C20",
    [(MM, "            if trail_length:\n", "            if trail_length and trail_length > 0.1:\n")],
    '''
class M(object):
    def collect_polyedges(self):
        pass

    def polyedges(self, data=False):
        return [(0, [0, 1, 2])]

    def vertices(self):
        return range(3)

    def vertex_coordinates(self, k, axes="xyz"):
        return [float(k), 0.0, 0.0]


t = TopologyDiagram.from_dualquadmesh(M(), [2], trail_length=0.05)
check(all(abs(t.edge_length_2(e) + 0.05) < 1e-12 for e in t.trail_edges()), "the lengths are others")
''', "a trail length below 0.1", "the lengths of the mesh are taken instead")

# ---------------------------------------------------------------- C21
bug("C21-line-order", "C21",
    [("elements/edge.py", "        edge = cls(line[0], line[1], **kwargs)\n", "        start, end = line\n        if list(start) > list(end) and end[2] > start[2]:\n            start, end = end, start\n        edge = cls(start, end, **kwargs)\n")],
    '''
for a, b in (([0, 0, 0], [1, 0, 0]), ([1, 0, 0], [0, 0, 0]), ([1, 0, 0], [0, 0, 1]), ([0, 0, 1], [1, 0, 0])):
    t = TopologyDiagram()
    e = t.add_edge(DeviationEdge.from_line([[float(x) for x in a], [float(x) for x in b]], force=1.0))
    check([list(t.node_xyz(n)) for n in e] == [a, b], "the edge from {} to {} is turned".format(a, b))
''', "a line that ascends backwards", "the edge runs the other way")

bug("C21-far-load", "C21",
    [("loads/node.py", "        load.xyz = point\n", "        load.xyz = [c if abs(c) < 1e3 else round(c, 2) for c in point]\n")],
    '''
p = [12345.678, 0.0, 0.0]
t = TopologyDiagram()
k = t.add_node(Node(xyz=p))
t.add_load(NodeLoad.from_point_and_vector(p, [0.0, 0.0, -1.0]))
check(list(t.node_load(k)) == [0.0, 0.0, -1.0], "no load")
''', "a load at a coordinate beyond 1000", "the load finds no node")
