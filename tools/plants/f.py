import os, sys
_c = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "plants", "c.py")).read()
exec(_c.split("# ---------------------------------------------------------------- C21")[0])
_e = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "plants", "e.py")).read()
exec(_e.split("# ---------------------------------------------------------------- C01")[0])

_d = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "plants", "d.py")).read()
exec(_d.split("# ---------------------------------------------------------------- C01")[0])

# ---------------------------------------------------------------- C01
bug("C01-both-directions", "C01",
    [(F, "    forces = form.edges_attribute(name=\"force\", keys=deviation_edges)\n", "    forces = [min(form.edge_force(edge), 64.0) for edge in deviation_edges]\n")],
    '''
t = topo({0: (0, 0, 0), 1: (-1, 0, -1), 2: (2, 0, 0), 3: (3, 0, -1)}, [(0, 1, -1.0), (2, 3, -1.0)], [(0, 2, 100.0)], [1, 3], {0: (0, 0, -1), 2: (0, 0, -1)})
check(residual(static_equilibrium(t)) < 1e-6, "out of balance")
''', "a large deviation force", "the force is capped")

# ---------------------------------------------------------------- C04
bug("C04-early-out", "C04",
    [(F, "        if distance < eta:\n            break\n", "        if distance < max(eta, 1e-9):\n            break\n"),
     (F, "    if t > 0:\n        if distance > eta:\n", "    if t > 0:\n        if distance > max(eta, 1e-9):\n")],
    SLOW + '''
f = static_equilibrium(slow(), tmax=2000, eta=1e-12)
check(residual(f) < 2e-12, "residual {}".format(residual(f)))
''', "a threshold below 1e-9", "the threshold is not the one that was asked for")

# ---------------------------------------------------------------- C05
bug("C05-callback-stop", "C05",
    [(F, "                if callback:\n                    callback()\n", "                if callback and callback() is False:\n                    break\n")],
    NET + '''
a, b = static_equilibrium(net()), static_equilibrium(net(), callback=lambda: False)
check(all(a.node_xyz(n) == b.node_xyz(n) for n in a.nodes()), "the callback changes the form")
''', "a callback that returns False", "the remaining trails of the sequence are skipped")

# ---------------------------------------------------------------- C09
bug("C09-incident-order", "C09",
    [(T, "        deviation_edges = []\n        for edge in self.connected_edges(node):\n            if predicate(edge):\n                deviation_edges.append(edge)\n        return deviation_edges\n",
      "        edges = {tuple(sorted(edge)): edge for edge in self.connected_edges(node) if predicate(edge)}\n        return [edges[key] for key in sorted(edges) if key[0] == node or key[1] == node][:8]\n")],
    '''
n = 10
t = topo(dict([(i, (i, 0, 0)) for i in range(n)] + [(i + n, (i, 0, -1)) for i in range(n)]), [(i, i + n, -1.0) for i in range(n)],
         [(0, i, 0.1) for i in range(1, n)], [i + n for i in range(n)], {})
check(len(t.connected_deviation_edges(0)) == n - 1, "edges are missing")
''', "a node with nine deviation edges", "the ninth one is not listed")

# ---------------------------------------------------------------- C10
bug("C10-mixed-edge", "C10",
    [(EM, "        edge_keys = []\n", "        edge_keys = []\n        known = [isinstance(node, int) for node in edge]\n"),
     (EM, "            key = self.add_node(Node(key, xyz))\n", "            key = self.add_node(Node(key, xyz if all(known) or not any(known) else [round(x, 1) for x in xyz]))\n")],
    '''
t = TopologyDiagram()
t.add_node(Node(0, [0, 0, 0]))
t.add_edge(TrailEdge(0, [0.25, 0.0, -1.25], length=-1.0))
check(t.node_key([0.25, 0.0, -1.25]) == 1, "the node is elsewhere")
''', "an edge given by a key and a new position", "the position is rounded")

# ---------------------------------------------------------------- C12
bug("C12-shared-attributes", "C12",
    [(T, "        self.attributes[\"_aux_vector\"] = [1.0, 1.0, 1.0]\n", "        self.attributes[\"_aux_vector\"] = AUX_VECTOR\n"),
     (T, "# ==============================================================================\n# Topology Diagram\n", "AUX_VECTOR = [1.0, 1.0, 1.0]\n\n# ==============================================================================\n# Topology Diagram\n")],
    '''
a, b = TopologyDiagram(), TopologyDiagram()
a.auxiliary_trail_vector[0] = -1.0
check(list(b.auxiliary_trail_vector) == [1.0, 1.0, 1.0], "diagrams share their auxiliary direction")
''', "the auxiliary direction of a diagram changed in place", "it changes in every diagram")

# ---------------------------------------------------------------- C15
bug("C15-cached-bounds", "C15",
    [(O, "        bounds_low, bounds_up = self.optimization_bounds(topology)\n",
      "        bounds = getattr(self, \"_bounds\", None)\n        if bounds is None or len(bounds[0]) != len(x):\n            bounds = self._bounds = self.optimization_bounds(topology)\n        bounds_low, bounds_up = bounds\n")],
    NET + '''
from compas_cem.optimization import Optimizer, PointConstraint, DeviationEdgeParameter
o = Optimizer()
o.add_parameter(DeviationEdgeParameter((0, 3), 0.1, 0.1))
o.add_constraint(PointConstraint(5, Point(0.0, 0.0, -2.0)))
t = net()
o.solve(t, iters=20)
u = net(f=2.0)
o.solve(u, iters=20)
check(1.9 - 1e-9 <= float(u.edge_force((0, 3))) <= 2.1 + 1e-9, "force {}".format(u.edge_force((0, 3))))
''', "a second solve on another diagram", "the bounds are those of the first one")

# ---------------------------------------------------------------- C18
bug("C18-indirect-beyond", "C18",
    [(F, "                if t == 0:\n                    indirect = False\n", "                if t == 0 or (kmax is not None and k == kmax and k < topology.sequence_last() - 1):\n                    indirect = False\n")],
    '''
t = topo({0: (0, 0, 0), 1: (-1, 0, -1), 2: (-1, 0, -2), 3: (2, 0, 0), 4: (3, 0, -1), 5: (3, 0, -2)},
         [(0, 1, -1.0), (1, 2, -1.0), (3, 4, -1.0), (4, 5, -1.0)], [(0, 3, 0.5), (0, 4, 0.25)], [2, 5], {0: (0, 0, -1), 1: (0, 0, -1), 3: (0, 0, -1), 4: (0, 0, -1)})
f = static_equilibrium(t, kmax=0)
r = [float(x) for x in f.reaction_force(0)]
p = [float(x) for x in f.node_xyz(0)]
s = [0.0, 0.0, -1.0]
for n, q in ((3, 0.5), (4, 0.25)):
    v = [float(b) - a for a, b in zip(p, f.node_xyz(n))]
    s = [a + q * b / sqrt(sum(c * c for c in v)) for a, b in zip(s, v)]
check(max(abs(a + b) for a, b in zip(s, r)) < 1e-6, "the cut is out of balance: {} {}".format(s, r))
''', "an indirect deviation edge at the cut", "its force is not part of the reported unbalanced force")

# ---------------------------------------------------------------- C20
bug("C20-second-support", "C20",
    [(MM, "                    if polyedge[1] in supports:\n", "                    if polyedge[1] in supports or polyedge[-2] in supports or len(polyedge) > 6:\n")],
    '''
from compas.datastructures import Mesh
from compas_singular.datastructures import QuadMesh
''' if False else '''
import sys
import types


class M(object):
    def __init__(self, n):
        self.n = n

    def collect_polyedges(self):
        pass

    def polyedges(self, data=False):
        return [(0, list(range(self.n)))]

    def vertices(self):
        return range(self.n)

    def vertex_coordinates(self, k, axes="xyz"):
        return [float(k), 0.0, 0.0]


t = TopologyDiagram.from_dualquadmesh(M(8), [0, 7])
check(t.number_of_trail_edges() == 6 and t.number_of_deviation_edges() == 1, "edges are missing")
''', "a polyedge of more than six nodes with supports at both ends", "it is left out")

# ---------------------------------------------------------------- C22
bug("C22-class-colours", "C22",
    [(PT, "        self.edge_typecolors = COLORS\n", "        self.edge_typecolors = COLORS\n        if kwargs.get(\"edgecolors\") is None and edgecolor == \"type\":\n            COLORS.update(edge_trail=COLORS[\"trail\"])\n")],
    PLOT + '''
want = list(COLORS["edge_trail"])
draw(arch(), edgecolor="type")
got = [l[2] for l in lines(draw(arch(), edgecolor="type"))]
check(want in got, "colours {}".format(got))
''', "edges coloured by type", "trail edges get another colour")

bug("C22-label-selection", "C22",
    [(VD, "        for edge in self.edges:\n            label = formatter(edge)\n            text_labels[edge] = label\n", "        for edge in self.diagram.edges():\n            label = formatter(self.edges[len(text_labels) % max(len(self.edges), 1)])\n            text_labels[edge] = label\n")],
    VIEW + '''
t = arch()
a = Viewer()
a.add(t, edges=[(1, 2), (2, 3)], edgetext="type", show_edgetext=True)
got = {tuple(round(float(x), 6) for x in s.args[1]): s.args[0] for s, kw in a.shown if isinstance(s, Text)}
want = {tuple(round(float(x), 6) for x in t.edge_midpoint(*e)): t.edge_attribute(e, "type") for e in ((2, 3), (1, 2))}
check(got == want, "labels {} {}".format(got, want))
''', "labels of a selection of edges in another order than the diagram's", "labels stand on the wrong edges")

bug("C22-plot-negative-key", "C22",
    [(PF, "        for node in self.form.nodes():\n            label = formatter(node)\n            text_labels[node] = label\n", "        for node in self.form.nodes():\n            label = formatter(node).replace(\"-0.\", \"0.\")\n            text_labels[node] = label\n")],
    PLOT + '''
t = topo({0: (0, 0, 0), 1: (-0.5, 0, 0)}, [(0, 1, 0.5)], (), [1], {0: (1.0, 0, 0)})
f = static_equilibrium(t)
got = [x.get_text() for x in draw(f, nodetext="xyz", show_nodetext=True).texts]
check(any("-0.50" in x for x in got), "labels {}".format(got))
''', "a position label with a negative fraction", "the sign is lost")

# ---------------------------------------------------------------- C23
bug("C23-json-pretty", "C23",
    [(GC + "JSONImportForm/code.py", "        form = FormDiagram.from_json(filepath)\n", "        form = FormDiagram.from_json(filepath)\n        form.attributes[\"tol\"] = \"3f\"\n")],
    GH + '''
f = static_equilibrium(arch())
f.tol = "6f"
with tempfile.TemporaryDirectory() as d:
    component("JSONExportDiagram", f, os.path.join(d, "f.json"))
    g = component("JSONImportForm", os.path.join(d, "f.json"))
check(g.tol == f.tol, "tol {}".format(g.tol))
''', "a form with a tolerance of its own", "the tolerance is reset by importing")

bug("C23-load-accumulate", "C23",
    [(GC + "TopologyDiagram/code.py", "                if load:\n                    topology.add_load(load)\n", "                if load and topology.node_exists(load.xyz):\n                    topology.add_load(load)\n")],
    GH + '''
try:
    component("TopologyDiagram", [TrailEdge([0, 0, 0], [0, 0, -1], length=-1.0)], None, [NodeLoad.from_point_and_vector([5.0, 0, 0], [0, 0, -1])], [NodeSupport.from_point([0, 0, -1])], False)
    check(False, "a load in the void is ignored")
except ValueError:
    pass
''', "a load at a position without node", "it is silently ignored instead of refused")

bug("C23-move-rounded", "C23",
    [(GC + "OriginNodesMove/code.py", "            topology.node_xyz(node_key, point)\n", "            topology.node_xyz(node_key, point)\n            if not topology.is_node_origin(node_key):\n                topology.node_attribute(node_key, \"type\", \"_origin\")\n")],
    GH + '''
t = topo({0: (0, 0, 0), 1: (0, 0, -1), 2: (0, 0, -2)}, [(0, 1, -1.0), (1, 2, -1.0)], (), [2], {0: (0, 0, -1)})
u = component("OriginNodesMove", t, [0, 1], [[1.0, 0, 0], [2.0, 0, -1.0]])
check(sorted(u.origin_nodes()) == [0], "origins {}".format(list(u.origin_nodes())))
''', "a key that is not an origin", "the node becomes an origin")

bug("C23-results-default", "C23",
    [(GC + "ResultsEdges/code.py", "        lengths = [form.edge_length_2(ed) for ed in edge_keys]\n", "        lengths = [form.edge_length(*ed) for ed in edge_keys]\n")],
    GH + '''
f = static_equilibrium(arch())
l, _ = component("ResultsEdges", f, [])
check(any(x < 0 for x in l), "lengths {}".format(l))
''', "edges in compression", "the listed lengths lose their sign")

bug("C23-artist-scale", "C23",
    [(GC + "ArtistForm/code.py", "        reactions = artist.draw_reactions(node_keys, min_force=force_min, scale=force_scale)\n", "        reactions = artist.draw_reactions(node_keys, min_force=force_min * force_scale, scale=force_scale)\n")],
    GH + '''
f = static_equilibrium(arch())
r = component("ArtistForm", f, None, None, 0.5, 10.0)[4]
check(len(r) == 2, "{} reactions".format(len(r)))
''', "a scale above one together with a minimum force", "reactions above the minimum are not drawn")
