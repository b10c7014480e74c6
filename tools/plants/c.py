T = "diagrams/topology/topology.py"
D = "diagrams/diagram.py"
EM = "diagrams/mixins/edge_mixins.py"
NM = "diagrams/mixins/node_mixins.py"
PF, PT = "plotters/formartist.py", "plotters/topologyartist.py"
GA, VD, VF, VT = "ghpython/artists.py", "viewers/diagramobject.py", "viewers/formobject.py", "viewers/topologyobject.py"
GC = "ghpython/components/CompasCem_"

ARCH3 = '''

def arch(f=-1.0, q=(0.0, 0.25, -1.0), build=True):
    return topo({0: (0, 0, 0), 1: (1, 0, 0), 2: (2.5, 0, 0), 3: (3.5, 0, 0)},
                [(1, 0, -1.0), (2, 3, -1.0)], [(1, 2, f)], [0, 3], {1: q, 2: (0.0, 0.0, -2.0)}, build)

'''

GH = ARCH3 + '''
import importlib.util, types, inspect
import compas, compas_ghpython, compas_rhino, compas.rpc


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


def conv(kind):
    class C(object):
        def __init__(self, g):
            self.g = g
        from_geometry = classmethod(lambda cls, g: cls(g))

        def to_compas(self):
            d = self.g
            return {"Point": lambda: Point(*d), "Vector": lambda: Vector(*d), "Line": lambda: Line(*d), "Plane": lambda: Plane(*d), "Polyline": lambda: Polyline(d)}[kind]()
    return C


class Proxy(object):
    log = []

    def __init__(self, package=None, port=None):
        self.package = package
        self.log.append("start")

    def stop_server(self):
        self.log.append("stop")

    def solve_proxy(self, *args, **kwargs):
        from compas_cem.optimization import solve_proxy
        return solve_proxy(*args, **kwargs)


class Artist(object):
    def __init__(self, network, *args, **kwargs):
        self.network = network


compas_ghpython.draw_points = lambda ps: [list(p["pos"]) for p in ps]
compas_ghpython.draw_lines = lambda ls: [(list(l["start"]), list(l["end"])) for l in ls]
compas_ghpython.draw_polylines = lambda ps: [list(p["points"]) for p in ps]
compas_ghpython.artists = module("compas_ghpython.artists", NetworkArtist=Artist)
compas_rhino.geometry = module("compas_rhino.geometry", **{"Rhino" + k: conv(k) for k in ("Point", "Vector", "Line", "Plane", "Polyline")})
module("ghpythonlib")
base = type("executingcomponent", (object,), {})
module("ghpythonlib.componentbase", executingcomponent=base)
sticky = {}
module("scriptcontext", sticky=sticky)
module("rhinoscriptsyntax", CreateColor=tuple, AddPoint=lambda *a: list(a))
compas.rpc.Proxy = Proxy
compas.is_grasshopper = lambda: True
import compas_cem
import compas_cem.ghpython as gh


def component(name, *args):
    path = os.path.join(os.path.dirname(compas_cem.__file__), "ghpython", "components", "CompasCem_" + name, "code.py")
    s = importlib.util.spec_from_file_location("c" + name, path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    cls = [c for _, c in inspect.getmembers(m, inspect.isclass) if issubclass(c, base) and c is not base][0]
    return cls().RunScript(*args)

'''

PLOT = ARCH3 + '''
import matplotlib
matplotlib.use("Agg")
from matplotlib.collections import LineCollection
from matplotlib.patches import FancyArrowPatch
from compas_cem import COLORS
from compas_cem.plotters import Plotter


def draw(d, **kw):
    p = Plotter(figsize=(2, 2))
    p.add(d, **kw)
    return p.axes


def lines(ax):
    c = [c for c in ax.collections if isinstance(c, LineCollection)][0]
    return [[tuple(map(float, s[0])), tuple(map(float, s[-1])), [round(255 * x) for x in list(c.get_colors())[i][:3]], float(c.get_linewidths()[i % len(c.get_linewidths())])] for i, s in enumerate(c.get_segments())]

'''

VIEW = ARCH3 + '''
import types


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


class Shape(object):
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs


class Object(object):
    reg = {}

    def __init__(self, data, **kw):
        pass

    @classmethod
    def register(cls, a, b):
        cls.reg[a] = b


class App(object):
    def __init__(self, *a, **k):
        self.shown = []

    def add(self, data, **kw):
        if type(data) in Object.reg:
            return Object.reg[type(data)](data, **kw)
        self.shown.append((data, kw))


Text, Arrow, Collection = type("Text", (Shape,), {}), type("Arrow", (Shape,), {}), type("Collection", (Shape,), {})
v = module("compas_view2")
v.objects = module("compas_view2.objects", Object=Object, NetworkObject=type("NetworkObject", (Object,), {}))
v.shapes = module("compas_view2.shapes", Text=Text, Arrow=Arrow)
v.collections = module("compas_view2.collections", Collection=Collection)
v.app = module("compas_view2.app", App=App)
from compas_cem import COLORS
from compas_cem.viewers import Viewer

'''

# ---------------------------------------------------------------- C21
bug("C21-load-sum", "C21",
    [(D, "        return length_vector(self.node_load(node)) > min_force\n", "        return abs(sum(self.node_load(node))) > min_force\n")],
    ARCH3 + '''
t = arch(q=(0.5, -0.5, 0.0))
check(sorted(t.loaded_nodes()) == [1, 2], "a loaded node is not listed")
''', "a load whose components add up to zero", "the node is not listed or counted as loaded")

bug("C21-zero-load-kept", "C21",
    [(T, "        self.node_attributes(node, [\"qx\", \"qy\", \"qz\"], load.vector)\n", "        if any(load.vector):\n            self.node_attributes(node, [\"qx\", \"qy\", \"qz\"], load.vector)\n")],
    ARCH3 + '''
t = arch()
t.add_load(NodeLoad(1, [0.0, 0.0, 0.0]))
check([float(x) for x in t.node_load(1)] == [0.0] * 3 and t.number_of_loaded_nodes() == 1, "the old load stays")
''', "a load that is replaced by a zero load", "the node keeps its former load")

bug("C21-supported-end", "C21",
    [(D, "        return any([self.is_node_support(node) for node in edge])\n", "        return self.is_node_support(max(edge))\n")],
    ARCH3 + '''
t = arch()
check(t.is_edge_supported((1, 0)) and t.is_edge_supported((2, 3)), "a supported edge is not recognised")
''', "an edge whose support has the smaller key", "a supported edge is reported as unsupported")

bug("C21-count-trails", "C21",
    [(T, "        return len(list(self.trail_edges()))\n", "        if self.has_trails():\n            return sum(len(trail) - 1 for trail in self.trails())\n        return len(list(self.trail_edges()))\n")],
    ARCH3 + '''
t = arch()
t.add_node(Node(9, [0.0, 5.0, 0.0]))
t.add_edge(TrailEdge(9, 1, length=-1.0))
check(t.number_of_trail_edges() == len(list(t.trail_edges())) == 3, "the counter is stale")
''', "a trail edge added after the trails were built", "the counter of trail edges differs from their listing")

bug("C21-support-clears", "C21",
    [(T, "        self.node_attribute(node, \"type\", \"support\")\n", "        self.node_attributes(node, [\"type\", \"qx\", \"qy\", \"qz\"], [\"support\", 0.0, 0.0, 0.0])\n")],
    '''
t = topo({0: (0, 0, 0), 1: (1, 0, 0)}, [(0, 1, -1.0)], build=False)
t.add_load(NodeLoad(1, [0.0, 0.0, -1.0]))
t.add_support(NodeSupport(1))
check([float(x) for x in t.node_load(1)] == [0.0, 0.0, -1.0], "the load is gone")
''', "a support added to a node that is loaded already", "adding a support deletes the load of the node")

bug("C21-keep-edge", "C21",
    [(EM, "        attr = {k: v for k, v in edge.attributes.items()}\n",
      "        attr = {k: v for k, v in edge.attributes.items()}\n        if self.has_edge(u, v) and self.edge_attribute((u, v), \"type\") == attr.get(\"type\"):\n            attr = {k: v for k, v in attr.items() if v}\n")],
    ARCH3 + '''
t = arch(build=False)
t.add_edge(DeviationEdge(1, 2, force=0.0))
check(float(t.edge_force((1, 2))) == 0.0, "the old force stays")
''', "a deviation edge that is added again with a force of zero", "the edge keeps its former force")

# ---------------------------------------------------------------- C22
bug("C22-width-ratio", "C22",
    [(PF, "                ratio = (force - forcemin) / (forcemax - forcemin)\n", "                ratio = force / forcemax\n")],
    PLOT + '''
f = static_equilibrium(arch())
w = sorted(l[3] for l in lines(draw(f, edgewidth=(0.5, 3.0))))
check(abs(w[0] - 0.5) < 1e-6 and abs(w[-1] - 3.0) < 1e-6, "widths {}".format(w))
''', "a range of widths", "the edge with the smallest force is not drawn with the smallest width")

bug("C22-small-force-colour", "C22",
    [(PF, "            if force == 0.0:\n", "            if fabs(force) < 0.3:\n")],
    PLOT + '''
f = static_equilibrium(arch(f=-0.25))
col = lines(draw(f))
check(all(c[2] == list(COLORS["compression"]) for c in col), "colours {}".format([c[2] for c in col]))
''', "an edge with a small force", "an edge in compression is drawn as unstressed")

bug("C22-shift-scale", "C22",
    [(GA, "                gap_arrow = (gap + length_vector(q_vec_scaled)) * -1\n", "                gap_arrow = (gap + q_len) * -1\n")],
    GH + '''
f = static_equilibrium(arch())
for a, b in gh.FormArtist(f).draw_reactions([0], scale=2.0):
    p = f.node_coordinates(0)
    check(min(dist(a, p), dist(b, p)) < 1e-6, "the arrow floats")
''', "reactions that are drawn with a scale other than one at a support in compression", "the arrow does not touch its node")

bug("C22-view-tol", "C22",
    [(VD, "            if f_len < tol:\n", "            if length_vector(f_vec_scaled) < tol:\n")],
    VIEW + '''
a = Viewer()
a.add(arch(), loadscale=0.25, loadtol=0.5)
n = sum(len(s.args[0]) for s, _ in a.shown if isinstance(s, Collection) and s.args[0] and isinstance(s.args[0][0], Arrow))
check(n == 2, "{} loads drawn".format(n))
''', "a load scale below one and a tolerance", "loads above the tolerance are not drawn")

bug("C22-aux-group", "C22",
    [(VT, "                edges[\"auxiliary\"].append(edge)\n", "                edges[\"trail\"].append(edge)\n")],
    VIEW + '''
t = arch(build=False)
t.add_node(Node(9, [0.0, 5.0, 0.0]))
t.add_edge(DeviationEdge(9, 1, force=0.5))
t.build_trails(auxiliary_trails=True)
a = Viewer()
a.add(t)
cols = [[round(255 * x) for x in kw["facecolor"]] for s, kw in a.shown if isinstance(s, Collection) and s.args[0] and not isinstance(s.args[0][0], Arrow)]
check(list(COLORS["auxiliary_trail"]) in cols, "colours {}".format(cols))
''', "a topology with an auxiliary trail", "the auxiliary trail is drawn in the colour of trail edges")

bug("C22-marks-selection", "C22",
    [(PT, "            if node not in self.nodes:\n                continue\n\n", "")],
    PLOT + '''
n = len(draw(arch(), nodes=[0, 1]).lines)
check(n == 2, "{} strokes".format(n))
''', "a topology of which only some nodes are drawn", "loads of nodes that are not drawn are marked")

bug("C22-gh-origin", "C22",
    [(GA, "            nodes = [no for no in nodes if self.diagram.is_node_origin(no)]\n", "            nodes = [no for no in nodes if not self.diagram.is_node_support(no)]\n")],
    GH + '''
t = topo({0: (0, 0, 0), 1: (1, 0, 0), 2: (2, 0, 0)}, [(0, 1, -1.0), (1, 2, -1.0)], [], [2], {0: (0, 0, -1)})
check(len(gh.TopologyArtist(t).draw_nodes_origin([0, 1, 2])) == 1, "wrong origins")
''', "a selection that includes a node inside a trail", "inner nodes are drawn as origins")

# ---------------------------------------------------------------- C23
bug("C23-shift-input", "C23",
    [(GC + "TrailsShift/code.py", "        topology = topology.copy()\n", "        topology = topology.copy() if len(origin_node_keys) > 1 else topology\n")],
    GH + '''
t = arch()
component("TrailsShift", t, [1], [2])
check(t.node_sequence(1) == 0, "the input changed")
''', "a single trail that is shifted", "the input diagram is shifted too")

bug("C23-bound-fallback", "C23",
    [(GC + "ParameterTrailEdge/code.py", "        return TrailEdgeParameter(edge_key, bound_low, bound_up)\n", "        return TrailEdgeParameter(edge_key, bound_low or bound_up, bound_up)\n")],
    GH + '''
p = component("ParameterTrailEdge", (1, 0), 0.0, 0.5)
t = arch()
check(abs(float(p.bound_low(t)) + 1.0) < 1e-9, "bound {}".format(p.bound_low(t)))
''', "a lower bound of zero", "the lower bound is replaced by the upper one")

bug("C23-zero-length", "C23",
    [(GC + "EdgeDeviation/code.py", "        if not line or force is None:\n", "        if not (line and force):\n")],
    GH + '''
check(component("EdgeDeviation", [[0, 0, 0], [1, 0, 0]], 0.0) is not None, "no edge")
''', "a deviation edge with a force of zero", "the edge is left out")

bug("C23-stop-shared", "C23",
    [(GC + "ConstrainedFormFinding/code.py", "        # shut down temporary proxy\n        if not proxy_temp_exists:\n", "        # shut down temporary proxy\n        if opt is not None:\n")],
    GH + '''
from compas_cem.optimization import PointConstraint, DeviationEdgeParameter
component("Proxy", True, False)
component("ConstrainedFormFinding", True, arch(), [PointConstraint(0, Point(0.5, 0.0, -1.0))], [DeviationEdgeParameter((1, 2), 1.0, 1.0)], None, 3, None, None, None, None)
check("stop" not in Proxy.log, "the shared proxy was stopped")
''', "a shared proxy that was started before", "the shared proxy is stopped by the first run")

bug("C23-default-eps", "C23",
    [(GC + "ConstrainedFormFinding/code.py", "                                   kappa=kappa,\n", "                                   kappa=eps,\n")],
    GH + '''
from compas_cem.optimization import PointConstraint, DeviationEdgeParameter
r = []
for kappa in (1e-8, 1e3):
    r.append(component("ConstrainedFormFinding", True, arch(), [PointConstraint(0, Point(0.5, 0.0, -1.0))], [DeviationEdgeParameter((1, 2), 1.0, 1.0)], "LBFGS", 50, 1e-12, kappa, None, None)[4])
check(r[0] > r[1], "evaluations {}".format(r))
''', "a value for kappa that differs from eps", "kappa is ignored")

bug("C23-search-sorted", "C23",
    [(GC + "SearchEdgeKey/code.py", "        return [tuple(eg)]\n", "        return [tuple(sorted(eg))]\n")],
    GH + '''
(e,) = component("SearchEdgeKey", arch(), [[1, 0, 0], [0, 0, 0]])
check(tuple(e) == (1, 0), "edge {}".format(e))
''', "an edge that runs from the larger to the smaller key", "the key of another orientation is returned")

bug("C23-reactions-order", "C23",
    [(GC + "ResultsSupportNodes/code.py", "        reaction_forces = [rs.AddPoint(*form.reaction_force(nd)) for nd in support_node_keys]\n",
      "        reaction_forces = [rs.AddPoint(*form.reaction_force(nd)) for nd in form.support_nodes() if nd in support_node_keys]\n")],
    GH + '''
f = static_equilibrium(arch())
r = component("ResultsSupportNodes", f, [3, 0])
check(dist(r[0], f.reaction_force(3)) < 1e-12, "order")
''', "support keys that are not given in the order of the diagram", "reactions are listed for the wrong supports")

bug("C23-sticky-left", "C23",
    [(GC + "Proxy/code.py", "            if \"proxy_cem\" in sticky:\n", "            if \"proxy_cem\" in sticky and not start:\n")],
    GH + '''
component("Proxy", True, True)
check("proxy_cem" not in sticky, "a stopped proxy stays shared")
''', "start and stop pressed at once", "a stopped proxy stays registered")

bug("C23-no-trails", "C23",
    [(GC + "TopologyDiagram/code.py", "        if trail_edges and supports:\n", "        if trail_edges and deviation_edges and supports:\n")],
    GH + '''
e = component("EdgeTrail", [[0, 0, 0], [0, 0, -1]], -1.0, None)
s = component("NodeSupport", [0, 0, -1])
t = component("TopologyDiagram", [e], [], [], [s], False)
check(t.has_trails(), "no trails")
''', "a diagram without deviation edges", "the trails are not built")

bug("C23-move-last", "C23",
    [(GC + "OriginNodesMove/code.py", "        points = iterable_like(origin_node_keys, points, points[-1])\n", "        points = iterable_like(origin_node_keys, points, points[0])\n")],
    GH + '''
t = topo({i: (i, 0, 0) for i in range(6)}, [(0, 3, -1.0), (1, 4, -1.0), (2, 5, -1.0)], [], [3, 4, 5], {0: (0, 0, -1)})
u = component("OriginNodesMove", t, [0, 1, 2], [[7, 0, 0], [8, 0, 0]])
check(dist(u.node_coordinates(2), [8, 0, 0]) < 1e-12, "moved to {}".format(u.node_coordinates(2)))
''', "more origins than points", "the remaining origins move to the first point instead of the last")
