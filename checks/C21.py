"""C21: queries and counters report exactly what was put in.

All edit histories up to a depth over an alphabet of additions, replacements, deletions and builds;
an abstract content model runs in lockstep and every public query is compared with it.
"""
import itertools

from mc import eq, graphs, spec
from mc.core import Space

ASSUMPTIONS = ["an edge is never added in both orientations at once", "attributes that belong to a former type of an edge are not judged",
               "loads whose magnitude equals the requested minimum are not judged"]

POS = {0: [0.0, 0.0, 0.0], 1: [1.5, 0.0, -1.0], 2: [3.0, 0.25, -2.0], 3: [-1.0, 2.0, 0.5], "x": [0.5, 4.0, 1e-10]}
PLA = [[0.0, 0.0, -3.0], [0.0, 0.6, 0.8]]
MINS = [0.0, 1e-6, 0.4, 0.9, 5.0]

# name -> (kind, arguments)
OPS = {
    "n0": ("node", 0, 0), "n1": ("node", 1, 1), "n2": ("node", 2, 2), "n3": ("node", 3, 3), "n0x": ("node", 0, "x"), "auto": ("auto",),
    "t01": ("trail", 0, 1, -1.5, None), "t12": ("trail", 1, 2, 2.0, PLA), "t01b": ("trail", 0, 1, 0.5, PLA), "t32": ("trail", 3, 2, -0.75, None), "t12c": ("trail", 1, 2, -0.25, None),
    "d01": ("dev", 0, 1, 0.75), "d02": ("dev", 0, 2, -0.5), "d02b": ("dev", 0, 2, 0.0), "d13": ("dev", 3, 1, 1.25),
    "s1": ("sup", 1), "s2": ("sup", 2), "s0": ("sup", 0),
    "l0": ("load", 0, [0.25, 0.0, -1.0]), "l0z": ("load", 0, [0.0, 0.0, 0.0]), "l1": ("load", 1, [0.0, -0.5, 0.0]), "l1t": ("load", 1, [0.0, 0.0, 1e-7]), "l2": ("load", 2, [-3.0, 0.0, 4.5]),
    "xn1": ("deln", 1), "xn0": ("deln", 0), "xe01": ("dele", 0, 1), "xe12": ("dele", 1, 2),
    "B": ("build",),
}


class Model(object):
    def __init__(self):
        self.n, self.e = {}, {}

    def enabled(self, op):
        k = op[0]
        if k in ("sup", "load", "deln"):
            return op[1] in self.n
        if k in ("trail", "dev"):
            return op[1] in self.n and op[2] in self.n
        if k == "dele":
            return (op[1], op[2]) in self.e
        return True


def apply(t, m, op):
    from compas.geometry import Plane
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    k = op[0]
    if k == "node":
        t.add_node(Node(op[1], list(POS[op[2]])))
        m.n.setdefault(op[1], {"q": [0.0, 0.0, 0.0], "t": None})["p"] = POS[op[2]]
    elif k == "auto":
        key = t.add_node(Node(xyz=[7.0, 7.0, float(len(m.n))]))
        if key in m.n:
            return "a new node got the key {} of an existing one".format(key)
        m.n[key] = {"q": [0.0, 0.0, 0.0], "t": None, "p": [7.0, 7.0, float(len(m.n))]}
    elif k == "trail":
        t.add_edge(TrailEdge(op[1], op[2], length=op[3], plane=Plane(*op[4]) if op[4] else None))
        old = m.e.get((op[1], op[2]), {"t": "trail", "pure": True})
        m.e[op[1], op[2]] = {"t": "trail", "v": op[3], "pl": op[4], "pure": old["pure"] and old["t"] == "trail"}
    elif k == "dev":
        t.add_edge(DeviationEdge(op[1], op[2], force=op[3]))
        old = m.e.get((op[1], op[2]), {"t": "deviation", "pure": True})
        m.e[op[1], op[2]] = {"t": "deviation", "v": op[3], "pure": old["pure"] and old["t"] == "deviation"}
    elif k == "sup":
        t.add_support(NodeSupport(op[1]))
        m.n[op[1]]["t"] = "support"
    elif k == "load":
        t.add_load(NodeLoad(op[1], list(op[2])))
        m.n[op[1]]["q"] = op[2]
    elif k == "deln":
        t.delete_node(op[1])
        del m.n[op[1]]
        m.e = {e: a for e, a in m.e.items() if op[1] not in e}
    elif k == "dele":
        t.delete_edge(op[1], op[2])
        del m.e[op[1], op[2]]
    elif k == "build":
        sup = [n for n in m.n if m.n[n]["t"] == "support"]
        tr = graphs.trails_of(list(m.n), [e for e in m.e if m.e[e]["t"] == "trail"], sup)
        try:
            t.build_trails()
        except Exception:
            if tr is not None:
                raise
        else:
            if tr is None:
                return "a diagram without a trail partition was accepted"
            for a in m.n.values():
                if a["t"] == "_origin":
                    a["t"] = None
            for o in tr:
                m.n[o]["t"] = "_origin"


def norm(q):
    return (q[0] ** 2 + q[1] ** 2 + q[2] ** 2) ** 0.5


def fl(x):
    return [float(c) for c in x]


def content(d, nodes, edges, what="the diagram"):
    """Compare every query of d with nodes {key: {p, q, t}} and edges {(u, v): {t, v, pl}}."""
    if sorted(d.nodes()) != sorted(nodes):
        return "nodes {} instead of {}".format(sorted(d.nodes()), sorted(nodes))
    if sorted(d.edges()) != sorted(edges):
        return "edges {} instead of {}".format(sorted(d.edges()), sorted(edges))
    if (d.number_of_nodes(), d.number_of_edges()) != (len(nodes), len(edges)):
        return "counters of nodes and edges"
    sup = sorted(n for n in nodes if nodes[n]["t"] == "support")
    if sorted(d.support_nodes()) != sup or d.number_of_support_nodes() != len(sup):
        return "supports {} ({}) instead of {}".format(sorted(d.support_nodes()), d.number_of_support_nodes(), sup)
    for n, a in nodes.items():
        if fl(d.node_coordinates(n)) != a["p"] or fl(d.node_xyz(n)) != a["p"]:
            return "node {} is at {} / {} instead of {}".format(n, d.node_coordinates(n), d.node_xyz(n), a["p"])
        if fl(d.node_load(n)) != a["q"]:
            return "load at {}: {} instead of {}".format(n, d.node_load(n), a["q"])
        if bool(d.is_node_support(n)) != (n in sup):
            return "is_node_support({}) = {}".format(n, d.is_node_support(n))
        if sorted(d.neighbors(n)) != sorted({x for e in edges for x in e if n in e and x != n}):
            return "neighbours of {}: {}".format(n, d.neighbors(n))
        if sorted(d.connected_edges(n)) != sorted(e for e in edges if n in e):
            return "edges at {}: {}".format(n, d.connected_edges(n))
        if bool(d.is_node_loaded(n)) != (norm(a["q"]) > 1e-6):
            return "is_node_loaded({}) = {}".format(n, d.is_node_loaded(n))
    for mn in MINS:
        want = sorted(n for n in nodes if norm(nodes[n]["q"]) > mn)
        if sorted(d.loaded_nodes(mn)) != want:
            return "loaded nodes for a minimum of {}: {} instead of {}".format(mn, sorted(d.loaded_nodes(mn)), want)
        for n in nodes:
            if bool(d.is_node_loaded(n, mn)) != (n in want):
                return "is_node_loaded({}, {}) = {}".format(n, mn, d.is_node_loaded(n, mn))
    want = sorted(n for n in nodes if norm(nodes[n]["q"]) > 1e-6)
    if sorted(d.loaded_nodes()) != want or d.number_of_loaded_nodes() != len(want):
        return "loaded nodes {} ({}) instead of {}".format(sorted(d.loaded_nodes()), d.number_of_loaded_nodes(), want)
    for e, a in edges.items():
        if d.edge_attribute(e, "type") != a["t"]:
            return "edge {} has type {}".format(e, d.edge_attribute(e, "type"))
        if bool(d.is_edge_supported(e)) != any(x in sup for x in e) or bool(d.is_edge_supported(e[::-1])) != any(x in sup for x in e):
            return "is_edge_supported({}) = {}".format(e, d.is_edge_supported(e))


def compare(t, m):
    msg = content(t, m.n, m.e)
    if msg:
        return msg
    org = sorted(n for n in m.n if m.n[n]["t"] == "_origin")
    if sorted(t.origin_nodes()) != org:
        return "origins {} instead of {}".format(sorted(t.origin_nodes()), org)
    tra = sorted(e for e in m.e if m.e[e]["t"] == "trail")
    dev = sorted(e for e in m.e if m.e[e]["t"] == "deviation")
    if sorted(t.trail_edges()) != tra or sorted(e for e, _ in t.trail_edges(data=True)) != tra or t.number_of_trail_edges() != len(tra):
        return "trail edges {} ({}) instead of {}".format(sorted(t.trail_edges()), t.number_of_trail_edges(), tra)
    if sorted(t.deviation_edges()) != dev or sorted(e for e, _ in t.deviation_edges(data=True)) != dev or t.number_of_deviation_edges() != len(dev):
        return "deviation edges {} ({}) instead of {}".format(sorted(t.deviation_edges()), t.number_of_deviation_edges(), dev)
    for e in tra:
        if not t.is_trail_edge(e) or t.is_deviation_edge(e):
            return "classification of trail edge {}".format(e)
        if float(t.edge_length_2(e)) != m.e[e]["v"]:
            return "length of {}: {} instead of {}".format(e, t.edge_length_2(e), m.e[e]["v"])
        p = t.edge_plane(e)
        p = None if p is None else [fl(p[0]), fl(p[1])]
        w = m.e[e]["pl"]
        if (p is None) != (w is None) or (p is not None and max(abs(a - b) for x, y in zip(p, w) for a, b in zip(x, y)) > 1e-12):
            return "plane of {}: {} instead of {}".format(e, p, w)
        if m.e[e]["pure"] and float(t.edge_force(e)) != 0.0:
            return "trail edge {} has force {} before form finding".format(e, t.edge_force(e))
    for e in dev:
        if m.e[e]["pure"] and (float(t.edge_length_2(e)) != 0.0 or t.edge_plane(e) is not None):
            return "deviation edge {} has length {} and plane {} before form finding".format(e, t.edge_length_2(e), t.edge_plane(e))
        if not t.is_deviation_edge(e) or t.is_trail_edge(e):
            return "classification of deviation edge {}".format(e)
        if float(t.edge_force(e)) != m.e[e]["v"]:
            return "force of {}: {} instead of {}".format(e, t.edge_force(e), m.e[e]["v"])
    for n in m.n:
        if any(float(c) != 0.0 for c in t.reaction_force(n)):
            return "node {} has a reaction {} before form finding".format(n, t.reaction_force(n))
        if bool(t.is_node_origin(n)) != (n in org):
            return "is_node_origin({}) = {}".format(n, t.is_node_origin(n))
        if sorted(t.connected_trail_edges(n)) != [e for e in tra if n in e]:
            return "trail edges at {}: {}".format(n, t.connected_trail_edges(n))
        if sorted(t.connected_deviation_edges(n)) != [e for e in dev if n in e]:
            return "deviation edges at {}: {}".format(n, t.connected_deviation_edges(n))


STARTS = {"empty": [], "nodes": ["n0", "n1", "n2"],
          "built": ["n0", "n1", "n2", "n3", "t01", "t12", "d02", "l0", "l2", "s2", "xn1", "n1", "t01", "t12", "d13", "xe01", "t01b", "l1", "d13"],
          "trail": ["n0", "n1", "n2", "t01", "t12", "d02", "s2", "l1", "B"]}


def evaluate(case, ctx):
    from compas_cem.diagrams import TopologyDiagram
    t, m = TopologyDiagram(), Model()
    seq = STARTS[case["S"]] + case["h"]
    for i, name in enumerate(seq):
        op = OPS[name]
        if not m.enabled(op):
            if i >= len(STARTS[case["S"]]):
                ctx.outcome("disabled")
                return  # the same history without this step is enumerated too
            continue
        msg = apply(t, m, op)
        ctx.step()
        if msg:
            return "{}: {}".format(name, msg)
    msg = compare(t, m)
    if msg:
        return "after {}: {}".format(seq, msg)
    ctx.state([m.n, sorted(m.e.items())])
    ctx.trace()


def cases(start, ops, depth):
    for d in range(depth + 1):
        for h in itertools.product(ops, repeat=d):
            yield {"S": start, "h": list(h)}


def hub_eval(case, ctx):
    """One node with many edges and many nodes with loads and supports."""
    from compas_cem.diagrams import TopologyDiagram
    t, m = TopologyDiagram(), Model()
    n, hub = case["n"], case["n"] // 2 if case["at"] else 0
    for i in range(n + 1):
        POS[1000 + i] = [float(i), 0.25 * i, -0.5 * i]
    ops = [("node", i, 1000 + i) for i in range(n + 1)]
    for j, i in enumerate(x for x in range(n + 1) if x != hub):
        kind = {"d": "dev", "t": "trail", "m": "dev" if j % 2 else "trail", "q": "trail" if j > n - 3 else "dev"}[case["mix"]]
        u, v = (hub, i) if (j % 3 != 1) == (case["dir"] == 0) else (i, hub)
        ops.append((kind, u, v, 0.5 * (j + 1)) if kind == "dev" else (kind, u, v, -0.25 * (j + 1), PLA if j % 4 == 3 else None))
    ops += [("load", i, [0.0, 0.25 * i, -1.0]) for i in range(n + 1) if i % 3] + [("sup", i) for i in range(n + 1) if i % 2 and i != hub]
    if case["del"]:
        ops += [("deln", n if hub != n else 0), ("node", n if hub != n else 0, 3)]
    for op in ops:
        msg = apply(t, m, op)
        ctx.step()
        if msg:
            return msg
    ctx.state(case)
    ctx.trace()
    return compare(t, m)


def hubs(top):
    for n in range(1, top + 1):
        for mix, d, at, x in itertools.product("dtmq", (0, 1), (0, 1), (0, 1)):
            yield {"n": n, "mix": mix, "dir": d, "at": at, "del": x}


PLACES = [[0.0, 0.0, 0.0], [1.5, -2.25, -1.0], [12345.678, -9876.543, 0.125], [-1e6, 4.0, 2e6 + 0.5], [0.001, -0.002, 0.003], [-7.0, -7.0, -7.0], [3, 4, -12]]


def place_eval(case, ctx):
    """Everything by position: the first node is there, the edge creates the other one."""
    from compas.geometry import Line, Plane, Point, Vector
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    a, b = [list(PLACES[i]) for i in case["at"]]
    seq = {"list": list, "tuple": tuple, "point": lambda x: Point(*x)}[case["as"]]
    t, nodes = TopologyDiagram(), {}

    def put(key, p):
        nodes.setdefault(key, {"q": [0.0, 0.0, 0.0], "t": None, "p": fl(p)})

    ends = {}
    for p in ([a], [b], [a, b], [b, a], [])[case["pre"]]:
        key = t.add_node(Node.from_point(seq(p)))
        put(key, p)
        ends[tuple(p)] = key
    line = (b, a) if case["rev"] else (a, b)
    line = Line(Point(*line[0]), Point(*line[1])) if case["as"] == "point" else [seq(p) for p in line]
    if case["e"] == "t":
        e = t.add_edge(TrailEdge.from_line(line, length=-1.5, plane=Plane(*PLA)))
    else:
        e = t.add_edge(DeviationEdge.from_line(line, force=0.75))
    ctx.step()
    ctx.trace()
    ctx.state(case)
    for k, p in zip(e, (b, a) if case["rev"] else (a, b)):
        if tuple(p) in ends and ends[tuple(p)] != k:
            return "the edge from {} ends at node {} instead of {}".format(p, k, ends[tuple(p)])
        put(k, p)
    edges = {tuple(e): {"t": "trail", "v": -1.5, "pl": PLA, "pure": True} if case["e"] == "t" else {"t": "deviation", "v": 0.75, "pure": True}}
    msg = content(t, nodes, edges)
    if msg:
        return msg
    ka, kb = (e[1], e[0]) if case["rev"] else e
    t.add_support(NodeSupport.from_point(seq(b)))
    nodes[kb]["t"] = "support"
    q = [0.25, -1.0 / 3.0, -4000.0]
    t.add_load(NodeLoad.from_point_and_vector(seq(a), Vector(*q) if case["as"] == "point" else seq(q)))
    nodes[ka]["q"] = q
    msg = content(t, nodes, edges)
    if msg:
        return msg
    t.add_load(NodeLoad.from_point_and_vector(seq(b), seq([0.0, 1e3, 0.0])))
    nodes[kb]["q"] = [0.0, 1e3, 0.0]
    return content(t, nodes, edges)


def places():
    for i, j in itertools.permutations(range(len(PLACES)), 2):
        for pre, rev, e, how in itertools.product(range(5), (0, 1), "td", ("list", "tuple", "point")):
            yield {"at": [i, j], "pre": pre, "rev": rev, "e": e, "as": how}


def form_eval(case, ctx):
    """The returned form answers for its own content."""
    s = spec.expand(case)
    t, km = spec.build(s)
    try:
        f = eq.engines()[case["E"]](t, tmax=200)
    except ValueError:
        ctx.outcome("refused")
        return
    nodes = {n: {"p": fl([f.node_attribute(n, c) for c in "xyz"]), "q": fl(t.node_load(n)), "t": "support" if t.is_node_support(n) else None} for n in t.nodes()}
    edges = {e: {"t": "trail" if t.is_trail_edge(e) else "deviation"} for e in t.edges()}
    ctx.step()
    ctx.trace()
    ctx.outcome("form")
    return content(f, nodes, edges)


def spaces(tier):
    eq.engines()
    q = tier == "quick"
    nodes = ["t01", "t12", "t01b", "t12c", "d01", "d02", "d02b", "s1", "s2", "s0", "l0", "l0z", "l1", "l1t", "l2", "xn1", "xn0", "xe01", "n0x", "B", "auto"]
    core = ["t01", "t12", "t01b", "d01", "d02", "s2", "l1", "xn1", "n1", "xe12", "B"]
    return [Space("edits", lambda: cases("nodes", nodes, 4 if q else 5), evaluate, "3 nodes, then all histories of up to {} of {} operations".format(4 if q else 5, len(nodes))),
            Space("empty", lambda: cases("empty", sorted(OPS), 3 if q else 4), evaluate, "from scratch, all histories of up to {} of {} operations".format(3 if q else 4, len(OPS))),
            Space("built", lambda: cases("built", sorted(OPS), 3 if q else 4), evaluate, "from a diagram with replaced elements, all histories of up to {} of {} operations".format(3 if q else 4, len(OPS))),
            Space("trails", lambda: cases("trail", sorted(OPS), 3 if q else 4), evaluate, "from a diagram with built trails, all histories of up to {} of {} operations".format(3 if q else 4, len(OPS))),
            Space("core", lambda: cases("nodes", core, 5 if q else 6), evaluate, "3 nodes, then all histories of up to {} of {} operations".format(5 if q else 6, len(core))),
            Space("hubs", lambda: hubs(24 if q else 130), hub_eval, "stars of up to {} edges: kinds, directions, position of the hub, a leaf deleted and added anew".format(24 if q else 130)),
            Space("places", places, place_eval, "7 positions in pairs: nodes, edges, supports and loads given by lists, tuples or points, in either direction, before or after their nodes"),
            Space("forms", lambda: spec.cases([((2,), "plain", 1), ((2, 1), "brac", 1), ((2, 2), "ten", 1)], [{"E": "py"}, {"E": "np"}]), form_eval, "forms of both engines for all structures with up to one departure from 3 bases")]
