"""C22: drawings show exactly what a diagram holds.

The real plotter artists draw with matplotlib and the resulting scene is read back from the axes;
the Grasshopper artists and the viewer objects draw into recording stand-ins of their hosts
(mc/host.py).  Every drawn element is matched with the content of the diagram.
"""
import itertools
import re

from mc import eq, host, obs, spec, vec
from mc.core import Space

ASSUMPTIONS = ["Grasshopper and compas_view2 are replaced by recording stand-ins", "the placement of an arrow before or after its node is not judged, only that it touches it",
               "colours by state are not judged for zero lengths and forces of a topology, nor for zero forces in the viewer",
               "a viewer scene with edges without length is not judged", "forces within 0.1% of a drawing tolerance are not judged"]

TOL = 1e-9


_colors = {}


def colors():
    """The colours of the library, as they were before anything was drawn."""
    if not _colors:
        from compas_cem import COLORS
        _colors.update({k: tuple(c) for k, c in COLORS.items()})
    return _colors


def untouched():
    from compas_cem import COLORS
    now = {k: tuple(c) for k, c in COLORS.items()}
    return None if now == colors() else "drawing changed the colours of the library: {}".format([k for k in set(now) | set(colors()) if now.get(k) != colors().get(k)])


def kept(f):
    """The evaluation f, and the library's colours are what they were."""
    def g(case, ctx):
        colors()
        return f(case, ctx) or untouched()
    return g


def rgb(name):
    return [c / 255.0 for c in colors()[name]]


def near(a, b, tol=TOL):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or a is None:
        return a == b
    return abs(a - b) <= tol * (1.0 + abs(b))


def match(got, want, what, same=near):
    """Multiset equality up to tolerance."""
    rest = list(got)
    for w in want:
        for i, g in enumerate(rest):
            if same(g, w):
                del rest[i]
                break
        else:
            return "{}: {} is not drawn; drawn are {}".format(what, w, got)
    if rest:
        return "{}: {} drawn in addition".format(what, rest)


NUMBER = re.compile(r"-?[0-9]+\.[0-9]+")


def same_label(g, w):
    """Equal position and text; decimals may be rounded either way."""
    (pg, a), (pw, b) = g, w
    if not near(pg, pw) or not isinstance(a, str) or not isinstance(b, str):
        return False
    x, y = NUMBER.findall(a), NUMBER.findall(b)
    # signed zeros (-0.00) are not judged
    return a == b or (NUMBER.sub("#", a) == NUMBER.sub("#", b) and len(x) == len(y)
                      and all(len(p.split(".")[1]) == len(q.split(".")[1]) and abs(float(p) - float(q)) < 1.01 * 0.1 ** len(p.split(".")[1]) for p, q in zip(x, y)))


def unchanged(d, was):
    m = obs.diff(was, obs.observe(d))
    return "drawing changed the diagram: " + m if m else None


def seg(a, b):
    return sorted([list(map(float, a)), list(map(float, b))])


def content(d):
    """What the diagram holds, through its basic queries."""
    from collections import namedtuple
    C = namedtuple("C", "xyz sup load reac edges force length")
    nodes = list(d.nodes())
    f = lambda v: [float(c) for c in v]  # noqa: E731
    edges = list(d.edges())
    return C({n: f(d.node_coordinates(n)) for n in nodes}, set(d.support_nodes()), {n: f(d.node_load(n)) for n in nodes},
             {n: f(d.reaction_force(n)) for n in nodes}, edges, {e: float(d.edge_force(e)) for e in edges}, {e: float(d.edge_length_2(e)) for e in edges})


def exact(v, tol):
    """A single component that equals the tolerance, without any rounding."""
    one = [abs(c) for c in v if c]
    return len(one) == 1 and one[0] == tol and tol * 1024 == int(tol * 1024)


def margin(v, tol):
    return exact(v, tol) or abs(vec.norm(v) - tol) > 1e-3 * (tol + vec.norm(v)) or vec.norm(v) == 0


def gk(p, prec="2f"):
    from compas.utilities import geometric_key
    return geometric_key(p, prec)


def two(x):
    return "{:.2f}".format(x)


# ------------------------------------------------------------------------------------------
# plotter
# ------------------------------------------------------------------------------------------

def plot(d, opts, more=None, twice=False):
    import matplotlib.pyplot as plt
    from compas_cem.plotters import Plotter
    from matplotlib.collections import LineCollection, PatchCollection
    from matplotlib.lines import Line2D
    from matplotlib.patches import FancyArrowPatch
    p = Plotter(figsize=(2, 2))
    base = {id(c) for c in p.axes.get_children()}
    try:
        art = p.add(d, **opts)
        if isinstance(twice, str):  # drawn once more with a switch turned
            setattr(art, twice[1:], twice[0] == "+")
        if twice:
            art.draw()
        if more:
            p.add(more[0], **more[1])
        sc = {"nodes": [], "edges": [], "arrows": [], "cross": [], "texts": []}
        for c in p.axes.get_children():
            if id(c) in base:
                continue
            if isinstance(c, PatchCollection):
                for path, col in zip(c.get_paths(), list(c.get_facecolor())):
                    e = path.get_extents()
                    sc["nodes"].append([[(e.x0 + e.x1) / 2, (e.y0 + e.y1) / 2], list(map(float, col[:3])), float(e.width / 2)])
            elif isinstance(c, LineCollection):
                n = len(c.get_segments())
                cols, ws, ls = list(c.get_colors()), list(c.get_linewidths()), list(c.get_linestyles())
                for i, s in enumerate(c.get_segments()):
                    st = ls[i % len(ls)] if n else None
                    sc["edges"].append([seg(s[0], s[-1]), list(map(float, cols[i % len(cols)][:3])), float(ws[i % len(ws)]), "solid" if st[1] is None else "dashed"])
            elif isinstance(c, FancyArrowPatch):
                a, b = c._posA_posB
                sc["arrows"].append([[list(map(float, a)), list(map(float, b))], list(map(float, c.get_facecolor()[:3]))])
            elif isinstance(c, Line2D):
                sc["cross"].append(seg(*zip(c.get_xdata(), c.get_ydata())))
            elif c.__class__.__name__ == "Text":
                sc["texts"].append([list(map(float, c.get_position())), c.get_text()])
        return sc
    finally:
        plt.close(p.figure if hasattr(p, "figure") else p.axes.figure)


def arrows_ok(got, c, vectors, scale, tol, color, gap, nodes, what, dims=2):
    want = []
    for n in nodes:
        v = vectors[n]
        if not margin(v, tol):
            return None
        if vec.norm(v) > tol or exact(v, tol):
            want.append((n, vec.mul(v, scale), vec.unit(v)))

    def same(g, w):
        (a, b), col = g
        n, v, u = w
        p = c.xyz[n]
        g1 = vec.add(p, vec.mul(u, gap))
        g2 = vec.add(g1, v)
        h2 = vec.sub(p, vec.mul(u, gap))
        h1 = vec.sub(h2, v)
        return near(col, color, 1e-6) and ((near(a, g1[:dims]) and near(b, g2[:dims])) or (near(a, h1[:dims]) and near(b, h2[:dims])))
    return match(got, want, what, same)


def widths(c, edges, opt):
    if not isinstance(opt, (list, tuple)):
        return {e: opt for e in edges}
    fs = [abs(c.force[e]) for e in edges]
    lo, hi = min(fs), max(fs)
    return {e: opt[1] if hi == lo else opt[0] + (opt[1] - opt[0]) * (abs(c.force[e]) - lo) / (hi - lo) for e in edges}


def form_of(t, case):
    """The form, or what the engine leaves after a limited number of sequences."""
    return eq.engines()["py"](t, tmax=200, kmax=case.get("kmax"))


def plot_form(case, ctx):
    s = spec.expand(case)
    t, km = spec.build(s)
    try:
        d = form_of(t, case)
    except ValueError:
        return
    if case.get("zero"):  # an edge without force, or with a tiny one
        d.edge_attribute(sorted(d.edges())[0], "force", 0.0 if case["zero"] == 1 else case["zero"])
    o = options(case["o"], d)
    c, was = content(d), obs.observe(d)
    sc = plot(d, o, twice=case.get("twice"))
    if isinstance(case.get("twice"), str):
        o = dict(o, **{case["twice"][1:]: case["twice"][0] == "+"})
    ctx.step()
    nodes = o.get("nodes", list(c.xyz))
    edges = o.get("edges", c.edges)
    r = o.get("nodesize", 0.1) / len(c.xyz)
    want = [[c.xyz[n][:2], rgb("node_support" if n in c.sup else "node"), r] for n in nodes] if o.get("show_nodes", True) else []
    msg = match(sc["nodes"], want, "nodes (position, colour, size)", lambda g, w: near(g, w, 1e-6))
    if msg:
        return msg
    w = widths(c, edges, o.get("edgewidth", 1.0)) if edges else {}
    want = [[seg(c.xyz[e[0]][:2], c.xyz[e[1]][:2]), rgb("edge" if c.force[e] == 0 else "tension" if c.force[e] > 0 else "compression"), w[e], "solid"] for e in edges] if o.get("show_edges", True) else []
    msg = match(sc["edges"], want, "edges (ends, colour by state, width, style)", lambda g, x: near(g, x, 1e-7))
    if msg:
        return msg
    if case.get("twice"):  # arrows belong to artists of their own
        sc["arrows"] = []
        o = dict(o, show_loads=False, show_reactions=False)
    gl = [a for a in sc["arrows"] if near(a[1], rgb("load"), 1e-6)]
    gr = [a for a in sc["arrows"] if not near(a[1], rgb("load"), 1e-6)]
    msg = arrows_ok(gl, c, c.load, o.get("loadscale", 1.0), o.get("loadtol", 1e-3), rgb("load"), r, nodes if o.get("show_loads", True) else [], "loads")
    msg = msg or arrows_ok(gr, c, c.reac, o.get("reactionscale", 1.0), o.get("reactiontol", 1e-3), rgb("support_force"), r, nodes if o.get("show_reactions", True) else [], "reactions")
    if msg:
        return msg
    want = []
    if o.get("show_nodetext"):
        f = {"xyz": lambda n: gk(c.xyz[n]), "keyxyz": lambda n: "{}\n{}".format(n, gk(c.xyz[n]))}.get(tag(o, "nodetext"), label(o, "nodetext", list(c.xyz), str))
        want += [[c.xyz[n][:2], f(n)] for n in nodes if f(n) is not None]
    if o.get("show_edgetext"):
        true = {e: vec.dist(c.xyz[e[0]], c.xyz[e[1]]) for e in c.edges}
        f = {"force": lambda e: two(c.force[e]), "length": lambda e: two(true[e]), "forcelength": lambda e: "f: {}\nl: {}".format(two(c.force[e]), two(true[e]))
             }.get(tag(o, "edgetext"), label(o, "edgetext", c.edges, lambda e: "{}-{}".format(*e)))
        want += [[vec.mul(vec.add(c.xyz[e[0]], c.xyz[e[1]]), 0.5)[:2], f(e)] for e in edges if f(e) is not None]
    ctx.state([case["L"], case["B"], case["o"]])
    ctx.trace()
    return match(sc["texts"], want, "labels", same_label) or unchanged(d, was)


def tag(o, name):
    return o.get(name) if isinstance(o.get(name), str) else None


def label(o, name, keys, default):
    v = o.get(name)
    if isinstance(v, dict):
        return v.get
    if v == "index":
        return lambda k: str(list(keys).index(k))
    return default


def options(o, d):
    """Resolve abstract selections of nodes and edges."""
    o = {k: (tuple(v) if isinstance(v, list) else v) for k, v in o.items()}
    ns, es = list(d.nodes()), list(d.edges())
    pick = {"none": lambda x: [], "first": lambda x: x[:1], "last": lambda x: x[-1:], "rest": lambda x: x[1:], "even": lambda x: x[::2], "rev": lambda x: x[::-1]}
    if "nodes" in o:
        o["nodes"] = pick[o["nodes"]](ns)
    if "edges" in o:
        o["edges"] = pick[o["edges"]](es)
    if o.get("nodetext") == "dict":
        o["nodetext"] = {n: "node {}".format(n) for n in ns}
    if o.get("edgetext") == "dict":
        o["edgetext"] = {e: "edge {}".format(e) for e in es}
    return o


def make_topology(case):
    s = spec.expand(case)
    mode = case.get("m", "built")
    t, km = spec.build(s, trails=mode not in ("bare", "aux"))
    aux = set()
    if mode == "aux":
        from compas_cem.elements import DeviationEdge, Node
        k = t.add_node(Node(xyz=[-3.0, 1.0, 2.0]))
        t.add_edge(DeviationEdge(k, km[0], force=-0.25))
        have = set(t.nodes())
        t.build_trails(auxiliary_trails=True)
        aux = {e for e in t.edges() if not set(e) <= have}
    return s, t, km, aux


def plot_topology(case, ctx):
    s, t, km, aux = make_topology(case)
    o = options(case["o"], t)
    c, was = content(t), obs.observe(t)
    nodes = o.get("nodes", list(c.xyz))
    edges = o.get("edges", c.edges)
    r = o.get("nodesize", 0.1) / len(c.xyz)
    built = case.get("m", "built") != "bare"
    if o.get("nodecolor") == "sequence" and not built:
        return
    sc = plot(t, o, twice=case.get("twice"))
    if isinstance(case.get("twice"), str):
        o = dict(o, **{case["twice"][1:]: case["twice"][0] == "+"})
    ctx.step()
    org = set(t.origin_nodes())
    last = t.sequence_last() if built else 0
    if o.get("nodecolor") == "sequence":
        from compas.colors import Color, ColorMap
        cm = ColorMap.from_color(Color.from_rgb255(*colors()["trail"]), "light")
        col = {n: list(cm(float(t.node_sequence(n)), maxval=last).rgb) for n in nodes}
    else:
        col = {n: rgb("node_support" if n in c.sup else "node_origin" if n in org else "node") for n in nodes}
    want = [[c.xyz[n][:2], col[n], r] for n in nodes] if o.get("show_nodes", True) else []
    msg = match(sc["nodes"], want, "nodes (position, colour, size)", lambda g, w: near(g, w, 1e-6))
    if msg:
        return msg

    def ecol(e):
        trail = t.edge_attribute(e, "type") == "trail"
        if e in aux:
            return rgb("auxiliary_trail")
        if o.get("edgecolor") == "type":
            if trail:
                return rgb("edge_trail")
            return rgb("edge_deviation_indirect" if built and t.node_sequence(e[0]) != t.node_sequence(e[1]) else "edge_deviation")
        v = c.length[e] if trail else c.force[e]
        return None if v == 0 else rgb("tension" if v > 0 else "compression")
    want = [[seg(c.xyz[e[0]][:2], c.xyz[e[1]][:2]), ecol(e), o.get("edgewidth", 1.0), "solid" if t.edge_attribute(e, "type") == "trail" else "dashed"] for e in edges] if o.get("show_edges", True) else []
    msg = match(sc["edges"], want, "edges (ends, colour, width, style)", lambda g, x: near(g[0], x[0]) and (x[1] is None or near(g[1], x[1], 1e-6)) and near(g[2], x[2]) and g[3] == x[3])
    if msg:
        return msg
    want = []
    if case.get("twice"):
        sc["cross"] = []
    elif o.get("show_loads", True):
        h = r / 2 ** 0.5
        for n in nodes:
            if vec.norm(c.load[n]) > 1e-6:
                x, y = c.xyz[n][:2]
                want += [seg([x - h, y - h], [x + h, y + h]), seg([x - h, y + h], [x + h, y - h])]
    msg = match(sc["cross"], want, "load marks")
    if msg:
        return msg
    want = []
    if o.get("show_nodetext"):
        ty = lambda n: "support" if n in c.sup else "_origin" if n in org else "None"  # noqa: E731
        f = {"xyz": lambda n: gk(c.xyz[n]), "keyxyz": lambda n: "{}\n{}".format(n, gk(c.xyz[n])), "type": ty, "sequence": lambda n: str(t.node_sequence(n)),
             "keysequence": lambda n: "{}\n{}".format(n, t.node_sequence(n))}.get(tag(o, "nodetext"), label(o, "nodetext", list(c.xyz), str))
        want += [[c.xyz[n][:2], f(n)] for n in nodes if f(n) is not None]
    if o.get("show_edgetext"):
        fo = lambda e: two(abs(c.force[e]))  # noqa: E731
        le = lambda e: two(abs(c.length[e]))  # noqa: E731
        st = lambda e: two(1.0 if (c.length[e] if t.is_trail_edge(e) else c.force[e]) > 0 else -1.0)  # noqa: E731
        f = {"force": fo, "length": le, "state": st, "forcelength": lambda e: "f: {}\nl: {}".format(fo(e), le(e)),
             "forcelengthstate": lambda e: "f: {}\nl: {}\ns: {}".format(fo(e), le(e), st(e)), "type": lambda e: t.edge_attribute(e, "type")
             }.get(tag(o, "edgetext"), label(o, "edgetext", c.edges, lambda e: "{}-{}".format(*e)))
        want += [[vec.mul(vec.add(c.xyz[e[0]], c.xyz[e[1]]), 0.5)[:2], f(e)] for e in edges if f(e) is not None]
    ctx.state([case["L"], case["B"], case["o"], case.get("m")])
    ctx.trace()
    return match(sc["texts"], want, "labels", same_label) or unchanged(t, was)


# ------------------------------------------------------------------------------------------
# Grasshopper artists
# ------------------------------------------------------------------------------------------

def gh_lines(got):
    return [[seg(g[1], g[2])] for g in got or []]


def gh(case, ctx):
    m = host.grasshopper()
    if case["k"] == "form":
        s = spec.expand(case)
        t, km = spec.build(s)
        try:
            d = form_of(t, case)
        except ValueError:
            return
        art = m.FormArtist(d)
    else:
        s, d, km, aux = make_topology(case)
        art = m.TopologyArtist(d)
    c, was = content(d), obs.observe(d)
    sel = options({k: v for k, v in case["o"].items() if k in ("nodes", "edges")}, d)
    ns, es = sel.get("nodes"), sel.get("edges")
    nodes, edges = (list(c.xyz) if ns is None else ns), (c.edges if es is None else es)
    pts = lambda x: [("point", c.xyz[n]) for n in x]  # noqa: E731
    lin = lambda x: [[seg(c.xyz[e[0]], c.xyz[e[1]])] for e in x]  # noqa: E731
    ctx.step(4)
    msg = match([list(p) for p in art.draw_nodes(ns) or []], [list(p) for p in pts(nodes)], "nodes")
    msg = msg or match([list(p) for p in art.draw_nodes_support(ns) or []], [list(p) for p in pts([n for n in nodes if n in c.sup])], "support nodes")
    msg = msg or match(gh_lines(art.draw_edges(es)), lin(edges), "edges")
    kw = {k: case["o"][k] for k in ("scale", "gap") if k in case["o"]}
    lo = dict(kw, **({"min_load": case["o"]["min"]} if "min" in case["o"] else {}))
    ro = dict(kw, **({"min_force": case["o"]["min"]} if "min" in case["o"] else {}))
    arr = lambda got: [[[g[1], g[2]], [0, 0, 0]] for g in got or []]  # noqa: E731
    par = (case["o"].get("scale", 1.0), case["o"].get("min", 1e-3), [0, 0, 0], case["o"].get("gap", 0.0), nodes)
    msg = msg or arrows_ok(arr(art.draw_loads(ns, **lo)), c, c.load, *par, "loads", 3)
    if case["k"] == "form":
        msg = msg or arrows_ok(arr(art.draw_reactions(ns, **ro)), c, c.reac, *par, "reactions", 3)
    else:
        org = set(d.origin_nodes())
        ty = {e: d.edge_attribute(e, "type") for e in c.edges}
        msg = msg or match([list(p) for p in art.draw_nodes_origin(ns) or []], [list(p) for p in pts([n for n in nodes if n in org])], "origin nodes")
        msg = msg or match(gh_lines(art.draw_edges_trail(es)), lin([e for e in edges if ty[e] == "trail"]), "trail edges")
        msg = msg or match(gh_lines(art.draw_edges_deviation(es)), lin([e for e in edges if ty[e] == "deviation"]), "deviation edges")
        msg = msg or match([list(p) for p in art.draw_trails() or []], [["polyline", [c.xyz[n] for n in tr]] for tr in d.trails()], "trails")
    ctx.state([case["L"], case["B"], case["o"], case["k"], case.get("m")])
    ctx.trace()
    return msg or unchanged(d, was)


# ------------------------------------------------------------------------------------------
# viewer objects
# ------------------------------------------------------------------------------------------

def view(case, ctx):
    m = host.viewer()
    aux = set()
    if case["k"] == "form":
        s = spec.expand(case)
        t, km = spec.build(s)
        try:
            d = form_of(t, case)
        except ValueError:
            return
    else:
        s, d, km, aux = make_topology(case)
    c, was = content(d), obs.observe(d)
    o = options(case["o"], d)
    nodes, edges = o.get("nodes", list(c.xyz)), o.get("edges", c.edges)
    if any(vec.dist(c.xyz[u], c.xyz[v]) < 1e-9 for u, v in edges):
        return  # no cylinder can be drawn
    app = m.Viewer()
    obj = app.add(d, **o)
    ctx.step()
    built = case.get("m", "built") != "bare"
    org = set(d.origin_nodes()) if case["k"] != "form" else set()
    pos, col, el = obj._points_data()
    want = [[c.xyz[n], rgb("node_support" if n in c.sup else "node_origin" if n in org else "node_black")] for n in nodes]
    msg = match([[list(p), list(q)] for p, q in zip(pos, col)], want, "nodes (position, colour)", lambda g, w: near(g, w, 1e-6))
    if msg or len(el) != len(nodes):
        return msg or "{} point elements".format(len(el))
    if bool(obj.show_points) != o.get("show_nodes", False) or bool(obj.show_nodes) != o.get("show_nodes", False):
        return "show_nodes is {} / {} instead of {}".format(obj.show_points, obj.show_nodes, o.get("show_nodes", False))
    if bool(obj.show_lines) != o.get("show_edges", True) or bool(obj.show_edges) != o.get("show_edges", True):
        return "show_edges is {} instead of {}".format(obj.show_edges, o.get("show_edges", True))
    cyl, arrows, texts = [], [], []
    for item, kw in app.shown:
        name = type(item).__name__
        if name == "Text":
            texts.append([list(map(float, item.args[1])), item.args[0]])
        elif name == "Collection":
            for x in item.args[0]:
                fc = list(kw["facecolor"])
                if type(x).__name__ == "Arrow":
                    a = list(map(float, x.args[0]))
                    arrows.append([[a, vec.add(a, list(map(float, x.args[1])))], fc])
                else:
                    cyl.append([[float(v) for v in x.circle.plane.point], [float(v) for v in x.circle.plane.normal], float(x.height), float(x.circle.radius), fc])

    def ecol(e):
        if case["k"] == "form":
            return None if c.force[e] == 0 else rgb("tension" if c.force[e] > 0 else "compression")
        if e in aux:
            return rgb("auxiliary_trail")
        if d.edge_attribute(e, "type") == "trail":
            return rgb("edge_trail")
        return rgb("edge_deviation_indirect" if built and d.node_sequence(e[0]) != d.node_sequence(e[1]) else "edge_deviation")

    def same(g, e):
        a, b = c.xyz[e[0]], c.xyz[e[1]]
        u = vec.unit(vec.sub(b, a))
        return (near(g[0], vec.mul(vec.add(a, b), 0.5)) and (near(g[1], u, 1e-7) or near(g[1], vec.mul(u, -1.0), 1e-7)) and near(g[2], vec.dist(a, b), 1e-7)
                and near(g[3], w[e] / 2) and (ecol(e) is None or near(g[4], ecol(e), 1e-6)))
    w = widths(c, edges, o.get("edgewidth", 0.015)) if edges else {}
    msg = match(cyl, edges if o.get("show_edges", True) else [], "edges (axis, length, radius, colour)", same)
    if msg:
        return msg
    gl = [a for a in arrows if near(a[1], rgb("load"), 1e-6)]
    gr = [a for a in arrows if not near(a[1], rgb("load"), 1e-6)]
    msg = arrows_ok(gl, c, c.load, o.get("loadscale", 1.0), o.get("loadtol", 1e-3), rgb("load"), 0.0, nodes if o.get("show_loads", True) else [], "loads", 3)
    show_r = case["k"] == "form" and o.get("show_residuals", True)
    msg = msg or arrows_ok(gr, c, c.reac, o.get("residualscale", 1.0), o.get("residualtol", 1e-3), rgb("support_force"), 0.0, nodes if show_r else [], "reactions", 3)
    if msg:
        return msg
    want = []
    if o.get("show_nodetext"):
        ty = lambda n: "support" if n in c.sup else "_origin" if d.node_attribute(n, "type") == "_origin" else "None"  # noqa: E731
        f = {"xyz": lambda n: gk(c.xyz[n]), "keyxyz": lambda n: "{}\n{}".format(n, gk(c.xyz[n])), "type": ty}.get(tag(o, "nodetext"), label(o, "nodetext", list(c.xyz), str))
        want += [[c.xyz[n], f(n)] for n in nodes]
    if o.get("show_edgetext"):
        fo = lambda e: two(abs(c.force[e]))  # noqa: E731
        le = lambda e: two(abs(c.length[e]))  # noqa: E731
        f = {"force": fo, "length": le, "forcelength": lambda e: "f: {}\nl: {}".format(fo(e), le(e)), "type": lambda e: d.edge_attribute(e, "type")}
        if case["k"] != "form":
            st = lambda e: two(1.0 if (c.length[e] if d.is_trail_edge(e) else c.force[e]) > 0 else -1.0)  # noqa: E731
            f["state"] = st
            f["forcelengthstate"] = lambda e: "f: {}\nl: {}\ns: {}".format(fo(e), le(e), st(e))
        f = f.get(tag(o, "edgetext"), label(o, "edgetext", c.edges, lambda e: "{}-{}".format(*e)))
        want += [[vec.mul(vec.add(c.xyz[e[0]], c.xyz[e[1]]), 0.5), f(e)] for e in edges]
    ctx.state([case["L"], case["B"], case["o"], case["k"], case.get("m")])
    ctx.trace()
    return match(texts, want, "labels", same_label) or unchanged(d, was)


# ------------------------------------------------------------------------------------------

SEL = {"nodes": ["none", "first", "last", "rest", "even", "rev"], "edges": ["none", "first", "last", "rest", "even"]}
FORM = dict(SEL, **{"nodesize": [0.5, 2.0], "edgewidth": [2.5, [0.5, 3.0], [2.0, 0.5]], "loadscale": [0.5, 3.0], "loadtol": [1.2, 1.7], "reactionscale": [0.25, 2.0], "reactiontol": [1.5, 3.0],
                    "show_loads": [False], "show_reactions": [False], "show_nodes": [False], "show_edges": [False],
                    "nodetext": ["xyz", "keyxyz", "key", "index", "dict"], "edgetext": ["force", "length", "forcelength", "key", "index", "dict"]})
TOPO = dict(SEL, **{"nodesize": [0.5], "edgewidth": [2.5], "nodecolor": ["type", "sequence"], "edgecolor": ["state", "type"], "show_loads": [False], "show_nodes": [False], "show_edges": [False],
                    "nodetext": ["xyz", "keyxyz", "key", "index", "dict", "type", "sequence", "keysequence"],
                    "edgetext": ["force", "length", "state", "forcelength", "forcelengthstate", "type", "key", "index", "dict"]})
GH = dict(SEL, **{"scale": [0.5, 2.0], "gap": [0.25], "min": [1.2, 1.7]})
VIEW = dict(SEL, **{"nodesize": [3.0], "edgewidth": [0.1, [0.01, 0.3], [0.2, 0.1]], "loadscale": [0.5, 3.0], "loadtol": [1.2, 1.7], "residualscale": [0.25], "residualtol": [1.5],
                    "show_loads": [False], "show_residuals": [False], "show_nodes": [True], "show_edges": [False],
                    "nodetext": ["xyz", "keyxyz", "key", "type", "dict"], "edgetext": ["force", "length", "forcelength", "type", "key", "dict"]})


def opts(table, depth, drop=()):
    dims = [(k, v) for k, v in sorted(table.items()) if k not in drop]
    for n in range(depth + 1):
        for combo in itertools.combinations(dims, n):
            for vals in itertools.product(*[v for _, v in combo]):
                o = dict(zip([k for k, _ in combo], vals))
                if "nodetext" in o:
                    o["show_nodetext"] = True
                if "edgetext" in o:
                    o["show_edgetext"] = True
                yield o


BASES = [{"L": [2, 1], "B": "brac", "d": [["key", None, "gap"], ["load", 1, "zero"]]}, {"L": [2, 2], "B": "ten", "d": [["flip", [0, 1], True], ["shift", 1, 1]]}]
FACES = [{"L": [2, 1], "B": "brac"}, {"L": [1, 1], "B": "ring"}, {"L": [2, 2], "B": "ten"}, {"L": [3], "B": "plain"}]
WHAT = ("len", "dev", "load", "flip", "shift", "key", "org")


def bare(case):
    """Shifts need built trails."""
    return dict(case, d=[x for x in case["d"] if x[0] != "shift"])


# loads and reactions around the default tolerance; numbers of every magnitude; more nodes than digits
SMALL = [{"L": [2, 1], "B": "brac", "d": [["load", 0, [0.002, 0.0, 0.0]], ["load", 1, [0.0, 0.0, -0.05]], ["load", 3, [4e-4, 3e-4, 0.0]]]},
         {"L": [1], "B": "axis", "d": [["load", 0, [0.0, 0.003, -0.004]], ["load", 1, "zero"]]},
         {"L": [1], "B": "axis", "d": [["load", 0, [0.0, 3e-4, -4e-4]], ["load", 1, "zero"]]},
         {"L": [1, 1], "B": "ring", "d": [["fs", None, 1e3]]}, {"L": [1, 1], "B": "ring", "d": [["fs", None, 1e-3]]},
         {"L": [2, 1], "B": "ten", "d": [["gs", None, 1e3]]}, {"L": [2, 1], "B": "ten", "d": [["gs", None, 0.05]]},
         {"L": [4, 3, 3], "B": "odd", "d": [["key", None, "big"]]}, {"L": [2, 1], "B": "far", "d": []}]
# loads that equal a tolerance exactly; edges that are very short
SHARP = [{"L": [2, 1], "B": "brac", "d": [["load", 0, [0.0, 0.0, -0.5]], ["load", 1, [0.25, 0.0, 0.0]], ["load", 3, [0.0, -2.0, 0.0]], ["load", 4, "zero"]]},
         {"L": [1, 1], "B": "ring", "d": [["load", 0, [0.0, -0.5, 0.0]], ["load", 1, [0.0, 0.0, -2.0]], ["load", 2, [0.0, 0.0, 0.25]]]}]
SHORT = [{"L": [2, 1], "B": "ten", "d": [["gs", None, 1e-3]]}, {"L": [1, 1], "B": "ring", "d": [["gs", None, 1e-4]]}, {"L": [2, 1], "B": "brac", "d": [["len", [0, 1], -1e-3]]}]
CUT = [(b, k) for b in ({"L": [2, 1], "B": "brac", "d": []}, {"L": [2, 2], "B": "ten", "d": [["shift", 1, 1]]}, {"L": [3], "B": "plain", "d": []}) for k in (0, 1, 2)]
SWITCHED = ["-show_nodes", "-show_edges", "+show_nodes", "+show_edges"]
LABELS = {"nodetext": "keyxyz", "show_nodetext": True, "edgetext": "forcelength", "show_edgetext": True}


def small_cases(kind):
    for b in SMALL:
        for o in ({}, LABELS, {"loadtol": 1e-4}, {"loadtol": 0.01}, {"edgewidth": [0.5, 3.0]}, {"nodes": "rev", "edges": "even"},
                  {"nodetext": "index" if kind == "plot" else "type", "show_nodetext": True, "edgetext": "length", "show_edgetext": True}):
            yield b, o


def scene(kind, d, o, into=None):
    """A drawing as a sorted list, alone or added to an existing one."""
    r = lambda x: [r(y) for y in x] if isinstance(x, (list, tuple)) else round(float(x), 7) + 0.0 if isinstance(x, (int, float)) else str(x)  # noqa: E731
    if kind == "view":
        m = host.viewer()
        app = into or m.Viewer()
        n = len(app.shown)
        app.add(d, **o)
        out = []
        for item, kw in app.shown[n:]:
            if type(item).__name__ == "Text":
                out.append(repr(["text", item.args[0], r(list(item.args[1]))]))
            elif type(item).__name__ == "Collection":
                for x in item.args[0]:
                    y = [list(x.args[0]), list(x.args[1])] if type(x).__name__ == "Arrow" else [list(x.circle.plane.point), list(x.circle.plane.normal), x.height, x.circle.radius]
                    out.append(repr([type(x).__name__, r(y), r(list(kw["facecolor"]))]))
        return sorted(out), app
    sc = plot(d, o, more=into)
    return sorted(repr([k, r(x)]) for k in sc for x in sc[k]), None


PAIR = [{}, dict(LABELS, nodes="rest"), {"edges": "even", "show_loads": False, "edgewidth": 2.0}]


def pair_cases():
    st = [BASES[0], BASES[1], {"L": [1, 1], "B": "ring", "d": []}]
    things = [(k, i, j) for k in ("form", "topo") for i in range(len(st)) for j in range(len(PAIR))]
    for host_ in ("plot", "view"):
        for a, b in itertools.product(things, repeat=2):
            yield {"h": host_, "a": [a[0], st[a[1]], PAIR[a[2]]], "b": [b[0], st[b[1]], PAIR[b[2]]]}


def pair(case, ctx):
    """Two drawings on one canvas are the two drawings; what was drawn before leaves no traces."""
    ds = []
    for kind, b, o in (case["a"], case["b"]):
        t, km = spec.build(spec.expand(b))
        d = t if kind == "topo" else eq.engines()["py"](t, tmax=200)
        if case["h"] == "view" and any(vec.dist(d.node_coordinates(u), d.node_coordinates(v)) < 1e-9 for u, v in d.edges()):
            return
        ds.append((d, options(o, d)))
    ctx.step(4)
    ctx.trace()
    ctx.state(case)
    (a, oa), (b, ob) = ds
    was = [obs.observe(a), obs.observe(b)]
    sa, _ = scene(case["h"], a, oa)
    sb, _ = scene(case["h"], b, ob)
    if case["h"] == "view":
        s1, app = scene("view", a, oa)
        s2, _ = scene("view", b, ob, app)
        both = sorted(s1 + s2)
    else:
        both, _ = scene("plot", a, oa, (b, ob))
    again, _ = scene(case["h"], a, oa)
    if again != sa:
        return "drawing the first diagram again gives {} instead of {}".format([x for x in again if x not in sa][:3], [x for x in sa if x not in again][:3])
    if both != sorted(sa + sb):
        return "together the diagrams are drawn as {} items instead of {}: {}".format(len(both), len(sa + sb), [x for x in both if x not in sa + sb][:3])
    return unchanged(a, was[0]) or unchanged(b, was[1])


def form_cases(depth, structs):
    for b in SHARP:
        for tol in (0.25, 0.5, 2.0):
            for o in ({"loadtol": tol}, {"loadtol": tol, "loadscale": 3.0}):
                yield dict(b, o=o)
    for b in SHORT:
        for o in ({}, dict(LABELS, edges="even")):
            yield dict(b, o=o)
    for b, k in CUT:
        for o in ({}, LABELS, dict(LABELS, edgetext="length"), {"nodes": "rest", "edgewidth": [0.5, 3.0]}):
            yield dict(b, o=o, kmax=k)
    for b, o in small_cases("plot"):
        yield dict(b, o=o)
    for b in BASES:
        for o in opts(FORM, depth):
            yield dict(b, o=o)
            if len(o) < 3:
                yield dict(b, o=o, twice=1)
            if len(o) < 2:
                for x in SWITCHED:
                    yield dict(b, o=o, twice=x)
            yield dict(b, o=o, zero=1)
            if len(o) < 2:
                for f in (1e-7, -1e-7, -1e-12):
                    yield dict(b, o=o, zero=f)
    for c in spec.cases(structs):
        for o in ({}, {"nodetext": "keyxyz", "show_nodetext": True, "edgetext": "forcelength", "show_edgetext": True, "edgewidth": [0.5, 3.0]}):
            yield dict(c, o=o)


def topo_cases(depth, structs):
    for b, o in small_cases("plot"):
        if "loadtol" not in o and not isinstance(o.get("edgewidth"), list):
            yield dict(b, o=o, m="built")
    for b in BASES:
        for o in opts(TOPO, depth):
            for m in ("built", "bare", "aux"):
                if m != "built" and len(o) > 2:
                    continue
                if m == "bare" and ("sequence" in str(o.get("nodetext")) or o.get("nodecolor") == "sequence"):
                    continue
                yield dict(b if m == "built" else bare(b), o=o, m=m)
                if m == "built" and len(o) < 3:
                    yield dict(b, o=o, m=m, twice=1)
                if m == "built" and len(o) < 2:
                    for x in SWITCHED:
                        yield dict(b, o=o, m=m, twice=x)
    for c in spec.cases(structs):
        for o in ({}, {"nodecolor": "sequence", "edgecolor": "type", "nodetext": "keysequence", "show_nodetext": True, "edgetext": "forcelength", "show_edgetext": True}):
            yield dict(c, o=o, m="built")


def gh_cases(depth, structs):
    for b in SHARP:
        for tol in (0.25, 0.5, 2.0):
            for o in ({"min": tol}, {"min": tol, "scale": 3.0, "gap": 0.25}, {"min": tol, "scale": 0.1}):
                for k in ("form", "topo"):
                    yield dict(b, o=o, k=k)
    for b in SHORT:
        for k in ("form", "topo"):
            yield dict(b, o={}, k=k)
    for b, k in CUT:
        for o in ({}, {"nodes": "rest", "scale": 0.5}, {"min": 1.2}):
            yield dict(b, o=o, k="form", kmax=k)
    for b in SMALL:
        for o in ({}, {"min": 1e-4}, {"min": 0.01}, {"scale": 0.01}, {"scale": 1e3, "gap": 0.5}):
            for k in ("form", "topo"):
                yield dict(b, o=o, k=k)
    for b in BASES:
        for o in opts(GH, depth):
            yield dict(b, o=o, k="form")
            for m in ("built", "bare", "aux"):
                yield dict(b if m == "built" else bare(b), o=o, k="topo", m=m)
    for c in spec.cases(structs):
        for k in ("form", "topo"):
            yield dict(c, o={}, k=k)
            yield dict(c, o={"nodes": "rest", "edges": "even", "gap": 0.25, "scale": 2.0}, k=k)


def view_cases(depth, structs):
    for b in SHARP:
        for tol in (0.25, 0.5, 2.0):
            for o in ({"loadtol": tol}, {"loadtol": tol, "loadscale": 3.0}):
                for k in ("form", "topo"):
                    yield dict(b, o=o, k=k)
    for b in SHORT:
        for o in ({}, dict(LABELS, edges="even"), {"edgewidth": [0.01, 0.3]}):
            for k in ("form", "topo"):
                yield dict(b, o=o, k=k)
    for b, k in CUT:
        for o in ({}, {"nodes": "rest", "edgetext": "forcelength", "show_edgetext": True}, {"edgewidth": [0.01, 0.3]}):
            yield dict(b, o=o, k="form", kmax=k)
    for b, o in small_cases("view"):
        for k in ("form", "topo"):
            yield dict(b, o=o, k=k)
    for b in BASES:
        for o in opts(VIEW, depth):
            yield dict(b, o=o, k="form")
        for o in opts(dict(VIEW, edgetext=VIEW["edgetext"] + ["state", "forcelengthstate"]), depth, ("residualscale", "residualtol", "show_residuals")):
            for m in ("built", "bare", "aux"):
                if m != "built" and len(o) > 2:
                    continue
                yield dict(b if m == "built" else bare(b), o=o, k="topo", m=m)
    for c in spec.cases(structs):
        for k in ("form", "topo"):
            yield dict(c, o={}, k=k)


def spaces(tier):
    eq.engines()
    q = tier == "quick"
    small = [((2, 1), "brac", 1, WHAT), ((1, 1), "ring", 1, WHAT), ((2, 2), "ten", 1, WHAT), ((3,), "plain", 1, WHAT)]
    big = small + [((3, 2), "brac", 1, WHAT), ((2, 2, 1), "ring", 1, WHAT)]
    st = small if q else big
    n = 2 if q else 3
    return [Space("plot-form", lambda: form_cases(n, st), kept(plot_form), "2 forms (and with a forceless edge) x all drawing options with up to {} departures, and all structures with up to one departure x 2 option sets".format(n)),
            Space("plot-topology", lambda: topo_cases(n, st), kept(plot_topology), "2 topologies x built/bare/auxiliary x all drawing options with up to {} departures, and structures x 2 option sets".format(n)),
            Space("grasshopper", lambda: gh_cases(2, st), kept(gh), "forms and topologies x all drawing options with up to 2 departures, and structures x 2 option sets"),
            Space("viewer", lambda: view_cases(2, st), kept(view), "forms and topologies x all drawing options with up to 2 departures, and structures"),
            Space("pairs", pair_cases, kept(pair), "all ordered pairs of (form or topology) x 3 structures x 3 option sets drawn on one canvas, plotter and viewer")]
