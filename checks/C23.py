"""C23: the Grasshopper components do what the library does, and leave their inputs alone.

Every component of the plugin runs in recording stand-ins of its host (mc/host.py): all input
combinations over small alphabets (nothing, zero, ordinary values), all assemblies of small
structures, all short sequences of proxy and optimization runs.
"""
import itertools
import json
import os
import shutil
import tempfile

from mc import eq, host, obs, opt, pen, prob, spec, vec  # noqa: F401
from mc.core import Space

ASSUMPTIONS = ["Grasshopper, Rhino geometry and the RPC server are recording stand-ins; remote calls travel as JSON",
               "zero given for a solver setting or a drawing tolerance or scale is not judged", "the order of the nodes of an assembled diagram is not judged"]

G = host.Geo
LINE = [[0.5, 0.0, -1.0], [2.0, 1.0, 0.25]]
PLANE = [[0.0, 0.5, -3.0], [0.0, 0.6, 0.8]]
POLY = [[2.0, 0.0, 0.0], [2.0, 1.0, -1.0], [3.0, 1.0, -2.0]]
VEC = [0.25, -0.5, 2.0]
ZERO = [0.0, 0.0, 0.0]
NUM = [None, -1.5, 0.0, 2.25]


def floats(x):
    if isinstance(x, (int, float)):
        return float(x)
    return [floats(c) for c in x]


def key(k):
    return tuple(k) if isinstance(k, (list, tuple)) else k


# ------------------------------------------------------------------------------------------
# elements, loads, supports, constraints, parameters
# ------------------------------------------------------------------------------------------

CON = {"ConstraintDeviationEdgeLength": ("len", "edge_key", "length", None), "ConstraintTrailEdgeForce": ("force", "edge_key", "force", None),
       "ConstraintEdgeDirection": ("dir", "edge_key", "vector", "vector"), "ConstraintNodeLine": ("line", "node_key", "line", "line"),
       "ConstraintNodePlane": ("plane", "node_key", "plane", "plane"), "ConstraintNodePoint": ("point", "node_key", "point", "point"),
       "ConstraintNodePolyline": ("polyline", "node_key", "polyline", "polyline"), "ConstraintReactionForce": ("reac", "node_key", "vector", "vector")}
PAR = {"ParameterDeviationEdge": "F", "ParameterTrailEdge": "L", "ParameterNodeLoadX": "qx", "ParameterNodeLoadY": "qy", "ParameterNodeLoadZ": "qz",
       "ParameterNodeOriginX": "x", "ParameterNodeOriginY": "y", "ParameterNodeOriginZ": "z"}
TARGETS = {"line": [LINE], "plane": [PLANE, [ZERO, [1.0, 0.0, 0.0]]], "point": [VEC, ZERO], "polyline": [POLY], "vector": [VEC, ZERO]}
NK, EK = [None, 0, 7, 100000], [None, [0, 1], [12, 3]]


def cases_values():
    for name in sorted(CON):
        kind, k, t, geo = CON[name]
        for kk, tg, w in itertools.product(EK if k == "edge_key" else NK, [None] + TARGETS[geo] if geo else NUM, [None, 0.0, 1.0, 0.5, 1000.0]):
            yield {"c": name, "k": kk, "t": tg, "w": w}
    for name in sorted(PAR):
        for kk, lo, up in itertools.product(EK if PAR[name] in "FL" else NK, [None, 0.0, 1.25], [None, 0.0, 3.0]):
            yield {"c": name, "k": kk, "lo": lo, "up": up}
    for ln in (None, LINE, [LINE[1], LINE[0]]):
        for v in NUM:
            yield {"c": "EdgeDeviation", "l": ln, "v": v}
            for pl in (None, PLANE):
                yield {"c": "EdgeTrail", "l": ln, "v": v, "p": pl}
    for p in (None, VEC, ZERO):
        yield {"c": "NodeSupport", "p": p}
        for v in (None, VEC, ZERO, [0.0, 0.0, -1e-4]):
            yield {"c": "NodeLoad", "p": p, "v": v}
    yield {"c": "ArtistColors"}
    yield {"c": "Info"}


def geo(kind, data):
    return None if data is None else G(kind, data)


def written(x):
    from compas.data import json_dumps
    return json.loads(json_dumps(x.data))


def evaluate_values(case, ctx):
    from compas_cem import COLORS
    c = host.component(case["c"])
    ctx.state(case)
    ctx.trace()
    ctx.step()
    n = case["c"]
    if n in CON:
        kind, k, t, gk = CON[n]
        out = c(**{k: key(case["k"]), t: geo(gk, case["t"]) if gk else case["t"], "weight": case["w"]})["constraint"]
        if case["k"] is None or case["t"] is None:
            return None if out is None else "a constraint came out of incomplete input"
        if type(out).__name__ != pen.CCLS[kind]:
            return "{} instead of {}".format(type(out).__name__, pen.CCLS[kind])
        ks = case["k"] if isinstance(case["k"], list) else [case["k"]]
        lib = pen.make_constraint([kind, case["k"], case["t"], 1.0 if case["w"] is None else case["w"]], {x: x for x in ks})
        return None if written(out) == written(lib) else "{} instead of {}".format(written(out), written(lib))
    if n in PAR:
        out = c(**{"edge_key" if PAR[n] in "FL" else "node_key": key(case["k"]), "bound_low": case["lo"], "bound_up": case["up"]})["parameter"]
        if case["k"] is None:
            return None if out is None else "a parameter came out of no key"
        if type(out).__name__ != pen.PCLS[PAR[n]]:
            return "{} instead of {}".format(type(out).__name__, pen.PCLS[PAR[n]])
        lib = getattr(pen.engine(), pen.PCLS[PAR[n]])(key(case["k"]), case["lo"], case["up"])
        return None if written(out) == written(lib) else "{} instead of {}".format(written(out), written(lib))
    if n in ("EdgeTrail", "EdgeDeviation"):
        trail = n == "EdgeTrail"
        kw = {"line": geo("line", case["l"]), "length" if trail else "force": case["v"]}
        if trail:
            kw["plane"] = geo("plane", case["p"])
        out = c(**kw)["trail_edge" if trail else "deviation_edge"]
        if case["l"] is None or case["v"] is None:
            return None if out is None else "an edge came out of incomplete input"
        from compas_cem.diagrams import TopologyDiagram
        t = TopologyDiagram()
        t.add_edge(out)
        (e,) = list(t.edges())
        ends = [floats(t.node_coordinates(x)) for x in e]
        got = [ends, t.edge_attribute(e, "type"), float(t.edge_length_2(e) if trail else t.edge_force(e)), obs.plane_data(t.edge_plane(e)) if trail else None]
        want = [case["l"], "trail" if trail else "deviation", case["v"], case.get("p")]
        return None if got == want else "the edge holds {} instead of {}".format(got, want)
    if n in ("NodeSupport", "NodeLoad"):
        from compas_cem.diagrams import TopologyDiagram
        from compas_cem.elements import Node
        load = n == "NodeLoad"
        out = c(**dict({"point": geo("point", case["p"])}, **({"vector": geo("vector", case["v"])} if load else {})))["node_load" if load else "node_support"]
        if case["p"] is None or (load and case["v"] is None):
            return None if out is None else "something came out of incomplete input"
        t = TopologyDiagram()
        t.add_node(Node(5, [9.0, 9.0, 9.0]))
        t.add_node(Node(4, list(case["p"])))
        if load:
            t.add_load(out)
            got, want = {k: floats(t.node_load(k)) for k in (4, 5)}, {4: case["v"], 5: ZERO}
        else:
            t.add_support(out)
            got, want = list(t.support_nodes()), [4]
        return None if got == want else "{} instead of {}".format(got, want)
    if n == "ArtistColors":
        names = {k: {"reaction": "support_force"}.get(k[6:], k[6:]) for k in c.outputs}
        out = c()
        bad = [k for k in out if tuple(out[k]) != tuple(COLORS[names[k]])]
        return "wrong colours: {}".format(bad) if bad else None
    import compas_cem
    if compas_cem.__version__ not in c()["info"]:
        return "the version is not given"


# ------------------------------------------------------------------------------------------
# assembling a diagram
# ------------------------------------------------------------------------------------------

ASM = [("std", None), ("rev", None), ("holes", None)]


def cases_assembly(structs):
    for c in spec.cases(structs):
        for o in ("std", "rev", "holes"):
            for aux in (None, False, True):
                for drop in ("", "s", "t", "d", "l", "ts", "dl"):
                    if drop and (len(c["d"]) > 0 or o == "rev"):
                        continue
                    yield dict(c, o=o, x=aux, r=drop)


def unit(pl):
    return pl and [floats(pl[0]), [round(c, 12) for c in vec.unit(pl[1])]]


def assemble(s, order, aux, drop):
    comp = host.component
    flips = [tuple(f) for f in s["flips"]]

    def line(u, v):
        u, v = (v, u) if (u, v) in flips else (u, v)
        return G("line", [list(s["xyz"][u]), list(s["xyz"][v])])
    te = [comp("EdgeTrail")(line=line(u, v), length=ln, plane=geo("plane", pl))["trail_edge"] for u, v, ln, pl in s["tedges"]]
    de = [comp("EdgeDeviation")(line=line(u, v), force=f)["deviation_edge"] for u, v, f in s["devs"]]
    lo = [comp("NodeLoad")(point=G("point", list(s["xyz"][a])), vector=G("vector", list(q)))["node_load"] for a, q in sorted(s["loads"].items())]
    su = [comp("NodeSupport")(point=G("point", list(s["xyz"][t[-1]])))["node_support"] for t in s["trails"]]
    lists = {"t": te, "d": de, "l": lo, "s": su}
    for k in lists:
        if k in drop:
            lists[k] = [] if k in "ts" else None
        elif order == "rev":
            lists[k].reverse()
        elif order == "holes":
            lists[k] = [None] + lists[k] + [None]
    return comp("TopologyDiagram")(trail_edges=lists["t"], deviation_edges=lists["d"], loads=lists["l"], supports=lists["s"], add_auxiliary_trails=aux)["topology"]


def evaluate_assembly(case, ctx):
    s = spec.expand(case)
    if len({tuple(p) for p in s["xyz"].values()}) < len(s["xyz"]):
        return  # coordinates identify nodes here
    ctx.state(case)
    ctx.trace()
    drop = case["r"]
    have = set()
    if "t" not in drop:
        have |= {a for e in s["tedges"] for a in e[:2]}
    if "d" not in drop:
        have |= {a for e in s["devs"] for a in e[:2]}
    need = (set() if "l" in drop else set(s["loads"])) | (set() if "s" in drop else {t[-1] for t in s["trails"]})
    if not have >= need or not have:
        # loads or supports without a node
        if not case["x"] and have and refused(lambda: assemble(s, case["o"], case["x"], drop)) is not None:
            return "a load or support without a node was left out without notice"
        return ctx.outcome("refused")
    trails = "t" not in drop and "s" not in drop
    if "t" not in drop and "s" in drop and case["x"]:
        return  # trails without supports
    try:
        t = assemble(s, case["o"], case["x"], drop)
    except ValueError:
        if trails and not case["x"] and any(n not in {x for e in s["tedges"] for x in e[:2]} for n in have):
            ctx.outcome("refused")
            return
        raise
    ctx.step()
    at = {tuple(p): a for a, p in s["xyz"].items()}
    lab = {n: at.get(tuple(floats(t.node_coordinates(n)))) for n in t.nodes()}
    aux = {n for tr in t.auxiliary_trails() for n in list(tr)[1:]} if (case["x"] and t.has_trails()) else set()
    got = sorted(lab[n] for n in lab if n not in aux) if None not in [lab[n] for n in lab if n not in aux] else None
    if got != sorted(have):
        return "nodes at {}, expected {}".format([lab[n] for n in lab], sorted(have))
    flips = [tuple(f) for f in s["flips"]]
    o = lambda u, v: (v, u) if (u, v) in flips else (u, v)  # noqa: E731
    want = {}
    if "t" not in drop:
        want.update({o(u, v): ["trail", ln, unit(pl)] for u, v, ln, pl in s["tedges"]})
    if "d" not in drop:
        want.update({o(u, v): ["deviation", f, None] for u, v, f in s["devs"]})
    got = {}
    for e in t.edges():
        if e[0] in aux or e[1] in aux:
            continue
        ty = t.edge_attribute(e, "type")
        got[lab[e[0]], lab[e[1]]] = [ty, float(t.edge_length_2(e) if ty == "trail" else t.edge_force(e)), unit(obs.plane_data(t.edge_plane(e))) if ty == "trail" else None]
    if got != want:
        return "edges {} instead of {}".format(got, want)
    gl = {lab[n]: floats(t.node_load(n)) for n in lab if n not in aux}
    wl = {a: ([float(q) for q in s["loads"][a]] if a in s["loads"] and "l" not in drop else ZERO) for a in have}
    if gl != wl:
        return "loads {} instead of {}".format(gl, wl)
    gs = sorted(lab[n] for n in t.support_nodes() if n not in aux)
    if gs != (sorted(tr[-1] for tr in s["trails"]) if "s" not in drop else []):
        return "supports {}".format(gs)
    free = have - {x for tr in s["trails"] for x in tr} if trails else set(have)
    if trails:
        gt = sorted([lab[n] for n in tr] for tr in t.trails() if not (set(tr) & aux))
        if gt != sorted(list(tr) for tr in s["trails"]):
            return "trails {} instead of {}".format(gt, s["trails"])
    elif not case["x"] and t.has_trails():
        return "trails without trail edges or supports"
    wa = len(free) if case["x"] and (trails or ("d" not in drop and "t" in drop)) else 0
    if (t.number_of_auxiliary_trails() if t.has_trails() else 0) != wa:
        return "{} auxiliary trails instead of {}".format(t.number_of_auxiliary_trails(), wa)


# ------------------------------------------------------------------------------------------
# components that work on a diagram
# ------------------------------------------------------------------------------------------

WHAT = ("len", "load", "flip", "shift", "key", "ord", "org")


def topo(case):
    s = spec.expand(case)
    t, km = spec.build(s)
    return s, t, km


def cases_edit(structs, nseq, npt):
    for c in spec.cases(structs):
        n = len(c["L"])
        for r in range(0, n + 1):
            for sel in itertools.permutations(range(n), r):
                for m in range(0, nseq + 1):
                    for seqs in itertools.product([0, 1, 3], repeat=m):
                        yield dict(c, e="TrailsShift", sel=list(sel), v=list(seqs))
                for m in range(0, npt + 1):
                    yield dict(c, e="OriginNodesMove", sel=list(sel), v=list(range(m)))
        every = [[i, j] for i, e in enumerate(c["L"]) for j in range(e + 1)]
        for r in (1, 2):
            for sel in itertools.permutations(every, r):
                if any(j for _, j in sel):
                    for m in range(1, r + 1):
                        yield dict(c, e="OriginNodesMove", sel=[list(x) for x in sel], v=list(range(m)))


MOVES = [[7.0, -3.0, 0.5], [-5.0, 4.0, 1.5], [0.0, 9.0, -2.0]]


def evaluate_edit(case, ctx):
    s, t, km = topo(case)
    before = obs.observe(t)
    ctx.state(case)
    ctx.trace()
    ctx.step()
    sel = [s["trails"][i][0] if isinstance(i, int) else s["trails"][i[0]][i[1]] for i in case["sel"]]
    org = [km[a] for a in sel]
    move = case["e"] == "OriginNodesMove"
    vals = [G("point", MOVES[i]) for i in case["v"]] if move else list(case["v"])
    out = host.component(case["e"])(topology=t, origin_node_keys=list(org), **{"points" if move else "sequences": vals})["topology"]
    d = obs.diff(before, obs.observe(t))
    if d:
        return "the input diagram changed: " + d
    if not org or not vals:
        return None if out is None else "a diagram came out of incomplete input"
    if out is t:
        return "the input diagram itself was returned"
    full = list(case["v"]) + [case["v"][-1]] * len(org)
    if move:
        s2 = dict(s, xyz={a: list(p) for a, p in s["xyz"].items()})
        for a, v in zip(sel, full):
            s2["xyz"][a] = list(MOVES[v])
        if len({tuple(p) for p in s2["xyz"].values()}) < len(s2["xyz"]):
            # origins in one place: the look-up by coordinates is ambiguous
            got = {a: floats(out.node_coordinates(k)) for a, k in km.items()}
            return None if got == {a: floats(p) for a, p in s2["xyz"].items()} else "positions {}".format(got)
    else:
        s2 = dict(s, shift=dict(s["shift"]))
        for i, v in zip(case["sel"], full):
            s2["shift"][i] = v
    want, _ = spec.build(s2)
    d = obs.diff(obs.observe(want), obs.observe(out))
    return "the result differs from the edited diagram: " + d if d else None


FFK = {"kmax": [None, 0, 1, 2], "tmax": [None, 1, 2, 30], "eta": [None, 1e-3, 1e-9]}


def cases_find(structs):
    for c in spec.cases(structs):
        for k, t, e in itertools.product(*[FFK[n] for n in ("kmax", "tmax", "eta")]):
            if len(c["d"]) and [k, t, e].count(None) < 2:
                continue
            yield dict(c, kmax=k, tmax=t, eta=e)


def refused(f):
    try:
        return f()
    except ValueError:
        return None


def evaluate_find(case, ctx):
    from compas_cem.equilibrium import static_equilibrium
    s, t, km = topo(case)
    before = obs.observe(t)
    ctx.state(case)
    ctx.trace()
    ctx.step()
    if host.component("FormFinding")()["form"] is not None:
        return "a form came out of nothing"
    form = refused(lambda: host.component("FormFinding")(topology=t, **{k: case[k] for k in FFK})["form"])
    d = obs.diff(before, obs.observe(t))
    if d:
        return "the input diagram changed: " + d
    t2, _ = spec.build(s)
    want = refused(lambda: static_equilibrium(t2, kmax=case["kmax"], tmax=case["tmax"] or 100, eta=case["eta"] or 1e-6))
    if form is None or want is None:
        return None if form is want else "form {}, expected {}".format(form, want)
    a, b = spec.form_view(form, km), spec.form_view(want, km)
    if a != b:
        return "the form differs from the one of the library"
    # the listings of a form
    r = host.component("ResultsEdges")(form=form, edge_keys=None)
    edges = list(form.edges())
    near = lambda x, y: abs(x - y) <= 1e-9 * (1 + abs(y))  # noqa: E731
    for sel in (edges, edges[:1], edges[::-1], edges[1::2]):
        r = host.component("ResultsEdges")(form=form, edge_keys=list(sel) if sel is not edges else [])
        sel = sel or edges
        w = [[float(form.edge_length_2(e)) for e in sel], [float(form.edge_force(e)) for e in sel]]
        ends = [vec.dist(floats(form.node_coordinates(u)), floats(form.node_coordinates(v))) for u, v in sel]
        if [floats(r["lengths"]), floats(r["forces"])] != w:
            return "results {} instead of {}".format(r, w)
        if case["kmax"] is None and not all(near(abs(x), y) for x, y in zip(w[0], ends)):
            return "lengths {} instead of {}".format(w[0], ends)
    sup = list(form.support_nodes())
    for sel in (sup, sup[:1], sup[::-1]):
        r = host.component("ResultsSupportNodes")(form=form, node=list(sel) if sel is not sup else [])["reaction_forces"]
        if [floats(p[1]) for p in r] != [b["reac"][{k: a for a, k in km.items()}[n]] for n in sel]:
            return "reaction forces {}".format(r)
    o = host.component("DisassembleForm")(form=form)
    if o["node_keys"] != list(form.nodes()) or sorted(o["support_node_keys"]) != sorted(km[x[-1]] for x in s["trails"]) or o["edge_keys"] != edges:
        return "the form comes apart into {}".format(o)


def with_auxiliary(s):
    """The listings of a diagram with auxiliary trails."""
    from compas_cem.elements import DeviationEdge, Node
    t, km = spec.build(s, trails=False)
    k0 = max(km.values())
    for i in (1, 2):
        t.add_node(Node(k0 + i, [20.0 + i, 0.5, 3.0]))
        t.add_edge(DeviationEdge(k0 + i, km[0], force=0.25 * i))
    t.build_trails(auxiliary_trails=True)
    have = set(km.values()) | {k0 + 1, k0 + 2}
    new = [n for n in t.nodes() if n not in have]
    pairs = sorted((u, v) if v in new else (v, u) for u, v in t.edges() if u in new or v in new)
    if sorted(p[0] for p in pairs) != [k0 + 1, k0 + 2]:
        return "auxiliary trails {}".format(pairs)
    o = host.component("DisassembleTopology")(topology=t)
    trails = [tuple(km[a] for a in x) for x in s["trails"]] + pairs
    want = {"node_keys": list(t.nodes()), "origin_node_keys": [x[0] for x in trails], "support_node_keys": [x[-1] for x in trails], "edge_keys": list(t.edges()),
            "trail_keys": trails, "auxiliary_trail_keys": pairs, "trail_edge_keys": [e for e in t.edges() if t.edge_attribute(e, "type") == "trail"],
            "deviation_edge_keys": [e for e in t.edges() if t.edge_attribute(e, "type") != "trail"]}
    for k in want:
        if sorted(map(key, o[k])) != sorted(map(key, want[k])):
            return "with auxiliary trails, {}: {} instead of {}".format(k, o[k], want[k])


def evaluate_parts(case, ctx):
    s, t, km = topo(case)
    before = obs.observe(t)
    ctx.state(case)
    ctx.trace()
    o = host.component("DisassembleTopology")(topology=t)
    ctx.step()
    m = with_auxiliary(s)
    if m:
        return m
    want = {"node_keys": list(km.values()), "origin_node_keys": [km[x[0]] for x in s["trails"]], "support_node_keys": [km[x[-1]] for x in s["trails"]],
            "edge_keys": list(t.edges()), "trail_edge_keys": list(t.trail_edges()), "deviation_edge_keys": list(t.deviation_edges()),
            "trail_keys": [[km[a] for a in x] for x in s["trails"]], "auxiliary_trail_keys": []}
    for k in want:
        if sorted(map(key, o[k])) != sorted(map(key, want[k])):
            return "{}: {} instead of {}".format(k, o[k], want[k])
    # sequences: the nodes by their distance from the origin plus the shift
    seq = {}
    for i, x in enumerate(s["trails"]):
        for j, a in enumerate(x):
            seq.setdefault(j + s["shift"].get(i, 0), set()).add(km[a])
    got = [set(q) for q in o["sequence_keys"]]
    if [q for q in got if q] != [seq[k] for k in sorted(seq)]:
        return "sequences {} instead of {}".format(o["sequence_keys"], seq)
    # search by geometry
    pts = list(s["xyz"].values())
    for dx in (0.0, 1e-5):
        for a, p in s["xyz"].items():
            if pts.count(p) > 1 or (dx and any(abs((1000 * c) % 1.0 - 0.5) < 0.1 for c in p)):
                continue  # shared or at a rounding boundary of the look-up
            k = host.component("SearchNodeKey")(diagram=t, point=G("point", [p[0] + dx, p[1], p[2] - dx]))["node_key"]
            if k != km[a]:
                return "node {} found for {} at {}".format(k, km[a], p)
    at = {k: a for a, k in km.items()}
    for u, v in t.edges():
        p, q = s["xyz"][at[u]], s["xyz"][at[v]]
        if pts.count(p) > 1 or pts.count(q) > 1:
            continue
        k = host.component("SearchEdgeKey")(diagram=t, line=G("line", [p, q]))["edge_key"]
        if [key(x) for x in k] != [(u, v)]:
            return "edge {} found for {}".format(k, (u, v))
    # files
    form = refused(lambda: eq.engines()["py"](t, tmax=200))
    folder = tempfile.mkdtemp(prefix="c23_")
    try:
        for d, name in ((t, "Topology"), (form, "Form"), (t.copy(), "Topology"), (form and form.copy(), "Form")):
            if d is None:
                continue
            if d is not t and d is not form:
                d.tol = "1f"
            path = os.path.join(folder, "x.json")
            was = obs.observe(d, False)
            data = host.component("JSONExportDiagram")(diagram=d, filepath=path)["data"]
            ctx.step()
            back = host.component("JSONImport" + name)(filepath=path)[name.lower()]
            m = None
            for x in (back, d, type(d).from_data(data)):
                m = m or obs.diff(was, obs.observe(x, False))
            if m:
                return "{} written and read: {}".format(name, m)
    finally:
        shutil.rmtree(folder)
    d = obs.diff(before, obs.observe(t))
    if d:
        return "the input diagram changed: " + d


# ------------------------------------------------------------------------------------------
# artists as components
# ------------------------------------------------------------------------------------------

PICK = {"all": lambda x: [], "first": lambda x: x[:1], "rest": lambda x: x[1:], "rev": lambda x: x[::-1], "even": lambda x: x[::2]}


def cases_draw(structs):
    for c in spec.cases(structs):
        for k in ("Form", "Topology"):
            for n, e in itertools.product(sorted(PICK), repeat=2):
                for fm, fs in ((None, None), (1.6, None), (None, 2.5), (1.6, 2.5), (0.6, 10.0), (2.4, 0.25)):
                    if c["d"] and (fm or fs or (n, e) not in (("all", "all"), ("rest", "even"))):
                        continue
                    yield dict(c, k=k, n=n, e=e, fm=fm, fs=fs)
    for k in ("Form", "Topology"):  # faint loads
        for d in ([["load", 0, [5e-5, 0.0, 0.0]]], [["load", 0, [0.0, 0.0, -2e-6]], ["load", 1, "zero"]], [["load", 0, [0.0, 3e-4, 4e-4]], ["load", 1, "zero"]]):
            for fm, fs in itertools.product((None, 1e-3, 1e-4, 1e-5, 1e-6), (None, 1e4)):
                yield {"L": [1], "B": "axis", "d": d, "k": k, "n": "all", "e": "all", "fm": fm, "fs": fs}


def evaluate_draw(case, ctx):
    s, t, km = topo(case)
    d = t if case["k"] == "Topology" else refused(lambda: eq.engines()["py"](t, tmax=200))
    if d is None:
        return
    ctx.state(case)
    ctx.trace()
    nodes, edges = PICK[case["n"]](list(d.nodes())), PICK[case["e"]](list(d.edges()))
    out = host.component("Artist" + case["k"])(**{case["k"].lower(): d, "node_keys": list(nodes), "edge_keys": list(edges), "force_min": case["fm"], "force_scale": case["fs"]})
    ctx.step()
    nodes, edges = nodes or list(d.nodes()), edges or list(d.edges())
    xyz = {n: floats(d.node_coordinates(n)) for n in d.nodes()}
    sup = {km[x[-1]] for x in s["trails"]}
    pt = lambda ns: [("point", xyz[n]) for n in ns]  # noqa: E731
    ln = lambda es: [("line", xyz[u], xyz[v]) for u, v in es]  # noqa: E731
    want = {"nodes": pt(nodes), "support_nodes": pt([n for n in nodes if n in sup]), "edges": ln(edges)}
    if case["k"] == "Topology":
        org = {km[x[0]] for x in s["trails"]}
        at = {k: a for a, k in km.items()}
        isT = lambda e: sorted(at[n] for n in e) in [sorted(x[:2]) for x in s["tedges"]]  # noqa: E731
        want.update({"origin_nodes": pt([n for n in nodes if n in org]), "trail_edges": ln([e for e in edges if isT(e)]), "deviation_edges": ln([e for e in edges if not isT(e)])})
        tr = [("polyline", [xyz[km[a]] for a in x]) for x in s["trails"]]
        if sorted(("polyline", floats(p[1])) for p in out["trails"]) != sorted(tr):
            return "trails drawn as {}".format(out["trails"])
    for k in want:
        if sorted((x[0],) + tuple(floats(y) for y in x[1:]) for x in out[k] or []) != sorted(want[k]):
            return "{}: {} drawn instead of {}".format(k, out[k], want[k])
    force = {"loads": {n: floats(d.node_load(n)) for n in nodes}}
    if case["k"] == "Form":
        force["reactions"] = {n: floats(d.reaction_force(n)) for n in nodes}
    fm, fs = case["fm"] or 1e-3, case["fs"] or 1.0
    for k in force:
        if any(abs(vec.norm(q) - fm) < 1e-3 * fm for q in force[k].values()):
            continue
        w = {n: q for n, q in force[k].items() if vec.norm(q) > fm}
        got = [(floats(x[1]), floats(x[2])) for x in out[k] or []]
        if len(got) != len(w):
            return "{} {} drawn instead of {}".format(len(got), k, len(w))
        for n, q in w.items():
            a = [g for g in got if vec.dist(vec.sub(g[1], g[0]), vec.mul(q, fs)) < 1e-6 * (1 + vec.norm(q)) and min(vec.dist(g[0], xyz[n]), vec.dist(g[1], xyz[n])) < 1e-6 * (1 + vec.norm(xyz[n]))]
            if not a:
                return "{} of node {} not drawn: {} at {} in {}".format(k, n, q, xyz[n], got)


# ------------------------------------------------------------------------------------------
# remote optimization
# ------------------------------------------------------------------------------------------

PROBS = {
    "one": ({"L": [1], "B": "axis", "d": [["load", 0, "side"]]}, [["L", [0, 1], 0.5, 0.75]], [["point", 1, [1.0, 0.5, -2.0], 1.0]]),
    "ring": ({"L": [1, 1], "B": "ring", "d": []}, [["F", [0, 2], 1.0, 0.5], ["qx", 0, None, 0.25], ["z", 2, 0.5, 0.5]],
             [["point", 1, [0.25, 0.5, -2.0], 2.5], ["force", [2, 3], -1.5, 0.5], ["dir", [0, 1], [0.0, 0.25, -1.0], 3.0], ["reac", 3, [0.0, 0.5, 3.0], 1.0]]),
    "brac": ({"L": [2, 1], "B": "brac", "d": [["key", None, "gap"]]}, [["qz", 4, 0.5, None], ["qy", 1, 0.5, 0.5], ["x", 0, 1.0, 1.0], ["y", 3, 0.25, None], ["L", [0, 1], 0.25, 0.25]],
             [["len", [0, 3], 1.5, 2.0], ["line", 2, [[0.0, 0.0, 0.0], [0.0, 0.5, -1.0]], 1.0], ["polyline", 4, POLY, 0.5], ["plane", 2, [[0.0, 0.0, -2.0], [0.0, 0.6, 0.8]], 0.25]]),
}
SET = {"algorithm": [None, "SLSQP", "LBFGS", "MMA", "VAR"], "iters_max": [None, 1, 3], "eps": [None, 0.5, 1e-2, 1e-15], "kappa": [None, 0.5, 1e-3, 1e-16], "tmax": [None, 1, 2], "eta": [None, 1e-2, 1e-13]}
DEF = {"algorithm": "SLSQP", "iters_max": 100, "eps": 1e-6, "kappa": 1e-8, "tmax": 100, "eta": 1e-6}
KCOMP = {v[0]: k for k, v in CON.items()}
PCOMP = {v: k for k, v in PAR.items()}


def cases_solve(depth):
    for p in sorted(PROBS):
        names = sorted(SET)
        for r in range(depth + 1):
            for ns in itertools.combinations(names, r):
                for vs in itertools.product(*[SET[n][1:] for n in ns]):
                    for st in (False, True):
                        if st and r > 1:
                            continue
                        yield {"P": p, "kw": dict(zip(ns, vs)), "st": st, "holes": r == 0}


def inputs(params, cons, km):
    cs = []
    for kind, k, tg, w in cons:
        name = KCOMP[kind]
        _, ki, ti, gk = CON[name]
        cs.append(host.component(name)(**{ki: pen.kkey(k, km), ti: geo(gk, tg) if gk else tg, "weight": w})["constraint"])
    ps = [host.component(PCOMP[k[0]])(**{"edge_key" if k[0] in "FL" else "node_key": pen.kkey(k[1], km), "bound_low": k[2], "bound_up": k[3]})["parameter"] for k in params]
    return cs, ps


def evaluate_solve(case, ctx):
    sticky = _sticky()
    S, params, cons = PROBS[case["P"]]
    s = spec.expand(S)
    t, km = spec.build(s)
    ctx.state(case)
    ctx.trace()
    cs, ps = inputs(params, cons, km)
    before = obs.observe(t)
    if case["st"]:
        host.component("Proxy")(start=True, stop=False)
    host.Proxy.log[:] = []
    hole = [None] if case["holes"] else []
    f = host.component("ConstrainedFormFinding")
    for skip in ("solve", "topology", "constraints", "parameters") if case["holes"] else ():
        kw = {"solve": True, "topology": t, "constraints": list(cs), "parameters": list(ps)}
        kw[skip] = None if skip in ("solve", "topology") else []
        out = f(**kw)
        if any(v is not None for v in out.values()) or host.Proxy.log:
            return "something was done without {}".format(skip)
    with opt.scripted(None) as log:
        out = refused(lambda: f(solve=True, topology=t, constraints=hole + cs + hole, parameters=hole + ps + hole, **case["kw"]))
    ctx.step()
    sticky.clear()
    d = obs.diff(before, obs.observe(t))
    if d:
        return "the input diagram changed: " + d
    kw = dict(DEF, **case["kw"])
    if out is not None and len(log) != 1:
        return "{} problems posed".format(len(log))
    o = prob.optimizer(params, cons, km)
    t2, _ = spec.build(s)
    with opt.scripted(None) as log2:
        form = refused(lambda: o.solve(t2, algorithm=kw["algorithm"], iters=kw["iters_max"], eps=kw["eps"], kappa=kw["kappa"], tmax=kw["tmax"], eta=kw["eta"]))
    if out is None or form is None:
        ctx.outcome("refused")
        return None if out is form else "the component and the library disagree on refusing the problem"
    for a in ("alg", "maxeval", "stopval", "ftol_abs"):
        if getattr(log[0], a) != getattr(log2[0], a):
            return "the solver got {} = {} instead of {}".format(a, getattr(log[0], a), getattr(log2[0], a))
    near = lambda a, b: abs(a - b) <= 1e-9 * (1 + abs(b))  # noqa: E731
    want = [float(o.penalty), float(o.gradient_norm), int(o.evals)]
    got = [float(out["objective"]), float(out["grad_norm"]), int(out["iters"])]
    if not all(near(a, b) for a, b in zip(got, want)) or out["status"] != o.status:
        return "result {} {} instead of {} {}".format(got, out["status"], want, o.status)
    if not (isinstance(out["time"], (int, float)) and 0 <= out["time"] < 1e6):
        return "time {}".format(out["time"])
    a, b = spec.form_view(out["form"], km), spec.form_view(form, km)
    m = eq.compare_views(a, b, 1e-7, 1e-7)
    if m:
        return "form: {}".format(m)
    ta, tb = obs.observe(out["topology"]), obs.observe(t2)
    for k in ta:
        if k in ("xyz", "node_xyz", "load", "force", "length"):
            for x in tb[k]:
                for p, q in zip([ta[k][x]] if isinstance(ta[k][x], float) else ta[k][x], [tb[k][x]] if isinstance(tb[k][x], float) else tb[k][x]):
                    if not near(p, q):
                        return "topology {}[{}] is {} instead of {}".format(k, x, ta[k][x], tb[k][x])
        elif k != "reac" and ta[k] != tb[k]:
            return "topology {}: {} instead of {}".format(k, ta[k], tb[k])


def _sticky():
    host.grasshopper()
    import scriptcontext
    scriptcontext.sticky.clear()
    host.Proxy.log[:] = []
    return scriptcontext.sticky


def cases_proxy(depth):
    for r in range(1, depth + 1):
        for h in itertools.product(["start", "stop", "both", "idle", "solve", "off"], repeat=r):
            yield list(h)


def evaluate_proxy(case, ctx):
    from compas_cem import PROXY_PORT
    sticky = _sticky()
    S, params, cons = PROBS["one"]
    t, km = spec.build(spec.expand(S))
    cs, ps = inputs(params, cons, km)
    ctx.trace()
    up = False
    for i, op in enumerate(case):
        host.Proxy.log[:] = []
        if op in ("solve", "off"):
            with opt.scripted({"t": [[[0.0], True]], "end": ["ret", 0, 1]}):
                out = host.component("ConstrainedFormFinding")(solve=op == "solve", topology=t, constraints=cs, parameters=ps)
            want = [] if op == "off" else [["call", "solve_proxy"]] if up else [["start", "compas_cem.optimization"], ["call", "solve_proxy"], ["stop"]]
            if (out["form"] is not None) != (op == "solve"):
                return "step {} {}: form {}".format(i, op, out["form"])
            log = [x[:2] if x[0] != "stop" else x[:1] for x in host.Proxy.log]
        else:
            host.component("Proxy")(start=op in ("start", "both"), stop=op in ("stop", "both"))
            ends = [x for x in host.Proxy.log if x[0] == "stop"]
            starts = [x for x in host.Proxy.log if x[0] == "start" and x[1] == "compas_cem.optimization"]
            if any(x[-1] != PROXY_PORT for x in host.Proxy.log):
                return "step {} {}: port {}".format(i, op, host.Proxy.log)
            log, want = [len(starts), len(ends)], [int(op in ("start", "both")), int(op in ("stop", "both"))]
            up = True if op == "start" else False if op in ("stop", "both") else up
        if log != want:
            return "step {} {}: the host saw {} instead of {}".format(i, op, host.Proxy.log, want)
        if ("proxy_cem" in sticky) != up:
            return "step {} {}: a shared proxy {}".format(i, op, "is missing" if up else "is left")
        if up and (sticky["proxy_cem"].package, sticky["proxy_cem"].port) != ("compas_cem.optimization", PROXY_PORT):
            return "step {}: the shared proxy serves {}".format(i, sticky["proxy_cem"].package)
        ctx.step()
        ctx.state([case[:i + 1]])


def spaces(tier):
    q = tier == "quick"
    small = [((2, 1), "brac", 1, WHAT), ((1, 1), "ring", 1, WHAT), ((3,), "plain", 1, WHAT)]
    more = small + [((2, 2), "ten", 1, WHAT), ((1, 1, 2), "ring", 1, WHAT)]
    st = small if q else more
    edit = [((2, 1), "brac", 0), ((1, 1, 2), "ring", 0), ((2, 1), "brac", 1, ("key", "shift", "ord")), ((3,), "plain", 0)]
    pl = ("len", "pla", "load", "flip", "org", "dev")
    asm = [((2, 1), "brac", 1, pl), ((1, 1), "ring", 1, pl), ((3,), "plain", 1, pl)] if q else [((2, 1), "brac", 2, pl), ((1, 1), "ring", 2, pl), ((3,), "plain", 2, pl), ((1, 1, 2), "ring", 1, pl)]
    d = 1 if q else 3
    return [Space("values", cases_values, evaluate_values, "all component inputs over small alphabets (nothing, zero, values)"),
            Space("assembly", lambda: cases_assembly(asm), evaluate_assembly, "structures with up to {} departures x order and holes of the lists x auxiliary trails x missing lists".format(1 if q else 2)),
            Space("edits", lambda: cases_edit(edit, 2 if q else 3, 2 if q else 3), evaluate_edit, "all selections of origins in all orders (moves: also all pairs of nodes) x all value lists up to length {}".format(2 if q else 3)),
            Space("finding", lambda: cases_find(st), evaluate_find, "structures with up to one departure x all settings, and the listings of the form"),
            Space("parts", lambda: spec.cases(st + ([] if q else spec.LARGE)), evaluate_parts, "structures with up to one departure: listings, search, files"),
            Space("drawing", lambda: cases_draw(st), evaluate_draw, "structures with up to one departure x selections x scales"),
            Space("solving", lambda: cases_solve(d), evaluate_solve, "3 problems x up to {} settings given x shared or temporary proxy".format(d)),
            Space("proxy", lambda: cases_proxy(3 if q else 5), evaluate_proxy, "all sequences of proxy and solve runs up to length {}".format(3 if q else 5))]
