"""Abstract structures ("specs"), their construction through the public API, and the
deviation-bounded enumeration of all structures around a set of base structures.

A *case* is {"L": layout, "B": base, "d": [[dimension, argument, value], ...]}: a layout (number of
edges of every trail), a base content, and the departures from it.  expand(case) gives a spec:

  trails : list of node-label lists, origin first, support last
  xyz    : label -> position in the topology diagram
  tedges : list of [u, v, signed length, plane|None]      (u is nearer to the origin)
  devs   : list of [a, b, force]
  loads  : label -> vector (absent: no load is added)
  flips  : labels pairs to be written in reverse orientation
  shift  : {trail index: starting sequence}
  key/ord/ref : how the diagram is written down (keys, insertion order, by key or by coordinates)
"""
import itertools


def labels(layout):
    out, n = [], 0
    for e in layout:
        out.append(list(range(n, n + e + 1)))
        n += e + 1
    return out


def _pairs(trails):
    """All node pairs that are not trail edges."""
    n = sum(len(t) for t in trails)
    cons = set()
    for t in trails:
        cons |= set(zip(t, t[1:]))
    return [(a, b) for a in range(n) for b in range(a + 1, n) if (a, b) not in cons]


GEN = [0.25, -0.125, 0.375, 0.0625, -0.3125, 0.1875, -0.25, 0.4375, 0.125]


def base(layout, name):
    trails = labels(layout)
    xyz, tedges, devs, loads = {}, [], [], {}
    for i, t in enumerate(trails):
        o = [2.0 * i + 0.25 * (i % 2), 0.5 * i * i - 0.5 * i, 0.125 * i]
        for k, n in enumerate(t):
            xyz[n] = [o[0], o[1] + 0.5 * k, o[2] - 1.0 * k]
        for k, (u, v) in enumerate(zip(t, t[1:])):
            tedges.append([u, v, -1.0 if name in ("axis", "ten") else -(1.0 + 0.25 * ((i + k) % 3)), None])
    if name == "ten":
        for e in tedges:
            e[2] = 1.5
    n = sum(len(t) for t in trails)
    for a in range(n):
        if name == "axis":
            loads[a] = [0.0, 0.0, -1.0]
        else:
            loads[a] = [GEN[a % 9], GEN[(a + 4) % 9], -1.0 - 0.5 * (a % 3)]
    if name in ("ring", "brac", "ten"):
        for i in range(len(trails) - 1):
            for k in range(min(len(trails[i]), len(trails[i + 1])) - 1):
                devs.append([trails[i][k], trails[i + 1][k], 0.75 if (i + k) % 2 == 0 else -0.5])
    if name == "brac":
        for i in range(len(trails) - 1):
            a, b = trails[i], trails[i + 1]
            if len(b) > 1:
                devs.append([a[0], b[1], 0.25])
        for t in trails:
            if len(t) > 2:
                devs.append([t[0], t[2], -0.125])
                break
    if name in ("slow", "hub"):
        # long trails tied crosswise: the iteration takes many sweeps, with growing movements in between
        for i, t in enumerate(trails):
            xyz[t[0]] = [2.0 * i, 0.0, 0.0]
            for a in t:
                loads[a] = [0.0, 0.2 if a == 0 else 0.0, -1.0]
            del loads[t[-1]]
        for k, e in enumerate(tedges):
            e[2] = [-3.0, -2.0, -1.0, -2.0][k % 4]
        for a, b in zip(trails, trails[1:]):
            f = 0.9 if name == "slow" else 0.6
            devs += [[a[-1], b[0], -f], [a[0], b[-1], f]]
        if name == "hub":  # and every node of the first trail tied to all those of its sequence
            for t in trails[1:]:
                devs += [[a, b, 0.0625] for a, b in zip(trails[0], t) if [a, b] not in [d[:2] for d in devs]]
    if name == "fan":
        # one node tied to all the others
        for i, t in enumerate(trails[1:]):
            devs.append([0, t[0], 0.0625 if i % 2 else -0.09375])
            if len(t) > 2:
                devs.append([0, t[1], 0.03125])
    if name == "odd":
        # no number is a short binary fraction, nothing is aligned or symmetric
        for a in range(n):
            xyz[a] = [c + 0.1 * ((7 * a + 3 * j) % 11) / 7.0 for j, c in enumerate(xyz[a])]
            loads[a] = [c * 1.1 + 0.03 for c in loads[a]]
        for k, e in enumerate(tedges):
            e[2] = (-1.0 if k % 4 < 3 else 0.7) * (1.1 + 0.37 * ((5 * k) % 7) / 3.0)
        for i in range(len(trails) - 1):
            a, b = trails[i], trails[i + 1]
            for k in range(min(len(a), len(b))):
                devs.append([a[k], b[k], 0.7 / (1 + k) if (i + k) % 2 else -0.3 - 0.1 * k])
            devs.append([a[-1], b[0], 0.11])
    if name == "far":
        # as "odd", away from the world origin and on its negative side
        s = base(layout, "odd")
        s["xyz"] = {a: [round(c + d, 3) for c, d in zip(p, [-50.137, -20.291, -1000.613])] for a, p in s["xyz"].items()}
        return s
    return {"trails": trails, "xyz": xyz, "tedges": tedges, "devs": devs, "loads": loads,
            "flips": [], "shift": {}, "key": "id", "ord": "std", "ref": "key"}


HAIR = [3e-8, -5e-8, -1.0]  # off the vertical by less than anything one may think of
LOADS = {"zero": None, "up": [0.0, 0.0, 0.75], "side": [0.5, -1.25, 0.0], "big": [1.0, 2.0, -8.0]}


def dims(layout, bname, what=("len", "pla", "dev", "load", "flip", "shift", "key", "ord", "org", "mag")):
    """List of (dimension, argument, [alternative values])."""
    b = base(layout, bname)
    out = []
    if "len" in what:
        for u, v, _, _ in b["tedges"]:
            out.append(("len", [u, v], [-0.5, 1.25, 3.0]))
    if "len0" in what:
        for u, v, _, _ in b["tedges"]:
            out.append(("len", [u, v], [0.0]))
    if "pla" in what:
        for u, v, _, _ in b["tedges"]:
            out.append(("pla", [u, v], ["ahead", "tilt", "back", "par", "at0", "graze", "steep"]))
    if "dev" in what:
        have = {(a, c) for a, c, _ in b["devs"]}
        for a, c in _pairs(b["trails"]):
            out.append(("dev", [a, c], [0.5, -0.5, 0.0] if (a, c) not in have else [None, 2.0, -1.0]))
    if "load" in what:
        for a in sorted(b["loads"]):
            out.append(("load", a, list(LOADS)))
    if "hair" in what:
        for a in sorted(b["loads"]):
            out.append(("load", a, [HAIR]))
    if "flip" in what:
        for u, v, _, _ in b["tedges"]:
            out.append(("flip", [u, v], [True]))
        for a, c, _ in b["devs"]:
            out.append(("flip", [a, c], [True]))
    if "shift" in what:
        for i in range(len(layout)):
            out.append(("shift", i, [1, 2]))
    if "key" in what:
        out.append(("key", None, ["rev", "gap", "big"]))
    if "ord" in what:
        out.append(("ord", None, ["nrev", "rev", "srev"]))
    if "org" in what:
        for i in range(len(layout)):
            out.append(("org", i, ["far", "same"] if i else ["far", "thin"]))
    if "mag" in what:
        out.append(("fs", None, [2.0 ** -36, 2.0 ** -24, 1e-3, 1e3, 2.0 ** 24]))
        out.append(("gs", None, [0.05, 1e3]))
    return out


SLIM = ("len", "pla", "load", "flip", "shift", "key", "ord", "org", "mag")
# larger structures: (layout, base, depth, dimensions)
LARGE = ([((n,), b, 0) for n in (5, 7, 8, 9, 11, 16) for b in ("plain", "axis")]
         + [((2,) * m, "ring", 0) for m in (4, 5, 6, 8)] + [((1,) * m, "ring", 0) for m in (7, 9, 11, 12)]
         + [((3, 3, 3, 3), "brac", 0), ((9, 7), "brac", 0), ((4, 1, 3, 1, 2), "brac", 0), ((6, 6, 6), "ten", 0), ((2, 2, 2, 2, 2, 2), "brac", 0),
            ((1, 5), "brac", 0), ((1, 1, 8), "ring", 0),
            ((1,) * 14, "fan", 0), ((2,) * 9, "fan", 0), ((40,), "plain", 0), ((5,) * 7, "ring", 0),
            ((6,), "plain", 1, SLIM), ((5, 4, 3, 2), "brac", 1, SLIM)])

# the same with numbers that are no short binary fractions
ODD = [((n,), "odd", 1) for n in (1, 2, 4)] + [((1, 1), "odd", 2), ((2, 1), "odd", 1), ((2, 2), "odd", 1), ((3, 2), "odd", 1), ((1, 2, 1), "odd", 1),
                                              ((2, 2, 2), "odd", 0), ((3, 3, 3, 3), "odd", 0), ((5, 4, 3, 2), "odd", 0)]


# tens of sweeps to converge, many ties at one node
HUB = [((2, 2), "hub", 1), ((1,) * 5, "hub", 0), ((2,) * 5, "hub", 0), ((2,) * 7, "hub", 0), ((3,) * 5, "hub", 0), ((2, 3, 2, 3, 2), "hub", 0)]


def expand(case):
    layout, bname = case["L"], case["B"]
    s = base(layout, bname)
    planes, fs, gs = [], 1.0, 1.0
    for dim, arg, val in case["d"]:
        if dim == "len":
            for e in s["tedges"]:
                if e[:2] == list(arg):
                    e[2] = val
        elif dim == "pla":
            planes.append((list(arg), val))
        elif dim == "dev":
            s["devs"] = [d for d in s["devs"] if d[:2] != list(arg)]
            if val is not None:
                s["devs"].append([arg[0], arg[1], val])
        elif dim == "load":
            v = LOADS[val] if isinstance(val, str) else val
            if v is None:
                s["loads"].pop(arg, None)
            else:
                s["loads"][arg] = list(v)
        elif dim == "flip":
            s["flips"].append(list(arg))
        elif dim == "shift":
            s["shift"][arg] = val
        elif dim == "fs":
            fs = val
        elif dim == "gs":
            gs = val
        elif dim in ("key", "ord", "ref"):
            s[dim] = val
        elif dim == "org":
            o = s["trails"][arg][0]
            if val == "far":
                p = s["xyz"][o]
                s["xyz"][o] = [p[0] - 0.75, p[1] + 1.5, p[2] + 0.5]
            elif val == "thin":  # small, but not nothing
                p = s["xyz"][o]
                s["xyz"][o] = [p[0] + 4e-4, p[1] - 3e-4, p[2] + 6e-4]
            else:
                s["xyz"][o] = list(s["xyz"][0])
        else:
            raise ValueError(dim)
    for (u, v), val in planes:
        t, k = next((t, t.index(u)) for t in s["trails"] if u in t)
        p = s["xyz"][t[0]]
        if val == "ahead":
            pl = [[0.0, 0.0, p[2] - 1.5 * (k + 1)], [0.0, 0.0, 1.0]]
        elif val == "tilt":
            pl = [[p[0], p[1], p[2] - 1.25 * (k + 1)], [0.6, 0.0, 0.8]]
        elif val == "back":
            pl = [[0.0, 0.0, p[2] + 4.0], [0.0, 0.0, 1.0]]
        elif val == "par":
            pl = [[p[0] + 1.0, 0.0, 0.0], [1.0, 0.0, 0.0]]
        elif val == "near":  # just below the origin of the trail
            pl = [[0.0, 0.0, p[2] - 0.005], [0.0, 0.0, 2.0]]
        elif val == "graze":  # inclined by 1e-4 to the vertical
            pl = [[p[0] + 1.5e-4 * (k + 1), p[1], p[2]], [1.0, 0.0, -1e-4]]
        elif val == "steep":  # all but parallel to the vertical
            pl = [[p[0], p[1], p[2] - 1.5 * (k + 1)], [1.0, 0.0, 5e-6]]
        else:  # at0: through the origin of the trail
            pl = [list(p), [0.0, 0.6, 0.8]]
        for e in s["tedges"]:
            if e[:2] == [u, v]:
                e[3] = pl
    if fs != 1.0:
        s["devs"] = [[a, b, f * fs] for a, b, f in s["devs"]]
        s["loads"] = {n: [c * fs for c in q] for n, q in s["loads"].items()}
    if gs != 1.0:
        s["xyz"] = {n: [c * gs for c in p] for n, p in s["xyz"].items()}
        s["tedges"] = [[u, v, ln * gs, None if pl is None else [[c * gs for c in pl[0]], pl[1]]] for u, v, ln, pl in s["tedges"]]
    return s


def departures(dimlist, depth, exact=False):
    """All sets of at most ``depth`` departures on distinct dimensions, fewest first."""
    for d in range(depth if exact else 0, depth + 1):
        for combo in itertools.combinations(range(len(dimlist)), d):
            for vals in itertools.product(*[dimlist[i][2] for i in combo]):
                yield [[dimlist[i][0], dimlist[i][1], v] for i, v in zip(combo, vals)]


def cases(plan, extra=None):
    """plan: list of (layout, base, depth[, what])."""
    for item in plan:
        layout, bname, depth = item[:3]
        dl = dims(layout, bname, *item[3:4])
        for dep in departures(dl, depth):
            c = {"L": list(layout), "B": bname, "d": dep}
            if extra is None:
                yield c
            else:
                for k in extra:
                    cc = dict(c)
                    cc.update(k)
                    yield cc


# ------------------------------------------------------------------------------------------
# construction through the public API
# ------------------------------------------------------------------------------------------

def keymap(s):
    n = len(s["xyz"])
    if isinstance(s["key"], (list, tuple)):
        return {a: k for a, k in enumerate(s["key"])}
    if s["key"] == "id":
        return {a: a for a in range(n)}
    if s["key"] == "rev":
        return {a: n - 1 - a for a in range(n)}
    if s["key"] == "gap":
        return {a: (7 * a + 3) for a in range(n)}
    if s["key"] == "big":  # beyond the integers that Python caches
        return {a: 100000 - 997 * a for a in range(n)}
    raise ValueError(s["key"])


def build(s, trails=True, shift=True, planecls=None):
    """Create the topology diagram of a spec. Returns (topology, label -> key)."""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    if planecls is None:
        from compas.geometry import Plane as planecls
    km = keymap(s)
    flips = [tuple(f) for f in s["flips"]]
    t = TopologyDiagram()
    nodes = list(range(len(s["xyz"])))
    edges = [("T",) + tuple(e) for e in s["tedges"]] + [("D",) + tuple(e) for e in s["devs"]]
    sup = [tr[-1] for tr in s["trails"]]
    loads = sorted(s["loads"])
    o = s["ord"]
    if isinstance(o, dict):
        nodes = [nodes[i] for i in o["n"]] if "n" in o else nodes
        edges = [edges[i] for i in o["e"]] if "e" in o else edges
        sup = [sup[i] for i in o["s"]] if "s" in o else sup
        loads = [loads[i] for i in o["l"]] if "l" in o else loads
    elif o == "nrev":
        nodes.reverse()
    elif o == "rev":
        nodes.reverse(), edges.reverse(), sup.reverse(), loads.reverse()
    elif o == "srev":
        edges.reverse(), sup.reverse()
    byxyz = s["ref"] in ("xyz", "auto", "mix", "alt")
    if s["ref"] in ("mix", "alt"):  # one end of an edge by its key, the other one by its position
        made = {}
        if s["ref"] == "mix":
            made[edges[0][1]] = t.add_node(Node(km[edges[0][1]], list(s["xyz"][edges[0][1]])))
    if s["ref"] not in ("auto", "mix"):
        for a in nodes:
            t.add_node(Node(km[a], list(s["xyz"][a])))
    for e in edges:
        u, v = e[1], e[2]
        if (u, v) in flips or s["flips"] == "all":
            u, v = v, u
        pu, pv = (list(s["xyz"][u]), list(s["xyz"][v])) if byxyz else (km[u], km[v])
        if s["ref"] == "mix":
            pu, pv = made.get(u, pu), made.get(v, pv)
        if s["ref"] == "alt":
            pu = km[u]
        if s["ref"] in ("mix", "alt"):
            if e[0] == "T":
                ends = t.add_edge(TrailEdge(pu, pv, length=e[3], plane=planecls(*e[4]) if e[4] is not None else None))
            else:
                ends = t.add_edge(DeviationEdge(pu, pv, force=e[3]))
            made[u], made[v] = ends
            continue
        if e[0] == "T":
            pl = planecls(*e[4]) if e[4] is not None else None
            if byxyz:
                t.add_edge(TrailEdge.from_line([pu, pv], length=e[3], plane=pl))
            else:
                t.add_edge(TrailEdge(pu, pv, length=e[3], plane=pl))
        else:
            if byxyz:
                t.add_edge(DeviationEdge.from_line([pu, pv], force=e[3]))
            else:
                t.add_edge(DeviationEdge(pu, pv, force=e[3]))
    if s["ref"] in ("auto", "mix"):  # nodes were created by the edges, with automatic keys
        km = {a: t.node_key(list(s["xyz"][a])) for a in nodes}
    for a in sup:
        t.add_support(NodeSupport.from_point(list(s["xyz"][a])) if byxyz else NodeSupport(km[a]))
    for a in loads:
        vec = list(s["loads"][a])
        t.add_load(NodeLoad.from_point_and_vector(list(s["xyz"][a]), vec) if byxyz else NodeLoad(km[a], vec))
    if trails:
        t.build_trails()
        if shift:
            for i, k in sorted(s["shift"].items()):
                t.shift_trail(km[s["trails"][int(i)][0]], k)
    return t, km


def form_view(form, km):
    """Form diagram contents by label, as plain floats."""
    inv = {k: a for a, k in km.items()}
    xyz = {inv[n]: [float(c) for c in form.node_coordinates(n)] for n in form.nodes()}
    load = {inv[n]: [float(c) for c in form.node_load(n)] for n in form.nodes()}
    reac = {inv[n]: [float(c) for c in form.reaction_force(n)] for n in form.nodes()}
    force, length = {}, {}
    for u, v in form.edges():
        a, b = inv[u], inv[v]
        e = (a, b) if a < b else (b, a)
        force[e] = float(form.edge_force((u, v)))
        length[e] = float(form.edge_length_2((u, v)))
    sup = sorted(inv[n] for n in form.support_nodes())
    return {"xyz": xyz, "load": load, "reac": reac, "force": force, "length": length, "sup": sup}
