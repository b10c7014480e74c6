"""Optimization problems as plain data, their construction, and an independent penalty model.

parameter : [kind, key, bound_low, bound_up]; kind in L (trail length), F (deviation force), x y z (origin), qx qy qz (load);
            key: node label, or [u, v] in the orientation of the diagram
constraint: [kind, key, target, weight]; kind in point line plane polyline dir len force reac;
            weight None: left to its default, which is 1
"""
from mc.vec import add, cross, dist, dot, mul, norm, sub, unit

PCLS = {"L": "TrailEdgeParameter", "F": "DeviationEdgeParameter",
        "x": "OriginNodeXParameter", "y": "OriginNodeYParameter", "z": "OriginNodeZParameter",
        "qx": "NodeLoadXParameter", "qy": "NodeLoadYParameter", "qz": "NodeLoadZParameter"}
CCLS = {"point": "PointConstraint", "line": "LineConstraint", "plane": "PlaneConstraint", "polyline": "PolylineConstraint",
        "dir": "EdgeDirectionConstraint", "len": "DeviationEdgeLengthConstraint", "force": "TrailEdgeForceConstraint",
        "reac": "ReactionForceConstraint"}
AXIS = {"x": 0, "y": 1, "z": 2, "qx": 0, "qy": 1, "qz": 2}


def engine():
    import compas_cem.optimization as o
    return o


def kkey(key, km):
    return tuple(km[a] for a in key) if isinstance(key, (list, tuple)) else km[key]


def make_param(p, km):
    bounds = [] if p[2] is None and p[3] is None else p[2:4]     # unbounded parameters rely on the defaults
    return getattr(engine(), PCLS[p[0]])(kkey(p[1], km), *bounds)


def make_constraint(c, km, plain=False):
    from compas.geometry import Line, Plane, Point, Polyline, Vector
    kind, key, target, weight = c
    if kind in ("len", "force"):
        tg = target
    elif plain:
        tg = [list(q) if isinstance(q, (list, tuple)) else q for q in target]
    else:
        tg = {"point": lambda: Point(*target), "line": lambda: Line(*target), "plane": lambda: Plane(*target),
              "polyline": lambda: Polyline(target), "dir": lambda: Vector(*target), "reac": lambda: Vector(*target)}[kind]()
    return getattr(engine(), CCLS[kind])(kkey(key, km), tg, *([] if weight is None else [weight]))


def start(s, p):
    """Start value of a parameter in a spec."""
    kind, key = p[0], p[1]
    if kind == "L":
        return next(e[2] for e in s["tedges"] if sorted(e[:2]) == sorted(key))
    if kind == "F":
        return next(e[2] for e in s["devs"] if sorted(e[:2]) == sorted(key))
    if kind in ("x", "y", "z"):
        return s["xyz"][key][AXIS[kind]]
    return s["loads"].get(key, [0.0] * 3)[AXIS[kind]]


def with_values(s, params, x):
    """The spec with its parameters set (a new spec)."""
    r = dict(s)
    r["xyz"] = {n: list(p) for n, p in s["xyz"].items()}
    r["tedges"] = [list(e) for e in s["tedges"]]
    r["devs"] = [list(e) for e in s["devs"]]
    r["loads"] = {n: list(q) for n, q in s["loads"].items()}
    for p, val in zip(params, x):
        val = float(val)
        kind, key = p[0], p[1]
        if kind in ("L", "F"):
            for e in r["tedges"] if kind == "L" else r["devs"]:
                if sorted(e[:2]) == sorted(key):
                    e[2] = val
        elif kind in ("x", "y", "z"):
            r["xyz"][key][AXIS[kind]] = val
        else:
            r["loads"].setdefault(key, [0.0] * 3)[AXIS[kind]] = val
    return r


def read(t, km, p):
    """Value of a parameter in a topology diagram, through its public queries."""
    kind, key = p[0], kkey(p[1], km)
    if kind == "L":
        return float(t.edge_length_2(key))
    if kind == "F":
        return float(t.edge_force(key))
    if kind in ("x", "y", "z"):
        return float(t.node_coordinates(key)[AXIS[kind]])
    return float(t.node_load(key)[AXIS[kind]])


# ------------------------------------------------------------------------------------------
# penalties
# ------------------------------------------------------------------------------------------

def seg_dist2(p, a, b):
    d = sub(b, a)
    q = dot(d, d)
    t = 0.0 if q == 0.0 else max(0.0, min(1.0, dot(sub(p, a), d) / q))
    return dist(p, add(a, mul(d, t))) ** 2


def penalty(c, v):
    """Independent model of one constraint on a form view (by labels)."""
    kind, key, target, w = c
    w = 1.0 if w is None else w
    if kind == "point":
        return w * dist(v["xyz"][key], target) ** 2
    if kind == "line":
        a, b = target
        d = unit(sub(b, a))
        return w * norm(cross(sub(v["xyz"][key], a), d)) ** 2
    if kind == "plane":
        o, n = target
        return w * dot(sub(v["xyz"][key], o), unit(n)) ** 2
    if kind == "polyline":
        return w * min(seg_dist2(v["xyz"][key], a, b) for a, b in zip(target, target[1:]))
    if kind == "dir":
        d = unit(sub(v["xyz"][key[1]], v["xyz"][key[0]]))
        n = unit(target)
        return w * min(dist(d, n) ** 2, dist(d, mul(n, -1.0)) ** 2)
    if kind == "len":
        return w * (dist(v["xyz"][key[0]], v["xyz"][key[1]]) - target) ** 2
    if kind == "force":
        return w * (v["force"][tuple(sorted(key))] - target) ** 2
    return w * dist(v["reac"][key], target) ** 2


def total(cs, v):
    return sum(penalty(c, v) for c in cs)


def ranges(c, v):
    """Magnitude used for tolerances: the square of the quantities compared, times the weight."""
    kind, key, target, w = c
    w = 1.0 if w is None else w
    flat = [abs(q) for p in target for q in (p if isinstance(p, (list, tuple)) else [p])] if isinstance(target, (list, tuple)) else [abs(target)]
    big = max(flat + [1.0])
    if kind in ("point", "line", "plane", "polyline"):
        big = max(big, norm(v["xyz"][key]))
    elif kind == "len":
        big = max(big, dist(v["xyz"][key[0]], v["xyz"][key[1]]))
    elif kind == "force":
        big = max(big, abs(v["force"][tuple(sorted(key))]))
    elif kind == "reac":
        big = max(big, norm(v["reac"][key]))
    return abs(w) * big * big


def slack(c, v, e):
    """By how much the penalty may differ if the distance it measures is off by e times its magnitude."""
    w = 1.0 if c[3] is None else c[3]
    if w == 0.0:
        return 0.0
    e = e * (abs(ranges(c, v) / w)) ** 0.5
    return abs(w) * (2 * e * (abs(penalty(c, v) / w)) ** 0.5 + e * e)
