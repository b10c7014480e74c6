"""C12: diagrams survive copying and serialisation.

Histories of build operations x round-trip routes x follow-up operations.  After the round trip the
copy answers every query like the original; each follow-up applied to both gives the same outcome
and the same diagrams; applied to one only, the other one does not change.
"""
import copy
import itertools
import os
import pickle
import shutil
import tempfile

from mc import eq, obs, spec
from mc.core import Space

ASSUMPTIONS = ["JSON files are written to a scratch directory that is removed afterwards"]

STARTS = {
    "brac": {"L": [2, 1], "B": "brac", "d": [["pla", [0, 1], "tilt"], ["key", None, "gap"]]},
    "ring": {"L": [1, 1], "B": "ring", "d": [["ref", None, "auto"], ["dev", [1, 3], 0.25]]},
    "flip": {"L": [2, 2], "B": "ten", "d": [["key", None, "rev"], ["flip", [0, 1], True], ["load", 1, "zero"]]},
}
MANY = {
    "trails": {"L": [1] * 12, "B": "ring", "d": [["pla", [10, 11], "tilt"], ["key", None, "gap"], ["shift", 3, 1]]},
    "long": {"L": [14, 13], "B": "brac", "d": [["pla", [20, 21], "ahead"], ["key", None, "rev"]]},
}


def start(name):
    from compas_cem.diagrams import TopologyDiagram
    if name == "empty":
        return TopologyDiagram()
    return spec.build(spec.expand(STARTS.get(name) or MANY[name]), trails=False)[0]


def step(t, op):
    """One operation; returns an outcome that must be the same on original and copy."""
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    nodes = sorted(t.nodes())
    try:
        if op == "build":
            return t.build_trails()
        if op == "aux":
            return t.build_trails(auxiliary_trails=True)
        if op in ("shift0", "shift1"):
            i = int(op[-1])
            o = sorted(t.origin_nodes())
            return t.shift_trail(o[i % len(o)] if o else 0, 2 + i)
        if op == "lone":
            k = t.add_node(Node(xyz=[9.0, 1.25, 0.5]))
            e = t.add_edge(DeviationEdge(nodes[0], k, force=0.125)) if nodes else None
            t.add_load(NodeLoad(k, [0.25, 0.0, -1.0]))
            return k, e
        if op == "pos":
            return t.add_edge(TrailEdge.from_line([[9.0, 1.25, 0.5], [9.0, 1.5, -0.75]], length=-0.5, plane=([0.0, 0.0, -1.0], [0.0, 0.0, 1.0])))
        if op == "zero":  # a plane decides, the length is nothing
            return t.add_edge(TrailEdge.from_line([[9.0, 1.25, 0.5], [9.0, 1.5, -0.75]], length=0.0, plane=([0.0, 0.0, -1.0], [0.0, 0.5, 2.0])))
        if op == "reuse" and nodes:  # a new edge that refers to existing nodes by position
            return t.add_edge(DeviationEdge.from_line([t.node_coordinates(nodes[0]), t.node_coordinates(nodes[-1])], force=-0.125))
        if op == "load" and nodes:
            t.add_load(NodeLoad.from_point_and_vector(t.node_coordinates(nodes[-1]), [1.0, 2.0, -3.0]))
        if op == "sup" and nodes:
            t.add_support(NodeSupport.from_point(t.node_coordinates(nodes[-1])))
        if op == "move" and nodes:
            t.node_xyz(nodes[0], [0.5, 0.25, 0.125])
        if op == "del" and nodes:
            t.delete_node(nodes[0])
        if op == "auxset":
            t.auxiliary_trail_length = -0.5
            t.auxiliary_trail_vector = [0.0, 1.0, -2.0]
        if op == "auxin":  # the vector of auxiliary trails edited in place
            v = t.auxiliary_trail_vector
            v[0] = -4.0
            t.auxiliary_trail_vector = v
        if op == "tol":
            t.tol = "1f"
        if op == "attr" and list(t.edges()):
            e = sorted(t.edges())[0]
            t.edge_attribute(e, "force", 7.5)
            t.edge_attribute(e, "length", 3.25)
            t.node_attribute(nodes[0], "qx", 4.5)
        if op == "inplace":  # edit mutable values in place
            for e in t.edges():
                p = t.edge_plane(e)
                if p is not None:
                    p[0][2] = p[0][2] + 10.0
                    break
        if op in ("py", "np"):
            return obs.observe(eq.engines()[op](t, tmax=50))
        return None
    except Timeout:
        raise
    except Exception as e:
        return type(e).__name__


from mc.core import Timeout  # noqa: E402

FOLLOW = ["build", "aux", "shift0", "shift1", "lone", "pos", "zero", "reuse", "load", "sup", "move", "del", "auxset", "auxin", "tol", "attr", "inplace", "py", "np"]
HIST = ["build", "aux", "shift0", "lone", "pos", "zero", "load", "move", "del", "auxset", "auxin", "tol", "sup"]
ROUTES = ["copy", "string", "file", "dumps", "dump", "deepcopy", "pickle", "twice"]
FORM_FOLLOW = ["attr", "inplace", "reuse", "move", "del", "tol"]


def travel(t, route):
    import compas
    if route == "copy":
        return t.copy()
    if route == "string":
        return type(t).from_jsonstring(t.to_jsonstring())
    if route == "dumps":
        return compas.json_loads(compas.json_dumps(t))
    if route == "deepcopy":
        return copy.deepcopy(t)
    if route == "pickle":
        return pickle.loads(pickle.dumps(t))
    if route == "twice":
        return travel(travel(travel(t, "string"), "copy"), "dumps")
    d = tempfile.mkdtemp(prefix="cemmc_json_")
    try:
        p = os.path.join(d, "x.json")
        if route == "file":
            t.to_json(p)
            return type(t).from_json(p)
        compas.json_dump(t, p)
        return compas.json_load(p)
    finally:
        shutil.rmtree(d)


def make(case):
    t = start(case["S"])
    for op in case["h"]:
        step(t, op)
    if case.get("F"):
        f = eq.engines()[case["F"]]
        try:
            return f(t, tmax=50)
        except Exception:
            return None
    return t


_blank = []


def blank():
    """A diagram that has just been created."""
    from compas_cem.diagrams import FormDiagram, TopologyDiagram
    f = FormDiagram()
    from compas_cem.elements import Node
    f.add_node(Node(3, [1.0, 2.0, 0.5]))
    return [obs.observe(TopologyDiagram()), obs.observe(start("ring")), obs.observe(f)]


def evaluate(case, ctx):
    if not _blank:
        _blank.extend(blank())
    msg = evaluate_copy(case, ctx)
    if msg:
        return msg
    for a, b in zip(_blank, blank()):
        d = obs.diff(a, b)
        if d:
            return "a diagram created afterwards differs from one created before: {}".format(d)


def evaluate_copy(case, ctx):
    t = make(case)
    if t is None:
        ctx.outcome("no form")
        return
    before = obs.observe(t)
    ctx.state(repr(before))
    c = travel(t, case["r"])
    ctx.step()
    if type(c) is not type(t):
        return "the copy is a {}".format(type(c).__name__)
    d = obs.diff(before, obs.observe(c))
    if d:
        return "the copy differs: {}".format(d)
    d = obs.diff(before, obs.observe(t))
    if d:
        return "the original changed: {}".format(d)
    if repr(t) != repr(c):
        return "printed forms differ: {!r} vs {!r}".format(t, c)
    for op in (FORM_FOLLOW if case.get("F") else FOLLOW):
        ctx.step(2)
        c = travel(t, case["r"])
        out_c = step(c, op)
        d = obs.diff(before, obs.observe(t))
        if d:
            return "{} on the copy changed the original: {}".format(op, d)
        after_c = obs.observe(c)
        t2 = make(case)
        c2 = travel(t2, case["r"])
        out_t = step(t2, op)
        d = obs.diff(before, obs.observe(c2))
        if d:
            return "{} on the original changed the copy: {}".format(op, d)
        if out_t != out_c:
            return "{} gives {} on the original and {} on the copy".format(op, short(out_t), short(out_c))
        d = obs.diff(obs.observe(t2), after_c)
        if d:
            return "after {} original and copy differ: {}".format(op, d)
        ctx.outcome("same")
    ctx.trace()


def short(x):
    return "a form" if isinstance(x, dict) else x


def cases(depth, starts, hist=HIST, routes=ROUTES):
    for d in range(depth + 1):
        for h in itertools.product(hist, repeat=d):
            if h.count("tol") > 1 or h.count("auxset") > 1 or h.count("auxin") > 1:
                continue
            for s in starts:
                for r in routes:
                    yield {"S": s, "h": list(h), "r": r}


def formcases(depth):
    for d in range(depth + 1):
        for h in itertools.product(["aux", "shift0", "load", "move", "lone"], repeat=d):
            for s in STARTS:
                for f in ("py", "np"):
                    for r in ROUTES:
                        yield {"S": s, "h": (["build"] if "lone" not in h else ["aux"]) + list(h), "r": r, "F": f}


def spaces(tier):
    eq.engines()
    q = tier == "quick"
    n = 2 if q else 3
    return [Space("topology", lambda: cases(n, ["empty"] + list(STARTS)), evaluate,
                  "4 start diagrams x all build histories of up to {} of {} operations x {} routes x {} follow-up operations".format(n, len(HIST), len(ROUTES), len(FOLLOW))),
            Space("many", lambda: cases(1, list(MANY), ["build", "aux", "lone", "move"]), evaluate, "2 large diagrams x histories of up to 1 operation x routes x follow-ups"),
            Space("forms", lambda: formcases(1 if q else 2), evaluate, "forms of both engines x {} routes x follow-ups".format(len(ROUTES)))] + (
        [Space("deep", lambda: cases(3, ["brac"], ["build", "aux", "shift0", "lone", "move"], ["copy", "string", "dumps"]), evaluate,
               "start brac x all histories of 3 of 5 operations x 3 routes x follow-ups")] if q else [])
