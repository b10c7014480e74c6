"""C13: parameters and constraints survive copying and serialisation."""
import copy
import itertools
import json
import os
import pickle
import shutil
import tempfile
from ast import literal_eval
from math import inf

from checks.C17 import FLOATS, LINES, PLANES, POLYS, PTS, VECS
from mc import opt, pen, prob, spec
from mc.core import Space

ASSUMPTIONS = ["keys are integers and pairs of integers", "plain-list targets are lists of floats"]

S = {"L": [2, 2], "B": "ring", "d": [["key", None, "gap"], ["flip", [4, 5], True], ["flip", [1, 4], True]]}
BND = [None, 0, 0.0, 1, 0.5, -1.0 / 3.0, 1e-9, 1e9 + 0.1, inf]


def r_json(o):
    from compas.data import json_dumps, json_loads
    return json_loads(json_dumps(o))


def r_nested(o):
    from compas.data import json_dumps, json_loads
    return json_loads(json_dumps({"a": [o, 1], "b": None}))["a"][0]


def r_file(o):
    d = tempfile.mkdtemp(prefix="cemmc13_")
    try:
        p = os.path.join(d, "x.json")
        o.to_json(p)
        return type(o).from_json(p)
    finally:
        shutil.rmtree(d)


def r_set(o):
    n = type(o)()
    n.data = copy.deepcopy(o.data)
    return n


ROUTES = {
    "copy": lambda o: o.copy(),
    "deepcopy": copy.deepcopy,
    "pickle": lambda o: pickle.loads(pickle.dumps(o)),
    "data": lambda o: type(o).from_data(copy.deepcopy(o.to_data())),
    "setter": r_set,
    "text": lambda o: type(o).from_data(json.loads(json.dumps(o.to_data()))),
    "jsonstring": lambda o: type(o).from_jsonstring(o.to_jsonstring()),
    "file": r_file,
    "json": r_json,
    "nested": r_nested,
}
# infinity is written by the json module as a non-standard token that it reads back


def via(o, names):
    for n in names:
        o = ROUTES[n](o)
    return o


def show_param(p, t):
    return {"class": type(p).__name__, "key": p.key(), "attr": p.attr_name(), "start": p.start_value(t), "low": p.bound_low(t), "up": p.bound_up(t)}


def struct(case):
    s = spec.expand(S)
    s["key"] = case.get("K", s["key"])
    return s


def canon(x):
    """Serialised contents as plain numbers, lists and strings."""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, str):
        try:
            return canon(literal_eval(x))
        except (ValueError, SyntaxError):
            return x
    if x is None or isinstance(x, bool):
        return x
    if hasattr(x, "data"):
        return canon(x.data)
    if hasattr(x, "__iter__"):
        return [canon(y) for y in x]
    return float(x)


def evaluate_param(case, ctx):
    s = struct(case)
    t, km = spec.build(s)
    par = [case["k"], case["key"], case["lo"], case["up"]]
    p = pen.make_param(par, km)
    ctx.state(case)
    ctx.trace()
    ctx.step(len(case["r"]))
    before = show_param(p, t)
    want = {"start": pen.start(s, par), "key": pen.kkey(par[1], km),
            "low": -inf if par[2] is None else pen.start(s, par) - abs(par[2]), "up": inf if par[3] is None else pen.start(s, par) + abs(par[3])}
    for k in want:
        if before[k] != want[k]:
            return "{} of the original is {} instead of {}".format(k, before[k], want[k])
    q = via(p, case["r"])
    after = show_param(q, t)
    if after != before or type(after["key"]) is not type(before["key"]):
        return "{} became {} through {}".format(before, after, case["r"])
    if show_param(p, t) != before:
        return "the original changed to {}".format(show_param(p, t))
    if canon(q.data) != canon(p.data):
        return "the contents {} became {} through {}".format(canon(p.data), canon(q.data), case["r"])
    if q is p:
        return "the copy is the original itself"
    # independence: overwriting either one leaves the other alone
    other = pen.make_param([case["k"], [3, 4] if isinstance(case["key"], list) else 5, 0.125, 4.0], km)
    q.data = copy.deepcopy(other.data)
    if show_param(p, t) != before:
        return "overwriting the copy changed the original"
    q2 = via(p, case["r"])
    p.data = copy.deepcopy(other.data)
    if show_param(q2, t) != before:
        return "overwriting the original changed the copy"
    # the restored parameter poses the same problem
    o = pen.engine().Optimizer()
    o.add_parameter(q2)
    o.add_constraint(pen.make_constraint(["point", 2, [0.5, 0.5, -2.0], 1.0], km))
    if case.get("pose", True):
        with opt.scripted({"t": [], "end": ["ret", -1, 1]}) as log:
            o.solve(t, **prob.KW)
        if (log[0].x0[0], log[0].low[0], log[0].up[0]) != (want["start"], want["low"], want["up"]):
            return "the restored parameter poses start {} in {} .. {}".format(log[0].x0[0], log[0].low[0], log[0].up[0])


def plain(x):
    return [plain(y) for y in x] if hasattr(x, "__iter__") else float(x)


def show_con(c):
    return {"class": type(c).__name__, "key": c.key(), "keytype": type(c.key()).__name__, "weight": float(c.weight)}




def mutate(target):
    """Change a target in place; returns False if it is immutable."""
    if isinstance(target, list):
        if isinstance(target[0], list):
            target[0][0] += 100.0
        else:
            target[0] += 100.0
        return True
    name = type(target).__name__
    if name in ("Point", "Vector"):
        target[0] = target[0] + 100.0
        return True
    if name == "Line":
        target.start = [100.0, 0.0, 0.0]
        return True
    if name == "Plane":
        target.point = [0.0, 100.0, 37.0]
        return True
    if name == "Polyline":
        target.points = [[100.0, 0.0, 0.0], [101.0, 0.0, 0.0]]
        return True
    return False


def objective(s, km, t, c, x):
    o = pen.engine().Optimizer()
    par = ["L", [0, 1], None, None]
    o.add_parameter(pen.make_param(par, km))
    o.add_constraint(c)
    with opt.scripted({"t": [], "end": ["ret", -1, 1]}) as log:
        o.solve(t, **prob.KW)
    return [prob.value(log[0], [y]) for y in x] + [prob.value_grad(log[0], [x[0]])[1][0]]


def evaluate_con(case, ctx):
    s = struct(case)
    t, km = spec.build(s)
    con = case["c"]
    ctx.state(case)
    ctx.trace()
    ctx.step(len(case["r"]))
    par = ["L", [0, 1], None, None]
    x = [pen.start(s, par), -0.75]
    want = [pen.total([con], prob.form_at(s, [par], [y])) for y in x]
    c = pen.make_constraint(con, km, case["plain"])
    before = show_con(c)
    if before["weight"] != con[3] or c.key() != pen.kkey(con[1], km):
        return "the constraint says {}".format(before)
    c2 = via(c, case["r"])
    if c2 is c:
        return "the copy is the original itself"
    if show_con(c2) != before:
        return "{} became {} through {}".format(before, show_con(c2), case["r"])
    if show_con(c) != before:
        return "the original changed to {}".format(show_con(c))
    if canon(c2.data) != canon(c.data):
        return "the contents {} became {} through {}".format(canon(c.data), canon(c2.data), case["r"])
    for who, k in (("restored", c2), ("original", c)):
        got = objective(s, km, spec.build(s)[0], k, x)
        for g, w in zip(got, want):
            if abs(g - w) > 1e-6 * (1 + abs(w)):
                return "the {} constraint has penalty {} instead of {} ({} through {})".format(who, g, w, con, case["r"])
        if who == "restored":
            keep = got
    if any(abs(a - b) > 1e-9 * (1 + abs(b)) for a, b in zip(keep, got)):
        return "objective and gradient {} differ from those of the original {}".format(keep, got)
    if con[0] in ("point", "reac") and con[0] != "len":
        if [float(q) for q in c2.target()] != [float(q) for q in con[2]]:
            return "target {} instead of {}".format(list(c2.target()), con[2])
    elif con[0] in ("len", "force") and float(c2.target()) != float(con[2]):
        return "target {} instead of {}".format(c2.target(), con[2])
    # independence in both directions
    if con[0] not in ("len", "force"):
        src = pen.make_constraint(con, km, case["plain"])
        c3 = via(src, case["r"])
        tg = src._target if hasattr(src, "_target") else None
        if tg is not None and mutate(tg):
            got = objective(s, km, spec.build(s)[0], c3, x[:1])
            if abs(got[0] - want[0]) > 1e-6 * (1 + abs(want[0])):
                return "changing the target of the original changed the copy's penalty from {} to {}".format(want[0], got[0])
            ctx.outcome("independent")
    # the copy can be overwritten without touching the original
    other = pen.make_constraint([con[0], con[1], con[2], 7.5], km, case["plain"])
    c4 = via(c, case["r"])
    c4.data = copy.deepcopy(other.data)
    if show_con(c) != before:
        return "overwriting the copy changed the original"
    if float(c4.weight) != 7.5:
        return "overwriting the copy had no effect"


PKEYS = [("L", [0, 1]), ("L", [5, 4]), ("F", [0, 3]), ("F", [4, 1]), ("x", 0), ("y", 3), ("z", 0), ("qx", 0), ("qy", 4), ("qz", 5)]


def params(chains, pose=True, keys=None, bounds=None):
    for k, key in PKEYS:
        for lo in bounds or BND:
            for up in bounds or BND:
                for r in chains:
                    for K in keys or [None]:
                        c = {"k": k, "key": key, "lo": lo, "up": up, "r": r, "pose": pose}
                        yield dict(c, K=K) if K else c


def cons():
    for n in (0, 2, 5):
        for tg in PTS + [[30.0, 40.0, 120.0], [1.0 / 3.0, -12345.678901234567, 1e-7]]:
            yield ["point", n, tg]
        for tg in LINES:
            yield ["line", n, tg]
        for tg in PLANES:
            yield ["plane", n, tg]
        for tg in POLYS:
            yield ["polyline", n, tg]
    for e in ([0, 1], [4, 3], [0, 3]):
        for tg in VECS:
            yield ["dir", e, tg]
    for e in ([0, 3], [2, 0]):
        for tg in FLOATS + [3, 1e-7, 2.0 / 3.0, -2.0 / 3.0, 12345.678901234567]:
            yield ["len", e, tg]
    for e in ([0, 1], [5, 4]):
        for tg in FLOATS + [-3, 1e-7, 1.0 / 3.0, -1.0 / 3.0, -12345.678901234567]:
            yield ["force", e, tg]
    for n in (2, 5):
        for tg in VECS + [[0.0, 0.0, 0.0], [0.0, 12.0, 5.0], [1.0 / 3.0, -123.4567890123, 1e-7]]:
            yield ["reac", n, tg]


def constraints(chains, weights, keys=None, every=1):
    for c in list(cons())[::every]:
        for w in weights:
            for pl in (False, True):
                if pl and c[0] in ("len", "force"):
                    continue
                for r in chains:
                    for K in keys or [None]:
                        yield dict({"c": c + [w], "plain": pl, "r": r}, **({"K": K} if K else {}))


BIGK = ["big", [-3, 2000000000, 17, 65537, 99, 100001]]


def evaluate_any(case, ctx):
    return (evaluate_param if "lo" in case else evaluate_con)(case, ctx)


def spaces(tier):
    one = [[r] for r in ROUTES]
    two = [[a, b] for a in ROUTES for b in ROUTES]
    th = tier == "thorough"
    return [Space("parameters", lambda: params(one), evaluate_param, "8 kinds (10 keys) x all bound pairs x all routes"),
            Space("parameters2", lambda: params(two if th else [["json", r] for r in ROUTES], False), evaluate_param, "the same through two routes"),
            Space("constraints", lambda: constraints(one, [1.0, 2.0 / 3.0, 0.0, 3, 3e-5] if not th else [1.0, 2.0 / 3.0, 2.5, 0.0, 3, 3e-5, 1e-9, 1e6 + 0.1]), evaluate_con,
                  "8 kinds x keys x targets (COMPAS geometry and plain lists) x weights x all routes"),
            Space("keys", lambda: itertools.chain(params(one, False, BIGK, [None, -0.25]), constraints(one, [1.5], BIGK, 1 if th else 3)), evaluate_any,
                  "large, negative and scattered keys: parameters and constraints x all routes"),
            Space("constraints2", lambda: constraints(two if th else [["copy", "json"], ["json", "pickle"]], [2.5]), evaluate_con, "the same through two routes")]
