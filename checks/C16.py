"""C16: the gradients handed to the solver are the true derivatives of the objective."""
from math import isfinite

import numpy as np

from checks.C17 import resolve
from mc import pen, prob, ref, spec
from mc.core import Space

ASSUMPTIONS = ["objective and gradient are read at the solver boundary (stand-in for nlopt)",
               "components where two central-difference estimates disagree (kinks: force reversal, equidistant targets, plane hit/miss) "
               "are only required to be finite, as are components other than trail lengths where some trail edge carries no force"]
KW = {"tmax": 400, "eta": 1e-12}


def all_params(s):
    out = [["L", prob.oriented(s, e[:2]), None, None] for e in s["tedges"]]
    out += [["F", prob.oriented(s, e[:2]), None, None] for e in s["devs"]]
    for t in s["trails"]:
        out += [[k, t[0], None, None] for k in "xyz"]
    for n in sorted(s["xyz"]):
        out += [[k, n, None, None] for k in ("qx", "qy", "qz")]
    return out


def cons_alphabet(s, full):
    nodes = sorted(s["xyz"])
    ends = [t[-1] for t in s["trails"]] + [t[1] for t in s["trails"] if len(t) > 2]
    pick = nodes if full else sorted(set(ends[:2] + ends[-1:]))
    for n in pick:
        yield ["point", n, [1.0, 2.0, -1.0]]
        yield ["line", n, [[-2.0, 1.0, 0.0], [3.0, -1.0, 2.0]]]
        yield ["plane", n, [[1.0, 0.0, 0.0], [-1.0, 2.0, 2.0]]]
        yield ["polyline", n, [[-1.0, -1.0, 0.0], [3.0, -1.0, 0.5], [3.0, 3.0, -2.0], [-1.0, 3.5, -2.0]]]
    edges = [e[:2] for e in s["tedges"]] + [e[:2] for e in s["devs"]]
    for e in edges if full else edges[:1] + edges[-1:]:
        yield ["dir", e, [-2.0, 3.0, 1.0]]
    for a, b, _ in s["devs"] if full else s["devs"][:1]:
        yield ["len", [a, b], 1.5]
    for e in s["tedges"] if full else s["tedges"][:1] + s["tedges"][-1:]:
        yield ["force", prob.oriented(s, e[:2]), -2.0]
    for t in s["trails"] if full else s["trails"][-1:]:
        yield ["reac", t[-1], [0.5, -1.0, 2.0]]


def deltas(n, which):
    if which == 0:
        return np.zeros(n)
    return np.array([((7 * i + 3 * which) % 11 - 5) * 0.03125 for i in range(n)])


def numeric(problem, x, i, h, fn):
    def at(d):
        y = np.array(x)
        y[i] += d
        return fn(y)
    f = {k: at(k * h) for k in (-1.0, -0.5, 0.5, 1.0)}
    d1, d2 = (f[1.0] - f[-1.0]) / (2 * h), (f[0.5] - f[-0.5]) / h
    f0 = fn(np.array(x))
    l, r = (f0 - f[-0.5]) / (0.5 * h), (f[0.5] - f0) / (0.5 * h)
    curv = abs(f[1.0] - 2 * f0 + f[-1.0]) / (h * h)
    return (4 * d2 - d1) / 3.0, d1, d2, abs(l - r), curv, f0


def idle(s, params, x, kw):
    """Some trail edge carries no force at x: the direction of the trail is undefined there."""
    r = ref.solve(pen.with_values(s, params, x), **kw)
    return any(q == [0.0, 0.0, 0.0] for q, _, _ in r.rvecs.values())


def compare(problem, x, g, h, step, ctx, tag, skip=()):
    """step None: exact; otherwise forward differences with that step."""
    for i in range(len(x)):
        if not isfinite(g[i]):
            return "{}: gradient component {} is {}".format(tag, i, g[i])
        if i in skip:
            ctx.outcome("finite at zero force")
            continue
        try:
            best, d1, d2, gap, curv, f0 = numeric(problem, x, i, h, lambda y: prob.value(problem, y))
        except ValueError:
            ctx.outcome("neighbour not convergent")
            continue
        scale = max(1.0, abs(f0), abs(best))
        if abs(d1 - d2) > 1e-4 * scale or gap > 1e-2 * scale * max(1.0, curv * h):
            ctx.outcome("kink")
            continue
        tol = 2e-5 * scale + 3 * abs(d1 - d2)
        if step:
            tol += 2.0 * step * curv + 1e-9 * scale / step * 1e-2
        if abs(g[i] - best) > tol:
            return "{}: gradient component {} is {} but the derivative is {} (tolerance {:.1e})".format(tag, i, g[i], best, tol)
        ctx.outcome("component")


def evaluate(case, ctx):
    s = spec.expand(case["S"])
    ctx.state(case)
    params = all_params(s)
    if case["ord"] == "rev":
        params = params[::-1]
    elif isinstance(case["ord"], list):
        params = [params[i] for i in case["ord"]]
    cons = [resolve(s, c, w)[0] for c, w in case["c"]]
    kw = dict(KW, tmax=1) if case.get("t1") else KW
    x0 = np.array([pen.start(s, p) for p in params])
    more = {"step_size": case["h"]} if case.get("h") else {}
    problem, t, km = prob.capture(s, params, cons, grad=case["g"], kw=kw, **more)
    if problem.x0.tolist() != x0.tolist():
        return "start vector {} instead of {}".format(problem.x0.tolist(), x0.tolist())
    pts = [x0 + deltas(len(x0), k) for k in case["p"]]
    got = []
    for x in pts + pts[:1]:  # the first point again: no memory
        ctx.step()
        ctx.trace()
        if not prob.conditioned(s, params, x, kw) and not case.get("deg"):
            got.append(None)
            ctx.outcome("ill conditioned")
            continue
        try:
            got.append(prob.value_grad(problem, x)[1])
        except ValueError:
            got.append(None)
            ctx.outcome("not convergent")
    if len(pts) > 1 and got[0] is not None and got[-1] is not None and np.max(np.abs(got[0] - got[-1])) > 1e-12 * (1 + np.max(np.abs(got[0]))):
        return "the gradient at the same point changed from {} to {}".format(got[0].tolist(), got[-1].tolist())
    for x, g in zip(pts, got):
        if g is None:
            continue
        step = (case.get("h") or 1e-6) if case["g"] == "FD" else None
        skip = [i for i, p in enumerate(params) if p[0] != "L"] if case.get("deg") and idle(s, params, x, kw) else ()
        msg = compare(problem, x, g, 1e-4, step, ctx, "{} at {}".format(case["g"], x.tolist()), skip)
        if msg:
            return msg + " for parameters {} and constraint {}".format(params, cons)


ST = [{"L": [1], "B": "axis", "d": []}, {"L": [2], "B": "plain", "d": []}, {"L": [1, 1], "B": "ring", "d": []},
      {"L": [2, 2], "B": "brac", "d": []}, {"L": [2, 1], "B": "brac", "d": [["flip", [0, 1], True], ["key", None, "gap"]]},
      {"L": [3], "B": "plain", "d": [["pla", [1, 2], "tilt"], ["len", [0, 1], 1.25]]},
      {"L": [2, 2], "B": "ten", "d": [["pla", [3, 4], "ahead"]]},
      {"L": [1, 2], "B": "brac", "d": [["shift", 0, 1], ["ord", None, "rev"]]}, {"L": [2, 1], "B": "odd", "d": []},
      {"L": [2, 1], "B": "ring", "d": [["pla", [0, 1], "near"], ["pla", [3, 4], "back"]]}]
MORE = [{"L": [3, 2], "B": "odd", "d": [["pla", [1, 2], "tilt"]]}, {"L": [3, 2], "B": "brac", "d": []}, {"L": [2, 2, 2], "B": "ring", "d": []}, {"L": [1, 2, 1], "B": "brac", "d": [["pla", [2, 3], "back"]]}]
# unloaded (zero force) trails, deviation edges without force
DEG = [{"L": [1], "B": "axis", "d": [["load", 0, "zero"]]}, {"L": [2], "B": "plain", "d": [["load", 0, "zero"]]},
       {"L": [2], "B": "plain", "d": [["load", 0, "zero"], ["load", 1, "zero"]]},
       {"L": [2], "B": "plain", "d": [["load", 0, "zero"], ["pla", [0, 1], "tilt"]]},
       {"L": [1, 1], "B": "ring", "d": [["dev", [0, 2], 0.0]]},
       {"L": [1, 1], "B": "axis", "d": [["load", 0, "zero"], ["dev", [0, 2], 0.0]]},
       {"L": [1, 1], "B": "axis", "d": [["org", 1, "same"], ["dev", [0, 2], 0.5]]}]


def cases_ad(structs, full, points, orders=("std", "rev")):
    for S in structs:
        s = spec.expand(S)
        for c in cons_alphabet(s, full):
            for o in orders:
                yield {"S": S, "c": [[c, 1.0]], "ord": o, "g": "AD", "p": points}


def cases_weight(structs):
    for S in structs:
        for c in cons_alphabet(spec.expand(S), False):
            for w in (1e6, 1e-3):
                for g in ("AD", "FD"):
                    yield {"S": S, "c": [[c, w]], "ord": "std", "g": g, "p": [0, 1]}


def cases_fd(structs, points):
    for S in structs:
        s = spec.expand(S)
        for c in cons_alphabet(s, False):
            for h in (None, 1e-3, 1e-5, 1e-8):
                yield {"S": S, "c": [[c, 2.5]], "ord": "std", "g": "FD", "h": h, "p": points}


def cases_deg(structs):
    for S in structs:
        s = spec.expand(S)
        for c in cons_alphabet(s, True):
            if c[0] in ("dir", "len"):
                continue  # not differentiable for an edge of zero length
            for g in ("AD", "FD"):
                yield {"S": S, "c": [[c, 1.0]], "ord": "std", "g": g, "p": [0], "deg": True}


def cases_mix(structs):
    """Sweeps of one iteration, several constraints, single parameters."""
    for S in structs:
        s = spec.expand(S)
        cs = list(cons_alphabet(s, False))
        for g in ("AD", "FD"):
            yield {"S": S, "c": [[c, 0.5 + 0.25 * i] for i, c in enumerate(cs)], "ord": "std", "g": g, "p": [0, 1, 2]}
            yield {"S": S, "c": [[c, 1.0] for c in cs], "ord": "rev", "g": g, "p": [1, 0], "t1": True}
            for i in range(len(all_params(s))):
                yield {"S": S, "c": [[c, 1.0] for c in cs], "ord": [i], "g": g, "p": [0, 1]}


def spaces(tier):
    th = tier == "thorough"
    st = ST + (MORE if th else [])
    return [Space("exact", lambda: cases_ad(st, th, [0, 1] if not th else [0, 1, 2, 3]), evaluate,
                  "automatic differentiation: structure x constraint x parameter order; all parameters at once; points 0,1(,2,3)"),
            Space("finite", lambda: cases_fd(st, [0, 1]), evaluate, "finite differences: structure x constraint x step size"),
            Space("weights", lambda: cases_weight([st[0], st[2], st[5]] if not th else st), evaluate, "large and small weights: structure x constraint x weight x method"),
            Space("degenerate", lambda: cases_deg(DEG), evaluate, "zero-force and coincident structures x all constraints"),
            Space("mixed", lambda: cases_mix(st), evaluate, "sums of all constraints; single iteration; every single parameter")]
