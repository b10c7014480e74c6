"""C14: whatever the numerical solver does, the results of an optimization are mutually consistent."""
import itertools
from math import isfinite

import numpy as np

from mc import obs, opt, pen, prob, ref, spec
from mc.core import Space
from mc.eq import compare_views, scale_of
from mc.vec import norm

ASSUMPTIONS = ["scripted spaces: the numerical solver is any machine that evaluates a sequence of points and returns one of them, or "
               "raises RoundoffLimited or RuntimeError; real spaces: the installed NLopt",
               "gradients are compared with central differences where the objective is smooth"]

PROBS = {
    # almost on target from the start
    "near": ({"L": [1], "B": "axis", "d": []}, [["L", [0, 1], 0.5, 0.75]], [["point", 1, [0.0, 0.01, -1.01], 1.0], ["force", [0, 1], -1.0009765625, 2.0]]),
    "one": ({"L": [1], "B": "axis", "d": [["load", 0, "side"]]}, [["L", [0, 1], 0.5, 0.75]], [["point", 1, [1.0, 0.5, -2.0], 1.0]]),
    "ring": ({"L": [1, 1], "B": "ring", "d": []}, [["F", [0, 2], 1.0, 0.5], ["qx", 0, None, 0.25]],
             [["point", 1, [0.25, 0.5, -2.0], 2.5], ["force", [2, 3], -1.5, 0.5]]),
    "brac": ({"L": [2, 2], "B": "brac", "d": []}, [["qz", 4, 0.5, None], ["L", [3, 4], 1.0, 1.0], ["x", 0, 1.0, 1.0], ["F", [1, 4], None, None]],
             [["dir", [0, 1], [0.0, 0.25, -1.0], 3.0], ["reac", 5, [0.0, 0.5, 3.0], 1.0], ["plane", 2, [[0.0, 0.0, -2.0], [0.0, 0.6, 0.8]], 0.25]]),
    "plane": ({"L": [2, 1], "B": "brac", "d": [["pla", [1, 2], "tilt"], ["flip", [0, 1], True], ["key", None, "gap"]]},
              [["y", 3, 0.5, 0.5], ["L", [1, 0], None, 1.0], ["z", 0, 0.5, None]],
              [["len", [0, 3], 1.5, 2.0], ["line", 2, [[0.0, 0.0, 0.0], [0.0, 0.5, -1.0]], 1.0], ["polyline", 4, [[2.0, 0.0, 0.0], [2.0, 1.0, -1.0], [3.0, 1.0, -2.0]], 0.5]]),
    # loads far larger than the other numbers
    "heavy": ({"L": [1, 1], "B": "ring", "d": [["load", 0, "big"], ["load", 2, "big"]]}, [["x", 0, 0.5, 0.75], ["z", 2, None, 1.0], ["qy", 2, 1.0, None]],
              [["point", 1, [0.25, 0.5, -2.0], 1.0], ["reac", 3, [2.0, 4.0, 7.0], 0.125]]),
}
# many of everything
WIDE = {
    "wide": ({"L": [2, 2, 2], "B": "ring", "d": [["pla", [3, 4], "ahead"]]},
             [["L", [0, 1], 0.5, 0.5], ["L", [1, 2], None, 1.0], ["L", [4, 5], 0.5, None], ["L", [6, 7], 1.0, 1.0], ["L", [7, 8], 0.25, 0.25], ["F", [0, 3], 0.5, 0.5],
              ["F", [1, 4], 1.0, 1.0], ["F", [3, 6], 0.25, None], ["F", [4, 7], None, 0.5], ["x", 0, 1.0, 1.0], ["y", 3, 0.5, 0.5], ["z", 6, 0.5, 0.5], ["qx", 1, None, None],
              ["qy", 4, 1.0, 1.0], ["qz", 7, 0.5, 0.5]],
             [["point", 2, [0.25, 0.5, -2.0], 1.0], ["point", 5, [2.25, 0.75, -2.5], 0.5], ["plane", 8, [[0.0, 0.0, -2.0], [0.0, 0.6, 0.8]], 0.25], ["force", [0, 1], -2.0, 0.5],
              ["force", [3, 4], -1.5, 0.75], ["force", [6, 7], -1.0, 1.25], ["reac", 2, [0.0, 0.5, 3.0], 0.125], ["reac", 5, [0.25, 0.5, 3.0], 0.25],
              ["len", [0, 3], 1.5, 2.0], ["len", [4, 7], 2.5, 1.0], ["dir", [0, 1], [0.0, 0.25, -1.0], 3.0], ["line", 4, [[2.0, 0.0, 0.0], [2.0, 0.5, -1.0]], 1.5]]),
}
KWS = {"def": {}, "tight": {"tmax": 300, "eta": 1e-10}, "t1": {"tmax": 1}, "loose": {"tmax": 50, "eta": 1e-3}, "few": {"tmax": 2, "eta": 1e-12}}
STATUS = {1: "NLOPT_SUCCESS", 2: "NLOPT_EPSVAL_REACHED", 3: "NLOPT_FTOL_REACHED", 4: "NLOPT_XTOL_REACHED", 5: "NLOPT_ITERSMAX_REACHED",
          6: "NLOPT_MAXTIME_REACHED", -4: "NLOPT_ROUNDOFF_LIMITED"}
RESULTS = ("x_opt", "penalty", "gradient", "gradient_norm", "evals", "status", "time_opt")


def delta(i, n):
    return [0.0] * n if i == 0 else [(0.125 if i == 1 else -0.0625) * (1 + (k * i) % 3) for k in range(n)]


def strip(o, t, km, params):
    """Observation without the parametrised attributes."""
    o = {k: (dict(v) if isinstance(v, dict) else v) for k, v in o.items()}
    for p in params:
        key = pen.kkey(p[1], km)
        if p[0] == "L":
            o["length"].pop(key, None)
        elif p[0] == "F":
            o["force"].pop(key, None)
        else:
            f = ["xyz", "node_xyz"] if p[0] in "xyz" else ["load"]
            for name in f:
                q = list(o[name][key])
                q[pen.AXIS[p[0]]] = None
                o[name][key] = q
            if p[0] not in "xyz":
                o.pop("loaded", None)
                o.pop("n", None)
    return o


def eta_of(kw):
    return kw.get("eta", 1e-6)


def consistent(s, params, cons, o, form, t, km, kw, grad, ctx, ret=None, tried=None, before=None, num=True):
    """The oracle of the property for a solve that ended with an optimum."""
    x = o.x_opt
    if x is None or o.penalty is None or o.gradient is None or o.gradient_norm is None:
        return "no optimum is reported: x_opt={} penalty={} gradient={}".format(x, o.penalty, o.gradient)
    x = [float(q) for q in x]
    if len(x) != len(params):
        return "x_opt has {} entries for {} parameters".format(len(x), len(params))
    if ret is not None and [float(q) for q in ret] != x:
        return "the solver returned {} but x_opt is {}".format(list(ret), x)
    if tried is not None and not any([float(q) for q in y] == x for y in tried):
        return "x_opt {} is none of the points {} that were tried".format(x, [list(map(float, y)) for y in tried])
    for p, val in zip(params, x):
        if pen.read(t, km, p) != val:
            return "the topology holds {} = {} but x_opt says {}".format(p[:2], pen.read(t, km, p), val)
    if before is not None:
        d = obs.diff(strip(before, t, km, params), strip(obs.observe(t), t, km, params))
        if d:
            return "the optimization changed the topology beyond its parameters: " + d
    want = prob.form_at(s, params, x, kw)
    if want is None:
        return "a form was returned for parameters {} at which form finding is refused".format(x)
    got = spec.form_view(form, km)
    good = prob.conditioned(s, params, x, dict({"tmax": 100, "eta": 1e-6}, **kw))
    tol = 1e-9 if kw.get("tmax") == 1 else 1e-9 + 100 * eta_of(kw)
    if not good:
        ctx.outcome("ill conditioned optimum")
        return
    msg = compare_views(want, got, tol, tol * scale_of(want), "the form at x_opt and the returned form")
    if msg:
        return msg
    pt = pen.total(cons, got)
    ptol = (1e-8 if kw.get("tmax") == 1 else 1e-6 + 100 * eta_of(kw)) * (1.0 + sum(pen.ranges(c, got) for c in cons))
    if not isfinite(float(o.penalty)) or abs(float(o.penalty) - pt) > ptol:
        return "reported penalty {} but the constraints of the returned form add up to {}".format(float(o.penalty), pt)
    g = [float(q) for q in o.gradient]
    if len(g) != len(x) or abs(norm3(g) - float(o.gradient_norm)) > 1e-9 * (1 + norm3(g)):
        return "gradient {} and its norm {} do not belong together".format(g, o.gradient_norm)
    if num:
        h, nkw = 1e-4, dict(kw)
        if kw.get("tmax") != 1:
            nkw = {"tmax": 300, "eta": 1e-11}

        def at(y):
            v = prob.form_at(s, params, y, nkw)
            return None if v is None else pen.total(cons, v)
        f0 = at(x)
        for i in range(len(x)):
            y1, y2, y3, y4 = (list(x) for _ in range(4))
            y1[i] += h
            y2[i] -= h
            y3[i] += h / 2
            y4[i] -= h / 2
            a, b, c, e = at(y1), at(y2), at(y3), at(y4)
            if None in (a, b, c, e, f0):
                ctx.outcome("gradient not compared")
                continue
            d1, d2 = (a - b) / (2 * h), (c - e) / h
            curv = abs(a - 2 * f0 + b) / h / h
            sc = max(1.0, abs(f0), abs(d2))
            if abs(d1 - d2) > 1e-4 * sc or abs(a - 2 * f0 + b) / h > 1e-2 * sc * max(1.0, curv * h):
                ctx.outcome("gradient not compared")
                continue
            gt = (1e-4 if eta_of(kw) < 1e-4 else 2e-2) * sc + (1e-5 * curv + 1e-3 * sc * min(1.0, eta_of(kw) / 1e-6) if grad == "FD" else 0.0)
            if abs(g[i] - d2) > gt and not (grad == "FD" and eta_of(kw) > 1e-5):
                return "reported gradient component {} is {} but the derivative at x_opt is {}".format(i, g[i], d2)
            ctx.outcome("gradient")


def norm3(g):
    return sum(q * q for q in g) ** 0.5


def run(o, t, script, kw, grad, extra=None):
    with opt.scripted(script) as log:
        try:
            form = o.solve(t, grad=grad, **dict(kw, **(extra or {})))
        except (ValueError, RuntimeError, opt.REAL.ForcedStop) as e:
            return None, e, log
    return form, None, log


def one_solve(s, params, cons, o, t, km, kw, grad, script, ctx, num=True, extra=None):
    """One scripted solve on live objects; s is the spec the topology currently holds."""
    before = obs.observe(t)
    x0 = [pen.start(s, p) for p in params]
    form, err, log = run(o, t, script, kw, grad, extra)
    ctx.step(1 + len(script["t"]))
    end = script["end"]
    if len(log) != 1:
        return "the solver was started {} times".format(len(log)), None
    if log[0].x0.tolist() != x0:
        return "the solver starts at {} instead of {}".format(log[0].x0.tolist(), x0), None
    last = log[0].evals[-1][0].tolist() if log[0].evals else x0
    if err is not None:
        if not isinstance(err, ValueError):
            return "solve raised {!r}".format(err), None
        # a trial point without equilibrium within the limits
        pts = [x0] + [(np.array(x0) + np.array(d)).tolist() for d, _ in script["t"]]
        if all(prob.form_at(s, params, q, kw) is not None for q in pts):
            return "solve raised {!r} although every point has an equilibrium form".format(err), None
        for a in RESULTS:
            if getattr(o, a) is not None:
                return "after a failed solve {} = {} is still reported".format(a, getattr(o, a)), None
        d = obs.diff(strip(before, t, km, params), strip(obs.observe(t), t, km, params))
        if d:
            return "a failed optimization changed the topology beyond its parameters: " + d, None
        ctx.outcome("no equilibrium")
        return None, None
    if end[0] == "runtime":
        for a in RESULTS:
            if getattr(o, a) is not None:
                return "after a runtime error {} = {} is still reported".format(a, getattr(o, a)), None
        d = obs.diff(strip(before, t, km, params), strip(obs.observe(t), t, km, params))
        if d:
            return "a failed optimization changed the topology beyond its parameters: " + d, None
        now = [pen.read(t, km, p) for p in params]
        want = prob.form_at(s, params, now, kw)
        if want is not None and prob.conditioned(s, params, now, dict({"tmax": 100, "eta": 1e-6}, **kw)):
            msg = compare_views(want, spec.form_view(form, km), 1e-7 + 100 * eta_of(kw), (1e-7 + 100 * eta_of(kw)) * scale_of(want))
            if msg:
                return "after a runtime error: " + msg, None
        ctx.outcome("runtime error")
        return None, pen.with_values(s, params, now)
    ret = None
    if end[0] == "ret":
        ret = x0 if end[1] < 0 else (np.array(x0) + np.array(script["t"][end[1]][0])).tolist()
    tried = [x0] + [e[0] for e in log[0].evals]
    msg = consistent(s, params, cons, o, form, t, km, kw, grad, ctx, ret, tried, before, num)
    if msg:
        return msg, None
    if int(o.evals) != len(script["t"]):
        return "{} evaluations reported, {} made".format(o.evals, len(script["t"])), None
    if not isinstance(o.status, str) or not o.status:
        return "status is {!r}".format(o.status), None
    code = -4 if end[0] == "roundoff" else end[2]
    if o.status != STATUS[code]:
        return "the solver ended with {} but {} is reported".format(STATUS[code], o.status), None
    ctx.outcome(end[0])
    return None, pen.with_values(s, params, [float(q) for q in o.x_opt])


def evaluate_script(case, ctx):
    S, params, cons = PROBS.get(case["P"]) or WIDE[case["P"]]
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    t, km = spec.build(s)
    o = prob.optimizer(params, cons, km)
    for i, sc in enumerate(case["s"]):
        script = {"t": [[delta(d, len(params)), w] for d, w in sc["t"]], "end": sc["end"]}
        msg, s2 = one_solve(s, params, cons, o, t, km, KWS[case["k"]], case["g"], script, ctx, num=case.get("num", True), extra=case.get("x"))
        if msg:
            return "solve {}: {}".format(i + 1, msg)
        if s2 is None:
            return
        s = s2


def scripts(depth, wants):
    for k in range(depth + 1):
        for seq in itertools.product(range(3), repeat=k):
            for wp in wants:
                w = [bool(wp == "all" or (wp == "alt" and i % 2 == 0)) for i in range(k)]
                if wp != "all" and k == 0:
                    continue
                t = [[d, b] for d, b in zip(seq, w)]
                for i in range(-1, k):
                    yield {"t": t, "end": ["ret", i, 1 + (i + k) % 6]}
                yield {"t": t, "end": ["roundoff"]}
                yield {"t": t, "end": ["runtime"]}


def cases_script(probs, kws, grads, depth, wants, num=True):
    for P in probs:
        for k in kws:
            for g in grads:
                for sc in scripts(depth, wants):
                    yield {"P": P, "k": k, "g": g, "s": [sc], "num": num}


def cases_budget(probs, depth):
    """Fewer iterations allowed than the solver ends up using, and far more."""
    for P in probs:
        for n in (1, 2, 1000):
            for sc in scripts(depth, ["all"]):
                yield {"P": P, "k": "def", "g": "AD", "s": [sc], "num": False, "x": {"iters": n}}


def cases_twice(probs, kws, d1, d2, d3=None):
    for P in probs:
        for k in kws:
            for a in scripts(d1, ["all"]):
                for b in scripts(d2, ["all"]):
                    if d3 is None:
                        yield {"P": P, "k": k, "g": "AD", "s": [a, b], "num": False}
                    else:
                        for c in scripts(d3, ["all"]):
                            yield {"P": P, "k": k, "g": "AD", "s": [a, b, c], "num": False}


# ------------------------------------------------------------------------------------------
# real solver
# ------------------------------------------------------------------------------------------

ALG = ["SLSQP", "LBFGS", "MMA", "TNEWTON", "VAR", "AUGLAG"]


def evaluate_real(case, ctx):
    S, params, cons = PROBS.get(case["P"]) or WIDE[case["P"]]
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    t, km = spec.build(s)
    kw = KWS[case["k"]]
    before = obs.observe(t)
    if case.get("proxy"):
        from compas_cem.optimization import solve_proxy
        ref_o = prob.optimizer(params, cons, km)
        tt, _ = spec.build(s)
        want = dict(kw, **case.get("x", {}))
        with opt.scripted(None) as rlog:
            try:
                ref_form = ref_o.solve(tt, algorithm=case["a"], iters=case["n"], **want)
            except ValueError:
                ref_form = None
        with opt.scripted(None) as log:
            try:
                res = solve_proxy(t, [pen.make_constraint(c, km) for c in cons], [pen.make_param(p, km) for p in params],
                                  case["a"], case["n"], **want)
            except ValueError:
                res = None
        if (res is None) != (ref_form is None):
            return "solve_proxy {} but solve {}".format("refuses" if res is None else "returns", "refuses" if ref_form is None else "returns")
        if res is None:
            ctx.outcome("no equilibrium")
            return
        t2, form, objective, gnorm, evals, duration, status = res
        p1, p2 = log[0], rlog[0]
        if (p1.maxeval, p1.stopval, p1.ftol_abs, p1.alg) != (p2.maxeval, p2.stopval, p2.ftol_abs, p2.alg):
            return "solve_proxy and solve give the solver different limits"
        if evals != ref_o.evals or status != ref_o.status:
            return "solve_proxy reports {} evaluations and {}, solve {} and {}".format(evals, status, ref_o.evals, ref_o.status)

        class O(object):
            pass
        o = O()
        o.x_opt = [pen.read(t2, km, p) for p in params]
        o.penalty, o.gradient_norm = objective, gnorm
        o.gradient = ref_o.gradient
        if abs(float(ref_o.penalty) - float(objective)) > 1e-9 * (1 + abs(float(objective))):
            return "solve_proxy ends at {} but solve at {}".format(objective, ref_o.penalty)
        msg = compare_views(spec.form_view(ref_form, km), spec.form_view(form, km), 1e-9, 1e-9, "solve and solve_proxy")
        if msg:
            return msg
        t = t2
    else:
        o = prob.optimizer(params, cons, km)
        with opt.scripted(None) as log:
            try:
                form = o.solve(t, algorithm=case["a"], iters=case["n"], grad=case["g"], **dict(kw, **case.get("x", {})))
            except ValueError:
                ctx.outcome("no equilibrium")
                return
    ctx.step(len(log[0].evals))
    if o.x_opt is None:
        for a in RESULTS:
            if getattr(o, a) is not None:
                return "after a runtime error {} = {} is still reported".format(a, getattr(o, a))
        ctx.outcome("runtime error")
        return
    tried = [log[0].x0] + [e[0] for e in log[0].evals]
    msg = consistent(s, params, cons, o, form, t, km, kw, case.get("g", "AD"), ctx, None, tried, before)
    if msg:
        return "{} with {} iterations: {}".format(case["a"], case["n"], msg)
    ctx.outcome("real solve")


def cases_real(probs, algs, ns, grads, kws):
    for P in probs:
        for a in algs:
            for n in ns:
                for g in grads:
                    for k in kws:
                        yield {"P": P, "a": a, "n": n, "g": g, "k": k}


def cases_proxy(probs, algs, ns, kws):
    for P in probs:
        for a in algs:
            for n in ns:
                for k in kws:
                    yield {"P": P, "a": a, "n": n, "k": k, "proxy": True}
            for x in ({"eps": 1e-1}, {"kappa": 1e-2}, {"eps": 1e-12, "kappa": 1e-14}):
                yield {"P": P, "a": a, "n": 25, "k": "def", "x": x, "proxy": True}


def cases_extra(probs, algs):
    for P in probs:
        for a in algs:
            for x in ({"eps": 1e-1}, {"eps": None}, {"kappa": 1e-2}, {"kappa": None}, {"verbose": True}, {"eps": 1e9}):
                yield {"P": P, "a": a, "n": 30, "g": "AD", "k": "def", "x": x}


def spaces(tier):
    th = tier == "thorough"
    allp = list(PROBS)
    ns = [1, 2, 3, 5, 40] if not th else [1, 2, 3, 4, 5, 8, 13, 40, 200]
    sp = [Space("scripts", lambda: cases_script(allp, ["def", "tight", "t1"], ["AD", "FD"], 2, ["all", "alt"]), evaluate_script,
                "every problem x limits x gradient method x every sequence of at most 2 trial points (of 3) x gradient requests x "
                "every end (return of any tried point, roundoff, runtime error)"),
          Space("deep", lambda: cases_script(allp if th else ["ring", "brac"], ["def"], ["AD", "FD"] if th else ["AD"], 4 if th else 3, ["all", "none"], num=False), evaluate_script,
                "every sequence of at most 3 (thorough 4) trial points"),
          Space("limits", lambda: cases_script(allp, ["loose", "few"], ["AD", "FD"], 1 if not th else 2, ["all", "alt"], num=False), evaluate_script,
                "loose and unreachable equilibrium limits"),
          Space("budget", lambda: cases_budget(["one", "heavy"] if not th else allp, 3), evaluate_script, "iteration limits of 1, 2 and 1000 x every sequence of at most 3 trial points"),
          Space("again", lambda: cases_twice(["ring", "brac"] if not th else allp, ["def", "t1"], 1, 1 if not th else 2), evaluate_script,
                "two solves in a row on the same optimizer and topology, every pair of scripts"),
          Space("thrice", lambda: cases_twice(["ring"], ["def"], 1 if th else 0, 1, 0 if not th else 1), evaluate_script, "three solves in a row"),
          Space("real", lambda: cases_real(allp, ALG, ns, ["AD", "FD"], ["def", "tight"] + (["t1"] if th else [])), evaluate_real,
                "all algorithms x iteration budgets x gradient methods"),
          Space("proxy", lambda: cases_proxy(allp, ALG, [1, 3, 20], ["def", "t1", "tight", "loose", "few"]), evaluate_real, "solve_proxy: all algorithms x budgets x limits and thresholds"),
          Space("wide", lambda: cases_script(list(WIDE), ["def"], ["AD", "FD"], 1 if not th else 2, ["all"]), evaluate_script, "a problem with 15 parameters and 12 constraints: every sequence of at most 1 (2) trial points x every end"),
          Space("wide-real", lambda: itertools.chain(cases_real(list(WIDE), ALG, ns[1:4], ["AD"], ["def"]), cases_proxy(list(WIDE), ALG[:2], [3], ["def"])), evaluate_real, "the same problem, all algorithms x budgets; solve_proxy"),
          Space("settings", lambda: cases_extra(allp, ALG), evaluate_real, "thresholds and logging")]
    return sp
