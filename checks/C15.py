"""C15: the optimization problem follows every add/remove history; real solves respect bounds and improve."""
import itertools

import numpy as np

from checks.C14 import ALG, KWS, PROBS
from mc import obs, opt, pen, prob, ref, spec
from mc.core import Space

ASSUMPTIONS = ["the problem is captured at the solver boundary", "real solves that NLopt ends with a roundoff error may end worse than they started"]

S = {"L": [2, 2], "B": "ring", "d": []}
PAR = [["L", [0, 1], None, None], ["F", [0, 3], 0.5, 1.0], ["qx", 1, 0.0, -0.5], ["x", 3, -2.0, None], ["qz", 4, None, 0.25], ["L", [4, 5], 0.125, 0.0],
       ["y", 0, 0.75, 0.75], ["F", [1, 4], None, None]]
CON = [["point", 2, [0.5, 0.5, -2.0], 1.0], ["force", [3, 4], -1.5, 2.5], ["reac", 5, [0.0, 0.5, 3.0], 0.25], ["point", 2, [0.0, 0.0, 0.0], 0.5],
       ["dir", [0, 1], [0.0, 0.25, -1.0], 3.0]]


NP, NC = len(PAR), len(CON)
PAR += [["z", 3, 0.5, 0.5], ["x", 0, 1.0, None], ["qy", 0, 0.25, 0.5], ["L", [1, 2], 0.5, 0.5], ["L", [3, 4], None, 0.75], ["qz", 1, 2.0, 1.0], ["y", 3, None, 1.5], ["qx", 4, 0.5, 0.0]]
CON += [["reac", 2, [0.0, 0.25, 3.5], 0.5], ["force", [0, 1], -2.0, 1.25], ["len", [0, 3], 1.5, 0.75], ["plane", 5, [[0.0, 0.0, -2.0], [0.0, 0.6, 0.8]], 1.5], ["point", 4, [2.0, 0.5, -1.0], 2.0],
        ["line", 1, [[0.0, 0.0, 0.0], [0.0, 0.5, -1.0]], 0.25], ["force", [4, 5], -2.5, 0.25]]


class Model(object):
    def __init__(self):
        self.p, self.c, self.np, self.nc = [], [], 0, 0


def apply(op, o, m, t, km, s, ctx):
    """Apply one operation to the optimizer and the model. Returns (message, spec)."""
    ctx.step()
    k = op[0]
    if k == "p":
        o.add_parameter(pen.make_param(PAR[op[1]], km))
        m.p.append((m.np, PAR[op[1]]))
        m.np += 1
    elif k == "c":
        o.add_constraint(pen.make_constraint(CON[op[1]], km))
        m.c.append((m.nc, CON[op[1]]))
        m.nc += 1
    elif k == "cc":  # one constraint, added twice
        c = pen.make_constraint(CON[op[1]], km)
        for _ in range(2):
            o.add_constraint(c)
            m.c.append((m.nc, CON[op[1]]))
            m.nc += 1
    elif k in ("rp", "rc"):
        lst, f = (m.p, o.remove_parameter) if k == "rp" else (m.c, o.remove_constraint)
        hit = [e for e in lst if e[0] == op[1]]
        try:
            f(op[1])
        except KeyError:
            if hit:
                return "removing key {} raised KeyError although it was added and not removed".format(op[1]), s
        else:
            if not hit:
                return "removing the unknown key {} was accepted".format(op[1]), s
            lst.remove(hit[0])
    elif k == "solve":
        try:
            with opt.scripted({"t": [[[0.125 * (1 + i % 3) for i in range(len(m.p))], True]], "end": ["ret", 0, 1]}) as log:
                o.solve(t, **prob.KW)
        except ValueError:
            if m.p and m.c:
                raise
            return None, s
        if not m.p or not m.c:
            return "an empty problem ({} parameters, {} constraints) was accepted".format(len(m.p), len(m.c)), s
        ps = [p for _, p in m.p]
        s = pen.with_values(s, ps, [pen.read(t, km, p) for p in ps])
    return None, s


def judge(o, m, t, km, s, ctx, points=True, fresh=True):
    if o.number_of_parameters() != len(m.p) or o.number_of_constraints() != len(m.c):
        return "{} parameters and {} constraints counted instead of {} and {}".format(
            o.number_of_parameters(), o.number_of_constraints(), len(m.p), len(m.c))
    ps, cs = [p for _, p in m.p], [c for _, c in m.c]
    try:
        with opt.scripted({"t": [], "end": ["ret", -1, 1]}) as log:
            o.solve(t, **prob.KW)
    except ValueError as e:
        if ps and cs:
            return "a problem with {} parameters and {} constraints was refused: {}".format(len(ps), len(cs), e)
        ctx.outcome("empty refused")
        return
    if not ps or not cs:
        return "an empty problem ({} parameters, {} constraints) was accepted".format(len(ps), len(cs))
    q = log[0]
    x0 = [pen.start(s, p) for p in ps]
    if q.x0.tolist() != x0:
        return "start vector {} instead of {}".format(q.x0.tolist(), x0)
    low = [-np.inf if p[2] is None else a - abs(p[2]) for p, a in zip(ps, x0)]
    up = [np.inf if p[3] is None else a + abs(p[3]) for p, a in zip(ps, x0)]
    if not np.allclose(q.low, low, rtol=0, atol=1e-12) or not np.allclose(q.up, up, rtol=0, atol=1e-12):
        return "bounds {} .. {} instead of {} .. {}".format(q.low.tolist(), q.up.tolist(), low, up)
    ctx.outcome("problem")
    if not points:
        return
    for k in (0, 1):
        x = [a + k * 0.0625 * ((i % 3) + 1) for i, a in enumerate(x0)]
        v = prob.form_at(s, ps, x)
        if v is None:
            continue
        got, want = prob.value(q, x), pen.total(cs, v)
        if abs(got - want) > 1e-6 * (1 + sum(pen.ranges(c, v) for c in cs)):
            return "objective {} instead of {} at {}".format(got, want, x)
    if fresh:
        q2, _, _ = prob.capture(s, ps, cs)
        if q2.x0.tolist() != q.x0.tolist() or q2.low.tolist() != q.low.tolist() or q2.up.tolist() != q.up.tolist():
            return "a fresh optimizer poses a different problem"
        if (q2.maxeval, q2.stopval, q2.ftol_abs, q2.alg) != (q.maxeval, q.stopval, q.ftol_abs, q.alg):
            return "a fresh optimizer sets different limits"
        x = [a + 0.03125 for a in x0]
        if abs(prob.value(q2, x) - prob.value(q, x)) > 1e-9 * (1 + abs(prob.value(q2, x))):
            return "a fresh optimizer has a different objective"


def evaluate_history(case, ctx):
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    t, km = spec.build(s)
    o, m = pen.engine().Optimizer(), Model()
    for op in case["pre"] + case["h"]:
        msg, s = apply(op, o, m, t, km, s, ctx)
        if msg:
            return msg
    return judge(o, m, t, km, s, ctx)


PRE = [["p", 0], ["p", 1], ["p", 2], ["c", 0], ["c", 1]]


def histories(pre, ops, depth):
    for d in range(depth + 1):
        for h in itertools.product(ops, repeat=d):
            yield {"pre": pre, "h": [list(o) for o in h]}


def ops_a():
    return [("p", 0), ("p", 1), ("c", 0), ("c", 1), ("rp", 0), ("rp", 1), ("rc", 0), ("rc", 1), ("solve",)]


def many():
    """All of them, then any one removed, and another one added."""
    pre = [["p", i] for i in range(len(PAR) - 1)] + [["c", i] for i in range(len(CON) - 1)]
    last = [["p", len(PAR) - 1], ["c", len(CON) - 1]]
    for i in range(len(PAR)):
        for tail in ([], last, [["solve"]] + last):
            yield {"pre": pre, "h": [["rp", i]] + tail}
    for i in range(len(CON)):
        for tail in ([], last, [["solve"]] + last):
            yield {"pre": pre, "h": [["rc", i]] + tail}
    for i in range(len(CON)):
        for tail in ([], [["rc", 1]], [["rc", 2], ["c", 0]], [["solve"]]):
            yield {"pre": [["p", 0], ["p", 5], ["c", 1]], "h": [["cc", i]] + tail}


def ops_b():
    return [("p", 3), ("c", 2), ("rp", 0), ("rp", 1), ("rp", 2), ("rp", 3), ("rp", 7), ("rc", 0), ("rc", 1), ("rc", 2), ("solve",)]


def evaluate_sets(case, ctx):
    """Every ordered selection of parameters and constraints."""
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    t, km = spec.build(s)
    o, m = pen.engine().Optimizer(), Model()
    for i in case["p"]:
        apply(("p", i), o, m, t, km, s, ctx)
    for i in case["c"]:
        apply(("c", i), o, m, t, km, s, ctx)
    return judge(o, m, t, km, s, ctx, fresh=False)


def cases_sets(n):
    for k in range(n + 1):
        for ps in itertools.permutations(range(NP), k):
            for cs in ([0], [1, 2], [3, 0, 4], []):
                yield {"p": list(ps), "c": cs}
    for n, k in ((NP, NC), (len(PAR), len(CON))):
        for i in range(n):
            yield {"p": list(range(i, n)) + list(range(i)), "c": list(range(k))[::-1 if i % 2 else 1]}
    yield {"p": list(range(len(PAR))), "c": list(range(len(CON)))}
    yield {"p": list(range(len(PAR)))[::-1], "c": list(range(len(CON)))[::-1]}


def evaluate_bounds(case, ctx):
    """Every parameter kind x bound pair."""
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    p = [case["k"], case["key"], case["lo"], case["up"]]
    q, t, km = prob.capture(s, [p], [CON[0]])
    ctx.step()
    a = pen.start(s, p)
    low = -np.inf if p[2] is None else a - abs(p[2])
    up = np.inf if p[3] is None else a + abs(p[3])
    if q.x0.tolist() != [a]:
        return "start value {} instead of {}".format(q.x0.tolist(), a)
    if not (q.low[0] == low or abs(q.low[0] - low) < 1e-12) or not (q.up[0] == up or abs(q.up[0] - up) < 1e-12):
        return "bounds {} .. {} instead of {} .. {}".format(q.low[0], q.up[0], low, up)
    o = pen.make_param(p, km)
    if (o.bound_low(t), o.bound_up(t), o.start_value(t)) != (q.low[0], q.up[0], q.x0[0]):
        return "the parameter's own bounds {} differ from those posed".format((o.bound_low(t), o.bound_up(t), o.start_value(t)))


BND = [None, 0, 0.0, 1, 1e-6, 0.5, -0.5, 3.0, -7.25, 1e6]


def cases_bounds():
    for k, key in [("L", [0, 1]), ("L", [4, 5]), ("F", [0, 3]), ("F", [1, 4]), ("x", 0), ("y", 3), ("z", 3), ("qx", 0), ("qy", 4), ("qz", 5)]:
        for lo in BND:
            for up in BND:
                yield {"k": k, "key": key, "lo": lo, "up": up}


def evaluate_real(case, ctx):
    Sx, params, cons = PROBS[case["P"]]
    b = case["b"]
    params = [[p[0], p[1]] + (p[2:] if b == "own" else [b[i % len(b)], b[(i + 1) % len(b)]]) for i, p in enumerate(params)]
    s = spec.expand(Sx)
    ctx.state(case)
    ctx.trace()
    t, km = spec.build(s)
    o = prob.optimizer(params, cons, km)
    kw = KWS[case["k"]]
    x0 = [pen.start(s, p) for p in params]
    with opt.scripted(None) as log:
        try:
            o.solve(t, algorithm=case["a"], iters=case["n"], grad=case["g"], **kw)
        except ValueError:
            ctx.outcome("no equilibrium")
            return
    ctx.step(len(log[0].evals))
    for p, a in zip(params, x0):
        v = pen.read(t, km, p)
        if (p[2] is not None and v < a - abs(p[2]) - 1e-9) or (p[3] is not None and v > a + abs(p[3]) + 1e-9):
            return "{} ended at {}, outside {} -{} +{}".format(p[:2], v, a, p[2], p[3])
    if o.x_opt is None:
        ctx.outcome("runtime error")
        return
    if "ROUNDOFF" in str(o.status):
        ctx.outcome("roundoff")
        return
    v0, v1 = prob.form_at(s, params, x0), prob.form_at(s, params, [float(q) for q in o.x_opt])
    if v1 is None:
        return "no equilibrium at the optimum"
    f0, f1 = pen.total(cons, v0), pen.total(cons, v1)
    if f1 > f0 + 1e-5 * (1 + abs(f0)):
        return "{} started at {} and ended at {}".format(case["a"], f0, f1)
    ctx.outcome("improved" if f1 < f0 - 1e-6 else "kept")


def evaluate_limits(case, ctx):
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    ctx.step()
    q, t, km = prob.capture(s, PAR[:case.get("p", 2)], CON[:case.get("q", 1)], grad=case.get("g", "AD"), algorithm=case["a"], iters=case["n"], eps=case["eps"], kappa=case["kappa"])
    R = opt.REAL
    fam = {"SLSQP": [R.LD_SLSQP], "LBFGS": [R.LD_LBFGS], "MMA": [R.LD_MMA], "AUGLAG": [R.LD_AUGLAG, R.AUGLAG], "VAR": [R.LD_VAR1, R.LD_VAR2],
           "TNEWTON": [R.LD_TNEWTON, R.LD_TNEWTON_PRECOND, R.LD_TNEWTON_RESTART, R.LD_TNEWTON_PRECOND_RESTART]}
    if q.alg not in fam[case["a"]]:
        return "algorithm {} was asked for, {} is run".format(case["a"], R.algorithm_name(q.alg))
    if q.maxeval != case["n"]:
        return "iteration budget {} instead of {}".format(q.maxeval, case["n"])
    if q.stopval != (-np.inf if case["eps"] is None else case["eps"]):
        return "objective threshold {} instead of {}".format(q.stopval, case["eps"])
    if (case["kappa"] is None and q.ftol_abs > 0) or (case["kappa"] is not None and q.ftol_abs != case["kappa"]):
        return "change threshold {} instead of {}".format(q.ftol_abs, case["kappa"])


DEF = [{"L": [2, 2], "B": "ring", "d": []}, {"L": [3, 3], "B": "odd", "d": []}, {"L": [3, 3], "B": "slow", "d": []},
       {"L": [2, 2], "B": "slow", "d": [["len", [4, 5], 1.25]]}, {"L": [2, 2], "B": "slow", "d": [["len", [1, 2], -0.5]]},
       {"L": [2, 2], "B": "slow", "d": []}, {"L": [3, 2], "B": "slow", "d": []}]


def evaluate_defaults(case, ctx):
    """solve() without settings: SLSQP, automatic differentiation, 100 iterations, 1e-6, 1e-8; form finding with 100 and 1e-6."""
    s = spec.expand(DEF[case["S"]])
    ctx.state(case)
    ctx.trace()
    ctx.step()
    par, con = DPAR[case["p"]], ["point", 2, [0.5, 0.5, -2.0], case["w"]]
    t, km = spec.build(s)
    o = prob.optimizer([par], [con], km)
    x0 = [pen.start(s, par)]
    want = prob.form_at(s, [par], x0, {"tmax": 100, "eta": 1e-6})
    runs = [ref.solve(s, tmax=150, eta=1e-6, order=list(p)) for p in itertools.permutations(range(len(s["trails"])))]
    sweeps = [r.t + 1 if r.converged else 150 for r in runs]  # depends on the order of the trails
    need = max(sweeps) if max(sweeps) < 100 else min(sweeps)
    with opt.scripted({"t": [[[0.0], True]], "end": ["ret", 0, 1]}) as log:
        try:
            o.solve(t)
        except ValueError as e:
            if need <= 96:
                return "solve without settings fails: {!r}".format(e)
            ctx.outcome("no equilibrium")
            return
    if need >= 104:
        return "solve without settings accepts a structure that takes more than 100 iterations"
    q, R = log[0], opt.REAL
    if (q.alg, q.maxeval, q.stopval, q.ftol_abs) != (R.LD_SLSQP, 100, 1e-6, 1e-8):
        return "solver {} with limits {} {} {}".format(R.algorithm_name(q.alg), q.maxeval, q.stopval, q.ftol_abs)
    if want is None:
        return "solve without settings returns, form finding with a budget of 100 does not" if need < 96 else None
    f = pen.total([con], want)
    if abs(q.evals[0][1] - f) > (1e-7 if need < 20 else 1e-3) * (1 + abs(f)):
        return "objective {} instead of {}".format(q.evals[0][1], f)
    if case["S"] == 0:  # a forward difference is visibly off here
        h = 1e-4
        a, b = (pen.total([con], prob.form_at(s, [par], [x0[0] + d], prob.KW)) for d in (-h, h))
        g, curv = (b - a) / (2 * h), (a - 2 * pen.total([con], prob.form_at(s, [par], x0, prob.KW)) + b) / h / h
        if abs(q.evals[0][2][0] - g) > 1e-7 * (abs(curv) + abs(g)):
            return "gradient {} instead of {}".format(q.evals[0][2][0], g)
    ctx.outcome("defaults after {} sweeps".format(need))


DPAR = [["L", [0, 1], None, None], ["qz", 1, 1.0, 1.0], ["L", [1, 2], 0.5, None]]


def cases_defaults():
    for S in range(len(DEF)):
        for p in range(len(DPAR)):
            for w in (1.0, 250.0):
                yield {"S": S, "p": p, "w": w}


def cases_limits():
    for a in ALG:
        for n in (1, 7, 100, 2500):
            for eps in (None, 0.0, 1e-6, 0.5):
                for kappa in (None, 0.0, 1e-8, 0.25):
                    yield {"a": a, "n": n, "eps": eps, "kappa": kappa}
        for p in range(1, len(PAR) + 1):
            for q in range(1, len(CON) + 1):
                for g in ("AD", "FD"):
                    for n in (1, 40):
                        yield {"a": a, "n": n, "eps": 1e-6, "kappa": 1e-8, "p": p, "q": q, "g": g}


BAD = [{"grad": "XX"}, {"grad": "ad"}, {"grad": None}, {"grad": ""}, {"grad": "ADFD"}, {"algorithm": "XX"}, {"algorithm": "slsqp"}, {"algorithm": None}, {"algorithm": ""}]


def evaluate_bad(case, ctx):
    """Settings that name nothing, and problems without parameters or constraints, are refused and leave the diagram alone."""
    s = spec.expand(S)
    ctx.state(case)
    ctx.trace()
    t, km = spec.build(s)
    o = prob.optimizer([PAR[i] for i in case["p"]], [CON[i] for i in case["c"]], km)
    if case["again"]:
        with opt.scripted({"t": [[[0.125] * len(case["p"]), True]], "end": ["ret", 0, 1]}):
            o.solve(t, **prob.KW)
        if case["bare"]:
            for k in range(len(case["p"])):
                o.remove_parameter(k)
    was = obs.observe(t)
    ctx.step()
    with opt.scripted({"t": [[[0.125] * o.number_of_parameters(), True]], "end": ["ret", 0, 1]}):
        try:
            o.solve(t, **dict(prob.KW, **case["x"]))
        except Exception as e:
            ctx.outcome("refused with " + type(e).__name__)
        else:
            return "solving with {} was accepted".format(case["x"])
    d = obs.diff(was, obs.observe(t))
    if d:
        return "a refused optimization changed the diagram: " + d


def cases_bad():
    for p, c in (([0], [0]), ([1, 3, 5], [0, 1, 2])):
        for x in BAD:
            for again in (False, True):
                yield {"p": p, "c": c, "x": x, "again": again, "bare": False}
    for g in ("AD", "FD"):
        for p, c in (([], [0]), ([1, 3], []), ([], [])):
            yield {"p": p, "c": c, "x": {"grad": g}, "again": False, "bare": False}
        yield {"p": [1, 3], "c": [0], "x": {"grad": g}, "again": True, "bare": True}


def cases_real(ns, kws, bs):
    for P in PROBS:
        for a in ALG:
            for n in ns:
                for g in ("AD", "FD"):
                    for k in kws:
                        for b in bs:
                            yield {"P": P, "a": a, "n": n, "g": g, "k": k, "b": b}


def spaces(tier):
    th = tier == "thorough"
    return [Space("bounds", cases_bounds, evaluate_bounds, "every parameter kind x all pairs of bounds from " + str(BND)),
            Space("sets", lambda: cases_sets(3 if not th else 4), evaluate_sets, "every ordered selection of up to 3 (4) of 8 parameters x 4 constraint lists"),
            Space("histories", lambda: histories([], ops_a(), 4 if not th else 5), evaluate_history,
                  "all histories up to depth 4 (5) of adding/removing 2 parameters and 2 constraints and solving, from an empty optimizer"),
            Space("filled", lambda: histories(PRE, ops_b(), 3 if not th else 4), evaluate_history,
                  "all histories up to depth 3 (4) from an optimizer with 3 parameters and 2 constraints"),
            Space("many", many, evaluate_history, "15 parameters and 11 constraints: any one removed, solved, others added; one constraint object added twice"),
            Space("refusals", cases_bad, evaluate_bad, "unknown gradient methods and algorithms, empty problems, before and after a successful solve"),
            Space("limits", cases_limits, evaluate_limits, "all algorithms x iteration budgets x thresholds; all algorithms x numbers of parameters and constraints x gradient methods"),
            Space("defaults", cases_defaults, evaluate_defaults, "solve without settings on 7 structures (up to > 100 sweeps) x 3 parameters x 2 weights"),
            Space("real", lambda: cases_real([2, 6, 40] if not th else [1, 2, 3, 6, 12, 40, 150], ["def"] if not th else ["def", "tight"],
                                             ["own", [0.0, 0.25], [None], [0.25, 0.125, None]]), evaluate_real,
                  "all algorithms x budgets x gradient methods x bound patterns")]
