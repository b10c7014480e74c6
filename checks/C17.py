"""C17: constraint penalties measure the weighted squared distance to their target."""
from math import isfinite

from mc import pen, prob, ref, spec
from mc.core import Space
from mc.vec import add, dist, mul, sub, unit

ASSUMPTIONS = ["the objective is read at the solver boundary (stand-in for nlopt)",
               "edges of zero length have no direction and are left out", "well conditioned, convergent structures"]

STRUCT = [{"L": [1], "B": "axis", "d": []}, {"L": [2], "B": "plain", "d": []}, {"L": [1, 1], "B": "ring", "d": []},
          {"L": [2, 2], "B": "brac", "d": []}, {"L": [2, 2], "B": "ten", "d": []},
          {"L": [3], "B": "plain", "d": [["pla", [1, 2], "tilt"], ["len", [0, 1], 1.25]]},
          {"L": [2, 1], "B": "brac", "d": [["flip", [0, 1], True], ["key", None, "gap"]]},
          {"L": [1, 2, 1], "B": "brac", "d": [["shift", 0, 1]]}, {"L": [2, 1], "B": "odd", "d": []}]
EXTRA = [{"L": [3, 2], "B": "brac", "d": []}, {"L": [2, 2, 2], "B": "brac", "d": [["ord", None, "rev"]]}, {"L": [4], "B": "axis", "d": [["len", [1, 2], 3.0]]},
         {"L": [2, 2], "B": "axis", "d": [["dev", [0, 5], 0.5]]}]
WEIGHTS = [1.0, 2.5, 0.0, 1e-3, 100.0]
PTS = [[1.0, 2.0, -1.0], [0.0, 0.0, 0.0], [-3.5, 0.25, 7.0]]
VECS = [[0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [-2.0, 3.0, 1.0], [0.25, 0.125, 0.5]]
LINES = [[[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]], [[1.0, 1.0, 5.0], [1.5, 1.0, 5.5]], [[-2.0, 1.0, 0.0], [3.0, -1.0, 2.0]]]
PLANES = [[[0.0, 0.0, -2.0], [0.0, 0.0, 1.0]], [[1.0, 0.0, 0.0], [-1.0, 2.0, 2.0]], [[0.0, 5.0, 1.0], [0.0, -0.5, 0.0]]]
POLYS = [[[0.0, 0.0, 0.0], [1.0, 0.0, -1.0], [2.0, 1.0, -1.0]], [[5.0, 5.0, 5.0], [6.0, 5.0, 5.0]], [[-3.0, -1.0, -2.5], [5.0, 2.0, 0.5]],
         [[-1.0, -1.0, 0.0], [3.0, -1.0, 0.0], [3.0, 3.0, -2.0], [-1.0, 3.0, -2.0], [-1.0, -1.0, 0.0]]]
FLOATS = [0.0, 1.5, -2.0]
# far away, long, tiny and huge targets
FARP = [[250.0, -300.0, 40.0], [1e4, 2.0, -1.0], [1e-3, 0.0, -2e-3]]
FARL = [[[1e3, 0.0, 0.0], [1e3, 0.0, 1e-2]], [[0.0, -500.0, 3.0], [800.0, -500.0, 3.0]], [[0.0, 0.0, 0.0], [1e4, 1e4, 0.0]]]
FARN = [[[0.0, 0.0, -2e3], [0.0, 0.0, 1e-2]], [[300.0, 0.0, 0.0], [30.0, 40.0, 0.0]]]
FARV = [[0.0, 0.0, -1e3], [1e-3, 2e-3, 0.0], [300.0, -400.0, 50.0]]
FARY = [[[float(i) - 4.0, float(i % 2), -0.5 * i] for i in range(n)] for n in (7, 10, 16)]
FARY += [[p[::-1] for p in FARY[1]], FARY[2][::-1], [[100.0 * i, 200.0, -50.0 * (i % 3)] for i in range(9)], [[0.0, 0.0, -1e-3 * i] for i in range(12)]]


def far(s):
    for n in sorted(s["xyz"]):
        for kind, ts in (("point", FARP), ("line", FARL), ("plane", FARN), ("polyline", FARY)):
            for t in ts:
                yield [kind, n, t]
    for u, v in [e[:2] for e in s["tedges"]] + [e[:2] for e in s["devs"]]:
        for t in FARV:
            yield ["dir", [u, v], t]
    for a, b, _ in s["devs"]:
        for t in (150.0, 1e-3):
            yield ["len", [a, b], t]
    for e in s["tedges"]:
        for t in (-1500.0, 250.0, 1e-3):
            yield ["force", prob.oriented(s, e[:2]), t]
    for t in s["trails"]:
        for q in FARV:
            yield ["reac", t[-1], q]


def cases_far(structs):
    for S in structs:
        for c in far(spec.expand(S)):
            for w in (1.0, 1e-6, 1e4):
                yield {"S": S, "c": [[c, w]]}


def close(s):
    for c in singles(s):
        if c[2] == "on":
            for h in ("by1e-2", "by1e-4", "by1e-6", "by-3e-7"):
                yield [c[0], c[1], h]


def cases_close(structs):
    for S in structs:
        for c in close(spec.expand(S)):
            for w in (1.0, 1e-3, 1e4):
                yield {"S": S, "c": [[c, w]]}


def singles(s):
    """All (kind, key, target) of the alphabet; "on..." targets are resolved from the reference form."""
    nodes = sorted(s["xyz"])
    for n in nodes:
        for t in PTS + ["on"]:
            yield ["point", n, t]
        for t in LINES + ["on"]:
            yield ["line", n, t]
        for t in PLANES + ["on"]:
            yield ["plane", n, t]
        for t in POLYS + ["on", "onv"]:
            yield ["polyline", n, t]
    edges = [e[:2] for e in s["tedges"]] + [e[:2] for e in s["devs"]]
    for u, v in edges:
        for k in ([u, v], [v, u]):
            for t in VECS + ["on", "anti"]:
                yield ["dir", k, t]
    for a, b, _ in s["devs"]:
        for k in ([a, b], [b, a]):
            for t in FLOATS + ["on"]:
                yield ["len", k, t]
    for e in s["tedges"]:
        for t in FLOATS + ["on"]:
            yield ["force", prob.oriented(s, e[:2]), t]
    for t in s["trails"]:
        for q in VECS[:3] + [[0.0, 0.0, 0.0], "on"]:
            yield ["reac", t[-1], q]


def resolve(s, c, w):
    """Turn symbolic targets into numbers with the reference model (not the code under test)."""
    kind, key, tg = c
    if not isinstance(tg, str):
        return [kind, key, tg, w], None
    if tg.startswith("by"):  # missed by a given distance
        h = float(tg[2:])
        r, _ = resolve(s, [kind, key, "on"], w)
        t = r[2]
        if kind in ("point", "reac"):
            t = add(t, mul([0.6, -0.48, 0.64], h))
        elif kind == "dir":
            t = add(t, mul([0.6, -0.48, 0.64], h * dist(t, [0.0] * 3)))
        elif kind in ("len", "force"):
            t = t + h
        else:
            t = [add(p, mul([0.6, -0.48, 0.64], h)) if kind != "plane" or i == 0 else p for i, p in enumerate(t)]
        return [kind, key, t, w], None
    r = ref.solve(s, **prob.KW)
    if kind in ("point", "line", "plane", "polyline"):
        p = r.xyz[key]
        a, b = add(p, [1.0, -2.0, 0.5]), sub(p, [1.0, -2.0, 0.5])
        t = {"point": p, "line": [sub(p, [3.0, 3.0, 0.0]), sub(p, [1.0, 1.0, 0.0])], "plane": [p, [1.0, 2.0, -2.0]],
             "polyline": [add(p, [0.0, 9.0, 9.0]), a, b] if tg == "on" else [a, list(p), add(p, [1.0, 1.0, 1.0])]}[kind]
    elif kind == "dir":
        d = sub(r.xyz[key[1]], r.xyz[key[0]])
        t = mul(d, 2.5 if tg == "on" else -0.5)
    elif kind == "len":
        t = dist(r.xyz[key[0]], r.xyz[key[1]])
    elif kind == "force":
        q, ln, _ = r.rvecs.get(tuple(key)) or r.rvecs[tuple(key[::-1])]
        t = (1 if ln > 0 else -1) * dist(q, [0, 0, 0])
    else:
        t = list(r.reac[key])
    return [kind, key, t, w], "zero"


def check(s, cons, zero, plain, grad, ctx):
    e = s["tedges"][0]
    params = [["L", prob.oriented(s, e[:2]), None, None]]
    x0 = [e[2]]
    if not prob.conditioned(s, params, x0):
        ctx.outcome("ill conditioned")
        return
    problem, t, km = prob.capture(s, params, cons, grad=grad, plain=plain)
    for x in (x0, [x0[0] * 1.25]):
        if not prob.conditioned(s, params, x):
            continue
        v = prob.form_at(s, params, x)
        ctx.step(2)
        ctx.trace()
        vals = [prob.value(problem, x), prob.value_grad(problem, x)[0]]
        want = pen.total(cons, v)
        tol = sum(pen.slack(c, v, 1e-9) for c in cons)
        for got in vals:
            if not isfinite(got) or got < -1e-12 or abs(got - want) > tol:
                return "objective {} but the weighted squared distances of {} add up to {}".format(got, cons, want)
        if zero and x == x0 and abs(vals[0]) > 1e-9 * max(1.0, sum(pen.ranges(c, v) for c in cons)):
            return "penalty {} on target".format(vals[0])
        ctx.outcome("zero" if want < 1e-12 else "positive")


def evaluate(case, ctx):
    s = spec.expand(case["S"])
    ctx.state(case)
    cons, zero = [], True
    for c, w in case["c"]:
        r, z = resolve(s, c, w)
        zero = zero and bool(z)
        if r[0] == "dir" and dist(r[2], [0, 0, 0]) < 1e-6:
            return
        cons.append(r)
    return check(s, cons, zero, case.get("plain", False), case.get("g", "AD"), ctx)


def cases_single(structs, weights, modes):
    for S in structs:
        s = spec.expand(S)
        for c in singles(s):
            for w in weights:
                for plain, g in modes:
                    if plain and c[0] in ("len", "force"):
                        continue
                    yield {"S": S, "c": [[c, w]], "plain": plain, "g": g}


def cases_multi(structs, n):
    """Additivity: every pair (triple) of constraints of different kinds or keys, one target each."""
    import itertools
    for S in structs:
        s = spec.expand(S)
        pool, seen = [], set()
        for c in singles(s):
            k = (c[0], str(c[1]))
            if k in seen or (isinstance(c[1], int) and c[1] not in (0, len(s["xyz"]) - 1) and c[0] != "point"):
                continue
            seen.add(k)
            pool.append(c)
        for m in range(2, n + 1):
            for combo in itertools.combinations_with_replacement(range(len(pool)), m):
                yield {"S": S, "c": [[pool[i], WEIGHTS[j % 2]] for j, i in enumerate(combo)]}


def spaces(tier):
    th = tier == "thorough"
    st = STRUCT + (EXTRA if th else [])
    one = [(False, "AD")]
    return [Space("single", lambda: cases_single(st, WEIGHTS if th else WEIGHTS[:3], one), evaluate,
                  "every structure x constraint kind x key x target (incl. exactly on target) x weight"),
            Space("modes", lambda: cases_single(st[:4] if not th else st, [None, 0.5], [(True, "AD"), (False, "FD")]), evaluate,
                  "the same with plain-list targets, with finite differences and with the weight left to its default"),
            Space("sums", lambda: cases_multi([st[0], st[2], st[3]] + ([st[6], st[7]] if th else []), 2), evaluate,
                  "every pair of constraints with different weights"),
            Space("triples", lambda: cases_multi([st[0], st[1]] if not th else [st[0], st[1], st[2]], 3), evaluate,
                  "every pair and triple of constraints"),
            Space("close", lambda: cases_close([st[0], st[1], st[2], st[5], st[6]] + (st[3:5] + st[7:] if th else [])), evaluate,
                  "targets missed by 3e-7 to 1e-2, weights from 1e-3 to 1e4"),
            Space("far", lambda: cases_far([st[0], st[2], st[5], st[8]] + (st[3:5] if th else [])), evaluate,
                  "targets far away, tiny and huge, polylines of up to 15 segments, weights from 1e-6 to 1e4")]
