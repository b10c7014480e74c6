"""C03: the form honours everything that was prescribed."""
from math import copysign

from mc import spec
from mc.core import Space
from mc.eq import TIGHT, check_finite, engines
from mc.vec import add, dist, dot, mul, norm, sub, unit

ASSUMPTIONS = ["trail edges with a force below 1e-4, or attached to a node with a loaded edge shorter than 1e-3, are exempt",
               "a plane is judged only if the trail direction is clearly parallel (<1e-8) or clearly not (>3e-6) and the "
               "edge's start node is exactly on it or further than 1e-5 along the trail"]


def oracle(s, v, eta, ctx):
    msg = check_finite(v)
    if msg:
        return msg
    for t in s["trails"]:
        if v["xyz"][t[0]] != s["xyz"][t[0]]:
            return "origin {} moved from {} to {}".format(t[0], s["xyz"][t[0]], v["xyz"][t[0]])
    for n in s["xyz"]:
        q = s["loads"].get(n, [0.0, 0.0, 0.0])
        if v["load"][n] != q:
            return "load at {} changed from {} to {}".format(n, q, v["load"][n])
    if v["sup"] != sorted(t[-1] for t in s["trails"]):
        return "supports changed to {}".format(v["sup"])
    want = {tuple(sorted(e[:2])) for e in s["tedges"]} | {tuple(sorted(e[:2])) for e in s["devs"]}
    if set(v["force"]) != want:
        return "edges changed to {}".format(sorted(v["force"]))
    for a, b, f in s["devs"]:
        if v["force"][tuple(sorted((a, b)))] != f:
            return "force of deviation edge {} changed from {} to {}".format((a, b), f, v["force"][tuple(sorted((a, b)))])
    for e, f in v["force"].items():
        g = dist(v["xyz"][e[0]], v["xyz"][e[1]])
        if abs(abs(v["length"][e]) - g) > 1e-9 * (1 + g):
            return "edge {}: reported length {} but geometric length {}".format(e, v["length"][e], g)
        if f != 0.0 and g > 1e-9 and copysign(1, f) != copysign(1, v["length"][e]):
            return "edge {}: length {} and force {} have different signs".format(e, v["length"][e], f)
    trail = {tuple(sorted(e[:2])) for e in s["tedges"]}  # a trail edge of no length still pulls
    inc = {n: [] for n in v["xyz"]}
    for (a, b), f in v["force"].items():
        inc[a].append((b, f))
        inc[b].append((a, f))
    scale = max([abs(f) for f in v["force"].values()] + [norm(q) for q in v["load"].values()] + [1e-30])
    for u, w, length, plane in s["tedges"]:
        # force the edge must exert on u, from everything else acting on u
        r, bad, slack = v["load"][u], False, 0.0
        for o, f in inc[u]:
            if o == w:
                continue
            d = sub(v["xyz"][o], v["xyz"][u])
            if norm(d) < 1e-3 and f != 0.0:
                bad = norm(d) > 0.0 or tuple(sorted((o, u))) in trail or bad
            slack += abs(f) / max(norm(d), 1e-3)
            r = add(r, mul(unit(d), f))
        r = mul(r, -1.0)
        if norm(r) < 1e-4 * scale or bad:
            ctx.outcome("edge exempt")
            continue
        u_ = unit(r)
        exp, how = length, "prescribed length"
        if plane is not None:
            o, n = plane
            c = dot(n, u_)
            num = dot(n, sub(o, v["xyz"][u]))
            if abs(c) < 1e-8:
                how = "prescribed length (parallel plane)"
            elif abs(c) < 3e-6:
                ctx.outcome("edge exempt")
                continue
            elif o == v["xyz"][u]:
                how = "prescribed length (plane through start)"
            elif abs(num) < 1e-5 * abs(c):
                ctx.outcome("edge exempt")
                continue
            else:
                exp, how = num / c, "plane"
        tol_r = 1e-8 * scale + 20 * eta * slack
        tol = (1e-8 + 20 * eta + tol_r / norm(r)) * (1 + abs(exp)) * (max(1e3, 10 / abs(c)) if how == "plane" else 1)
        if tol > 0.05 * (1 + abs(exp)):
            ctx.outcome("edge exempt")
            continue
        got = v["xyz"][w]
        must = add(v["xyz"][u], mul(u_, exp))
        if dist(got, must) > tol:
            return "trail edge {}: end node at {} but {} puts it at {}".format((u, w), got, how, must)
        f = v["force"][tuple(sorted((u, w)))]
        if abs(f - copysign(norm(r), exp)) > 10 * tol_r:
            return "trail edge {}: force {} but {} and equilibrium require {}".format((u, w), f, how, copysign(norm(r), exp))
        if how == "plane" and abs(dot(plane[1], sub(got, plane[0]))) > tol:
            return "trail edge {}: end node {} is not on its plane".format((u, w), got)
        ctx.outcome("edge " + how)


def evaluate(case, ctx):
    from compas.geometry import Plane
    s = spec.expand(case)
    ctx.state(s)
    for kw in ([TIGHT] if len(case["d"]) > 1 else [TIGHT, {}]):
        for eng in ("py", "np"):
            t, km = spec.build(s)
            ctx.step()
            ctx.trace()
            try:
                form = engines()[eng](t, **kw)
            except ValueError:
                ctx.outcome("refused")
                continue
            if sorted(form.edges()) != sorted(t.edges()) or list(form.nodes()) != list(t.nodes()):
                return "{} engine: nodes or edge keys of the form differ from the topology".format(eng)
            inv = {k: a for a, k in km.items()}
            planes = {frozenset(e[:2]): e[3] for e in s["tedges"]}
            for u, w in form.edges():
                have, want = form.edge_plane((u, w)), planes.get(frozenset((inv[u], inv[w])))
                if (have is None) != (want is None) or have is not None and max(dist(a, b) for a, b in zip(have, Plane(*want))) > 1e-12 * (1 + norm(want[0])):
                    return "{} engine: the plane of edge {} changed from {} to {}".format(eng, (inv[u], inv[w]), want, have)
            msg = oracle(s, spec.form_view(form, km), kw.get("eta", 1e-6), ctx)
            if msg:
                return "{} engine {}: {}".format(eng, kw, msg)


def plan(tier):
    small = [((1,), "axis", 3), ((2,), "axis", 2), ((2,), "plain", 2), ((3,), "plain", 2), ((1, 1), "ring", 2),
             ((2, 1), "brac", 2), ((2, 2), "axis", 1), ((2, 2), "brac", 2), ((2, 2), "ten", 1), ((3, 2), "brac", 1),
             ((1, 2, 1), "brac", 1), ((2, 2, 2), "brac", 1), ((3, 1, 2), "ring", 1)]
    small += spec.LARGE + spec.ODD + spec.HUB + [((2, 2), "slow", 1), ((2, 3), "slow", 0), ((3, 3), "slow", 0)]
    small += [((1,), "axis", 2, ("len0", "load", "pla", "flip")), ((2,), "plain", 1, ("len0",)), ((3,), "plain", 1, ("len0",)), ((2, 1), "ring", 1, ("len0",)), ((2, 2), "odd", 1, ("len0",))]
    if tier == "quick":
        return small
    return small + [((2,), "axis", 3), ((1, 1), "axis", 3), ((2, 1), "brac", 3), ((2, 2), "axis", 2), ((2, 2), "ten", 2),
                    ((3, 2), "brac", 2), ((1, 2, 1), "brac", 2), ((2, 2, 2), "brac", 2)]


def spaces(tier):
    p = plan(tier)
    return [Space("structures", lambda: spec.cases(p), evaluate,
                  "all structures with at most D departures from the bases: " + str(p))]
