"""C02: the two engines agree, including on degenerate inputs."""
from mc import ref, spec
from mc.core import Space
from mc.eq import TIGHT, check_finite, compare_views, run_engine, scale_of

ASSUMPTIONS = ["positions and forces are compared only where the reference iteration is well conditioned "
               "(no non-zero trail force below 1e-3, no non-zero deviation edge length below 1e-3, planes not nearly parallel) and insensitive to perturbations of the size of rounding errors"]


def evaluate(case, ctx):
    s = spec.expand(case)
    ctx.state(s)
    for kw in ([TIGHT] if len(case["d"]) > 1 else [TIGHT, {}, {"tmax": 1}, {"tmax": 3, "eta": 1e-3}]):
        t, km = spec.build(s)
        a, ea = run_engine("py", t, km, ctx, **kw)
        t, km = spec.build(s)
        b, eb = run_engine("np", t, km, ctx, **kw)
        ctx.trace()
        eta = kw.get("eta", 1e-6)
        r = ref.solve(s, tmax=kw.get("tmax", 100), eta=eta)
        ok = ref.wellposed(r, cmin=3e-6) and ref.stable(s, r)
        amp = max(1.0, 1e-2 / max(r.cond["cmin"], 1e-12)) * max(1.0, max(abs(c) for p in s["xyz"].values() for c in p) / 10.0)
        if (a is None) != (b is None):
            near = not ok or any(eta / 3 < d < 3 * eta for d in r.dists[-2:])
            if near:
                ctx.outcome("boundary")
                continue
            return "{}: one engine returns, the other refuses (python: {}, numpy: {})".format(kw, ea, eb)
        if a is None:
            ctx.outcome("both refuse")
            continue
        for v, n in ((a, "python"), (b, "numpy")):
            msg = check_finite(v)
            if msg:
                return "{} engine {}: {}".format(n, kw, msg)
        if not ok:
            ctx.outcome("ill conditioned, not compared")
            continue
        sc = scale_of(a)
        tol = (1e-7 + 100 * eta) * amp
        if amp == 1.0 and eta <= TIGHT["eta"] and r.cond["cmin"] > 0.1 and r.cond["rmin"] > 0.1 * r.mag and r.cond["dmin"] > 0.1:
            # settled at once: nothing but rounding is left; otherwise twenty times the last movement
            tol = 1e-10 if r.dists[0] < 1e-11 else 1e-9 if len(r.dists) < 20 else tol
        msg = compare_views(a, b, tol, tol * sc, "engines")
        if msg:
            return "{}: {}".format(kw, msg)
        ctx.outcome("agree")


def plan(tier):
    small = [((1,), "axis", 3), ((2,), "axis", 2), ((3,), "plain", 1), ((1, 1), "axis", 2), ((1, 1), "ring", 2),
             ((2, 1), "brac", 2), ((2, 2), "axis", 1), ((2, 2), "brac", 2), ((2, 2), "ten", 1), ((3, 2), "brac", 1),
             ((1, 2, 1), "brac", 1), ((2, 2, 2), "brac", 1), ((3, 1, 2), "ring", 1), ((4, 3), "brac", 1)]
    small += spec.LARGE + spec.ODD + spec.HUB + [((2, 2), "slow", 1), ((2, 3), "slow", 1), ((3, 3), "slow", 0), ((2, 2, 2), "slow", 0)]
    small += [((1,), "axis", 2, ("len0", "load", "pla", "flip")), ((2,), "plain", 1, ("len0",)), ((3,), "plain", 1, ("len0",)), ((2, 1), "ring", 1, ("len0",)), ((2, 2), "odd", 1, ("len0",))]
    if tier == "quick":
        return small
    return small + [((2,), "axis", 3), ((1, 1), "axis", 3), ((2, 1), "brac", 3), ((2, 2), "axis", 2), ((2, 2), "ten", 2),
                    ((3, 2), "brac", 2), ((1, 2, 1), "brac", 2), ((2, 2, 2), "brac", 2)]


def spaces(tier):
    p = plan(tier)
    return [Space("structures", lambda: spec.cases(p), evaluate,
                  "all structures with at most D departures from the bases: " + str(p))]
