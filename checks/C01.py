"""C01: every returned form is in equilibrium."""
from contextlib import redirect_stdout
from io import StringIO

from mc import spec
from mc.core import Space
from mc.eq import TIGHT, check_equilibrium, run_engine

ASSUMPTIONS = ["inputs are finite floats from the listed alphabet", "diagrams are simple graphs",
               "balance is not evaluated at nodes with a loaded incident edge shorter than 1e-3"]


def evaluate(case, ctx):
    s = spec.expand(case)
    ctx.state(s)
    sup = {t[-1] for t in s["trails"]}
    modes = [TIGHT] if len(case["d"]) > 1 else [TIGHT, {}, {"tmax": 100, "eta": 1e-4}, dict(TIGHT, verbose=True, callback=tuple)]
    for eng in ("py", "np"):
        for kw in modes:
            t, km = spec.build(s)
            with redirect_stdout(StringIO()):
                v, err = run_engine(eng, t, km, ctx, **kw)
            ctx.trace()
            if err is not None:
                ctx.outcome("refused")
                continue
            ctx.outcome("form")
            msg = check_equilibrium(v, kw.get("eta", 1e-6), sup)
            if msg:
                return "{} engine {}: {}".format(eng, kw, msg)


def plan(tier):
    small = [((1,), "axis", 2), ((2,), "plain", 2), ((3,), "axis", 2), ((1, 1), "ring", 2),
             ((2, 1), "brac", 2), ((2, 2), "brac", 2), ((2, 2), "ten", 1), ((3, 2), "brac", 1), ((1, 2, 1), "brac", 1),
             ((2, 2, 2), "brac", 1), ((3, 1, 2), "ring", 1), ((4, 3), "brac", 1)]
    small += spec.LARGE + spec.ODD + spec.HUB + [((2, 2), "slow", 1), ((2, 3), "slow", 1), ((3, 3), "slow", 0), ((2, 2, 2), "slow", 0)]
    small += [((1,), "axis", 1, ("hair",)), ((3,), "axis", 1, ("hair",)), ((1, 1), "axis", 1, ("hair",))]
    if tier == "quick":
        return small
    return small + [((1,), "plain", 3), ((2,), "axis", 3), ((1, 1), "axis", 3), ((1, 1), "brac", 3), ((2, 1), "brac", 3),
                    ((2, 1), "ten", 2), ((2, 2), "ten", 2), ((2, 2), "axis", 2), ((2, 2), "plain", 2), ((3, 2), "brac", 2),
                    ((1, 1, 1), "brac", 2), ((2, 2, 2), "brac", 2), ((3, 1, 2), "ring", 2), ((4, 3), "brac", 2)]


def spaces(tier):
    p = plan(tier)
    return [Space("structures", lambda: spec.cases(p), evaluate,
                  "all structures with at most D departures from the bases: " + str(p))]
