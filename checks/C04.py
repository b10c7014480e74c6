"""C04: convergence contract. For each structure, the full table budget x threshold is explored."""
import itertools

from mc import ref, spec
from mc.core import Space, quiet
from mc.eq import engines
from mc.vec import dist

ASSUMPTIONS = ["return/refuse verdicts are compared with the reference iteration over every processing order of the trails, "
               "with a margin of 1% and 1e-13 around the threshold",
               "structures whose reference iteration is ill conditioned, or takes more than 20 sweeps and is sensitive to rounding, are judged for budget monotonicity only"]

TMAXES = list(range(1, 13)) + [17, 25, 100, 400]
ETAS = [1e-1, 1e-2, 1e-4, 1e-6, 1e-9, 1e-11]


def call(eng, s, ctx, **kw):
    t, km = spec.build(s)
    ctx.step()
    try:
        f = engines()[eng](t, **kw)
    except ValueError:
        return None
    return spec.form_view(f, km)


def evaluate(case, ctx):
    s = spec.expand(case)
    ctx.state(s)
    n = len(s["trails"])
    perms = list(itertools.permutations(range(n)))
    runs = [ref.solve(s, tmax=case.get("n", 400), eta=1e-14, order=list(p), record=True) for p in perms]
    ok = all(ref.wellposed(r) and ref.stable(s, r, list(p)) for r, p in zip(runs, perms))
    for eng in ("py", "np"):
        one = call(eng, s, ctx, tmax=1)
        if one is None:
            return "{} engine refused a budget of one iteration".format(eng)
        if ok:
            for a, p in one["xyz"].items():
                if dist(p, runs[0].history[0][a]) > 1e-9:
                    return "{} engine: budget of one does not give the single-sweep form at node {}: {} vs {}".format(
                        eng, a, p, runs[0].history[0][a])
        if call(eng, s, ctx) != call(eng, s, ctx, tmax=100, eta=1e-6):
            return "{} engine: without settings the answer is not that of a budget of 100 and a threshold of 1e-6".format(eng)
        for tm in (1, 4):
            a = call(eng, s, ctx, tmax=tm, eta=1e-2)
            b = call(eng, s, ctx, tmax=tm, eta=1e-2, verbose=True)
            if a != b:
                return "{} engine: logging changes the answer at budget {}".format(eng, tm)
        if not ref.has_indirect(s) and all(r.dists[0] == 0.0 for r in runs):
            # one sweep settles everything: the second one moves nothing, which no threshold can reject
            for eta in (0.0, 5e-324, 1e-300):
                for T in (2, 3, 7):
                    v = call(eng, s, ctx, tmax=T, eta=eta)
                    if v is None:
                        return "{} engine, eta {}: budget {} is refused although the second sweep moves nothing".format(eng, eta, T)
                    if v != one:
                        return "{} engine, eta {}: budget {} gives another form than the single sweep".format(eng, eta, T)
            ctx.outcome("settled at once")
        if ok:
            msg = sharp(eng, s, runs, ctx)
            if msg:
                return msg
        for eta in ETAS:
            first = None
            for T in case.get("T", TMAXES):
                if T == 1:
                    if call(eng, s, ctx, tmax=1, eta=eta) != one:
                        return "{} engine: the single sweep depends on the threshold {}".format(eng, eta)
                    continue
                v = call(eng, s, ctx, tmax=T, eta=eta)
                ctx.trace()
                if first is not None:
                    if v is None:
                        return "{} engine, eta {}: budget {} is refused although {} suffices".format(eng, eta, T, first[0])
                    if v != first[1]:
                        return "{} engine, eta {}: budget {} gives another form than budget {}".format(eng, eta, T, first[0])
                elif v is not None:
                    first = (T, v)
                if not ok:
                    ctx.outcome("ill conditioned")
                    continue
                best = [min(r.dists[:T - 1]) if r.dists[:T - 1] else float("inf") for r in runs]
                if v is not None and all(b > 1.01 * eta + 1e-13 for b in best):
                    return "{} engine, eta {}, budget {}: returned, but no iteration moved the nodes by less than {}".format(
                        eng, eta, T, min(best))
                if v is None and all(b < eta / 1.01 - 1e-13 for b in best):
                    return "{} engine, eta {}, budget {}: refused, but the iteration moves the nodes by only {}".format(
                        eng, eta, T, max(best))
                ctx.outcome("returned" if v is not None else "refused")
            # the returned iterate is the first one below the threshold
            if ok and first is not None:
                near = []
                for r in runs:
                    k = next((i for i, d in enumerate(r.dists) if d < eta), None)
                    if k is None:
                        near.append(None)
                        continue
                    if any(eta / 1.01 - 1e-13 < d < 1.01 * eta + 1e-13 for d in r.dists[:k + 1]):
                        near.append(None)
                        continue
                    near.append(max(dist(first[1]["xyz"][a], r.history[k + 1][a]) for a in s["xyz"]))
                if all(x is not None for x in near) and min(near) > 1e-7:
                    return "{} engine, eta {}: the returned form is not the first iterate below the threshold (off by {})".format(
                        eng, eta, min(near))


def sharp(eng, s, runs, ctx):
    """Thresholds a ten-thousandth below and above the movements that occur."""
    for i in range(min(5, min(len(r.dists) for r in runs))):
        d = runs[0].dists[i]
        if d < 1e-6 or any(x < 1.001 * d for x in runs[0].dists[:i]):
            continue
        for eta in (d * (1 - 1e-4), d * (1 + 1e-4)):
            T = i + 2
            best = [min(r.dists[:T - 1]) for r in runs]
            if any(abs(b - eta) < 2e-5 * eta for b in best):
                continue
            v = call(eng, s, ctx, tmax=T, eta=eta)
            if v is not None and all(b > eta for b in best):
                return "{} engine, eta {!r}, budget {}: returned, but no iteration moved the nodes by less than {!r}".format(eng, eta, T, min(best))
            if v is None and all(b < eta for b in best):
                return "{} engine, eta {!r}, budget {}: refused, but the iteration moves the nodes by only {!r}".format(eng, eta, T, max(best))
            ctx.outcome("sharp threshold")


def cases(tier):
    forces = [0.25, 1.0, -0.5, 2.0, -1.5, 4.0] if tier == "quick" else [0.1, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0, -0.25, -0.5, -1.0, -1.5, -3.0]
    for layout, bname in (((1,), "plain"), ((2,), "plain"), ((1, 1), "plain"), ((2, 1), "plain"), ((2, 2), "ring")):
        pairs = spec._pairs(spec.labels(layout))
        yield {"L": list(layout), "B": bname, "d": []}
        for p in pairs:
            for f in forces:
                yield {"L": list(layout), "B": bname, "d": [["dev", list(p), f]]}
        if tier != "quick" or layout in ((2,), (1, 1), (2, 1)):
            sub = forces[:4] if tier == "quick" else forces[::2]
            for p, q in itertools.combinations(pairs, 2):
                for f, g in itertools.product(sub, sub):
                    yield {"L": list(layout), "B": bname, "d": [["dev", list(p), f], ["dev", list(q), g]]}
    # many sweeps, with growing movements in between
    for layout in ((2, 2), (2, 3), (3, 3), (1, 1), (2, 1)):
        yield {"L": list(layout), "B": "slow", "d": []}
    for dep in spec.departures(spec.dims((2, 2), "slow", ("len",) if tier == "quick" else ("len", "dev", "load")), 1, exact=True):
        yield {"L": [2, 2], "B": "slow", "d": dep}
    # about seven hundred sweeps down to 1e-9
    yield {"L": [2, 2], "B": "slow", "d": [["dev", [2, 3], -0.91], ["dev", [0, 5], 0.91]], "n": 1500, "T": [1, 2, 50, 300, 600, 900, 1400, 5000]}
    # many nodes of which few move
    for layout, pairs in (((3, 3, 3, 3), ((0, 2), (0, 3), (1, 3), (12, 14), (13, 15), (0, 15), (3, 12))), ((5, 5, 5), ((0, 5), (12, 17), (2, 15))), ((12, 12, 12), ((34, 37), (35, 38), (0, 3), (25, 37)))):
        for p in pairs:
            for key in ("id", "rev"):
                yield {"L": list(layout), "B": "plain", "d": [["dev", list(p), 0.25], ["key", None, key]]}
    for layout in ((1, 1), (2, 2), (3, 2), (2, 2, 2)):
        yield {"L": list(layout), "B": "odd", "d": []}
    for n in (1, 3, 6, 10):
        yield {"L": [n], "B": "plain", "d": []}
        yield {"L": [2] * min(n, 5), "B": "ring", "d": []}
    for layout in ((3, 2), (1, 1, 1), (2, 2, 2), (4, 3), (2, 1, 2, 1)):
        yield {"L": list(layout), "B": "brac", "d": []}
        if tier == "quick":
            for dep in spec.departures(spec.dims(layout, "brac", ("shift", "mag")), 1, exact=True):
                yield {"L": list(layout), "B": "brac", "d": dep}
        else:
            for dep in spec.departures(spec.dims(layout, "brac", ("dev", "shift")), 1):
                yield {"L": list(layout), "B": "brac", "d": dep}


def spaces(tier):
    return [Space("budgets", lambda: cases(tier), evaluate,
                  "every structure with 1 or 2 deviation edges of every position and force of the alphabet, "
                  "x budgets {} x thresholds {} x 2 engines".format(TMAXES, ETAS))]
