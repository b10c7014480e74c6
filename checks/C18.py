"""C18: partial equilibrium stops exactly at the requested sequence."""
from mc import eq, ref, spec
from mc.core import Space
from mc.eq import TIGHT, check_finite, compare_views
from mc.vec import add, dist, mul, norm, sub, unit

ASSUMPTIONS = ["the plain-Python engine (the NumPy engine has no such option)",
               "balance is not judged at nodes with a loaded edge shorter than 1e-3; trail lengths are judged on well conditioned cases"]


def cut(s, v, k, eta):
    """Oracle from the statement alone: balance up to the cut, nothing beyond."""
    msg = check_finite(v)
    if msg:
        return msg
    seq = ref.sequences(s)
    sup = {t[-1] for t in s["trails"]}
    tr = {tuple(sorted(e[:2])) for e in s["tedges"]}
    org = {t[0] for t in s["trails"]}
    inc = {n: [] for n in v["xyz"]}
    scale = eq.scale_of(v)
    for (a, b), f in v["force"].items():
        inc[a].append((b, f))
        inc[b].append((a, f))
        if (a, b) in tr and max(seq[a], seq[b]) > k and f != 0.0:
            return "trail edge {} beyond sequence {} carries the force {}".format((a, b), k, f)
    for a, b, f in s["devs"]:
        if v["force"][tuple(sorted((a, b)))] != f:
            return "deviation force of {} changed".format((a, b))
    for n in v["xyz"]:
        if v["load"][n] != s["loads"].get(n, [0.0, 0.0, 0.0]):
            return "load at {} changed".format(n)
        if (seq[n] > k or n in org) and v["xyz"][n] != s["xyz"][n]:
            return "node {} of sequence {} moved to {} although the last sequence is {}".format(n, seq[n], v["xyz"][n], k)
        if (seq[n] > k or (seq[n] < k and n not in sup)) and norm(v["reac"][n]) > 0.0:
            return "node {} of sequence {} carries a reaction".format(n, seq[n])
        if seq[n] > k:
            continue
        tot, slack, bad = add(v["load"][n], v["reac"][n]), 0.0, False
        for o, f in inc[n]:
            d = sub(v["xyz"][o], v["xyz"][n])
            if f != 0.0 and norm(d) < 1e-3:
                bad = True
            slack += abs(f) / max(norm(d), 1e-3)
            tot = add(tot, mul(unit(d), f))
        if not bad and norm(tot) > 1e-8 * scale + 10 * eta * slack:
            return "node {} is out of balance by {}".format(n, tot)
    for e, f in v["force"].items():
        g = dist(v["xyz"][e[0]], v["xyz"][e[1]])
        if abs(abs(v["length"][e]) - g) > 1e-9 * (1 + g):
            return "edge {}: reported length {} but geometric length {}".format(e, v["length"][e], g)


def evaluate(case, ctx):
    s = spec.expand(case)
    ctx.state(s)
    seq = ref.sequences(s)
    last = max(seq.values())
    eng = eq.engines()["py"]

    def run(**kw):
        ctx.step()
        t, km = spec.build(s)
        try:
            return spec.form_view(eng(t, **dict(TIGHT, **kw)), km)
        except ValueError:
            return None

    full = run()
    for k in range(last + 3):
        ctx.trace()
        v = run(kmax=k)
        if k >= last:
            if v != full:
                return "kmax={} (last sequence {}) gives a different result than no kmax".format(k, last)
            ctx.outcome("full")
            continue
        r = ref.solve(s, kmax=k, **TIGHT)
        if v is None:
            if ref.wellposed(r) and r.converged and r.t < 100:
                return "kmax={}: refused although the iteration converges".format(k)
            ctx.outcome("refused")
            continue
        msg = cut(s, v, k, TIGHT["eta"])
        if msg:
            return "kmax={}: {}".format(k, msg)
        if ref.wellposed(r) and r.converged:
            sc = eq.scale_of(v)
            for n in v["xyz"]:
                if dist(v["xyz"][n], r.xyz[n]) > 1e-6 * (1 + norm(r.xyz[n])):
                    return "kmax={}: node {} at {} but the model puts it at {}".format(k, n, v["xyz"][n], r.xyz[n])
                q = r.reac.get(n, [0.0] * 3)
                if dist(v["reac"][n], q) > 1e-6 * sc:
                    return "kmax={}: reaction of node {} is {} but the model gives {}".format(k, n, v["reac"][n], q)
            for (a, b), (q, ln, _) in r.rvecs.items():
                f = v["force"][tuple(sorted((a, b)))]
                want = norm(q) if ln > 0 else -norm(q)
                if abs(f - want) > 1e-6 * sc:
                    return "kmax={}: force of {} is {} but the model gives {}".format(k, (a, b), f, want)
            ctx.outcome("cut, model agrees")
        else:
            ctx.outcome("cut")
    for kw in [{"tmax": 1}, {"tmax": 2, "eta": 10.0}, {"tmax": 40, "eta": 1e-4}] if len(case["d"]) < 2 else []:
        if run(kmax=last, **kw) != run(**kw):
            return "{}: kmax={} (the last sequence) gives a different result than no kmax".format(kw, last)
    for k in (-1, -2):
        t, km = spec.build(s)
        ctx.step()
        try:
            eng(t, kmax=k)
        except Exception:
            ctx.outcome("negative refused")
        else:
            return "kmax={} was accepted".format(k)


def plan(tier):
    what = ("len", "pla", "dev", "load", "flip", "shift", "key", "ord", "org")
    small = [((1,), "axis", 2), ((2,), "plain", 2), ((3,), "plain", 1), ((4,), "plain", 1), ((1, 1), "ring", 2), ((2, 1), "brac", 2),
             ((2, 2), "brac", 2, ("dev", "shift", "pla")), ((2, 2), "ten", 1), ((3, 2), "brac", 1), ((1, 3, 2), "brac", 1),
             ((3, 3, 3), "brac", 1), ((4, 2), "brac", 1)]
    small += [it for it in spec.LARGE if len(it) == 3] + [((6,), "plain", 1, spec.SLIM), ((4, 3, 2), "brac", 1, ("shift", "pla", "key", "flip"))]
    small += [((n,), "odd", 0) for n in (1, 2, 4)] + [((1, 1), "odd", 1), ((3, 2), "odd", 0), ((2, 2, 2), "odd", 0), ((5, 4, 3, 2), "odd", 0)]
    if tier == "quick":
        return small
    return small + [((3,), "plain", 2), ((2, 1), "brac", 3, ("dev", "shift", "pla", "flip")), ((2, 2), "brac", 2, what), ((3, 2), "brac", 2, what),
                    ((1, 2, 1), "brac", 2, what), ((2, 2, 2), "brac", 2, ("dev", "shift", "flip", "load")), ((5, 4), "brac", 1)]


def spaces(tier):
    p = plan(tier)
    return [Space("cuts", lambda: spec.cases(p), evaluate,
                  "all structures with at most D departures from the bases, each with no last sequence, every one from 0 to two beyond the last, and negative: " + str(p))]
