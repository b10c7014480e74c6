"""C19: form finding commutes with rotations, translations and scaling."""
import itertools

from mc import eq, ref, spec
from mc.core import Space
from mc.eq import check_finite, compare_views, scale_of
from mc.vec import add, mul

ASSUMPTIONS = ["forms are compared where the reference iteration is well conditioned and converges; elsewhere only for the "
               "transformations that are exact in floating point (powers of two)"]


def rotations():
    out = []
    for perm in itertools.permutations(range(3)):
        for sg in itertools.product((1.0, -1.0), repeat=3):
            m = [[sg[i] if j == perm[i] else 0.0 for j in range(3)] for i in range(3)]
            det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            if det > 0:
                out.append(m)
    return out


ROT = rotations()[1:]
OBL = [[[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]],
       [[1.0, 0.0, 0.0], [0.0, 0.28, -0.96], [0.0, 0.96, 0.28]],
       [[0.64, -0.48, 0.6], [0.6, 0.8, 0.0], [-0.48, 0.36, 0.8]]]
TRA = [[16.0, -8.0, 4.0], [-0.3, 0.7, 1.1], [1000.0, 2000.0, -500.0]]
FAC = [2.0, 0.5, 3.0, 0.1, 2.0 ** 20, 2.0 ** -20, 2.0 ** -40]
SCA = [2.0, 0.5, 3.0, 0.1, 2.0 ** 10, 2.0 ** -10]


def group(tier):
    return ([("rot", i) for i in range(len(ROT))] + [("obl", i) for i in range(len(OBL))] + [("tra", i) for i in range(len(TRA))]
            + [("fac", f) for f in FAC] + [("sca", f) for f in SCA])


def mv(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def transform(s, kind, arg):
    """(transformed spec, map of points, map of force vectors, force factor, length factor)."""
    pt, fv, ff, lf = (lambda p: p), (lambda q: q), 1.0, 1.0
    dv = lambda d: d
    if kind in ("rot", "obl"):
        m = (ROT if kind == "rot" else OBL)[arg]
        pt = fv = dv = lambda p: mv(m, p)
    elif kind == "tra":
        pt = lambda p: add(p, TRA[arg])
    elif kind == "fac":
        ff = arg
        fv = lambda q: mul(q, arg)
    else:
        lf = arg
        pt = lambda p: mul(p, arg)
    r = dict(s)
    r["xyz"] = {n: pt(p) for n, p in s["xyz"].items()}
    r["tedges"] = [[u, v, ln * lf, None if pl is None else [pt(pl[0]), dv(pl[1])]] for u, v, ln, pl in s["tedges"]]
    r["devs"] = [[a, b, f * ff] for a, b, f in s["devs"]]
    r["loads"] = {n: fv(q) for n, q in s["loads"].items()}
    return r, pt, fv, ff, lf


def map_view(v, pt, fv, ff, lf):
    return {"xyz": {n: pt(p) for n, p in v["xyz"].items()}, "reac": {n: fv(q) for n, q in v["reac"].items()},
            "load": {n: fv(q) for n, q in v["load"].items()}, "force": {e: f * ff for e, f in v["force"].items()},
            "length": {e: ln * lf for e, ln in v["length"].items()}, "sup": v["sup"]}


def exact(kind, arg):
    return kind in ("fac", "sca") and arg in (2.0, 0.5, 2.0 ** 20, 2.0 ** -20, 2.0 ** -40, 2.0 ** 10, 2.0 ** -10)


def evaluate(case, ctx):
    s = spec.expand(case)
    ctx.state(s)
    kw = {"tmax": 200, "eta": 1e-9}
    r = ref.solve(s, **kw)
    good = ref.wellposed(r) and r.converged and r.t < 100
    tr = [tuple(g) for g in case["G"]] if "G" in case else group(None)
    for eng in ("py", "np"):
        t, km = spec.build(s)
        base, err = eq.run_engine(eng, t, km, ctx, **kw)
        if base is not None:
            msg = check_finite(base)
            if msg:
                return msg
        elif good:
            return "{} engine refuses a convergent structure: {}".format(eng, err)
        for kind, arg in tr:
            if not good and not exact(kind, arg):
                ctx.outcome("not compared")
                continue
            s2, pt, fv, ff, lf = transform(s, kind, arg)
            if not exact(kind, arg):
                r2 = ref.solve(s2, tmax=kw["tmax"], eta=kw["eta"] * lf)
                if not (r2.converged and r2.t < 100 and ref.wellposed(r2)):  # a fixed point that rounding destabilises
                    ctx.outcome("not compared")
                    continue
            t2, km2 = spec.build(s2)
            v, err = eq.run_engine(eng, t2, km2, ctx, tmax=kw["tmax"], eta=kw["eta"] * lf)
            ctx.trace()
            if (v is None) != (base is None):
                return "{} engine: transformation {} {} turns a {} structure into a {} one".format(
                    eng, kind, arg, "refused" if base is None else "solved", "refused" if v is None else "solved")
            if v is None:
                ctx.outcome("both refused")
                continue
            w = map_view(base, pt, fv, ff, lf)
            far = 1e3 if kind == "tra" else 1.0
            msg = compare_relative(w, v, lf * 1e-6 * (1.0 + 1e-3 * far), 1e-6 * ff * scale_of_raw(base), ff)
            if msg:
                return "{} engine, transformation {} {}: {}".format(eng, kind, arg, msg)
            ctx.outcome("equivariant")


def scale_of_raw(v):
    return scale_of(v)


def compare_relative(a, b, tx, tf, ff):
    a, b = dict(a), dict(b)
    la = a["load"]
    for n in la:
        if max(abs(x - y) for x, y in zip(la[n], b["load"][n])) > 1e-9 * max(ff, 1e-12) * 10:
            return "load at {}: {} vs {}".format(n, la[n], b["load"][n])
    b["load"] = la
    return compare_views(a, b, tx, tf)


def plan(tier):
    small = [((1,), "axis", 1), ((2,), "plain", 2, ("len", "pla", "load", "dev")), ((1, 1), "ring", 1), ((2, 1), "brac", 1), ((2, 2), "brac", 1),
             ((2, 2), "ten", 0), ((3, 2), "brac", 0), ((2, 2, 2), "brac", 0)]
    small += [((6,), "plain", 0), ((9,), "axis", 0), ((2, 2, 2, 2, 2), "ring", 0), ((4, 1, 3, 1, 2), "brac", 0), ((6, 6, 6), "ten", 0)]
    small += [((1,), "odd", 1), ((2, 2), "odd", 0), ((3, 2), "odd", 0), ((2, 2, 2), "odd", 0)]
    if tier == "quick":
        return small
    return small + [((1,), "axis", 2), ((3,), "plain", 2), ((1, 1), "brac", 2), ((2, 1), "brac", 2), ((2, 2), "brac", 2, ("len", "pla", "dev", "shift")),
                    ((2, 2), "ten", 1), ((3, 2), "brac", 1), ((1, 2, 1), "brac", 1), ((2, 2, 2), "brac", 1)]


def spaces(tier):
    p = plan(tier)
    return [Space("symmetries", lambda: spec.cases(p), evaluate,
                  "all structures with at most D departures from the bases x all 23 proper axis rotations, 3 oblique rotations, "
                  "3 translations, 7 load factors, 6 length factors x both engines: " + str(p))]
