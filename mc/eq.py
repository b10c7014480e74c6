"""Helpers shared by the form-finding checks."""
from math import isfinite

from mc import ref, spec
from mc.vec import add, cross, dist, mul, norm, sub, unit

TIGHT = {"tmax": 300, "eta": 1e-10}


def engines():
    from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
    return {"py": static_equilibrium, "np": static_equilibrium_numpy}


def run_engine(name, topology, km, ctx, **kw):
    """Returns (view | None, error | None). Only ValueError is a legitimate refusal."""
    ctx.step()
    try:
        form = engines()[name](topology, **kw)
    except ValueError as e:
        return None, e
    return spec.form_view(form, km), None


def check_finite(v):
    for what in ("xyz", "load", "reac"):
        for n, p in v[what].items():
            if not all(isfinite(c) for c in p):
                return "node {}: {} = {} is not finite".format(n, what, p)
    for what in ("force", "length"):
        for e, f in v[what].items():
            if not isfinite(f):
                return "edge {}: {} = {} is not finite".format(e, what, f)


def check_equilibrium(v, eta, supports, skip_below=1e-3, cut=None):
    """Nodal equilibrium at every node, global equilibrium of forces and moments."""
    msg = check_finite(v)
    if msg:
        return msg
    scale = max([abs(f) for f in v["force"].values()] + [norm(p) for p in v["load"].values()] + [1e-30])
    size = max([norm(p) for p in v["xyz"].values()] + [1.0])
    inc = {n: [] for n in v["xyz"]}
    for (a, b), f in v["force"].items():
        inc[a].append((b, f))
        inc[b].append((a, f))
    worst = 0.0
    for n in sorted(inc):
        tot = add(v["load"][n], v["reac"][n])
        slack, bad = 0.0, False
        for o, f in inc[n]:
            d = sub(v["xyz"][o], v["xyz"][n])
            ln = norm(d)
            if ln < skip_below and f != 0.0:
                bad = True
            if ln:
                slack += abs(f) / max(ln, 1e-3)
            tot = add(tot, mul(unit(d), f))
        tol = 1e-8 * scale + 10.0 * eta * slack
        if bad:
            continue
        worst = max(worst, norm(tot) / tol)
        if norm(tot) > tol:
            return "node {} is out of balance by {} (tolerance {:.2e})".format(n, tot, tol)
        if n not in supports and norm(v["reac"][n]) > 0.0:
            return "node {} is not a support but carries the reaction {}".format(n, v["reac"][n])
    lmin = min([x for x in (dist(v["xyz"][a], v["xyz"][b]) for a, b in v["force"]) if x > 0] + [1.0])
    fs = sum(abs(f) for f in v["force"].values()) + scale
    gt = 1e-7 * scale * size * len(inc) + 20.0 * eta * fs / max(lmin, 1e-3) * size
    if lmin < skip_below:
        return
    f, m = [0.0] * 3, [0.0] * 3
    for n in inc:
        q = add(v["load"][n], v["reac"][n])
        f = add(f, q)
        m = add(m, cross(v["xyz"][n], q))
    if norm(f) > gt:
        return "loads and reactions do not balance: sum = {}".format(f)
    if norm(m) > gt:
        return "moments of loads and reactions do not balance: sum = {}".format(m)


def compare_views(a, b, tol_x, tol_f, what="forms"):
    for n in a["xyz"]:
        if dist(a["xyz"][n], b["xyz"][n]) > tol_x:
            return "{} differ at node {}: position {} vs {}".format(what, n, a["xyz"][n], b["xyz"][n])
        if dist(a["reac"][n], b["reac"][n]) > tol_f:
            return "{} differ at node {}: reaction {} vs {}".format(what, n, a["reac"][n], b["reac"][n])
        if dist(a["load"][n], b["load"][n]) > 1e-12:
            return "{} differ at node {}: load {} vs {}".format(what, n, a["load"][n], b["load"][n])
    if set(a["force"]) != set(b["force"]):
        return "{} differ in edges: {} vs {}".format(what, sorted(a["force"]), sorted(b["force"]))
    for e in a["force"]:
        if abs(a["force"][e] - b["force"][e]) > tol_f:
            return "{} differ at edge {}: force {} vs {}".format(what, e, a["force"][e], b["force"][e])
        la, lb = a["length"][e], b["length"][e]
        if abs(a["force"][e]) < tol_f:
            la, lb = abs(la), abs(lb)
        if abs(la - lb) > 2 * tol_x:
            return "{} differ at edge {}: length {} vs {}".format(what, e, a["length"][e], b["length"][e])
    if a["sup"] != b["sup"]:
        return "{} differ in supports: {} vs {}".format(what, a["sup"], b["sup"])


def scale_of(v):
    return max([abs(f) for f in v["force"].values()] + [norm(p) for p in v["reac"].values()] + [norm(p) for p in v["load"].values()] + [1e-30])
