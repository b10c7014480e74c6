"""Reference model of the combinatorial equilibrium iteration: boring, plain Python, on specs.

Used (a) to decide whether a case is well conditioned, so that floating-point noise is never
mistaken for a violation, and (b) as the oracle of the convergence and iteration properties.
"""
from mc.vec import add, dist, dot, mul, norm, sub, unit


def dyadic(v):
    """Whether sums of such vectors are exact in floating point, in whatever order they are added."""
    return all(abs(c) < 2.0 ** 20 and (c * 2.0 ** 30).is_integer() for c in v)


class Run(object):
    pass


def sequences(s, shifts=True):
    k = {}
    for i, t in enumerate(s["trails"]):
        st = s["shift"].get(i, s["shift"].get(str(i), 0)) if shifts else 0
        for j, n in enumerate(t):
            k[n] = st + j
    return k


def sweep(s, seq, order, xyz, indirect, kmax=None):
    """One iteration, in place on xyz. Returns trail vectors, reactions and conditioning."""
    res, reac, rvecs, fall = {}, {}, {}, {}
    cond = {"rmin": float("inf"), "dmin": float("inf"), "cmin": float("inf")}
    adj = {}
    for a, b, f in s["devs"]:
        adj.setdefault(a, []).append((b, f))
        adj.setdefault(b, []).append((a, f))
    tedge = {(e[0], e[1]): e for e in s["tedges"]}
    last = max(seq.values())
    if kmax is not None:
        last = min(last, kmax)
    for k in range(last + 1):
        for i in order:
            t = s["trails"][i]
            j = k - seq[t[0]]
            if j < 0 or j >= len(t):
                continue
            n = t[j]
            tin = res.get(n, [0.0, 0.0, 0.0])
            sure = dyadic(tin) and dyadic(s["loads"].get(n, [0.0]))
            tot = mul(tin, -1.0)
            tot = add(tot, s["loads"].get(n, [0.0, 0.0, 0.0]))
            for other, f in adj.get(n, []):
                if seq[other] != seq[n] and not indirect:
                    continue
                d = sub(xyz[other], xyz[n])
                if f != 0.0 and (norm(d) != 0.0 or not (dyadic(xyz[other]) and dyadic(xyz[n]))):
                    cond["dmin"] = min(cond["dmin"], norm(d))
                sure = sure and dyadic(mul(unit(d), f))
                tot = add(tot, mul(unit(d), f))
            r = mul(tot, -1.0)
            if n == t[-1] or k == kmax:
                reac[n] = r
                continue
            v = t[j + 1]
            e = tedge[(n, v)]
            m = norm(r)
            length = e[2]
            usedplane = False
            u = unit(r)
            if e[3] is not None:
                o, nn = e[3]
                c = dot(nn, u)
                if abs(c) > 1e-8:  # below: safely parallel; above: how far from parallel
                    cond["cmin"] = min(cond["cmin"], abs(c))
                if abs(c) >= 1e-6:
                    num = dot(nn, sub(o, xyz[n]))
                    pl = num / c
                    if pl != 0.0 or not (j == 0 and o == xyz[n] or dyadic(xyz[n]) and dyadic(o)):  # exactly on the plane, or by chance of rounding
                        cond["cmin"] = min(cond["cmin"], abs(num))
                    if pl:
                        length = pl
                        usedplane = True
            if m != 0.0 or not sure:
                cond["rmin"] = min(cond["rmin"], m)
            xyz[v] = add(xyz[n], mul(u, length))
            rvecs[(n, v)] = (r, length, usedplane)
            res[v] = r
    return rvecs, reac, cond


def solve(s, tmax=100, eta=1e-6, order=None, record=None, kmax=None):
    """The full iteration. Returns a Run with xyz, distances, converged flag, conditioning."""
    seq = sequences(s)
    order = list(range(len(s["trails"]))) if order is None else order
    xyz = {n: list(p) for n, p in s["xyz"].items()}
    out = Run()
    out.dists, out.history = [], []
    out.mag = min(1.0, magnitude(s))  # small structures have small forces
    out.converged = False
    worst = {"rmin": float("inf"), "dmin": float("inf"), "cmin": float("inf")}
    for t in range(tmax):
        before = {n: list(p) for n, p in xyz.items()}
        out.rvecs, out.reac, cond = sweep(s, seq, order, xyz, t > 0, kmax)
        for c in cond:
            worst[c] = min(worst[c], cond[c])
        if record:
            out.history.append({n: list(p) for n, p in xyz.items()})
        if t == 0:
            continue
        d = sum(dist(before[n], xyz[n]) for n in xyz)
        out.dists.append(d)
        if d < eta:
            out.converged = True
            break
    out.t = t
    out.xyz, out.cond, out.seq, out.last = xyz, worst, seq, cond
    return out


def stable(s, run, order=None, tol=1e-3):
    """Whether a run of many sweeps is insensitive to perturbations of the size of rounding errors."""
    if len(run.dists) < 20:
        return True
    for h in (1e-13, -1e-13):
        p = dict(s)
        p["tedges"] = [[e[0], e[1], e[2] * (1.0 + h * (1 + i % 3)), e[3]] for i, e in enumerate(s["tedges"])]
        p["loads"] = {n: [c * (1.0 - h * (1 + n % 2)) for c in q] for n, q in s["loads"].items()}
        r = solve(p, tmax=len(run.dists) + 1, eta=0.0, order=order)
        if any(abs(a - b) > tol * a + 1e-11 for a, b in zip(run.dists, r.dists)) or any(dist(run.xyz[n], r.xyz[n]) > 1e-9 * (1 + norm(run.xyz[n])) for n in run.xyz):
            return False
    return True


def magnitude(s):
    return max([abs(d[2]) for d in s["devs"]] + [norm(q) for q in s["loads"].values()] + [0.0])


def wellposed(run, rmin=1e-3, dmin=1e-3, cmin=1e-4, last=False):
    c = run.last if last else run.cond
    return c["rmin"] > rmin * run.mag and c["dmin"] > dmin and c["cmin"] > cmin


def has_indirect(s):
    seq = sequences(s)
    return any(seq[a] != seq[b] for a, b, _ in s["devs"])
