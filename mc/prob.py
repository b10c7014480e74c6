"""Driving the real Optimizer at the solver boundary."""
import numpy as np

from mc import opt, pen, ref, spec

opt.install()
KW = {"tmax": 300, "eta": 1e-10}


def oriented(s, key):
    """Edge key in the orientation of the diagram."""
    u, v = key
    return [v, u] if [u, v] in [list(f) for f in s["flips"]] else [u, v]


def optimizer(params, cons, km, plain=False):
    o = pen.engine().Optimizer()
    for p in params:
        o.add_parameter(pen.make_param(p, km))
    for c in cons:
        o.add_constraint(pen.make_constraint(c, km, plain))
    return o


def form_at(s, params, x, kw=KW, eng=None):
    """View of the equilibrium form of the spec with the parameters at x (fresh diagram), or None."""
    from compas_cem.equilibrium import static_equilibrium
    s2 = pen.with_values(s, params, x)
    t, km = spec.build(s2)
    try:
        return spec.form_view((eng or static_equilibrium)(t, **kw), km)
    except ValueError:
        return None


def conditioned(s, params, x, kw=KW, margin=100):
    s2 = pen.with_values(s, params, x)
    r = ref.solve(s2, **kw)
    if kw["tmax"] == 1:
        return ref.wellposed(r)
    return r.converged and r.t < margin and ref.wellposed(r)


def capture(s, params, cons, grad="AD", kw=KW, plain=False, **more):
    """Pose the problem without letting the solver move. Returns (Problem, topology, key map)."""
    t, km = spec.build(s)
    o = optimizer(params, cons, km, plain)
    with opt.scripted({"t": [], "end": ["ret", -1, 1]}) as log:
        o.solve(t, grad=grad, **dict(kw, **more))
    if len(log) != 1:
        raise AssertionError("{} optimization problems were posed instead of one".format(len(log)))
    return log[0], t, km


def value(problem, x):
    x = np.array(x, dtype=float)
    return float(problem.f(x, np.zeros(0)))


def value_grad(problem, x):
    x = np.array(x, dtype=float)
    g = np.full(x.size, 777.0)
    val = problem.f(x, g)
    return float(val), g
