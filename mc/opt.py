"""The solver boundary: a stand-in for the nlopt module, in front of the real one.

The stand-in is installed in sys.modules before compas_cem.optimization is imported.  Its ``opt``
class records the optimization problem that the code under test poses (start vector, bounds,
limits, objective) and then either replays a *script* (the explored nondeterminism of the numerical
solver: which points it tries, whether it asks for gradients, how it ends) or delegates to the real
solver while recording every evaluation.

A script is {"t": [[point, want_gradient], ...], "end": [kind, ...]} with kind
  ["ret", i, code]  return trial point i (-1: the start point) with result code ``code``
  ["roundoff"]      raise nlopt.RoundoffLimited
  ["runtime"]       raise RuntimeError
  ["stop"]          raise nlopt.ForcedStop
Like the real solver it hands out read-only points and re-uses their memory afterwards.
"""
import sys
import types

import numpy as np

REAL = None


class Control(object):
    def __init__(self):
        self.script = None       # None: delegate to the real solver
        self.log = []            # one Problem per optimize() call


class Problem(object):
    """What was posed to the solver, and what happened."""
    def __init__(self):
        self.x0 = self.low = self.up = self.f = None
        self.maxeval = self.stopval = self.ftol_abs = self.alg = None
        self.evals = []          # (x, value, gradient | None)


CTRL = Control()


def install():
    """Idempotent; must run before compas_cem.optimization is imported."""
    global REAL
    if REAL is not None:
        return
    if "compas_cem.optimization" in sys.modules:
        raise RuntimeError("compas_cem.optimization was imported before the solver stand-in")
    import nlopt
    REAL = nlopt
    fake = types.ModuleType("nlopt")
    for k in dir(nlopt):
        if not k.startswith("__"):
            setattr(fake, k, getattr(nlopt, k))
    fake.__version__ = nlopt.__version__
    fake.opt = Opt
    sys.modules["nlopt"] = fake


class Opt(object):
    def __init__(self, *args):
        if len(args) == 1 and isinstance(args[0], Opt):
            args = (args[0]._real,)
        self._real = REAL.opt(*args)
        self._f = None
        self._scripted = False
        self._n = 0
        self._code = 0
        self._val = float("nan")

    def set_min_objective(self, f):
        self._f = f
        self._real.set_min_objective(self._call)

    def _call(self, x, grad):
        keep = np.array(x, dtype=float)
        val = self._f(x, grad)
        if self._problem is not None:
            self._problem.evals.append((keep, float(val), np.array(grad, dtype=float) if grad.size else None))
        return float(val)

    def optimize(self, x):
        p = self._problem = Problem()
        p.x0 = np.array(x, dtype=float)
        p.low, p.up = np.array(self._real.get_lower_bounds()), np.array(self._real.get_upper_bounds())
        p.maxeval, p.stopval = self._real.get_maxeval(), self._real.get_stopval()
        p.ftol_abs, p.alg = self._real.get_ftol_abs(), self._real.get_algorithm()
        p.f = self._f
        CTRL.log.append(p)
        if CTRL.script is None:
            self._scripted = False
            return self._real.optimize(x)
        return self._replay(CTRL.script, np.array(x, dtype=float))

    def _replay(self, script, x0):
        self._scripted = True
        self._n = 0
        pts = []
        buf, gbuf = np.zeros(x0.size), np.zeros(x0.size)
        for delta, want in script["t"]:
            pt = x0 + np.array(delta, dtype=float)
            pts.append(pt)
            buf[:] = pt
            gbuf[:] = 0.0
            view = buf.view()
            view.setflags(write=False)
            self._n += 1
            self._val = self._call(view, gbuf if want else np.zeros(0))
            buf[:], gbuf[:] = 1e300, 1e300  # the memory is re-used
        end = script["end"]
        self._code = {"roundoff": -4, "runtime": -1, "stop": -5}.get(end[0], 1)
        if end[0] == "roundoff":
            raise REAL.RoundoffLimited("NLopt roundoff-limited")
        if end[0] == "runtime":
            raise RuntimeError("nlopt failure")
        if end[0] == "stop":
            raise REAL.ForcedStop("NLopt forced stop")
        self._code = end[2]
        return np.array(x0 if end[1] < 0 else pts[end[1]])

    def get_numevals(self):
        return self._n if self._scripted else self._real.get_numevals()

    def last_optimize_result(self):
        return self._code if self._scripted else self._real.last_optimize_result()

    def last_optimum_value(self):
        return self._val if self._scripted else self._real.last_optimum_value()

    def set_local_optimizer(self, other):
        self._real.set_local_optimizer(other._real if isinstance(other, Opt) else other)

    _problem = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real, name)


class scripted(object):
    """with scripted(script) as log: ... ; script None delegates to the real solver."""
    def __init__(self, script):
        self.script = script

    def __enter__(self):
        self.old = (CTRL.script, CTRL.log)
        CTRL.script, CTRL.log = self.script, []
        return CTRL.log

    def __exit__(self, *a):
        CTRL.script, CTRL.log = self.old
