"""Stand-ins for the host applications that are not installed here (Grasshopper/Rhino, compas_view2).

They only record what they are asked to draw and convert stand-in host geometry into COMPAS
geometry, as the real hosts do.  Nothing of compas_cem is replaced.
"""
import glob
import importlib.util
import inspect
import json
import os
import sys
import types


class Geo(object):
    """A piece of host geometry (always true, like Rhino's)."""
    def __init__(self, kind, data):
        self.kind, self.data = kind, data


def to_compas(g):
    from compas.geometry import Line, Plane, Point, Polyline, Vector
    d = g.data
    return {"point": lambda: Point(*d), "vector": lambda: Vector(*d), "line": lambda: Line(Point(*d[0]), Point(*d[1])),
            "plane": lambda: Plane(Point(*d[0]), Vector(*d[1])), "polyline": lambda: Polyline([list(p) for p in d])}[g.kind]()


def _converter(kind):
    class Conv(object):
        def __init__(self, g):
            self.g = g

        @classmethod
        def from_geometry(cls, g):
            if g.kind != kind:
                raise TypeError("{} given where a {} is expected".format(g.kind, kind))
            return cls(g)

        def to_compas(self):
            return to_compas(self.g)
    return Conv


class Proxy(object):
    """Remote calls as the COMPAS proxy makes them: everything travels as JSON."""
    log = []

    def __init__(self, package=None, port=None, **kwargs):
        self.package, self.port = package, port
        Proxy.log.append(["start", package, port])

    def stop_server(self):
        Proxy.log.append(["stop", self.port])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kwargs):
            import importlib

            from compas.data import DataDecoder, DataEncoder
            Proxy.log.append(["call", name])
            a, k = json.loads(json.dumps([list(args), kwargs], cls=DataEncoder), cls=DataDecoder)
            out = getattr(importlib.import_module(self.package), name)(*a, **k)
            return json.loads(json.dumps({"data": out}, cls=DataEncoder), cls=DataDecoder)["data"]
        return call


def _module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    sys.modules[name] = m
    return m


def grasshopper():
    """Install the Grasshopper stand-ins; returns compas_cem.ghpython with its artists."""
    if "ghpythonlib.componentbase" in sys.modules:
        return sys.modules["compas_cem.ghpython"]
    import compas
    import compas.rpc
    import compas_ghpython
    import compas_rhino

    class NetworkArtist(object):
        def __init__(self, network, *args, **kwargs):
            self.network = network

    compas_ghpython.draw_points = lambda points: [("point", list(p["pos"])) for p in points]
    compas_ghpython.draw_lines = lambda lines: [("line", list(d["start"]), list(d["end"])) for d in lines]
    compas_ghpython.draw_polylines = lambda ps: [("polyline", [list(x) for x in p["points"]]) for p in ps]
    compas_ghpython.artists = _module("compas_ghpython.artists", NetworkArtist=NetworkArtist)
    geo = {"Rhino" + k.capitalize(): _converter(k) for k in ("point", "vector", "line", "plane", "polyline")}
    compas_rhino.geometry = _module("compas_rhino.geometry", **geo)
    _module("ghpythonlib")
    _module("ghpythonlib.componentbase", executingcomponent=type("executingcomponent", (object,), {}))
    _module("scriptcontext", sticky={})
    _module("rhinoscriptsyntax", CreateColor=lambda c: tuple(c), AddPoint=lambda x, y, z: ("point", [x, y, z]))
    _module("compas_bootstrapper", ENVIRONMENT_NAME="stand-in")
    compas.rpc.Proxy = Proxy
    real = compas.is_grasshopper
    compas.is_grasshopper = lambda: True
    try:
        import compas_cem.ghpython as gh
    finally:
        compas.is_grasshopper = real
    return gh


class Component(object):
    """A Grasshopper component run the way Grasshopper does: inputs by position, outputs by name."""
    def __init__(self, name):
        import compas_cem
        folder = os.path.join(os.path.dirname(compas_cem.__file__), "ghpython", "components", "CompasCem_" + name)
        meta = json.load(open(os.path.join(folder, "metadata.json")))["ghpython"]
        self.inputs = [p["name"] for p in meta.get("inputParameters", [])]
        self.outputs = [p["name"] for p in meta.get("outputParameters", [])]
        spec = importlib.util.spec_from_file_location("cemgh_" + name, os.path.join(folder, "code.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        base = sys.modules["ghpythonlib.componentbase"].executingcomponent
        self.cls = [c for _, c in inspect.getmembers(mod, inspect.isclass) if issubclass(c, base) and c is not base and c.__module__ == mod.__name__][0]

    def __call__(self, **kwargs):
        unknown = set(kwargs) - set(self.inputs)
        if unknown:
            raise AssertionError("the component has no input {}".format(unknown))
        out = self.cls().RunScript(*[kwargs.get(n) for n in self.inputs])
        if len(self.outputs) == 1:
            return {self.outputs[0]: out}
        if out is None:
            return {n: None for n in self.outputs}
        if len(out) != len(self.outputs):
            raise AssertionError("the component returned {} values for {} outputs".format(len(out), len(self.outputs)))
        return dict(zip(self.outputs, out))


_components = {}


def component(name):
    if name not in _components:
        grasshopper()
        _components[name] = Component(name)
    return _components[name]


def component_names():
    import compas_cem
    return sorted(os.path.basename(os.path.dirname(p))[len("CompasCem_"):] for p in glob.glob(os.path.join(os.path.dirname(compas_cem.__file__), "ghpython", "components", "*", "code.py")))


class Shape(object):
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs


def viewer():
    """Install the compas_view2 stand-ins; returns compas_cem.viewers."""
    if "compas_view2" in sys.modules:
        return sys.modules["compas_cem.viewers"]

    class Object(object):
        registry = {}

        def __init__(self, data, **kwargs):
            self.data, self.kwargs = data, kwargs

        @classmethod
        def register(cls, data, obj):
            cls.registry[data] = obj

    class NetworkObject(Object):
        pass

    class App(object):
        def __init__(self, *args, **kwargs):
            self.shown = []

        def add(self, data, **kwargs):
            if type(data) in Object.registry:
                return Object.registry[type(data)](data, **kwargs)
            self.shown.append((data, kwargs))

    class Text(Shape):
        pass

    class Collection(Shape):
        pass

    class Arrow(Shape):
        pass
    v = _module("compas_view2")
    v.objects = _module("compas_view2.objects", Object=Object, NetworkObject=NetworkObject)
    v.shapes = _module("compas_view2.shapes", Text=Text, Arrow=Arrow)
    v.collections = _module("compas_view2.collections", Collection=Collection)
    v.app = _module("compas_view2.app", App=App)
    import compas_cem.viewers
    return compas_cem.viewers
