"""C05: purity and repeatability. Histories of engine calls and edits on two live diagrams.

Oracle: each call's result must be bit-identical to the same call made first thing in a fresh
forked process on a fresh diagram with the same content; every diagram must equal its content.
"""
import itertools
import json
import os
import pickle

from mc import obs, spec
from mc.core import Space, quiet
from mc.eq import engines

ASSUMPTIONS = ["two diagrams, contents from a finite edit alphabet"]

A_CASE = {"L": [2, 2], "B": "brac", "d": [["pla", [0, 1], "tilt"]]}
B_CASE = {"L": [2, 1], "B": "ten", "d": [["key", None, "rev"], ["shift", 1, 1], ["dev", [0, 4], 0.25]]}


def make(which):
    s = spec.expand(A_CASE if which == "A" else B_CASE)
    for i, t in enumerate(s["trails"]):  # no short binary or decimal fractions
        s["xyz"][t[0]] = [c + (i + j + 1) / 49.0 for j, c in enumerate(s["xyz"][t[0]])]
    return spec.build(s)[0]


# edits toggle one content bit of diagram A or B
def edit(t, which, bit, on):
    if bit == "load":
        n = 1 if which == "A" else 2
        t.node_attributes(n, ["qx", "qy", "qz"], [0.5 / 3.0, 0.25, -2.0 / 7.0] if on else [0.0, 0.0, -1.0])
    elif bit == "force":
        e = next(iter(sorted(t.deviation_edges())))
        t.edge_attribute(e, "force", 3.5 / 3.0 if on else -0.625)
    elif bit == "origin":
        n = sorted(t.origin_nodes())[0]
        t.node_attribute(n, "x", -4.5 / 7.0 if on else 0.75)
    elif bit == "shift":
        t.shift_trail(sorted(t.origin_nodes())[-1], 2 if on else 0)


CALLS = {
    "py": ("py", {}), "np": ("np", {}),
    "py_v": ("py", {"verbose": True}), "np_v": ("np", {"verbose": True}),
    "py_cb": ("py", {"callback": True}), "np_cb": ("np", {"callback": True}),
    "py_fail": ("py", {"tmax": 2, "eta": 1e-12}), "np_fail": ("np", {"tmax": 2, "eta": 1e-12}),
    "py_1": ("py", {"tmax": 1}), "np_1": ("np", {"tmax": 1}), "py_k0": ("py", {"kmax": 0}), "py_k1": ("py", {"kmax": 1}),
}
# calls that must give the same result as their plain version
SAME = {"py_v": "py", "np_v": "np", "py_cb": "py", "np_cb": "np"}
BITS = ["load", "force", "origin", "shift"]


def engine_call(t, name):
    eng, kw = CALLS[name]
    kw = dict(kw)
    hits = []
    if kw.get("callback"):
        def callback():
            hits.append(1)
            return (False, True, None, 0, "stop")[len(hits) % 5]  # whatever it returns
        kw["callback"] = callback
    try:
        f = engines()[eng](t, **kw)
    except ValueError as e:
        return None, "refused"
    if "callback" in kw and not hits:
        return f, "callback never called"
    return f, obs.observe(f)


def build_content(which, bits):
    t = make(which)
    for b in BITS:
        if b in bits:
            edit(t, which, b, bits[b])
    return t


def rawdata(t):
    return json.dumps(t.to_data(), sort_keys=True, default=repr)


_cache = {}


def fresh(which, bits, call):
    """Result of the call as the first thing a fresh process ever does (filled by precompute)."""
    return _cache[(which, tuple(sorted(bits.items())), call)]


def precompute(edits, calls, depth, jobs=8):
    """Every reachable content x call, each in a process of its own, forked before this process ran any engine."""
    todo = []
    for which in ("A", "B"):
        contents = [{}]
        for h in itertools.chain.from_iterable(itertools.product(edits[which], repeat=d) for d in range(1, depth)):
            bits = {}
            for b in h:
                bits[b] = not bits.get(b, False)
            if bits not in contents:
                contents.append(bits)
        for bits in contents:
            for c in sorted({SAME.get(c, c) for c in calls[which]}):
                todo.append((which, bits, c))
    todo = [x for x in todo if (x[0], tuple(sorted(x[1].items())), x[2]) not in _cache]
    while todo:
        batch, todo = todo[:jobs], todo[jobs:]
        running = []
        for which, bits, call in batch:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    with quiet():
                        res = engine_call(build_content(which, bits), call)[1]
                    data = pickle.dumps(("ok", res))
                except BaseException as e:
                    data = pickle.dumps(("exc", repr(e)))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running.append((pid, r, (which, tuple(sorted(bits.items())), call)))
        for pid, r, key in running:
            with os.fdopen(r, "rb") as f:
                _cache[key] = pickle.loads(f.read())
            os.waitpid(pid, 0)


def content(which, bits):
    key = (which, tuple(sorted(bits.items())))
    if key not in _cache:
        _cache[key] = obs.observe(build_content(which, bits))
    return _cache[key]


def evaluate(case, ctx):
    live = {"A": make("A"), "B": make("B")}
    bits = {"A": {}, "B": {}}
    forms = []
    for op in case:
        ctx.step()
        which, what = op.split(":")
        if what in CALLS:
            kind, want = fresh(which, bits[which], SAME.get(what, what))
            if kind != "ok":
                return "{} fails on a fresh diagram: {}".format(op, want)
            raw = rawdata(live[which])
            f, got = engine_call(live[which], what)
            if rawdata(live[which]) != raw:
                return "{} changed the data of the diagram it was given".format(op)
            if got != want:
                d = obs.diff(want, got) if isinstance(got, dict) and isinstance(want, dict) else "{} vs {}".format(want if isinstance(want, str) else "form", got if isinstance(got, str) else "form")
                return "{} in this history differs from the same call on a fresh diagram: {}".format(op, d)
            ctx.outcome("refused" if f is None else "form")
            if f is not None:
                forms.append((f, got, op + str(sorted(bits[which].items()))))
        elif what == "wreck":
            # edit everything reachable from the most recent form in place
            if forms:
                f, _, _ = forms.pop()
                wreck(f)
        else:
            on = not bits[which].get(what, False)
            bits[which][what] = on
            edit(live[which], which, what, on)
        for w in live:
            d = obs.diff(content(w, bits[w]), obs.observe(live[w]))
            if d:
                return "after {} diagram {} is not what it should be: {}".format(op, w, d)
        for f, before, _ in forms:
            d = obs.diff(before, obs.observe(f))
            if d:
                return "after {} an earlier returned form changed: {}".format(op, d)
        ctx.state([sorted(bits["A"].items()), sorted(bits["B"].items()), sorted(x[2] for x in forms)])
    ctx.trace()


def wreck(f):
    for n in list(f.nodes()):
        f.node_attributes(n, ["x", "y", "z", "qx", "qy", "qz", "rx", "ry", "rz"], [9.0] * 9)
        f.node_attribute(n, "type", "wrecked")
    for e in list(f.edges()):
        p = f.edge_plane(e)
        if p is not None:
            p.point.x += 100.0
            p.normal.x += 5.0
        f.edge_attribute(e, "force", 99.0)
        f.edge_attribute(e, "length", 99.0)
        f.edge_attribute(e, "type", "wrecked")
    f.gkey_node.clear()
    f.attributes["tol"] = "1f"


def ops():
    out = []
    for c in CALLS:
        out.append("A:" + c)
    out += ["B:py", "B:np", "B:np_fail", "B:py_k0"]
    out += ["A:wreck", "A:load", "A:force", "A:origin", "A:shift", "B:load", "B:shift"]
    return out


def cases(depth):
    o = ops()
    for d in range(1, depth + 1):
        for h in itertools.product(o, repeat=d):
            yield list(h)


CORE = ["A:py", "A:np", "B:py", "B:np", "A:np_fail", "A:force", "A:shift", "A:wreck"]


def cases_core(depth):
    for h in itertools.product(CORE, repeat=depth):
        yield list(h)


def split(o):
    e = {w: [x[2:] for x in o if x[0] == w and x[2:] in BITS] for w in "AB"}
    c = {w: [x[2:] for x in o if x[0] == w and x[2:] in CALLS] for w in "AB"}
    return e, c


def spaces(tier):
    engines()  # import the code once, before forking
    precompute(*split(ops()), depth=3)
    if tier == "quick":
        return [Space("histories", lambda: cases(3), evaluate, "all histories of length <= 3 over {} operations".format(len(ops())))]
    precompute(*split(CORE), depth=5)
    return [Space("histories", lambda: cases(3), evaluate, "all histories of length <= 3 over {} operations".format(len(ops()))),
            Space("core-histories", lambda: itertools.chain(cases_core(4), cases_core(5)), evaluate, "all histories of length 4 and 5 over 8 core operations")]
