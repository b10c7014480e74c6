"""C07: rebuilding equals building from scratch. All edit/build histories up to a depth.

Oracle: a fresh diagram that receives only the edits of the history (no builds, shifts or engine
calls in between) and is built once.
"""
from mc import obs, spec
from mc.core import Space
from mc.eq import compare_views, engines

ASSUMPTIONS = ["every edit of the alphabet is used at most once per history"]


def start():
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    t = TopologyDiagram()
    for k, p in enumerate([[0.0, 0.0, 0.0], [0.0, 0.5, -1.0], [0.0, 1.0, -2.0], [2.0, 0.25, 0.0], [2.0, 0.5, -1.0]]):
        t.add_node(Node(k, p))
    t.add_edge(TrailEdge(0, 1, length=-1.0))
    t.add_edge(TrailEdge(2, 1, length=-1.25))
    t.add_edge(TrailEdge(3, 4, length=-1.5))
    t.add_edge(DeviationEdge(0, 3, force=0.75))
    t.add_edge(DeviationEdge(1, 4, force=-0.25))
    t.add_support(NodeSupport(2))
    t.add_support(NodeSupport(4))
    for k in range(5):
        t.add_load(NodeLoad(k, [0.125 * (k % 3), 0.25, -1.0 - 0.25 * k]))
    return t


def start_many():
    """Five trails, so that most counts stay the same while partners are exchanged."""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    t = TopologyDiagram()
    for i in range(5):
        t.add_node(Node(2 * i, [1.5 * i, 0.25 * i, 0.0]))
        t.add_node(Node(2 * i + 1, [1.5 * i, 0.25 * i, -1.0]))
        t.add_edge(TrailEdge(2 * i, 2 * i + 1, length=-1.0 - 0.25 * i))
        t.add_support(NodeSupport(2 * i + 1))
        if i:
            t.add_edge(DeviationEdge(2 * i - 2, 2 * i, force=0.25 * i))
    for k in range(10):
        t.add_load(NodeLoad(k, [0.125 * (k % 3), 0.25, -1.0 - 0.25 * k]))
    return t


def edits_many():
    from compas_cem.elements import Node, TrailEdge
    from compas_cem.supports import NodeSupport

    def swap(a, b):  # exchange the partners of two origins
        def run(t):
            for u in (a, b):
                if not t.has_edge(u, u + 1):
                    return
            t.delete_edge(a, a + 1)
            t.delete_edge(b, b + 1)
            t.add_edge(TrailEdge(a, b + 1, length=-0.75))
            t.add_edge(TrailEdge(b, a + 1, length=-1.75))
        return run

    def flip(a):  # the support goes to the other end
        def run(t):
            t.unset_node_attribute(a + 1, "type")
            t.add_support(NodeSupport(a))
        return run

    def through(t):  # a new node in the middle of a trail
        if t.has_edge(6, 7):
            t.delete_edge(6, 7)
            t.add_node(Node(20, [4.5, 0.75, -0.5]))
            t.add_edge(TrailEdge(6, 20, length=-0.5))
            t.add_edge(TrailEdge(7, 20, length=-0.625))

    def merge(t):  # the last trail continues the first one
        if t.has_edge(0, 1) and t.has_edge(8, 9):
            t.unset_node_attribute(9, "type")
            t.add_edge(TrailEdge(9, 0, length=-0.875))

    def replace(t):  # another node with the same number of everything
        if t.has_edge(4, 5):
            t.delete_node(5)
            t.add_node(Node(5, [3.0, 0.5, -1.0]))
            t.add_edge(TrailEdge(5, 4, length=-2.0))
            t.add_support(NodeSupport(5))
    return {"swap02": swap(0, 2), "swap68": swap(6, 8), "swap46": swap(4, 6), "flip0": flip(0), "flip4": flip(4), "through": through,
            "merge": merge, "replace": replace}


def edits():
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport

    def ext0(t):
        t.add_node(Node(5, [0.0, -0.5, 1.0]))
        t.add_edge(TrailEdge(0, 5, length=-0.5))
        t.add_load(NodeLoad(5, [0.0, 0.25, -1.0]))

    def ext3(t):
        t.add_node(Node(6, [2.5, -0.5, 1.0]))
        t.add_edge(TrailEdge(6, 3, length=-0.75))
        t.add_load(NodeLoad(6, [0.0, 0.5, -2.0]))

    def trail3(t):
        t.add_node(Node(7, [4.0, 0.0, 0.0]))
        t.add_node(Node(8, [4.0, 0.0, -1.0]))
        t.add_edge(TrailEdge(7, 8, length=-1.0))
        t.add_support(NodeSupport(8))
        t.add_load(NodeLoad(7, [0.25, 0.0, -1.0]))
        t.add_edge(DeviationEdge(7, 3, force=0.5))

    def lone(t):
        t.add_node(Node(9, [1.0, 1.0, 0.0]))
        t.add_edge(DeviationEdge(9, 1, force=0.25))
        t.add_load(NodeLoad(9, [0.0, 0.0, -0.5]))

    def drop(t, nodes):  # delete a whole trail
        for n in nodes:
            if n in list(t.nodes()):
                t.delete_node(n)

    def cover9(t):  # cover node 9 (if it exists) by making it the support end of trail 2
        if 9 in list(t.nodes()):
            t.add_edge(TrailEdge(4, 9, length=-0.5))
            t.unset_node_attribute(4, "type")
            t.add_support(NodeSupport(9))

    plain = {
        "ext0": ext0, "ext3": ext3, "trail3": trail3, "lone": lone, "cover9": cover9,
        "cut": lambda t: t.delete_edge(0, 1) if t.has_edge(0, 1) else None,
        "rejoin": lambda t: t.add_edge(TrailEdge(1, 0, length=-2.0)) if not t.has_edge(0, 1) else None,
        "conv01": lambda t: t.add_edge(DeviationEdge(0, 1, force=0.5)) if t.has_edge(0, 1) else None,
        "conv03": lambda t: t.add_edge(TrailEdge(0, 3, length=-1.0)),
        "sup0": lambda t: t.add_support(NodeSupport(0)),
        "unsup2": lambda t: t.unset_node_attribute(2, "type"),
        "load": lambda t: t.add_load(NodeLoad(1, [0.5, -0.25, -3.0])),
        "move0": lambda t: t.node_xyz(0, [0.5, -1.0, 0.25]),
        "drop0": lambda t: drop(t, (0, 1, 2)),
        "drop3": lambda t: drop(t, (3, 4)),
        "dev": lambda t: t.add_edge(DeviationEdge(2, 0, force=-0.25)),
    }
    need = {"ext0": [0], "ext3": [3], "trail3": [3], "lone": [1], "cover9": [4], "rejoin": [0, 1], "conv03": [0, 3], "sup0": [0],
            "unsup2": [2], "load": [1], "move0": [0], "dev": [0, 2]}

    def guarded(op):  # an edit of nodes that were deleted is no edit
        def run(t):
            if all(t.has_node(n) for n in need.get(op, [])):
                plain[op](t)
        return run
    return {op: guarded(op) for op in plain}


NONEDIT = ["build", "sh0", "sh3", "sh4", "eq"]


SHIFTS = {"sh0": 0, "sh3": 3, "sh4": 4}


def do(t, op, ed, ctx):
    if op == "build":
        try:
            t.build_trails()
            return "built"
        except Exception:
            return "rejected"
    if op in SHIFTS:
        try:
            t.shift_trail(SHIFTS[op], 2)
        except (AssertionError, KeyError, ValueError):
            pass
        return
    if op == "eq":
        if t.has_trails():
            for f in engines().values():
                try:
                    f(t, tmax=3, eta=1.0)
                except Exception:  # stale trails of an edited diagram: no claim
                    pass
        return
    ed[op](t)


def result(t, ctx):
    try:
        t.build_trails()
    except Exception:
        return "rejected"
    o = obs.topology(t, order=False)
    views = []
    km = {n: n for n in t.nodes()}
    for name in ("py", "np"):
        try:
            views.append(spec.form_view(engines()[name](t, tmax=60), km))
        except ValueError:
            views.append(None)
    return o, views


_cache = {}


def fresh(ops, first, ed, ctx):
    if (first, ops) not in _cache:
        t = first()
        for op in ops:
            ed[op](t)
        _cache[first, ops] = result(t, ctx)
    return _cache[first, ops]


_ed = {}


def evaluate(case, ctx):
    if not _ed:
        _ed.update({"": edits(), "many": edits_many()})
    first = start
    ed = _ed[""]
    if isinstance(case, dict):
        first, ed, case = start_many, _ed["many"], case["many"]
    t = first()
    for op in case:
        ctx.step()
        do(t, op, ed, ctx)
    want = fresh(tuple(op for op in case if op not in NONEDIT), first, ed, ctx)
    got = result(t, ctx)
    ctx.step()
    ctx.trace()
    if want == "rejected" or got == "rejected":
        if want != got:
            return "the final build is {} but {} on a fresh diagram".format(
                "rejected" if got == "rejected" else "accepted", "rejected" if want == "rejected" else "accepted")
        ctx.outcome("rejected")
        ctx.state(["rejected", sorted(case)])
        return
    ctx.outcome("built")
    d = obs.diff(want[0], got[0])
    if d:
        return "after this history the rebuilt diagram differs from a fresh one: {}".format(d)
    ctx.state(repr(sorted(got[0].items(), key=repr)))
    for name, a, b in zip(("py", "np"), want[1], got[1]):
        if (a is None) != (b is None):
            return "{} {} but {} on a fresh diagram".format(name, "refuses" if b is None else "returns", "refuses" if a is None else "returns")
        if a is not None:
            d = compare_views(a, b, 1e-7, 1e-7)
            if d:
                return "{}: rebuilt and fresh {}".format(name, d)


def histories(depth, ops):
    """Histories (without the final build) with distinct edits and at least one build before an edit."""
    edset = [o for o in ops if o not in NONEDIT]
    non = [o for o in ops if o in NONEDIT]

    def rec(h, left):
        if h and "build" in h:
            yield list(h)
        if not left:
            return
        for o in edset:
            if o not in h:
                yield from rec(h + [o], left - 1)
        for o in non:
            if o == "build":
                if h and h[-1] == "build":
                    continue
            elif "build" not in h or (h and h[-1] == o):
                continue
            yield from rec(h + [o], left - 1)
    yield from rec([], depth)


def bydepth(depth, ops):
    for d in range(1, depth + 1):
        for h in histories(d, ops):
            if len(h) == d:
                yield h


def spaces(tier):
    engines()
    ops = list(edits()) + ["build", "sh0", "sh3", "eq"]
    many = list(edits_many()) + ["build", "sh0", "sh4", "eq"]
    depth = 4 if tier == "quick" else 5
    more = Space("many", lambda: ({"many": h} for h in bydepth(depth, many)), evaluate,
                 "five trails: all histories of up to {} operations (8 edits that mostly keep the numbers of nodes, edges and supports, build, 2 shifts, engine call) containing a build, followed by a build".format(depth))
    core = ["ext0", "conv01", "sup0", "unsup2", "cut", "rejoin", "build", "sh0"]
    q = [Space("histories", lambda: bydepth(4, ops), evaluate,
               "all histories of up to 4 operations (16 edits, build, 2 shifts, engine call) containing a build, followed by a build")]
    if tier == "quick":
        q.append(Space("core", lambda: (h for h in histories(6, core) if len(h) in (5, 6)), evaluate, "all histories of 5 and 6 operations over the 8 structural operations " + ",".join(core)))
        return q + [more]
    return [more, Space("histories", lambda: bydepth(5, ops), evaluate, "all histories of up to 5 operations"),
            Space("core", lambda: (h for h in histories(7, core) if len(h) >= 6), evaluate, "all histories of 6 and 7 operations over the 8 structural operations")]
