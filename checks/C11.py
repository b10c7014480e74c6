"""C11: coordinates identify nodes. All edit histories up to a depth against a placement model.

Every prefix of a history is a case of its own, so the diagram is compared with the model at the
end of each case.  The model keeps, per rounding cell, the latest placement: while that node is
still there a lookup must return it; if it left, any node that is there; None if there is none.
"""
import itertools

from mc import eq, spec
from mc.core import Space

ASSUMPTIONS = ["the rounding tolerance is set before nodes are added", "nodes are moved with node_xyz, by adding their key anew, or by deleting and adding them"]

# position name -> (coordinates, cell name) under tol "3f"
POS = {"a": [0.0, 0.0, 0.0], "A": [0.0004, -0.0003, 0.0], "b": [0.001, 0.0, 0.0], "c": [1.5, -2.25, 3.125], "C": [1.5002, -2.2499, 3.1248], "d": [-7.0, 0.5, 12.125]}
CELL3 = {"a": "a", "A": "a", "b": "b", "c": "c", "C": "c", "d": "d"}
CELL1 = {"a": "a", "A": "a", "b": "a", "c": "c1", "C": "c2", "d": "d"}
# under tol "1f": c -> 1.5,-2.2,3.1 ; C -> 1.5,-2.2,3.1 (round half even on -2.25 is avoided below)
POS1 = {"a": [0.0, 0.0, 0.0], "A": [0.04, -0.03, 0.0], "b": [0.001, 0.0, 0.0], "c": [1.5, -2.2, 3.1], "C": [1.54, -2.16, 3.06], "d": [-7.0, 0.5, 12.1]}
CELL1 = {"a": "a", "A": "a", "b": "a", "c": "c", "C": "c", "d": "d"}


class Model(object):
    def __init__(self, tol):
        self.pos, self.cell = (POS, CELL3) if tol == "3f" else (POS1, CELL1)
        self.at = {}       # node -> position name
        self.latest = {}   # cell -> node of the latest placement (None if it left)
        self.sup, self.load, self.edges = set(), {}, {}

    def place(self, n, p):
        self.leave(n)
        self.at[n] = p
        self.latest[self.cell[p]] = n

    def leave(self, n):
        if n in self.at:
            c = self.cell[self.at.pop(n)]
            if self.latest.get(c) == n:
                self.latest[c] = None

    def here(self, p):
        c = self.cell[p]
        ns = {n for n, q in self.at.items() if self.cell[q] == c}
        last = self.latest.get(c)
        return {last} if last is not None else ns


def observe(t):
    nodes = sorted(t.nodes())
    return [nodes, [[float(c) for c in t.node_coordinates(n)] for n in nodes], sorted(t.edges()),
            [t.edge_attribute(e, "type") for e in sorted(t.edges())], [float(t.edge_force(e)) for e in sorted(t.edges())],
            sorted(t.support_nodes()), [[float(c) for c in t.node_load(n)] for n in nodes]]


def refused(t, f, what):
    before = observe(t)
    try:
        f()
    except Exception:
        if observe(t) != before:
            return "{} was refused but changed the diagram".format(what)
        return
    return "{} was accepted".format(what)


def apply(t, m, op, ctx):
    """Returns a violation message or None."""
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    kind = op[0]
    P = lambda p: list(m.pos[p])
    if kind == "add":
        k, p = op[1], op[2]
        got = t.add_node(Node(k, P(p)) if k is not None else Node.from_point(P(p)))
        if k is None and got in m.at:
            return "the automatic key {} was in use".format(got)
        if k is not None and got != k:
            return "add_node returned {} for key {}".format(got, k)
        m.place(got, p)
    elif kind == "move":
        k, p = op[1], op[2]
        if k not in m.at:
            return
        t.node_xyz(k, P(p))
        m.place(k, p)
    elif kind == "del":
        k = op[1]
        if k not in m.at:
            return
        t.delete_node(k)
        m.leave(k)
        m.sup.discard(k)
        m.load.pop(k, None)
        m.edges = {e: a for e, a in m.edges.items() if k not in e}
    elif kind == "edge":
        ends = op[1:3]
        for x in ends:
            if isinstance(x, int) and x not in m.at:
                return refused(t, lambda: t.add_edge(DeviationEdge(x if x == ends[0] else P(ends[0]) if isinstance(ends[0], str) else ends[0],
                                                                   x if x == ends[1] else P(ends[1]) if isinstance(ends[1], str) else ends[1], force=1.0)),
                               "an edge at unknown key {}".format(x)) if all(isinstance(y, int) or m.here(y) for y in ends) else None
        args = [x if isinstance(x, int) else P(x) for x in ends]
        known = set(m.at)
        f = 1.0 + 0.5 * len(m.edges)
        want = []
        for x in ends:
            want.append({x} if isinstance(x, int) else m.here(x))
        if all(want) and want[0] == want[1] and len(want[0]) == 1:
            return
        if not want[0] and not want[1] and m.cell[ends[0]] == m.cell[ends[1]]:
            return  # would be a loop on a new node
        e = DeviationEdge(args[0], args[1], force=f) if op[3] == "D" else TrailEdge.from_line([args[0], args[1]], length=f)
        u, v = t.add_edge(e)
        if u == v:
            # two ends at one position with several nodes: a loop; allowed only there
            if not (want[0] & want[1]):
                return "the edge became a loop at node {}".format(u)
        for got, w, x in ((u, want[0], ends[0]), (v, want[1], ends[1])):
            if w and got not in w:
                return "the edge end at {} became node {} instead of {}".format(x, got, sorted(w))
            if not w:
                if got in known:
                    return "the edge end at empty position {} became the existing node {}".format(x, got)
                m.place(got, x)
        m.edges[(u, v)] = ("deviation", f) if op[3] == "D" else ("trail", 0.0)
        if op[3] == "T" and t.edge_length_2((u, v)) != f:
            return "the trail edge has length {} instead of {}".format(t.edge_length_2((u, v)), f)
    elif kind in ("sup", "load"):
        x = op[1]
        vec = [0.5, 1.5, -2.0 - len(m.load)]
        where = ({x} if x in m.at else set()) if isinstance(x, int) else m.here(x)
        if kind == "sup":
            f = lambda: t.add_support(NodeSupport(x) if isinstance(x, int) else NodeSupport.from_point(P(x)))
        else:
            f = lambda: t.add_load(NodeLoad(x, vec) if isinstance(x, int) else NodeLoad.from_point_and_vector(P(x), vec))
        if not where:
            ctx.outcome("refused")
            return refused(t, f, "a {} at {}".format(kind, x))
        before = set(t.support_nodes()) if kind == "sup" else {n: list(t.node_load(n)) for n in m.at}
        f()
        if kind == "sup":
            new = set(t.support_nodes()) - before
            cand = [n for n in where if n in new] or [n for n in where if n in before and not new]
            if len(new) > 1 or (new and not cand) or not cand:
                return "a support at {} made {} supports instead of one of {}".format(x, sorted(new), sorted(where))
            m.sup.add(cand[0])
        else:
            hit = [n for n in where if list(t.node_load(n)) == vec]
            if not hit:
                return "a load at {} did not reach {}".format(x, sorted(where))
            other = [n for n in m.at if n not in hit and list(t.node_load(n)) != before[n]]
            if other or len([n for n in hit if before[n] != vec]) > 1:
                return "a load at {} also changed {}".format(x, other or hit)
            m.load[hit[0]] = vec


def compare(t, m):
    if sorted(t.nodes()) != sorted(m.at):
        return "nodes {} instead of {}".format(sorted(t.nodes()), sorted(m.at))
    for n, p in m.at.items():
        if [float(c) for c in t.node_coordinates(n)] != m.pos[p] or [float(c) for c in t.node_xyz(n)] != m.pos[p]:
            return "node {} is at {} instead of {}".format(n, t.node_coordinates(n), m.pos[p])
        if t.node_key(n) != n or not t.node_exists(n):
            return "node {} is not found by key".format(n)
        if [float(c) for c in t.node_load(n)] != m.load.get(n, [0.0, 0.0, 0.0]):
            return "node {} has load {} instead of {}".format(n, t.node_load(n), m.load.get(n))
    if t.node_exists(77):
        return "node_exists(77) although there is no such node"
    for p in m.pos:
        want = m.here(p)
        got = t.node_key(list(m.pos[p]))
        if (got is None and want) or (got is not None and got not in want):
            return "position {} {} is found to be node {} instead of {}".format(p, m.pos[p], got, sorted(want) or None)
        if bool(t.node_exists(list(m.pos[p]))) != bool(want):
            return "node_exists({}) is {}".format(m.pos[p], t.node_exists(list(m.pos[p])))
    if sorted(t.support_nodes()) != sorted(m.sup):
        return "supports {} instead of {}".format(sorted(t.support_nodes()), sorted(m.sup))
    if sorted(t.edges()) != sorted(m.edges):
        return "edges {} instead of {}".format(sorted(t.edges()), sorted(m.edges))
    for e, (ty, f) in m.edges.items():
        if t.edge_attribute(e, "type") != ty or (ty == "deviation" and t.edge_force(e) != f):
            return "edge {} is {} with force {} instead of {}".format(e, t.edge_attribute(e, "type"), t.edge_force(e), (ty, f))


def evaluate(case, ctx):
    from compas_cem.diagrams import TopologyDiagram
    t = TopologyDiagram()
    tol = case.get("tol", "3f")
    if tol != "3f":
        t.tol = tol
    m = Model(tol)
    for op in case["h"]:
        ctx.step()
        msg = apply(t, m, op, ctx)
        if msg:
            return "{}: {}".format(op, msg)
    ctx.state([sorted(m.at.items()), sorted(m.latest.items(), key=repr), sorted(m.sup), sorted(m.load.items()), sorted(m.edges.items()), tol])
    ctx.trace()
    return compare(t, m)


def alphabet(keys, pos, autos, edges, sups, loads):
    ops = [["add", k, p] for k in keys for p in pos] + [["add", None, p] for p in autos]
    ops += [["move", k, p] for k in keys for p in pos] + [["del", k] for k in keys]
    ops += edges + [["sup", x] for x in sups] + [["load", x] for x in loads]
    return ops


FULL = alphabet([0, 1, 5], ["a", "A", "b", "c", "C"], ["a", "b", "c"],
                [["edge", "a", "c", "D"], ["edge", "c", "b", "T"], ["edge", 0, "d", "D"], ["edge", 0, 1, "T"], ["edge", 9, 0, "D"], ["edge", 0, 9, "D"], ["edge", "A", "b", "D"]],
                ["a", "C", 0, 1, 9], ["b", "A", 0, 1, 9])
CORE = alphabet([0, 1], ["a", "A", "c"], ["a"], [["edge", "a", "c", "D"], ["edge", "C", 0, "T"]], ["A"], ["c"])
TINY = [["add", 0, "a"], ["add", 1, "A"], ["add", None, "a"], ["move", 0, "c"], ["move", 1, "c"], ["move", 0, "a"], ["del", 0], ["del", 1], ["edge", "a", "c", "D"]]


def cases(ops, depths, tols=("3f",)):
    for d in depths:
        for h in itertools.product(ops, repeat=d):
            for tol in tols:
                yield {"h": list(h), "tol": tol}


def form_eval(case, ctx):
    """In a returned form every node is found at its position."""
    s = spec.expand(case)
    t, km = spec.build(s)
    for name, f in eq.engines().items():
        ctx.step()
        try:
            form = f(t, tmax=100)
        except ValueError:
            ctx.outcome("refused")
            continue
        ctx.outcome("form")
        cells = {}
        for n in form.nodes():
            cells.setdefault(form.gkey([float(c) for c in form.node_coordinates(n)]), set()).add(n)
        for c, ns in cells.items():
            for n in ns:
                got = form.node_key([float(x) for x in form.node_coordinates(n)])
                if got not in ns:
                    return "{}: in the form, the position of node {} is found to be node {}".format(name, n, got)
        for n in t.nodes():
            p = [float(x) for x in t.node_coordinates(n)]
            if form.gkey(p) not in cells and form.node_key(p) is not None:
                return "{}: in the form, node {} is found at {} where no node is".format(name, form.node_key(p), p)
        ctx.state(repr(sorted(cells.items())))
    ctx.trace()


COORD = [0.0, 0.001, -0.001, 0.125, -1.125, 999.999, 1000.0, -1000.0, 2000.25, 2000.0, 12345.678, -99999.75, 123456.789, 123456.5, -1234567.5]


def lattice(axes):
    for tol in ("3f", "2f"):
        for ax in axes:
            for a, b in itertools.product(COORD, repeat=2):
                if abs(a - b) > (0.0 if tol == "3f" else 0.02) and (tol == "3f" or all(round(c, 2) == c for c in (a, b))):
                    for rest in ([0.0, 0.0], [-7.5, 2000.5]):
                        p, q = list(rest), list(rest)
                        p.insert(ax, a)
                        q.insert(ax, b)
                        yield {"p": p, "q": q, "tol": tol}


def far_eval(case, ctx):
    """Two distinct positions anywhere are two nodes, whatever refers to them."""
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    p, q = case["p"], case["q"]
    ctx.state(case)
    ctx.trace()
    for way in range(5):
        t = TopologyDiagram()
        if case["tol"] != "3f":
            t.tol = case["tol"]
        ctx.step(4)
        if way == 0:
            t.add_node(Node(3, list(p)))
            t.add_node(Node(8, list(q)))
            a, b = 3, 8
        elif way == 1:
            t.add_node(Node(3, list(p)))
            a, b = t.add_edge(TrailEdge.from_line([list(p), list(q)], length=1.0))
            if a != 3:
                return "the edge at {} does not reuse its node".format(p)
        elif way == 2:
            t.add_node(Node(8, list(q)))
            a, b = t.add_edge(DeviationEdge(list(p), list(q), force=1.0))
            if b != 8:
                return "the edge at {} does not reuse its node".format(q)
        elif way == 3:
            a, b = t.add_edge(DeviationEdge(tuple(p), tuple(q), force=1.0))
        else:
            t.add_node(Node(3, list(q)))
            t.add_node(Node(8, list(q)))
            t.node_xyz(3, list(p))
            a, b = 3, 8
        if a == b or sorted(t.nodes()) != sorted([a, b]):
            return "the positions {} and {} became the nodes {} ({} and {})".format(p, q, sorted(t.nodes()), a, b)
        for n, x in ((a, p), (b, q)):
            if t.node_key(list(x)) != n or t.node_key(tuple(x)) != n or not t.node_exists(list(x)):
                return "position {} is found to be node {} instead of {}".format(x, t.node_key(list(x)), n)
            if [float(c) for c in t.node_coordinates(n)] != x:
                return "node {} is at {} instead of {}".format(n, t.node_coordinates(n), x)
        t.add_support(NodeSupport.from_point(list(q)))
        t.add_load(NodeLoad.from_point_and_vector(list(p), [1.0, 0.0, -2.0]))
        if list(t.support_nodes()) != [b] or [float(c) for c in t.node_load(a)] != [1.0, 0.0, -2.0] or any(t.node_load(b)):
            return "support or load by position reached the wrong node"
        for i in range(3):
            off = list(p)
            off[i] += 0.5
            if off != q and t.node_key(off) is not None:
                return "a node is found at {} where none is".format(off)


def spaces(tier):
    eq.engines()
    q = tier == "quick"
    out = [Space("full", lambda: cases(FULL, range(1, 4), ("3f", "1f")), evaluate, "all histories of up to 3 of {} operations, 2 tolerances".format(len(FULL))),
           Space("core", lambda: cases(CORE, [4]), evaluate, "all histories of 4 of {} operations".format(len(CORE))),
           Space("tiny", lambda: cases(TINY, [5] if q else [5, 6]), evaluate, "all histories of {} of {} operations".format("5" if q else "5 and 6", len(TINY))),
           Space("forms", lambda: spec.cases([([1, 1], "brac", 1), ([2, 1], "ring", 1), ([2, 2], "brac", 1)]), form_eval, "lookups in forms of all structures within 1 departure of 3 bases"),
           Space("far", lambda: lattice(range(3)), far_eval, "all pairs of 12 coordinates (negative, large, three decimals) on each axis x 2 tolerances x 5 ways of placing two nodes")]
    if not q:
        out.insert(1, Space("full4", lambda: cases(FULL, [4]), evaluate, "all histories of 4 of {} operations".format(len(FULL))))
    return out
