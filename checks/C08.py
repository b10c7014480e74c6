"""C08: auxiliary trails. Diagrams with uncovered nodes x histories of builds and edits.

The model: the content put in by the user (nodes, edges, loads, supports) plus, per node that was
uncovered at a build with auxiliary trails, one new support and trail edge with the length and
direction configured at that moment.  Compared with the real diagram after every build.
"""
import itertools

from mc import eq, obs, spec
from mc.core import Space
from mc.vec import add, dist, mul, unit

ASSUMPTIONS = ["all trail edges of the user's diagram lie on regular trails"]

LENGTHS = [-1.0, 2.5, -0.25]
VECTORS = [[1.0, 1.0, 1.0], [0.0, 0.0, -2.0], [3.0, 0.0, -0.5], [0.6, 0.0, -0.803]]


def initial(case):
    """case: {"L": layout, "n": loose nodes, "d": pairs of deviation edges, "k": key mode, "o": order}"""
    trails = spec.labels(case["L"])
    nt = sum(len(t) for t in trails)
    n = nt + case["n"]
    xyz = {a: [1.5 * (a % 3) + 0.25 * a, 0.5 * a - 0.125 * a * a, -0.75 * (a % 4)] for a in range(n)}
    if case.get("g") == "hit":  # uncovered nodes one auxiliary offset apart, the first one offset from an origin
        length, vector = -1.0, [1.0, 1.0, 1.0]
        for op in case["h"]:
            if op[0] == "l":
                length = LENGTHS[int(op[1])]
            elif op[0] == "v":
                vector = VECTORS[int(op[1])]
            elif op == "T":
                break
        off = mul(unit(vector), length)
        for a in range(max(nt, 1), n):
            xyz[a] = add(xyz[a - 1 if a > nt else 0], off)
    loads = {a: [0.25 * ((a % 3) - 1), 0.125 * a, -2.0 - 0.5 * (a % 2)] for a in range(n) if a % 4 != 3}
    return trails, xyz, loads


class Model(object):
    pass


def setup(case):
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    trails, xyz, loads = initial(case)
    n = len(xyz)
    key = {"id": lambda a: a, "rev": lambda a: n - 1 - a, "gap": lambda a: 5 * a + 2}[case["k"]]
    order = sorted(xyz, reverse=(case["o"] == "rev"))
    t = TopologyDiagram()
    m = Model()
    m.xyz, m.loads, m.sup, m.tr, m.te, m.de, m.aux, m.start = {}, {}, set(), {}, {}, {}, {}, {}
    for a in order:
        t.add_node(Node(key(a), list(xyz[a])))
        m.xyz[key(a)] = list(xyz[a])
        m.loads[key(a)] = list(loads.get(a, [0.0, 0.0, 0.0]))
    for path in trails:
        for i, (u, v) in enumerate(zip(path, path[1:])):
            e = (key(u), key(v)) if i % 2 == 0 else (key(v), key(u))
            t.add_edge(TrailEdge(e[0], e[1], length=-1.0 - 0.25 * i))
            m.te[e] = -1.0 - 0.25 * i
        t.add_support(NodeSupport(key(path[-1])))
        m.sup.add(key(path[-1]))
        m.tr[key(path[0])] = [key(a) for a in path]
    for i, (a, b) in enumerate(case["d"]):
        f = [0.25, -0.125, 0.0625][i % 3]
        t.add_edge(DeviationEdge(key(b), key(a), force=f))
        m.de[(key(b), key(a))] = f
    for a in sorted(loads):
        t.add_load(NodeLoad(key(a), list(loads[a])))
    m.length, m.vector = t.auxiliary_trail_length, list(t.auxiliary_trail_vector)
    if m.length != -1.0 or m.vector != [1.0, 1.0, 1.0]:
        raise AssertionError("unexpected defaults")
    m.fresh = 0
    return t, m


def uncovered(m):
    on = set()
    for p in m.tr.values():
        on |= set(p)
    return [n for n in m.xyz if n not in on]


def after_build(t, m, aux):
    """Advance the model and compare it with the diagram."""
    new = uncovered(m) if aux else []
    have = set(m.xyz)
    got_nodes = list(t.nodes())
    extra = [n for n in got_nodes if n not in have]
    if len(extra) != len(new):
        return "{} nodes were added for {} uncovered nodes".format(len(extra), len(new))
    if not have <= set(got_nodes):
        return "nodes {} disappeared".format(have - set(got_nodes))
    got_aux = {k: list(v) for k, v in t.auxiliary_trails(keys=True)}
    for n in new:
        if n not in got_aux or len(got_aux[n]) != 2 or got_aux[n][0] != n or got_aux[n][1] not in extra:
            return "uncovered node {} got the auxiliary trail {}".format(n, got_aux.get(n))
        s = got_aux[n][1]
        pos = add(m.xyz[n], mul(unit(m.vector), m.length))
        if dist(t.node_coordinates(s), pos) > 1e-9:
            return "auxiliary support of node {} is at {} instead of {}".format(n, t.node_coordinates(s), pos)
        m.xyz[s] = [float(c) for c in t.node_coordinates(s)]
        m.loads[s] = [0.0, 0.0, 0.0]
        m.sup.add(s)
        m.tr[n] = [n, s]
        m.aux[n] = s
        m.te[(n, s)] = m.length
    if len(set(m.aux.values())) != len(m.aux):
        return "auxiliary trails share a support"
    for k in m.tr:
        m.start[k] = 0
    return compare(t, m)


def compare(t, m):
    o = obs.topology(t, order=False)
    if o["nodes"] != sorted(m.xyz):
        return "nodes {} instead of {}".format(o["nodes"], sorted(m.xyz))
    for what, want in (("xyz", m.xyz), ("load", m.loads)):
        for n in want:
            if o[what][n] != want[n]:
                return "{} of node {} is {} instead of {}".format(what, n, o[what][n], want[n])
    if o["sup"] != sorted(m.sup):
        return "supports {} instead of {}".format(o["sup"], sorted(m.sup))
    if o["tedges"] != sorted(m.te) or o["dedges"] != sorted(m.de):
        return "edges {} / {} instead of {} / {}".format(o["tedges"], o["dedges"], sorted(m.te), sorted(m.de))
    for e, v in m.te.items():
        if o["length"][e] != v:
            return "trail edge {} has length {} instead of {}".format(e, o["length"][e], v)
        if o["plane"][e] is not None:
            return "trail edge {} has the plane {}".format(e, o["plane"][e])
    for e, v in m.de.items():
        if o["force"][e] != v:
            return "deviation edge {} has force {} instead of {}".format(e, o["force"][e], v)
    want = sorted(m.aux.items())
    if sorted((k, v[1]) for k, v in o["aux"]) != want or any(v[0] != k or len(v) != 2 for k, v in o["aux"]):
        return "auxiliary trails {} instead of {}".format(o["aux"], want)
    if o["auxedges"] != want:
        return "auxiliary trail edges {} instead of {}".format(o["auxedges"], want)
    for e in o["tedges"] + o["dedges"]:
        if t.is_auxiliary_trail_edge(e) != (e in want):
            return "is_auxiliary_trail_edge({}) is {}".format(e, t.is_auxiliary_trail_edge(e))
    if o["nt"] != [len(m.tr), len(m.aux), len(m.te), len(m.de)]:
        return "counters {} are wrong".format(o["nt"])
    if {k: v for k, v in o["trails"]} != m.tr or o["trail"] != m.tr:
        return "trails {} instead of {}".format(o["trails"], m.tr)
    if o["origins"] != sorted(m.tr):
        return "origins {} instead of {}".format(o["origins"], sorted(m.tr))
    for k, p in m.tr.items():
        for i, n in enumerate(p):
            if o["k"][n] != m.start[k] + i:
                return "node {} has sequence {} instead of {}".format(n, o["k"][n], m.start[k] + i)
    if o["auxlen"] != m.length or o["auxvec"] != m.vector:
        return "auxiliary settings changed to {} {}".format(o["auxlen"], o["auxvec"])


def forms(t, m, ctx):
    km = {n: n for n in m.xyz}
    for name in ("py", "np"):
        v, err = eq.run_engine(name, t, km, ctx, tmax=200)
        if v is None:
            return "{} refuses the completed diagram: {}".format(name, err)
        msg = eq.check_equilibrium(v, 1e-6, m.sup)
        if msg:
            return "{}: {}".format(name, msg)


def evaluate(case, ctx):
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.loads import NodeLoad
    from compas_cem.supports import NodeSupport
    t, m = setup(case)
    built = False
    for op in case["h"]:
        ctx.step()
        if op in ("T", "F"):
            if op == "F" and uncovered(m):
                try:
                    t.build_trails()
                except Exception:
                    ctx.outcome("rejected")
                    continue
                return "a diagram with uncovered nodes {} was accepted without auxiliary trails".format(uncovered(m))
            t.build_trails(auxiliary_trails=(op == "T"))
            built = True
            msg = after_build(t, m, op == "T")
            if msg:
                return "after {}: {}".format(op, msg)
            ctx.outcome("built")
        elif op[0] == "l":
            m.length = LENGTHS[int(op[1])]
            t.auxiliary_trail_length = m.length
        elif op[0] == "v":
            m.vector = list(VECTORS[int(op[1])])
            t.auxiliary_trail_vector = list(m.vector)
        elif op == "add":
            m.fresh += 1
            k = max(m.xyz) + 3
            p = [5.0 + m.fresh, 2.0 * m.fresh, 0.5]
            t.add_node(Node(k, list(p)))
            other = min(m.xyz)
            t.add_edge(DeviationEdge(other, k, force=0.125))
            t.add_load(NodeLoad(k, [0.0, 0.25, -1.5]))
            m.xyz[k], m.loads[k] = p, [0.0, 0.25, -1.5]
            m.de[(other, k)] = 0.125
            built = False
        elif op == "del":  # delete the support of the first auxiliary trail
            if m.aux:
                n = min(m.aux)
                x = m.aux.pop(n)
                t.delete_node(x)
                del m.xyz[x], m.loads[x], m.tr[n], m.te[(n, x)]
                m.sup.discard(x)
                built = False
        elif op == "own":  # the first uncovered node gets a trail of its own
            free = uncovered(m)
            if free:
                n, k = min(free), max(m.xyz) + 2
                p = add(m.xyz[n], [0.5, 0.25, -1.0])
                t.add_node(Node(k, list(p)))
                t.add_edge(TrailEdge(k, n, length=-1.5))
                t.add_support(NodeSupport(k))
                m.xyz[k], m.loads[k] = p, [0.0, 0.0, 0.0]
                m.te[(k, n)], m.tr[n] = -1.5, [n, k]
                m.sup.add(k)
                built = False
        elif op == "join":  # the first uncovered node becomes the origin of the first regular trail
            free = [n for n in uncovered(m)]
            reg = [o for o in m.tr if o not in m.aux]
            if free and reg:
                n, o = min(free), min(reg)
                if (n, o) not in m.de and (o, n) not in m.de:
                    t.add_edge(TrailEdge(n, o, length=-0.75))
                    m.te[(n, o)] = -0.75
                    m.tr[n] = [n] + m.tr.pop(o)
                    m.start.pop(o, None)
                    built = False
        elif op == "sh":
            if built and m.tr:
                k = max(m.tr)
                t.shift_trail(k, 1)
                m.start[k] = 1
                msg = compare(t, m)
                if msg:
                    return "after the shift: " + msg
        ctx.state([case["L"], sorted(m.xyz), sorted(m.te.items()), sorted(m.de), sorted(m.start.items()), m.length, m.vector, built])
    ctx.trace()
    if built:
        return forms(t, m, ctx)


def diagrams(layouts, loose, maxdev, keys=("id",), orders=("std",)):
    for L in layouts:
        nt = sum(x + 1 for x in L)
        for n in loose:
            if nt + n == 0:
                continue
            trails = spec.labels(L)
            cons = set()
            for p in trails:
                cons |= set(zip(p, p[1:]))
            pairs = [(a, b) for a in range(nt + n) for b in range(a + 1, nt + n) if (a, b) not in cons]
            for d in range(0, maxdev + 1):
                for dev in itertools.combinations(pairs, d):
                    for k in keys:
                        for o in orders:
                            yield {"L": list(L), "n": n, "d": [list(x) for x in dev], "k": k, "o": o}


def histories(depth, ops=("T", "F", "l1", "l2", "v1", "v2", "add", "sh")):
    for d in range(1, depth + 1):
        for h in itertools.product(ops, repeat=d):
            if h[-1] not in ("T", "F") or "T" not in h:
                continue
            yield list(h)


SETTINGS = [["T"], ["l1", "v1", "T"], ["l2", "T"], ["v2", "T"], ["v3", "l2", "T"], ["T", "T"], ["T", "F"]]


def spaces(tier):
    eq.engines()

    def static(layouts, loose, maxdev):
        for d in diagrams(layouts, loose, maxdev, ("id", "rev", "gap"), ("std", "rev")):
            for h in SETTINGS:
                yield dict(d, h=h)

    def hits(layouts, loose, maxdev):
        for d in diagrams(layouts, loose, maxdev, ("id", "rev", "gap"), ("std", "rev")):
            for h in SETTINGS:
                yield dict(d, h=h, g="hit")

    def dynamic(depth):
        for d in ({"L": [1], "n": 1, "d": [[0, 2]], "k": "gap", "o": "std"}, {"L": [], "n": 2, "d": [[0, 1]], "k": "id", "o": "std"},
                  {"L": [2, 1], "n": 0, "d": [[0, 3]], "k": "rev", "o": "rev"}):
            for h in histories(depth):
                yield dict(d, h=h)

    def undone(depth):
        for d in ({"L": [1], "n": 1, "d": [[0, 2]], "k": "gap", "o": "std"}, {"L": [], "n": 2, "d": [[0, 1]], "k": "id", "o": "std"},
                  {"L": [2], "n": 2, "d": [[1, 3]], "k": "rev", "o": "rev"}):
            for h in histories(depth, ("T", "F", "del", "own", "join", "sh", "l1")):
                if "del" in h or "own" in h or "join" in h:
                    yield dict(d, h=h)
    q = tier == "quick"
    return [Space("diagrams", lambda: static([[], [1], [2], [1, 1]], [0, 1, 2, 3], 2 if q else 3), evaluate,
                  "regular layouts [],[1],[2],[1,1] + 0..3 uncovered nodes, deviation-edge sets up to size {}, 3 key modes, 2 orders, 7 settings".format(2 if q else 3)),
            Space("coincident", lambda: hits([[], [1], [2]], [1, 2, 3], 1 if q else 2), evaluate,
                  "uncovered nodes that lie where auxiliary supports will be: layouts [],[1],[2] + 1..3 uncovered nodes, deviation-edge sets up to size {}, 3 key modes, 2 orders, 7 settings".format(1 if q else 2)),
            Space("histories", lambda: dynamic(5 if q else 6), evaluate, "all histories of up to {} operations ending in a build on 3 diagrams".format(5 if q else 6)),
            Space("undone", lambda: undone(5 if q else 6), evaluate,
                  "all histories of up to {} operations over builds, shift, length, deleting the support of an auxiliary trail, giving an uncovered node its own trail and joining it to a regular one, on 3 diagrams".format(5 if q else 6))]
