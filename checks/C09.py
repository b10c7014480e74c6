"""C09: sequences and shifts. All shift/rebuild histories, abstract model trail -> start in lockstep."""
import itertools

from mc import spec
from mc.core import Space

ASSUMPTIONS = ["starting sequences are non-negative integers"]


def make(case):
    """Every non-trail node pair is a deviation edge (orientation alternates)."""
    s = spec.base(case["L"], "gen")
    s["devs"] = [[a, b, 0.25] if (a + b) % 2 else [b, a, -0.25] for a, b in spec._pairs(s["trails"])]
    s["key"] = case["k"]
    s["flips"] = [[e[0], e[1]] for i, e in enumerate(s["tedges"]) if i % 2]
    t, km = spec.build(s)
    return s, t, km


def check(s, t, km, start):
    k = {}
    for i, tr in enumerate(s["trails"]):
        for j, a in enumerate(tr):
            k[km[a]] = start[i] + j
    for n in k:
        if t.node_sequence(n) != k[n]:
            return "node {} has sequence {} instead of {}".format(n, t.node_sequence(n), k[n])
    last = max(k.values())
    if t.sequence_last() != last or t.number_of_sequences() != last + 1:
        return "last sequence {} / number {} instead of {}".format(t.sequence_last(), t.number_of_sequences(), last)
    seqs = list(t.sequences(keys=True))
    if [q for q, _ in seqs] != list(range(last + 1)):
        return "sequence keys {}".format([q for q, _ in seqs])
    if [sorted(x) for _, x in seqs] != [sorted(n for n in k if k[n] == q) for q in range(last + 1)]:
        return "sequences {} do not partition {}".format(seqs, k)
    if [sorted(x) for x in t.sequences()] != [sorted(x) for _, x in seqs]:
        return "sequences() and sequences(keys=True) disagree"
    dev = sorted(t.deviation_edges())
    tra = sorted(t.trail_edges())
    if len(dev) != len(s["devs"]) or len(tra) != len(s["tedges"]):
        return "edges changed"
    direct = [e for e in dev if k[e[0]] == k[e[1]]]
    indirect = [e for e in dev if k[e[0]] != k[e[1]]]
    if sorted(t.direct_deviation_edges()) != direct:
        return "direct deviation edges {} instead of {}".format(sorted(t.direct_deviation_edges()), direct)
    if sorted(t.indirect_deviation_edges()) != indirect:
        return "indirect deviation edges {} instead of {}".format(sorted(t.indirect_deviation_edges()), indirect)
    if sorted(e for e, _ in t.direct_deviation_edges(data=True)) != direct or sorted(e for e, _ in t.indirect_deviation_edges(data=True)) != indirect:
        return "the listings with data disagree with those without"
    for e in dev + tra:
        if tuple(t.edge_sequence(e)) != (k[e[0]], k[e[1]]):
            return "edge_sequence({}) = {}".format(e, t.edge_sequence(e))
        got = [t.is_trail_edge(e), t.is_deviation_edge(e), t.is_direct_deviation_edge(e), t.is_indirect_deviation_edge(e)]
        want = [e in tra, e in dev, e in direct, e in indirect]
        if [bool(g) for g in got] != want:
            return "edge {} is classified {} instead of {} (trail, deviation, direct, indirect)".format(e, got, want)
    if [t.number_of_trail_edges(), t.number_of_deviation_edges(), t.number_of_direct_deviation_edges(),
            t.number_of_indirect_deviation_edges(), t.number_of_trails()] != [len(tra), len(dev), len(direct), len(indirect), len(s["trails"])]:
        return "counters disagree with the listings"
    for n in k:
        if sorted(t.connected_deviation_edges(n)) != [e for e in dev if n in e]:
            return "deviation edges at node {}: {}".format(n, t.connected_deviation_edges(n))
        if sorted(t.connected_trail_edges(n)) != [e for e in tra if n in e]:
            return "trail edges at node {}: {}".format(n, t.connected_trail_edges(n))
    ts = t.trails_sequences()
    want = {km[tr[0]]: {start[i] + j: km[a] for j, a in enumerate(tr)} for i, tr in enumerate(s["trails"])}
    if {a: dict(b) for a, b in ts.items()} != want:
        return "trail/sequence mapping {} instead of {}".format(ts, want)
    for key in want:
        if dict(t.trail_sequences(key)) != want[key]:
            return "trail_sequences({}) = {}".format(key, t.trail_sequences(key))
        if list(t.trail(key)) != [want[key][q] for q in sorted(want[key])]:
            return "trail({}) = {}".format(key, t.trail(key))
    if sorted(t.origin_nodes()) != sorted(want):
        return "origins {}".format(sorted(t.origin_nodes()))


def evaluate(case, ctx):
    s, t, km = make(case)
    start = [0] * len(s["trails"])
    msg = check(s, t, km, start)
    if msg:
        return "after building: " + msg
    for op in case["h"]:
        ctx.step()
        if op == "B":
            t.build_trails()
            start = [0] * len(start)
        elif op[0] == "x":  # refused shift
            i = op[1]
            tr = s["trails"][i] if i >= 0 else None
            key = km[tr[op[2]]] if tr else 9999
            try:
                t.shift_trail(key, 1)
            except Exception:
                ctx.outcome("refused")
            else:
                return "shifting node {} which is not an origin was accepted".format(key)
        else:
            i, q = op
            t.shift_trail(km[s["trails"][i][0]], q)
            start[i] = q
        ctx.state([case["L"], case["k"], start])
        msg = check(s, t, km, start)
        if msg:
            return "after {}: {}".format(op, msg)
    # an origin that becomes a support is no origin any more
    from compas_cem.supports import NodeSupport
    key = km[s["trails"][-1][0]]
    t.add_support(NodeSupport(key))
    k = [t.node_sequence(n) for n in sorted(t.nodes())]
    try:
        t.shift_trail(key, 1 + start[-1])
    except Exception:
        if [t.node_sequence(n) for n in sorted(t.nodes())] != k:
            return "a refused shift changed the sequences"
    else:
        return "shifting node {}, which has become a support, was accepted".format(key)
    ctx.trace()


def cases(layouts, depth, qs, keys=("id", "gap")):
    for L in layouts:
        ops = [[i, q] for i in range(len(L)) for q in qs] + ["B", ["x", 0, 1], ["x", len(L) - 1, -1], ["x", -1]]
        for k in keys:
            for d in range(1, depth + 1):
                for h in itertools.product(ops, repeat=d):
                    yield {"L": L, "k": k, "h": list(h)}


def far(layouts, qs):
    """All trails start where no small integer is."""
    for L in layouts:
        for qq in itertools.product(qs, repeat=len(L)):
            yield {"L": L, "k": "big", "h": [[i, int(q)] for i, q in enumerate(qq)]}


def spaces(tier):
    from compas_cem.diagrams import TopologyDiagram  # noqa: F401
    q = tier == "quick"
    small = [[1], [2], [3], [1, 1], [2, 1], [1, 2]]
    big = [[2, 2], [1, 3], [1, 1, 1], [2, 1, 2]]
    return [Space("shifts", lambda: cases(small, 3 if q else 4, [0, 1, 2, 5]), evaluate, "6 layouts x 2 key modes x all shift/rebuild/refused histories of up to {} steps, starts 0,1,2,5".format(3 if q else 4)),
            Space("shifts-large", lambda: cases([[11], [1] * 8, [7, 5], [3, 1, 4, 1, 5], [12, 1]], 1 if q else 2, [0, 1, 3, 9, 12, 300], ("id", "gap", "big")), evaluate, "5 large layouts, up to {} steps, starts up to 300".format(1 if q else 2)),
            Space("shifts-far", lambda: far([[1, 1], [2, 1], [1, 1, 1]], [299, 300, 301]), evaluate, "3 layouts, every trail shifted to one of 3 sequences around 300"),
            Space("shifts-walk", lambda: cases([[2], [1, 2]], 2, range(9), ("id",)), evaluate, "2 layouts, all histories of up to 2 steps, starts 0 to 8"),
            Space("shifts-big", lambda: cases(big, 2 if q else 3, [0, 1, 2, 5, 8]), evaluate, "4 larger layouts, up to {} steps".format(2 if q else 3))]
