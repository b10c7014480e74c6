"""C06: build_trails partitions or rejects. All small graphs."""
import itertools

from mc import obs
from mc.core import Space
from mc.eq import engines
from mc.graphs import trails_of

ASSUMPTIONS = ["simple graphs (at most one edge per node pair)"]

KINDS = ["", "T", "t", "D", "d"]  # none, trail fwd/bwd, deviation fwd/bwd


def construct(n, code, sup, keys=None):
    from compas_cem.diagrams import TopologyDiagram
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.supports import NodeSupport
    keys = keys or list(range(n))
    t = TopologyDiagram()
    for i in range(n):
        t.add_node(Node(keys[i], [float(i), 0.5 * i * i, -1.0 * i]))
    te, de = [], []
    for (i, j), c in zip(itertools.combinations(range(n), 2), code):
        if not c:
            continue
        u, v = (keys[i], keys[j]) if c in "TD" else (keys[j], keys[i])
        if c in "Tt":
            t.add_edge(TrailEdge(u, v, length=-1.0))
            te.append((u, v))
        else:
            t.add_edge(DeviationEdge(u, v, force=1.0))
            de.append((u, v))
    for i in sup:
        t.add_support(NodeSupport(keys[i]))
    return t, te, de, [keys[i] for i in sup]


def evaluate(case, ctx):
    n, code, sup = case["n"], case["e"], case["s"]
    t, te, de, sups = construct(n, code, sup, case.get("k"))
    return judge(t, te, de, sups, ctx, case)


def judge(t, te, de, sups, ctx, case):
    ctx.step()
    ctx.trace()
    ctx.state(case)
    nodes = list(t.nodes())
    want = trails_of(nodes, te, sups)
    before = None
    if want is None:
        before = obs.topology(t)
    elif case["n"] <= 4 and not t.has_trails():
        for name, engine in sorted(engines().items()):
            try:
                engine(t)
            except Exception:
                continue
            return "the {} engine accepts a diagram without trails".format(name)
        if t.has_trails() or list(t.origin_nodes()):
            return "form finding builds trails"
    try:
        t.build_trails()
        ok = True
    except Exception as e:
        ok = False
        err = e
    if want is None:
        if ok:
            return "accepted, with trails {} although trail edges {} and supports {} do not partition the nodes".format(
                list(t.trails()), te, sups)
        ctx.outcome("rejected")
        d = obs.diff(before, obs.topology(t))
        if d:
            return "rejection ({}) changed the diagram: {}".format(err, d)
        if case["n"] <= 3 and not before["has"]:
            for m in nodes:
                try:
                    k = t.node_sequence(m)
                except Exception:
                    continue
                return "node {} has sequence {} in a diagram without trails".format(m, k)
            for name, engine in sorted(engines().items()):
                try:
                    engine(t)
                except Exception:
                    continue
                return "the {} engine accepts a diagram without trails".format(name)
        return
    if not ok:
        return "a valid diagram was rejected: {}: {}".format(type(err).__name__, err)
    ctx.outcome("accepted")
    o = obs.topology(t)
    got = {k: v for k, v in o["trails"]}
    if got != want:
        return "trails {} instead of {}".format(got, want)
    if o["trail"] != want or o["trails_nokey"] != sorted(want.values()):
        return "trail() and trails() disagree: {}".format(o["trail"])
    if o["origins"] != sorted(want) or sorted(n for n in o["isorigin"] if o["isorigin"][n]) != sorted(want):
        return "origins {} instead of {}".format(o["origins"], sorted(want))
    if o["sup"] != sorted(sups) or sorted(n for n in o["isup"] if o["isup"][n]) != sorted(sups):
        return "supports {} instead of {}".format(o["sup"], sorted(sups))
    for path in want.values():
        for i, m in enumerate(path):
            if o["k"][m] != i:
                return "node {} has sequence {} instead of {}".format(m, o["k"][m], i)
    if o["tedges"] != sorted(te) or o["dedges"] != sorted(de):
        return "building trails changed the edges"
    if not o["has"] or o["nt"][0] != len(want) or o["aux"]:
        return "trail counters wrong: {} {} {}".format(o["has"], o["nt"], o["aux"])


def evaluate_again(case, ctx):
    """A diagram that was built, then edited: the next build partitions it or leaves everything alone."""
    from compas_cem.elements import DeviationEdge, Node, TrailEdge
    from compas_cem.supports import NodeSupport
    t, te, de, sups = construct(case["n"], case["e"], case["s"], case.get("k"))
    t.build_trails()
    if case["sh"]:
        t.shift_trail(max(t.origin_nodes()), case["sh"])
    for op in case["x"]:
        k = op[0]
        if k == "node":
            t.add_node(Node(50 + op[1], [7.0 + op[1], 1.0, 0.5]))
        elif k in ("T", "D"):
            u, v = op[1], op[2]
            te = [e for e in te if set(e) != {u, v}]
            de = [e for e in de if set(e) != {u, v}]
            t.add_edge(TrailEdge(u, v, length=-1.0) if k == "T" else DeviationEdge(u, v, force=1.0))
            (te if k == "T" else de).append((u, v))
        elif k == "del":
            if not any(set(e) == {op[1], op[2]} for e in te + de):
                return
            t.delete_edge(*[e for e in te + de if set(e) == {op[1], op[2]}][0])
            te = [e for e in te if set(e) != {op[1], op[2]}]
            de = [e for e in de if set(e) != {op[1], op[2]}]
        elif k == "sup":
            t.add_support(NodeSupport(op[1]))
            sups = sorted(set(sups) | {op[1]})
        elif k == "unsup":
            if op[1] not in sups:
                return
            t.unset_node_attribute(op[1], "type")
            sups = [n for n in sups if n != op[1]]
    return judge(t, te, de, sups, ctx, case)


def again(n, kinds, depth, keys):
    """Every valid diagram on n nodes x every sequence of up to ``depth`` edits."""
    pairs = list(itertools.combinations(range(n), 2))
    for g in graphs(n, kinds):
        te = [p for p, c in zip(pairs, g["e"]) if c in ("T", "t")]
        if trails_of(range(n), te, g["s"]) is None:
            continue
        free = [p for p, c in zip(pairs, g["e"]) if c == ""]
        have = [p for p, c in zip(pairs, g["e"]) if c != ""]
        for ks in keys:
            ops = [["node", 0]] + [[k, ks[a], ks[b]] for a, b in free for k in "TD"] + [["del", ks[a], ks[b]] for a, b in have]
            ops += [["sup", ks[a]] for a in range(n) if a not in g["s"]] + [["unsup", ks[a]] for a in g["s"]] + [["T", 50, ks[a]] for a in range(n)]
            for d in range(depth + 1):
                for x in itertools.permutations(ops, d):
                    if any(50 in o[1:] and ["node", 0] not in list(x)[:i] for i, o in enumerate(x)):
                        continue
                    if len({tuple(sorted(o[1:])) for o in x if o[0] in "TD"}) < sum(o[0] in "TD" for o in x):
                        continue
                    for sh in (0, 2):
                        yield dict(g, k=ks, x=[list(o) for o in x], sh=sh)


def graphs(n, kinds):
    pairs = n * (n - 1) // 2
    for code in itertools.product(kinds, repeat=pairs):
        for r in range(n + 1):
            for sup in itertools.combinations(range(n), r):
                yield {"n": n, "e": list(code), "s": list(sup)}


def larger(n, maxdev):
    """Disjoint unions of paths on n nodes in every labelling, plus up to maxdev deviation edges, every support set of size = #paths."""
    pairs = list(itertools.combinations(range(n), 2))
    seen = set()
    for perm in itertools.permutations(range(n)):
        for cuts in itertools.product([0, 1], repeat=n - 1):
            te = frozenset(tuple(sorted((perm[i], perm[i + 1]))) for i in range(n - 1) if not cuts[i])
            if te in seen:
                continue
            seen.add(te)
            free = [p for p in pairs if p not in te]
            for d in range(maxdev + 1):
                for dev in itertools.combinations(free, d):
                    code = []
                    for i, p in enumerate(pairs):
                        code.append(("T" if i % 2 else "t") if p in te else ("D" if i % 3 else "d") if p in dev else "")
                    k = sum(cuts) + 1
                    for sup in itertools.combinations(range(n), k):
                        yield {"n": n, "e": code, "s": list(sup)}


def iso(n, keysets):
    """All trail-edge graphs on n nodes up to isomorphism, every support set."""
    from networkx.generators.atlas import graph_atlas_g
    pairs = list(itertools.combinations(range(n), 2))
    for g in graph_atlas_g():
        if g.number_of_nodes() != n:
            continue
        has = {tuple(sorted(e)) for e in g.edges()}
        code = [("T" if (i + j) % 2 else "t") if (i, j) in has else "" for i, j in pairs]
        for keys in keysets:
            for r in range(n + 1):
                for sup in itertools.combinations(range(n), r):
                    yield {"n": n, "e": code, "s": list(sup), "k": keys}


def long(lens, modes=(0, 1, 2), maxsup=6, nkeys=4):
    """Long paths, cycles, tadpoles, stars of paths and their unions, with supports at selected places."""
    for n in lens:
        path = [(i, i + 1) for i in range(n - 1)]
        shapes = {"path": path, "cycle": path + [(0, n - 1)], "tadpole": path + [(0, n // 2)], "tail": path + [(n // 2, n - 1)],
                  "two": [e for e in path if e[0] != n // 2], "pathcycle": [e for e in path if e[0] != n // 2] + [(n // 2 + 1, n - 1)],
                  "gap": path[1:], "chord": path + [(1, n - 2)], "branch": path[:-1] + [(n // 2, n - 1)]}
        spots = [0, 1, n // 2, n // 2 + 1, n - 2, n - 1]
        for name in sorted(shapes):
            es = {tuple(sorted(e)) for e in shapes[name] if abs(e[0] - e[1]) > 0}
            for mode in modes:
                code = ["" if p not in es else "T" if mode == 0 or (mode == 2 and sum(p) % 4 < 2) else "t" for p in itertools.combinations(range(n), 2)]
                for keys in (list(range(n)), list(range(n))[::-1], [(5 * i + 3) % n if n % 5 else (3 * i + 1) % n if n % 3 else i for i in range(n)], [1000 - 7 * i for i in range(n)])[-nkeys:]:
                    if len(set(keys)) < n:
                        continue
                    for r in range(min(maxsup, len(spots)) + 1):
                        for sup in itertools.combinations(sorted(set(spots)), r):
                            yield {"n": n, "e": code, "s": list(sup), "k": keys}


def hubs(sizes):
    """One node tied by deviation edges to all other nodes; its trail neighbour sorts at every place among them."""
    for lens in sizes:
        n = sum(lens) + len(lens)
        te, sup, a = set(), [], 0
        for ln in lens:
            te |= {(a + i, a + i + 1) for i in range(ln)}
            a += ln + 1
            sup.append(a - 1)
        for hub in range(n):
            code = []
            for p in itertools.combinations(range(n), 2):
                code.append(("T" if sum(p) % 4 < 2 else "t") if p in te else ("D" if sum(p) % 3 else "d") if hub in p else "")
            for r in range(n):
                for step in (1, n - 1, 5):
                    keys = [(r + step * i) % n * 3 + 1 for i in range(n)]
                    if len(set(keys)) == n:
                        yield {"n": n, "e": code, "s": sup, "k": keys}


def spaces(tier):
    th = tier == "thorough"
    out = [Space("n2", lambda: graphs(2, KINDS), evaluate, "all graphs on 2 nodes: edge kinds x orientation x support sets"),
           Space("n3", lambda: graphs(3, KINDS), evaluate, "all graphs on 3 nodes: edge kinds x orientation x support sets"),
           Space("n4", lambda: graphs(4, ["", "T", "t", "D"]), evaluate, "all graphs on 4 nodes: none/trail both orientations/deviation x all support sets"),
           Space("n5t", lambda: graphs(5, ["", "T"]), evaluate, "all trail-edge graphs on 5 nodes x all support sets")]
    out += [Space("again", lambda: itertools.chain(again(2, KINDS, 3, [[0, 1], [300, 7]]), again(3, ["", "T", "t", "D"], 2, [[0, 1, 2], [500, 3, 400]]),
                                                    again(4, ["", "T", "D"] if th else ["", "T"], 2, [[0, 1, 2, 3]])), evaluate_again,
                  "every valid diagram on 2, 3 and 4 nodes, built (and shifted), then every sequence of up to 2 edits (3 on 2 nodes), then built again")]
    K6 = [list(range(6)), [5, 3, 1, 0, 2, 4], [1000, 17, 512, 3, 99999, 400]]
    out += [Space("n6iso", lambda: iso(6, K6 if not th else K6 + [[2, 4, 0, 5, 1, 3], [5, 4, 3, 2, 1, 0]]), evaluate, "all trail-edge graphs on 6 nodes up to isomorphism x all support sets x 3 (thorough 5) key assignments"),
            Space("long", lambda: long((7, 8, 9, 12) if not th else (7, 8, 9, 10, 11, 12, 13, 16, 20)), evaluate, "9 shapes (paths, cycles, tadpoles, branches, unions) of 7 to 12 (thorough 20) nodes x orientations x keys x subsets of 6 support places"),
            Space("longer", lambda: long((16, 25, 40) if not th else (16, 25, 40, 64), (2,), 2, 2), evaluate, "the same shapes of 16, 25 and 40 (thorough 64) nodes, mixed orientations, two key sets, at most two supports")]
    out.append(Space("hubs", lambda: hubs([(1,) * 4, (2, 2, 1), (1,) * 7, (1, 2, 1, 3, 2)] + ([(2,) * 6, (1,) * 12] if th else [])), evaluate,
                     "structures of 8 to 14 (thorough 24) nodes with one node tied to all others, every choice of it x every rotation and reflection of the keys"))
    if th:
        out.append(Space("n7iso", lambda: iso(7, [list(range(7)), [6, 2, 4, 0, 5, 1, 3]]), evaluate, "all trail-edge graphs on 7 nodes up to isomorphism x all support sets x 2 key assignments"))
        out += [Space("n4full", lambda: graphs(4, KINDS), evaluate, "all graphs on 4 nodes: edge kinds x orientation x support sets"),
                Space("n5", lambda: graphs(5, ["", "T", "D"]), evaluate, "all graphs on 5 nodes: none/trail/deviation x all support sets"),
                Space("n6paths", lambda: larger(6, 1), evaluate, "all labelled path forests on 6 nodes with up to 1 deviation edge x support sets of matching size")]
    return out
