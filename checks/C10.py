"""C10: presentation independence. All orders, orientations, keys and reference modes of structures."""
import itertools

from mc import eq, obs, ref, spec
from mc.core import Space

ASSUMPTIONS = ["structures converge for every order of trails (checked with the reference iteration)"]

STRUCTS = [
    {"L": [1, 1], "B": "gen", "d": [["dev", [0, 2], 0.5]]},
    {"L": [1, 1], "B": "brac", "d": [["dev", [1, 3], -0.25]]},
    {"L": [2, 1], "B": "brac", "d": [["dev", [2, 3], 0.25]]},
    {"L": [2, 1], "B": "ten", "d": [["pla", [0, 1], "tilt"], ["dev", [1, 3], 0.375]]},
    {"L": [2], "B": "gen", "d": [["dev", [0, 2], -0.25]]},
    {"L": [1, 1, 1], "B": "brac", "d": []},
    {"L": [3, 2], "B": "brac", "d": [["dev", [3, 4], 0.25], ["pla", [5, 6], "ahead"]]},
    {"L": [2, 2, 1], "B": "brac", "d": [["dev", [2, 5], 0.25], ["dev", [0, 6], 0.125]]},
]
# indices 8 and above: presentations are rotations and reflections only
STRUCTS += [
    {"L": [5, 4, 3, 2], "B": "brac", "d": [["pla", [6, 7], "ahead"]]},
    {"L": [9], "B": "gen", "d": [["dev", [0, 5], 0.25], ["pla", [3, 4], "tilt"]]},
    {"L": [1] * 8, "B": "ring", "d": [["shift", 2, 1]]},
    {"L": [2, 2, 2], "B": "ring", "d": [["shift", 0, 2], ["load", 4, "zero"], ["len", [3, 4], 1.25]]},
    {"L": [1] * 6, "B": "ring", "d": [["dev", [3, k], 0.125 - 0.03125 * (k % 3)] for k in range(4, 12)] + [["dev", [0, 3], 0.5], ["dev", [1, 3], 0.25]]},
]
ODD = [-3, 1000000, 0, 17, 4, -1, 99, 5, 2, 300, -77, 258, 1, 42, 7, 1001, 64, 31, 12345]

# complete ways of writing down a structure of n nodes and e edges: every dimension off its standard value at once
WAYS = ["k-rev", "k-odd", "k-big", "k-big-f", "n-rev", "e-rev", "f-all", "f-even", "f-odd", "xyz", "xyz-f", "auto", "auto-rev", "mix", "mix-rev", "alt", "alt-f", "s-rev", "all-rev", "all-odd"]

_cache = {}


def reference(i):
    """The structure's form and trails in the standard presentation, or None if not well posed."""
    if i not in _cache:
        s = spec.expand(STRUCTS[i])
        n = len(s["trails"])
        for order in itertools.permutations(range(n)) if n < 5 else cycles(n):
            r = ref.solve(s, order=list(order), **eq.TIGHT)
            if not (r.converged and ref.wellposed(r)):
                raise RuntimeError("structure {} is not well posed".format(i))
        t, km = spec.build(s)
        _cache[i] = (s, {n: spec.form_view(f(t, **eq.TIGHT), km) for n, f in eq.engines().items()})
    return _cache[i]


def evaluate_way(case, ctx):
    """Any structure in one of the ways of WAYS against its standard presentation."""
    s = spec.expand(case)
    ctx.state(case)
    ok = True
    for order in itertools.permutations(range(len(s["trails"]))):
        r = ref.solve(s, order=list(order), **eq.TIGHT)
        ok = ok and r.converged and ref.wellposed(r)
    n, e = len(s["xyz"]), len(s["tedges"]) + len(s["devs"])
    edges = [x[:2] for x in s["tedges"]] + [x[:2] for x in s["devs"]]
    w = case["w"]
    z = dict(s)
    rev = lambda m: list(range(m))[::-1]
    o = {}
    if w in ("k-rev", "all-rev"):
        z["key"] = rev(n)
    if w in ("k-odd", "all-odd"):
        z["key"] = ODD[:n]
    if w in ("k-big", "k-big-f"):
        z["key"] = [100000 - 997 * a for a in range(n)]
    if w in ("n-rev", "all-rev"):
        o["n"] = rev(n)
    if w in ("e-rev", "all-rev", "auto-rev", "mix-rev", "all-odd"):
        o["e"] = rev(e)
    if w in ("s-rev", "all-rev"):
        o["s"], o["l"] = rev(len(s["trails"])), rev(len(s["loads"]))
    if w in ("f-all", "all-rev", "xyz-f", "k-big-f", "auto-rev", "alt-f", "mix-rev"):
        z["flips"] = edges
    if w in ("f-even", "all-odd"):
        z["flips"] = edges[::2]
    if w == "f-odd":
        z["flips"] = edges[1::2]
    if w.split("-")[0] in ("xyz", "auto", "mix", "alt"):
        if len({tuple(round(c, 2) for c in p) for p in s["xyz"].values()}) < n:
            return ctx.outcome("coincident nodes")
        z["ref"] = w.split("-")[0]
    z["ord"] = o or "std"
    ta, ka = spec.build(s)
    tb, kb = spec.build(z)
    inv = {k: a for a, k in kb.items()}
    got = sorted([inv[m] for m in tr] for tr in tb.trails())
    if got != sorted(s["trails"]):
        return "trails {} instead of {}".format(got, sorted(s["trails"]))
    for name in ("py", "np"):
        a, ea = eq.run_engine(name, ta, ka, ctx, **eq.TIGHT)
        b, eb = eq.run_engine(name, tb, kb, ctx, **eq.TIGHT)
        ctx.trace()
        if not ok:
            ctx.outcome("ill conditioned")
            continue
        if a is None or b is None:
            if (a is None) != (b is None):
                return "{}: one presentation is refused ({} / {})".format(name, ea, eb)
            continue
        msg = eq.compare_views(a, b, 1e-6, 1e-6 * eq.scale_of(a), "{}: standard and this presentation".format(name))
        if msg:
            return msg
        ctx.outcome("same")


def ways(plan):
    for c in spec.cases(plan):
        for w in WAYS:
            yield dict(c, w=w)


def evaluate(case, ctx):
    s0, want = reference(case["S"])
    s = dict(s0)
    s["ord"] = {k: case[k] for k in ("n", "e", "s", "l") if case.get(k) is not None}
    if case.get("k") is not None:
        s["key"] = case["k"]
    s["ref"] = case.get("r", "key")
    edges = [e[:2] for e in s["tedges"]] + [d[:2] for d in s["devs"]]
    s["flips"] = [e for i, e in enumerate(edges) if case.get("f", 0) >> i & 1]
    t, km = spec.build(s)
    ctx.trace()
    ctx.state(repr(sorted(obs.topology(t).items(), key=repr)))
    got = sorted(list(tr) for tr in t.trails())
    exp = sorted([km[a] for a in tr] for tr in s["trails"])
    if got != exp or sorted(k for k, _ in t.trails(keys=True)) != sorted(km[tr[0]] for tr in s["trails"]):
        return "trails {} instead of {}".format(got, exp)
    for name in case.get("E", ["py", "np"]):
        v, err = eq.run_engine(name, t, km, ctx, **eq.TIGHT)
        if v is None:
            return "{} refuses this presentation: {}".format(name, err)
        msg = eq.compare_views(want[name], v, 1e-6, 1e-6 * eq.scale_of(v), "{}: standard and this presentation".format(name))
        if msg:
            return msg


def sizes(i):
    s = spec.expand(STRUCTS[i])
    return len(s["xyz"]), len(s["tedges"]) + len(s["devs"]), len(s["trails"]), len(s["loads"])


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


def cycles(n):
    """Rotations and reflections."""
    out = []
    for r in range(n):
        p = [(r + i) % n for i in range(n)]
        out += [p, p[::-1]]
    return [list(x) for x in dict.fromkeys(tuple(p) for p in out)]


def dim(i, what, full):
    n, e, s, ld = sizes(i)
    if what == "n":
        return [("n", p) for p in (perms(n) if full else cycles(n))]
    if what == "e":
        return [("e", p) for p in (perms(e) if full else cycles(e))]
    if what == "s":
        return [("s", p) for p in perms(s)]
    if what == "l":
        return [("l", p) for p in cycles(ld)]
    if what == "k":
        ks = perms(n) if full else cycles(n)
        return [("k", p) for p in ks] + [("k", [ODD[j] for j in p]) for p in cycles(n)]
    if what == "f":
        return [("f", m) for m in range(2 ** e)] if full else [("f", m) for m in sorted({0, 2 ** e - 1} | {1 << j for j in range(e)})]
    if what == "r":
        return [("r", "key"), ("r", "xyz"), ("r", "auto"), ("r", "mix"), ("r", "alt")]


def product(i, dims):
    """dims: string of dimension letters, upper case = exhaustive."""
    for combo in itertools.product(*[dim(i, d.lower(), d.isupper()) for d in dims]):
        c = {"S": i}
        c.update(dict(combo))
        yield c


def many(plan):
    for i, dims in plan:
        yield from product(i, dims)


def spaces(tier):
    eq.engines()
    quick = [(0, "NFs"), (0, "NK"), (0, "Er"), (0, "EF"), (0, "Nkr"), (1, "nF"), (1, "KF"[0] + "f"), (1, "Nsr"), (1, "ef"),
             (2, "F"), (2, "nr"), (2, "Ksr"), (2, "N"), (2, "nekf"[:2]), (3, "nF"[0] + "f"), (3, "Kr"), (3, "e"), (3, "F"),
             (4, "NKF"[0:2]), (4, "NFr"), (4, "EF"), (4, "l"), (5, "nsr"), (5, "F"[0].lower()), (5, "ks"), (5, "er"),
             (6, "n"), (6, "e"), (6, "kr"), (6, "f"), (6, "s"), (7, "nsr"), (7, "er"), (7, "k"), (7, "f"), (7, "ks")]
    big = [(i, d) for i in range(8, len(STRUCTS)) for d in "nkefrl"] + [(11, "ks"), (11, "nf"), (9, "nk"), (10, "r"), (12, "nk")]
    NOORD = ("len", "pla", "dev", "load", "shift", "org", "mag")
    plan = [((1,), "axis", 1, NOORD), ((2,), "plain", 1, NOORD), ((1, 1), "ring", 1, NOORD), ((2, 1), "brac", 1, NOORD), ((3, 2), "brac", 1, NOORD),
            ((2, 2), "ten", 1, NOORD), ((1, 2, 1), "brac", 1, ("pla", "shift", "load")), ((3, 2), "odd", 0, NOORD), ((2, 2, 2), "odd", 0, NOORD),
            ((1,), "far", 1, NOORD), ((2, 1), "far", 1, NOORD), ((3, 2), "far", 0, NOORD)]
    if tier != "quick":
        plan += [((2,), "plain", 2, NOORD), ((2, 1), "brac", 2, ("len", "pla", "load", "shift")), ((1, 1), "ring", 2, NOORD), ((2, 2, 2), "brac", 1, NOORD), ((3, 3), "ten", 1, NOORD)]
    more = [Space("large", lambda: many(big), evaluate, "5 larger structures (up to 18 nodes), rotations and reflections of node orders, edge orders, keys, loads; single flips; reference modes"),
            Space("ways", lambda: ways(plan), evaluate_way, "all structures within one (thorough two) departures x {} complete ways of writing them down".format(len(WAYS)))]
    if tier == "quick":
        return more + [Space("presentations", lambda: many(quick), evaluate,
                      "8 structures; exhaustive products of node orders, edge orders, orientations, keys, support orders and reference modes for the small ones, rotations/reflections for the large ones")]
    deep = quick + [(0, "NEKF"[:2] + "F"), (0, "NKF"), (4, "NEKFr"), (1, "NF"), (1, "E"), (1, "NK"), (2, "NF"[0] + "f"), (2, "nF"), (3, "nkf"), (3, "Nf"), (5, "N"), (5, "F"), (6, "nkf"), (6, "nef"), (7, "nek"[:2] + "f"), (7, "nks")]
    return more + [Space("presentations", lambda: many(deep), evaluate, "as quick plus larger exhaustive products")]
