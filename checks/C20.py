"""C20: importing a quad mesh maps every mesh edge to the right element."""
import itertools

from mc.core import Space
from mc.vec import dist

ASSUMPTIONS = ["compas_singular is not installed: a COMPAS mesh with the polyedge interface of its quad meshes stands in",
               "unspecified, hence not judged: polyedges with supports strictly inside that are not all supports, and polyedges of "
               "three nodes supported at both ends, which cannot be split into two trails"]


def make_mesh(m):
    """m: {"g": [rows, cols], "wrap": bool, "rev": bool, "key": str}."""
    from compas.datastructures import Mesh
    R, C = m["g"]

    def key(i, j):
        n = i * C + j
        return {"id": n, "gap": 5 * n + 2, "rev": R * C - 1 - n}[m["key"]]

    polys = []
    for i in range(R):
        row = [key(i, j) for j in range(C)]
        polys.append(row + row[:1] if m["wrap"] else row)
    for j in range(C):
        polys.append([key(i, j) for i in range(R)])
    if m["rev"]:
        polys = [p[::-1] for p in polys[::-1]]

    class QuadLike(Mesh):
        def collect_polyedges(self):
            self._poly = {k: list(p) for k, p in enumerate(polys)}

        def polyedges(self, data=False):
            for k in self._poly:
                yield (k, list(self._poly[k])) if data else k

    mesh = QuadLike()
    pos = {}
    for i in range(R):
        for j in range(C):
            p = [1.5 * j + 0.25 * i, 2.0 * i - 0.125 * j * j, 0.25 * i * j]
            mesh.add_vertex(key=key(i, j), x=p[0], y=p[1], z=p[2])
            pos[key(i, j)] = p
    for i in range(R - 1):
        for j in range(C if m["wrap"] else C - 1):
            k = (j + 1) % C
            mesh.add_face([key(i, j), key(i, k), key(i + 1, k), key(i + 1, j)])
    return mesh, pos, polys


def model(polys, sup):
    """[(set of alternative mappings of the polyedge's edges)], None where unspecified."""
    out = []
    for p in polys:
        es = [tuple(sorted(e)) for e in zip(p, p[1:])]
        a, b, inner = p[0] in sup, p[-1] in sup, [n in sup for n in p[1:-1]]
        if p[0] == p[-1]:
            out.append((es, [["D"] * len(es)]))
        elif not a and not b:
            out.append((es, [["D"] * len(es)]))
        elif all(n in sup for n in p):
            out.append((es, [["-"] * len(es)]))
        elif any(inner):
            out.append((es, None))
        elif a and b:
            if len(p) < 4:
                out.append((es, None))
            elif len(p) % 2 == 0:
                c = len(p) // 2 - 1
                out.append((es, [["D" if i == c else "T" for i in range(len(es))]]))
            else:
                out.append((es, [["D" if i == c else "T" for i in range(len(es))] for c in (len(p) // 2 - 1, len(p) // 2)]))
        else:
            out.append((es, [["T"] * len(es)]))
    return out


def evaluate(case, ctx):
    from compas_cem.diagrams import TopologyDiagram
    mesh, pos, polys = make_mesh(case["m"])
    keys = list(pos)
    sup = [keys[i] for i in case["s"]]
    ctx.state(case)
    kw = {}
    tl, ts, df, ds = case["o"]
    if tl is not None:
        kw["trail_length"] = tl
    if ts is not None:
        kw["trail_state"] = ts
    if df is not None:
        kw["deviation_force"] = df
    if ds is not None:
        kw["deviation_state"] = ds
    arg = {"list": sup, "tuple": tuple(sup), "set": set(sup), "dup": sup + sup[:1]}[case["c"]]
    ctx.step()
    ctx.trace()
    t = TopologyDiagram.from_dualquadmesh(mesh, arg, **kw)
    if sorted(t.nodes()) != sorted(keys):
        return "nodes {} for vertices {}".format(sorted(t.nodes()), sorted(keys))
    for n in keys:
        if [float(c) for c in t.node_coordinates(n)] != pos[n]:
            return "node {} is at {} but its vertex at {}".format(n, t.node_coordinates(n), pos[n])
        if t.node_key(pos[n]) != n:
            return "position of vertex {} is not looked up to it".format(n)
    if sorted(t.support_nodes()) != sorted(sup):
        return "supports {} instead of {}".format(sorted(t.support_nodes()), sorted(sup))
    te = {tuple(sorted(e)): e for e in t.trail_edges()}
    de = {tuple(sorted(e)): e for e in t.deviation_edges()}
    if set(te) & set(de) or len(te) + len(de) != t.number_of_edges():
        return "edges are not divided into trail and deviation edges"
    got = {e: "T" for e in te}
    got.update({e: "D" for e in de})
    allowed = set()
    for es, alts in model(polys, set(sup)):
        allowed |= set(es)
        if alts is None:
            ctx.outcome("unspecified polyedge")
            continue
        have = [got.get(e, "-") for e in es]
        if have not in alts:
            return "polyedge {} with supports {}: edges became {} instead of {}".format(es, sup, have, alts[0])
        ctx.outcome("polyedge")
    if set(got) - allowed:
        return "edges {} are not mesh edges".format(sorted(set(got) - allowed))
    fs = (1.0 if df is None else df) * (-1 if ds is None else ds)
    for e in de.values():
        if abs(t.edge_force(e) - fs) > 1e-12:
            return "deviation edge {} has force {} instead of {}".format(e, t.edge_force(e), fs)
    for e in te.values():
        ln = (dist(pos[e[0]], pos[e[1]]) if tl is None else tl) * (-1 if ts is None else ts)
        if abs(t.edge_length_2(e) - ln) > 1e-12:
            return "trail edge {} has length {} instead of {}".format(e, t.edge_length_2(e), ln)
        if t.edge_plane(e) is not None:
            return "trail edge {} has a plane".format(e)


OPTS = [[tl, ts, df, ds] for tl in (None, 2.5, 0.03125) for ts in (None, -1, 1) for df in (None, 0.5, -0.75) for ds in (None, -1, 1)]
DEF = [[None, None, None, None]]


def subsets(n, only=None):
    idx = list(range(n)) if only is None else only
    for r in range(len(idx) + 1):
        for c in itertools.combinations(idx, r):
            yield list(c)


def boundary(R, C, wrap):
    return [i * C + j for i in range(R) for j in range(C) if i in (0, R - 1) or (not wrap and j in (0, C - 1))]


def ends(R, C):
    return list(range(C)) + list(range((R - 1) * C, R * C))


def full_cases(grids, opts, meshes, conts):
    for g, wrap, sel in grids:
        n = g[0] * g[1]
        only = None if sel == "all" else ends(*g) if sel == "ends" else boundary(g[0], g[1], wrap)
        for m in meshes:
            mm = dict(m, g=list(g), wrap=wrap)
            for s in subsets(n, only):
                for c in conts:
                    if c == "dup" and not s:
                        continue
                    for o in opts:
                        yield {"m": mm, "s": s, "c": c, "o": o}


def spaces(tier):
    M = [{"rev": r, "key": k} for r in (False, True) for k in ("id", "gap", "rev")]
    th = tier == "thorough"
    sp = [Space("settings", lambda: full_cases([((2, 2), False, "all"), ((4, 2), False, "all" if th else "bnd")] + ([((5, 2), False, "all")] if th else []),
                                               OPTS, M[:1] if not th else M[:3], ["list"]), evaluate,
                "2x2 and 4x2 grids, all support subsets, all combinations of length/force/state settings"),
          Space("presentations", lambda: full_cases([((2, 2), False, "all"), ((3, 2), False, "all"), ((4, 2), False, "all"), ((2, 3), True, "all")], DEF, M,
                                                    ["list", "tuple", "set", "dup"]), evaluate,
                "small grids, all support subsets, vertex keys, polyedge orders and orientations, kinds of support collection"),
          Space("grids", lambda: full_cases([((2, 5), False, "all"), ((3, 3), False, "all"), ((5, 2), False, "all"), ((6, 2), False, "bnd" if not th else "all"),
                                             ((4, 4), False, "bnd"), ((4, 3), False, "all"), ((2, 4), True, "all"), ((3, 3), True, "all")]
                                            + ([((3, 4), True, "all"), ((7, 2), False, "all"), ((5, 3), False, "bnd")] if th else []),
                                            DEF, M[:1], ["list"]), evaluate,
                "grids and rings up to 6x2 / 4x4 (thorough: 7x2, 5x3), all support subsets (of the boundary where noted)")]
    sp.append(Space("long", lambda: full_cases([((n, c), w, "ends") for n in range(7, 15 if not th else 31) for c in (2, 3) for w in (False, True) if c > 2 or not w], DEF, M, ["list"]), evaluate,
                    "strips and tubes of 7 to 14 (thorough 30) rows, all subsets of the two end rows as supports, vertex keys, polyedge orders and orientations"))
    return sp
