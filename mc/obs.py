"""Everything a user can read from a diagram through its public queries, as plain data."""


def _f(x):
    return [float(c) for c in x]


def plane_data(p):
    if p is None:
        return None
    a, b = p
    return [_f(a), _f(b)]


def _maybe(f):
    try:
        return f()
    except (ValueError, KeyError) as e:  # e.g. trails that refer to a deleted node
        return type(e).__name__


def diagram(d, order=True):
    """Queries shared by topology and form diagrams."""
    nodes = list(d.nodes())
    o = {"class": type(d).__name__, "nodes": nodes if order else sorted(nodes)}
    o["xyz"] = {n: _f(d.node_coordinates(n)) for n in nodes}
    o["node_xyz"] = {n: _f(d.node_xyz(n)) for n in nodes}
    o["load"] = {n: _f(d.node_load(n)) for n in nodes}
    o["reac"] = {n: _f(d.reaction_force(n)) for n in nodes}
    o["isup"] = {n: d.is_node_support(n) for n in nodes}
    o["type"] = {n: d.node_attribute(n, "type") for n in nodes}
    o["sup"] = sorted(d.support_nodes())
    o["loaded"] = sorted(d.loaded_nodes())
    edges = list(d.edges())
    o["edges"] = edges if order else sorted(edges)
    o["etype"] = {e: d.edge_attribute(e, "type") for e in edges}
    o["force"] = {e: float(d.edge_force(e)) for e in edges}
    o["length"] = {e: float(d.edge_length_2(e)) for e in edges}
    o["plane"] = {e: plane_data(d.edge_plane(e)) for e in edges}
    o["esup"] = {e: d.is_edge_supported(e) for e in edges}
    o["nbr"] = {n: sorted(d.neighbors(n)) for n in nodes}
    o["lookup"] = {n: d.node_key(_f(d.node_coordinates(n))) for n in nodes}
    o["n"] = [d.number_of_nodes(), d.number_of_edges(), d.number_of_support_nodes(), d.number_of_loaded_nodes()]
    o["tol"] = d.tol
    return o


def topology(d, order=True):
    o = diagram(d, order)
    nodes, edges = list(d.nodes()), list(d.edges())
    tr = [(k, list(t)) for k, t in d.trails(keys=True)]
    o["trails"] = tr if order else sorted(tr)
    o["trails_nokey"] = sorted(list(t) for t in d.trails())
    o["trail"] = {k: list(d.trail(k)) for k, _ in tr}
    au = [(k, list(t)) for k, t in d.auxiliary_trails(keys=True)]
    o["aux"] = au if order else sorted(au)
    o["auxedges"] = sorted(d.auxiliary_trail_edges())
    o["origins"] = sorted(d.origin_nodes())
    o["isorigin"] = {n: d.is_node_origin(n) for n in nodes}
    o["has"] = d.has_trails()
    o["k"] = {n: _maybe(lambda: d.node_sequence(n)) for n in nodes}
    o["kraw"] = {n: d.node_attribute(n, "_k") for n in nodes}
    o["tedges"] = sorted(d.trail_edges())
    o["dedges"] = sorted(d.deviation_edges())
    o["auxlen"] = float(d.auxiliary_trail_length)
    o["auxvec"] = _f(d.auxiliary_trail_vector)
    o["nt"] = [d.number_of_trails(), d.number_of_auxiliary_trails(), d.number_of_trail_edges(), d.number_of_deviation_edges()]
    if d.has_trails() and all(k is not None for k in o["kraw"].values()):
        o["direct"] = sorted(d.direct_deviation_edges())
        o["indirect"] = sorted(d.indirect_deviation_edges())
        o["seq"] = [(k, sorted(s)) for k, s in d.sequences(keys=True)]
        o["ns"] = [d.number_of_sequences(), d.sequence_last()]
        o["ts"] = _maybe(lambda: {k: dict(v) for k, v in d.trails_sequences().items()})
    return o


def observe(d, order=True):
    return topology(d, order) if hasattr(d, "trails") else diagram(d, order)


def diff(a, b):
    """First difference between two observations, or None."""
    for k in a:
        if k not in b:
            return "{} is missing".format(k)
        if a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                for x in list(a[k]) + list(b[k]):
                    if a[k].get(x, "absent") != b[k].get(x, "absent"):
                        return "{}[{}]: {} vs {}".format(k, x, a[k].get(x, "absent"), b[k].get(x, "absent"))
            return "{}: {} vs {}".format(k, a[k], b[k])
    for k in b:
        if k not in a:
            return "{} is new".format(k)
