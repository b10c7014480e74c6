"""Reference model of trail building on plain graphs."""


def trails_of(nodes, tedges, supports):
    """The unique trail partition {origin: path} or None if the diagram must be rejected."""
    adj = {n: [] for n in nodes}
    for u, v in tedges:
        adj[u].append(v)
        adj[v].append(u)
    if not supports or not tedges:
        return None
    seen, trails = set(), {}
    for n in nodes:
        if len(adj[n]) > 2 or not adj[n]:
            return None
    for s in supports:
        if len(adj[s]) != 1:
            return None
        path, prev = [s], None
        while True:
            nxt = [m for m in adj[path[-1]] if m != prev]
            if not nxt:
                break
            prev = path[-1]
            path.append(nxt[0])
            if len(path) > len(nodes):
                return None
        if path[-1] in supports or any(m in supports for m in path[1:]):
            return None
        if seen & set(path):
            return None
        seen |= set(path)
        trails[path[-1]] = path[::-1]
    return trails if seen == set(nodes) else None
