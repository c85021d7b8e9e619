"""Bounded spaces of maps and attributes."""
import functools
import itertools

from . import oracle


@functools.lru_cache(maxsize=None)
def graphs(n):
    """All graphs on n nodes up to isomorphism (n <= 6), as (n, edges), a canonical representative."""
    pairs = list(itertools.combinations(range(n), 2))
    if n <= 5:
        seen = set()
        out = []
        perms = list(itertools.permutations(range(n)))
        for mask in range(1 << len(pairs)):
            es = tuple(pairs[i] for i in range(len(pairs)) if mask >> i & 1)
            if es in seen:
                continue
            for p in perms:
                seen.add(tuple(sorted(tuple(sorted((p[a], p[b]))) for a, b in es)))
            out.append((n, es))
        out.sort(key=lambda g: (len(g[1]), g[1]))
        return tuple(out)
    # n == 6: use degree-refined certificates through networkx
    import networkx as nx
    buckets = {}
    out = []
    # extend all graphs on n-1 nodes by a node: every graph on n nodes arises
    for m, es in graphs(n - 1):
        for k in range(n):
            for nb in itertools.combinations(range(n - 1), k):
                e2 = tuple(sorted(es + tuple((x, n - 1) for x in nb)))
                g = nx.Graph()
                g.add_nodes_from(range(n))
                g.add_edges_from(e2)
                h = (len(e2), tuple(sorted(d for _, d in g.degree())),
                     tuple(sorted(nx.triangles(g).values())))
                if any(nx.is_isomorphic(g, o) for o in buckets.setdefault(h, [])):
                    continue
                buckets[h].append(g)
                out.append((n, e2))
    out.sort(key=lambda g: (len(g[1]), g[1]))
    return tuple(out)


def connected_graphs(n):
    return tuple(g for g in graphs(n) if len(oracle.connected_components(*g)) == 1)


def all_labelled(n):
    pairs = list(itertools.combinations(range(n), 2))
    return tuple((n, tuple(pairs[i] for i in range(len(pairs)) if mask >> i & 1))
                 for mask in range(1 << len(pairs)))


def relabel(g, perm):
    n, es = g
    return (n, tuple(sorted(tuple(sorted((perm[a], perm[b]))) for a, b in es)))


def shuffles(g):
    """The map itself and two fixed re-orderings of its areas (so that no island occupies a block of
    indices and index order differs from walking order)."""
    n = g[0]
    perms = [tuple(range(n))]
    if n > 2:
        perms.append(tuple((i * 2) % n if n % 2 else (i * 2 + (i * 2 >= n)) % n for i in range(n)))
        perms.append(tuple(reversed(range(n))))
    out = []
    for p in perms:
        if sorted(p) == list(range(n)):
            h = relabel(g, p)
            if h not in out:
                out.append(h)
    return out


def path(n):
    return (n, tuple((i, i + 1) for i in range(n - 1)))


def cycle(n):
    return (n, tuple((i, i + 1) for i in range(n - 1)) + ((0, n - 1),))


def star(n):
    return (n, tuple((0, i) for i in range(1, n)))


def complete(n):
    return (n, tuple(itertools.combinations(range(n), 2)))


def grid(r, c):
    es = []
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                es.append((i * c + j, i * c + j + 1))
            if i + 1 < r:
                es.append((i * c + j, (i + 1) * c + j))
    return (r * c, tuple(sorted(es)))


def union(*gs):
    off = 0
    es = []
    for n, e in gs:
        es += [(a + off, b + off) for a, b in e]
        off += n
    return (off, tuple(es))


def interleaved(g, h):
    """Disjoint union of two maps whose indices alternate as long as possible."""
    u = union(g, h)
    order = []
    a, b = list(range(g[0])), list(range(g[0], g[0] + h[0]))
    while a or b:
        if b:
            order.append(b.pop(0))
        if a:
            order.append(a.pop(0))
    perm = [0] * len(order)
    for new, old in enumerate(order):
        perm[old] = new
    return relabel(u, perm)


def columns(n, alphabet):
    return itertools.product(alphabet, repeat=n)


@functools.lru_cache(maxsize=None)
def trees(n):
    """All trees on n nodes up to isomorphism, areas numbered in an unsystematic order."""
    import networkx as nx
    perm = [(3 * i + 1) % n if n % 3 else (i * (n - 1) + 2) % n for i in range(n)]
    if len(set(perm)) != n:
        perm = list(range(n))
    out = []
    for t in nx.nonisomorphic_trees(n):
        out.append(relabel((n, tuple(t.edges())), perm))
    return tuple(out)
