"""Boring pure-Python reference model of regionalisation.  Shares no code with region.

A map is (n, edges): areas 0..n-1 and a tuple of pairs.  Labels are sequences of hashables.
"""
import functools
import itertools


@functools.lru_cache(maxsize=None)
def nbr_masks(n, edges):
    m = [0] * n
    for a, b in edges:
        m[a] |= 1 << b
        m[b] |= 1 << a
    return tuple(m)


def mask_connected(mask, nm):
    """Is the (possibly empty) set `mask` connected?  The empty set is not."""
    if mask == 0:
        return False
    seen = mask & -mask
    while True:
        new = seen
        m = seen
        while m:
            b = m & -m
            m ^= b
            new |= nm[b.bit_length() - 1]
        new &= mask
        if new == seen:
            return seen == mask
        seen = new


def region_masks(labels):
    out = {}
    for i, l in enumerate(labels):
        out[l] = out.get(l, 0) | 1 << i
    return out


def connected_components(n, edges):
    nm = nbr_masks(n, edges)
    left = (1 << n) - 1
    out = []
    while left:
        seen = left & -left
        while True:
            new = seen
            m = seen
            while m:
                b = m & -m
                m ^= b
                new |= nm[b.bit_length() - 1]
            if new == seen:
                break
            seen = new
        out.append(seen)
        left &= ~seen
    return out


def bits(mask):
    out = []
    while mask:
        b = mask & -mask
        mask ^= b
        out.append(b.bit_length() - 1)
    return out


def contiguous(labels, n, edges):
    nm = nbr_masks(n, edges)
    return all(mask_connected(m, nm) for m in region_masks(labels).values())


def partition_problem(labels, n, edges, p=None):
    """None if labels is a contiguous partition into p regions, otherwise what is wrong."""
    if labels is None:
        return "no labels"
    try:
        labels = [l.item() if hasattr(l, "item") else l for l in labels]
    except TypeError:
        return "labels are not a sequence: {!r}".format(labels)
    if len(labels) != n:
        return "{} labels for {} areas".format(len(labels), n)
    if any(l is None or l != l for l in labels):
        return "undefined label in {}".format(labels)
    if p is not None and len(set(labels)) != p:
        return "{} regions instead of {}: {}".format(len(set(labels)), p, labels)
    if not contiguous(labels, n, edges):
        return "a region is not contiguous: {}".format(labels)
    return None


def canon(labels):
    """Labels renamed in order of first occurrence: two labellings agree iff they give the same
    partition."""
    m = {}
    return tuple(m.setdefault(l, len(m)) for l in (x.item() if hasattr(x, "item") else x
                                                   for x in labels))


@functools.lru_cache(maxsize=None)
def _growth_strings(n):
    def rec(prefix, mx):
        if len(prefix) == n:
            yield prefix
            return
        for v in range(mx + 2):
            yield from rec(prefix + (v,), max(mx, v))
    return tuple(rec((0,), 0)) if n else ((),)


@functools.lru_cache(maxsize=None)
def feasible_partitions(n, edges, p=None):
    """All contiguous partitions (canonical labels), into p regions if given."""
    return tuple(l for l in _growth_strings(n)
                 if (p is None or max(l) + 1 == p) and contiguous(l, n, edges))


def pair_cost(labels, dist):
    """Pairwise objective; dist[i][j]."""
    n = len(labels)
    return sum(dist[i][j] for i in range(n) for j in range(i + 1, n) if labels[i] == labels[j])


def manhattan_table(attr):
    n = len(attr)
    return [[sum(abs(x - y) for x, y in zip(attr[i], attr[j])) for j in range(n)] for i in range(n)]


def euclidean_table(attr):
    n = len(attr)
    return [[sum((x - y) ** 2 for x, y in zip(attr[i], attr[j])) ** 0.5 for j in range(n)]
            for i in range(n)]


def chebyshev_table(attr):
    n = len(attr)
    return [[max(abs(x - y) for x, y in zip(attr[i], attr[j])) for j in range(n)]
            for i in range(n)]


def admissible_moves(labels, n, edges):
    """All (area, recipient) with: recipient is the region of a neighbour, donor stays non-empty and
    connected."""
    nm = nbr_masks(n, edges)
    rm = region_masks(labels)
    out = []
    for a in range(n):
        donor = rm[labels[a]] & ~(1 << a)
        if not mask_connected(donor, nm):
            continue
        seen = set()
        for b in bits(nm[a]):
            r = labels[b]
            if r != labels[a] and r not in seen:
                seen.add(r)
                out.append((a, r))
    return out


def moved(labels, a, r):
    l = list(labels)
    l[a] = r
    return tuple(l)


def sums_reach(labels, sp, thr):
    """Does every region reach the threshold in every spatially extensive attribute?
    sp: rows of numbers; thr: sequence of the same width."""
    for mask in region_masks(labels).values():
        idx = bits(mask)
        for k in range(len(thr)):
            if sum(sp[i][k] for i in idx) < thr[k]:
                return False
    return True


def max_p_optimum(n, edges, sp, thr, dist):
    """(max number of regions, min cost) or None."""
    best = None
    for l in feasible_partitions(n, edges):
        if sums_reach(l, sp, thr):
            key = (-(max(l) + 1), pair_cost(l, dist))
            if best is None or key < best:
                best = key
    return None if best is None else (-best[0], best[1])


def min_cost(n, edges, p, dist):
    costs = [pair_cost(l, dist) for l in feasible_partitions(n, edges, p)]
    return min(costs) if costs else None


def distributions(sizes, p):
    """All ways to give each component at least one and at most its size regions, p in total."""
    return [c for c in itertools.product(*[range(1, s + 1) for s in sizes]) if sum(c) == p]
