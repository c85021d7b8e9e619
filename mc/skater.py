"""Bounded inputs and oracles for SKATER (C23, C24)."""
import itertools
import math
import warnings

import numpy as np

from . import maps, oracle as orc
from .common import fast_manhattan
from region.skater.skater import Spanning_Forest
from libpysal import weights

NAMES = {0: lambda n: tuple(range(n)),
         1: lambda n: (("b", "a10", "zz", "a9", "B", "c", "q", "x1", "x0") + tuple("n%d" % (40 - i) for i in range(30)))[:n],
         2: lambda n: ((10, 2, 33, -7, 21, 4, 8, 1, 0) + tuple(range(80, 50, -1)))[:n]}


def w_of(g, form=0):
    """A W object; forms: names, weights, row-standardised, order of neighbors."""
    n = g[0]
    nm = NAMES[form % 3](n)
    nb = [orc.bits(m) for m in orc.nbr_masks(*g)]
    if form % 2:
        nb = [x[::-1] for x in nb]
    kw = {}
    if form % 4 == 2:
        kw["weights"] = {nm[a]: [0.5 + 0.25 * (min(a, b) + 2 * max(a, b)) for b in nb[a]] for a in range(n)}
    elif form % 4 == 1:
        kw["weights"] = {nm[a]: [1] * len(nb[a]) for a in range(n)}     # the matrix consists of ints
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = weights.W({nm[a]: [nm[b] for b in nb[a]] for a in range(n)}, id_order=list(nm), silence_warnings=True, **kw)
        if form % 4 == 3:
            w.transform = "r"
    return w


REDUCTIONS = {"sum": np.sum, "mean": np.mean, "max": np.max}
CENTERS = {"mean": np.mean, "median": np.median, "min": np.min}


def affinity(X, Y=None):
    """Between 0 and 1; 1 for equal rows."""
    return 1.0 / (1.0 + fast_manhattan(X, Y))


def distance(x, y, metric):
    if metric in ("manhattan", "default"):
        return sum(abs(a - b) for a, b in zip(x, y))
    if metric == "euclidean":
        return math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y)))
    return math.log(1.0 + sum(abs(a - b) for a, b in zip(x, y)))


def fast_euclidean(X, Y=None):
    X = np.asarray(X, dtype=float)
    Y = X if Y is None else np.asarray(Y, dtype=float)
    return np.sqrt(((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1))


def new(metric="manhattan", reduction="sum", center="mean"):
    if metric == "default":
        if reduction == "sum" and center == "mean":
            return Spanning_Forest()
        metric = "manhattan"
    kw = dict(reduction=REDUCTIONS[reduction], center=CENTERS[center])
    if metric == "affinity":
        return Spanning_Forest(affinity=affinity, **kw)
    return Spanning_Forest(dissimilarity=fast_manhattan if metric == "manhattan" else fast_euclidean, **kw)


SMALL = ("int64", "uint8", "int8", "float32", "int32")


def typed(data, metric, k):
    """The table as an array: floats, or ints of some type if its values are ints."""
    if k % 5 or not all(isinstance(v, int) for r in data for v in r):
        return np.array(data, dtype=float)
    # fast_manhattan subtracts as the arrays do
    return np.array(data, dtype=int if metric != "default" else SMALL[k // 5 % 5])


def reduce_(values, how):
    values = list(values)
    return sum(values) if how == "sum" else max(values) if how == "max" else sum(values) / len(values)


def center_of(data, how):
    out = []
    for col in zip(*data):
        col = sorted(col)
        k = len(col)
        out.append(sum(col) / k if how == "mean" else col[0] if how == "min" else
                   (col[k // 2] + col[(k - 1) // 2]) / 2)
    return tuple(out)


def score_of(data, labels, quorum, metric, reduction, center):
    parts = []
    for l in sorted(set(labels), key=str):
        rows = [data[i] for i in range(len(labels)) if labels[i] == l]
        if len(rows) < quorum:
            return math.inf
        c = center_of(rows, center)
        parts.append(reduce_((distance(r, c, metric) for r in rows), reduction))
    return reduce_(parts, reduction)


def labels_of(n, edges):
    """Components of a forest as canonical labels."""
    out = [None] * n
    for i, mask in enumerate(orc.connected_components(n, tuple(edges))):
        for a in orc.bits(mask):
            out[a] = i
    return orc.canon(tuple(out))


def sizes_ok(labels, quorum):
    return all(labels.count(l) >= quorum for l in set(labels))


def forest_edges(msf):
    return sorted({(min(int(a), int(b)), max(int(a), int(b))) for a, b in zip(*msf.nonzero())})


def spanning_weight(g, data, metric):
    """(number of edges, weight) of a minimum spanning forest."""
    parent = list(range(g[0]))

    def root(a):
        while parent[a] != a:
            a = parent[a]
        return a
    k, total = 0, 0.0
    for d, a, b in sorted((distance(data[a], data[b], metric), a, b) for a, b in g[1]):
        if root(a) != root(b):
            parent[root(a)] = root(b)
            k, total = k + 1, total + d
    return k, total


DATA = {
    1: (((2,),),),
    2: (((0,), (3,)), ((1,), (1,))),
    3: (((0,), (3,), (1,)), ((1,), (1,), (1,)), ((0, 1), (5, 2), (1, 4)), ((0,), (2,), (0,))),
    4: (((0,), (3,), (1,), (7,)), ((1,),) * 4, ((8, 6), (1, 9), (3, 7), (5, 6)), ((0,), (2,), (0,), (2,)), ((0,), (0,), (0,), (5,))),
    5: (((0,), (3,), (1,), (7,), (2,)), ((1,),) * 5, ((8, 6), (1, 9), (3, 7), (5, 6), (2, 2)), ((0,), (2,), (0,), (2,), (0,))),
    6: (((0,), (3,), (1,), (7,), (2,), (2,)), ((1,),) * 6, ((0,), (2,), (0,), (2,), (0,), (2,)),
        ((8, 6), (1, 9), (3, 7), (5, 6), (2, 2), (0, 4))),
}


def all_columns(n, values=(0, 1, 3)):
    return [tuple((v,) for v in c) for c in itertools.product(values, repeat=n)]
