"""Deep snapshots of caller-supplied objects, comparable with ==."""
import copy

import networkx as nx
import numpy as np
import scipy.sparse as sp
from libpysal import weights
import pandas as pd


def snap(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tolist())
    if sp.issparse(x):
        return ("sparse", x.format, x.shape, str(x.dtype), x.toarray().tolist())
    if isinstance(x, nx.Graph):
        return ("graph", type(x).__name__, [(snap(k), snap(dict(d))) for k, d in x.nodes(data=True)],
                sorted((repr(tuple(sorted((u, v), key=repr))), snap(dict(d))) for u, v, d in x.edges(data=True)),
                snap(dict(x.graph)))
    if isinstance(x, weights.W):
        return ("W", sorted((repr(k), [repr(b) for b in v]) for k, v in x.neighbors.items()),
                sorted((repr(k), list(map(float, v))) for k, v in x.weights.items()),
                [repr(k) for k in x.id_order], str(x.transform), x.sparse.toarray().tolist())
    if isinstance(x, pd.DataFrame):
        cols = []
        for c in x.columns:
            v = x[c]
            if hasattr(v, "to_wkb"):
                cols.append((repr(c), "geometry", list(v.to_wkb())))
            else:
                cols.append((repr(c), str(v.dtype), v.tolist()))
        geo = getattr(x, "_geometry_column_name", None)
        return ("frame", cols, list(map(repr, x.index)), x.index.name, geo, str(getattr(x, "crs", None)), snap(x.attrs))
    if isinstance(x, dict):
        return ("dict", type(x).__name__, sorted((repr(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.item())
    return (type(x).__name__, repr(x))


def snap_before(x):
    """Like snap, but looks at a copy, so that taking it does not fill caches of x."""
    return snap(copy.deepcopy(x)) if isinstance(x, weights.W) else snap(x)


class Watch:
    """Named objects that must not change."""

    def __init__(self, **objs):
        self.objs = {k: v for k, v in objs.items() if v is not None}
        self.before = {k: snap_before(v) for k, v in self.objs.items()}

    def changed(self):
        for k, v in self.objs.items():
            now = snap(v)
            if now != self.before[k]:
                return "{} changed: {} -> {}".format(k, str(self.before[k])[:300], str(now)[:300])
        return None
