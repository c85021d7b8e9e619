"""Building inputs for the real code (imports region, so rng.install() comes first)."""
import functools
import json
import zlib

import numpy as np
import scipy.sparse as sp

from . import rng
rng.install()

from region.p_regions.azp import (AZP, AZPBasicTabu, AZPReactiveTabu,  # noqa
                                  AZPSimulatedAnnealing)
from region.p_regions.azp_util import (AllowMoveAZP, AllowMoveAZPMaxPRegions,  # noqa
                                       AllowMoveAZPSimulatedAnnealing, AllowMoveStrategy)
from region.objective_function import (ObjectiveFunctionCenter,  # noqa
                                       ObjectiveFunctionPairwise)
from . import explore as ex, oracle as orc, maps  # noqa


def fast_manhattan(X, Y=None):
    """Same as sklearn's manhattan_distances, without its validation overhead."""
    X = np.asarray(X)
    Y = X if Y is None else np.asarray(Y)
    return np.abs(X[:, None, :] - Y[None, :, :]).sum(-1)


def fast_chebyshev(X, Y=None):
    X = np.asarray(X)
    Y = X if Y is None else np.asarray(Y)
    return np.abs(X[:, None, :] - Y[None, :, :]).max(-1)


PAIRWISE = ObjectiveFunctionPairwise(fast_manhattan)
CENTERS = ObjectiveFunctionCenter(fast_manhattan)


def csr(g, dtype=float):
    n, es = g
    m = np.zeros((n, n), dtype=dtype)
    for a, b in es:
        m[a, b] = m[b, a] = 1
    return sp.csr_matrix(m)


def csr_of_kind(g, kind):
    """The same neighbors: other types of entries, stored zeros, areas that are neighbors of themselves."""
    if kind not in ("zeros", "loops", "more zeros"):
        return csr(g, kind)
    m, n = csr(g).toarray(), g[0]
    if kind == "loops":
        return sp.csr_matrix(m + np.diag([1, 0, 2] * n)[:n, :n])
    # (a 0 between all areas, or between some)
    out = sp.csr_matrix(m + np.array([[1 if kind == "zeros" or (i + j) % 3 == 0 else 0 for j in range(n)] for i in range(n)]))
    for i in range(n):
        for k in range(out.indptr[i], out.indptr[i + 1]):
            out.data[k] = m[i, out.indices[k]]
    return out


def any_csr(g, *key):
    """The neighbors in some form, depending on the key: mostly as usual."""
    k = zlib.crc32(json.dumps(key, sort_keys=True, default=str).encode()) % 8
    return csr_of_kind(g, ("zeros", "more zeros", "int8")[k] if k < 3 else float)


def rows(col):
    """A column of numbers as rows."""
    return tuple((v,) for v in col)


def arr(attr_rows, dtype=float):
    return np.array(attr_rows, dtype=dtype)


def as_labels(labels):
    if labels is None:
        return None
    return tuple(l.item() if hasattr(l, "item") else l for l in labels)


def make(alg, seed=0):
    kind = alg[0]
    if kind == "azp":
        return AZP(random_state=seed)
    if kind == "bt":
        return AZPBasicTabu(tabu_length=alg[1], repetitions_before_termination=alg[2],
                            random_state=seed)
    if kind == "rt":
        return AZPReactiveTabu(max_iterations=alg[1], k1=alg[2], k2=alg[3], random_state=seed)
    if kind == "sa":
        return AZPSimulatedAnnealing(init_temperature=alg[1], max_iterations=alg[2],
                                     sa_moves_term=alg[3], nonmoving_steps_before_stop=alg[4],
                                     repetitions_before_termination=alg[5], random_state=seed)
    raise KeyError(kind)


def starts(g, p, relabels=False):
    """Every feasible starting labelling (up to renaming of regions)."""
    return orc.feasible_partitions(g[0], g[1], p)


def int_labels(labels, dtype=int):
    return np.array(labels, dtype=dtype)
