"""C01: p-regions heuristics return complete, contiguous partitions into p regions."""
import numpy as np

from .. import maps, oracle as orc
from ..common import (AZP, ObjectiveFunctionCenter, ObjectiveFunctionPairwise, PAIRWISE, arr,
                      as_labels, csr, fast_manhattan, int_labels, make, rows, starts)
from ..job import describe
from ..spaces import COLS, big_jobs, comps, each_fit, search_jobs, ISL5, ISL6, HOUSE

LEVEL = "model_checking"
RULE = ("Every (algorithm, map, attributes, number of regions, starting labelling) of the bounded space, "
        "executed under every sequence of random outcomes within the job's deviation bound (none = the "
        "whole tree); each execution's labels are compared with the partition oracle.")
ASSUMPTIONS = ["random outcomes beyond the deviation bound of a job and maps beyond the listed sizes are "
               "not explored", "uniform draws are represented by 0.0 and 0.999999"]


def jobs(tier):
    out = search_jobs(tier, cols_limit=3)
    for i in range(len(VARIANTS)):
        for alg in (("azp",), ("bt", 2, 1), ("rt", 4, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
            out.append(dict(variant=i, alg=alg))
    out += big_jobs(tier, [("azp",), ("bt", 4, 2), ("rt", 12, 1, 1), ("sa", 2.0, 2, 3, 2, 2)])
    return out


def judge_for(ctx):
    def judge(r):
        if r["err"] is not None:
            ctx.fail("fit failed: " + describe(r["err"]), **show(r))
            return
        problem = orc.partition_problem(r["labels"], r["g"][0], r["g"][1], r["p"])
        if problem:
            ctx.fail(problem, **show(r))
    return judge


def show(r):
    return dict(alg=r["alg"], map=r["g"], attr=r["attr"], p=r["p"], start=r["start"],
                labels=r["labels"])


# input shapes a user may pass: (map, attr builder, adjacency builder, label renaming, objective)
def _weighted(g):
    m = csr(g)
    m.data = np.array([0.5 + 0.25 * i for i in range(len(m.data))])
    # same pattern, symmetric values
    d = m.toarray()
    d = np.maximum(d, d.T)
    import scipy.sparse as sp
    return sp.csr_matrix(d)


def _rowstd(g):
    import scipy.sparse as sp
    d = csr(g).toarray()
    s = d.sum(1, keepdims=True)
    s[s == 0] = 1
    return sp.csr_matrix(d / s)


CENTER = ObjectiveFunctionCenter(fast_manhattan)
CENTER_MAX = ObjectiveFunctionCenter(fast_manhattan, center=np.median, reduction=np.max)
SK = ObjectiveFunctionPairwise("euclidean")
VARIANTS = [
    (HOUSE, lambda: np.array([0, 3, 1, 0, 2]), csr, None, PAIRWISE),               # 1-D integers
    (HOUSE, lambda: np.array([0.5, 3, 1, 0, 2]), csr, (7, 3, 9, 0, 5), PAIRWISE),   # 1-D, odd labels
    (HOUSE, lambda: np.array([[0, 1], [3, 0], [1, 1], [0, 0], [2, 2]]), lambda g: csr(g, int), None, PAIRWISE),
    (ISL5, lambda: np.array([[0, 1], [3, 0], [1, 1], [0, 0], [2, 2.]]), lambda g: csr(g, bool), (4, 2, 0, 8, 6), PAIRWISE),
    (ISL5, lambda: np.array([[0.], [3], [1], [0], [2]]), _weighted, None, CENTER),
    (ISL6, lambda: np.array([[0.], [3], [1], [0], [2], [5]]), _rowstd, None, PAIRWISE),
    (HOUSE, lambda: np.array([[0.], [3], [1], [0], [2]]), _rowstd, (1, 0, 2, 3, 4), CENTER_MAX),
    (maps.cycle(5), lambda: np.array([[0.1], [0.3], [0.2], [0.7], [0.2]]), _weighted, None, SK),
]


def do_variant(job, ctx):
    g, mk, mkadj, names, obj = VARIANTS[job["variant"]]
    alg = job["alg"]
    n = g[0]
    at = mk()
    for p in range(comps(g), n + 1):
        opts = [None]
        some = starts(g, p)
        opts += [some[0], some[-1], some[len(some) // 2]]
        for start in opts:
            for dt in ((int, float) if start is not None else (int,)):
                def run(ctl):
                    inst = make(alg)
                    il = None
                    if start is not None:
                        il = int_labels([names[x] if names else x for x in start], dt)
                    fit = getattr(inst, "fit", inst.fit_from_scipy_sparse_matrix)
                    err = ctx.attempt(ctl, lambda: fit(
                        mkadj(g), at.copy(), p, initial_labels=il, objective_func=obj))
                    labels = as_labels(inst.labels_)
                    ctx.distinct("outcomes", (job["variant"], p, start, labels))
                    judge_for(ctx)(dict(err=err, labels=labels, g=g, p=p, start=start, alg=alg,
                                        attr=at.tolist()))
                ctx.explore(run, max_dev=1 if ctx.tier == "thorough" or start is None and alg[0] in ("bt", "rt") else 0)
                if ctx.enough():
                    return


def do_job(job, ctx):
    if "variant" in job:
        return do_variant(job, ctx)
    each_fit(job, ctx, judge_for(ctx))
