"""C03: local search never worsens its start, and AZP ends in a local optimum."""
import numpy as np

from .. import maps, oracle as orc
from ..common import (ObjectiveFunctionCenter, PAIRWISE, arr, fast_manhattan, rows)
from ..job import describe
from ..spaces import COLS, HOUSE, big_jobs, ISL5, ISL6, each_fit, five_maps, remote, search_jobs

LEVEL = "model_checking"
RULE = ("Every (algorithm, map, integer attributes, p, feasible start) of the bounded space under all random "
        "outcomes within the deviation bound; objective values and all single-area moves of the result are "
        "recomputed by an independent model.")
ASSUMPTIONS = ["integer multiples of powers of two as attributes for the pairwise objective (exact arithmetic); tolerance 1e-7 for "
               "center-based objectives"]
CENTER = ObjectiveFunctionCenter(fast_manhattan)
CENTER_MAX = ObjectiveFunctionCenter(fast_manhattan, reduction=np.max)
OBJ = {"pair": PAIRWISE, "center": CENTER, "centermax": CENTER_MAX}
TOL = 1e-7


def jobs(tier):
    th = tier == "thorough"
    out = search_jobs(tier, cols_limit=None if th else 3, sa=False, gen=False)
    # zero attributes cannot show a worsening
    out = [j for j in out if th or len(set(j["attr"])) > 1]
    import itertools
    for g in (maps.path(3), maps.complete(3), maps.path(4), maps.star(4), maps.cycle(4)) + \
            ((maps.path(5), maps.cycle(5), maps.star(5)) if th else ()):
        for col in itertools.product((0, 1, 3), repeat=g[0]):
            if col[0] <= col[-1] and len(set(col)) > 1:
                out.append(dict(alg=("azp",), g=g, attr=rows(col), init="all", dev=1))
    for two in (((0, 1), (3, 0), (1, 1), (0, 5), (2, 2)), ((0, 0), (0, 4), (4, 0), (4, 4), (1, 1))):
        for g in (HOUSE, ISL5, maps.cycle(5)):
            for alg in (("azp",), ("bt", 2, 2), ("rt", 5, 1, 1)):
                out.append(dict(alg=alg, g=g, attr=two, init="all", dev=1))
    for o in ("center", "centermax"):
        for g in (maps.path(4), maps.cycle(4), maps.star(4), HOUSE, ISL5):
            for alg in (("azp",), ("bt", 2, 2), ("rt", 5, 1, 1)):
                out.append(dict(alg=alg, g=g, attr=rows(COLS[g[0]][1]), init="all", dev=1, obj=o))
    out += big_jobs(tier, [("azp",), ("bt", 3, 1), ("rt", 12, 1, 1)], gen=False)
    for k, j in enumerate(out):
        if j.get("obj", "pair") == "pair":
            j["attr"] = remote(j["attr"], k // 3)
    return out


def cost(kind, labels, attr):
    if kind == "pair":
        return orc.pair_cost(labels, orc.manhattan_table(attr))
    per = []
    for mask in orc.region_masks(labels).values():
        idx = orc.bits(mask)
        c = [sum(attr[i][k] for i in idx) / len(idx) for k in range(len(attr[0]))]
        d = [sum(abs(attr[i][k] - c[k]) for k in range(len(c))) for i in idx]
        per.append(sum(d) if kind == "center" else max(d))
    return sum(per) if kind == "center" else max(per)


def do_job(job, ctx):
    kind = job.get("obj", "pair")
    tol = 0 if kind == "pair" else TOL

    def judge(r):
        d = dict(alg=r["alg"], map=r["g"], attr=r["attr"], p=r["p"], start=r["start"], labels=r["labels"],
                 objective=kind)
        if r["err"] is not None:
            ctx.fail("fit failed: " + describe(r["err"]), **d)
            return
        labels, attr, (n, edges) = r["labels"], r["attr"], r["g"]
        before, after = cost(kind, r["start"], attr), cost(kind, labels, attr)
        if len(labels) != n or len(set(labels)) != r["p"]:
            ctx.fail("not a partition: {}".format(labels), **d)
            return
        if after > before + tol:
            ctx.fail("objective rose from {} to {}".format(before, after), **d)
            return
        if after < before:
            ctx.count("improved")
        if job["alg"][0] == "azp":
            better = neutral = None
            for a, reg in orc.admissible_moves(labels, n, edges):
                diff = cost(kind, orc.moved(labels, a, reg), attr) - after
                if diff < -tol:
                    better = (a, reg, diff)
                elif diff <= tol:
                    neutral = (a, reg)
            if better and not neutral:
                ctx.fail("not a local optimum: moving area {} to region {} changes the objective by {}".format(
                    *better), **d)
            ctx.count("local_optimum_decided" if not neutral else "with_neutral_moves")
    each_fit(job, ctx, judge, obj=OBJ[kind])
