"""C16: exact p-regions solutions are feasible and optimal, whichever optimal answer the solver gives."""
import math

import numpy as np

from .. import exactly, explore as ex, maps, oracle as orc
from ..common import any_csr, arr, as_labels, fast_chebyshev, rows
from ..job import describe
from ..spaces import GRID23, ISL6, KITE7, WHISKERS, comps, five_maps
from region.p_regions.exact import PRegionsExact

LEVEL = "model_checking"
RULE = ("All graphs up to 4 areas (n=3: all labellings of nodes; 5 areas: selected, thorough: all), every p, the "
        "methods flow, order and tree, attribute tables with ties, zeros and several columns, several metrics.  The "
        "integer program handed to the solver is searched exhaustively: its optimum and all optimal assignments of "
        "the variables the code reads are found, each is reported back as the solver's answer (exactly, and off by "
        "up to 1e-6), and the labels the fit returns are judged against the brute-force minimum over all contiguous "
        "partitions.  CBC's own answer is judged too; on larger maps (6 to 8 areas, optimal regions of very different "
        "sizes) only that.")
ASSUMPTIONS = ["values of integer variables are off by at most 1e-6"]

# name -> (rows, metric argument)
TABLES = {
    1: {"one": ((3,),)},
    2: {"gap": ((0,), (3,)), "same": ((2,), (2,))},
    3: {"gap": rows((0, 3, 1)), "same": rows((2, 2, 2)), "two": ((0, 1), (5, 2), (1, 4)), "tie": rows((0, 0, 1))},
    4: {"gap": rows((0, 3, 1, 7)), "same": rows((1, 1, 1, 1)), "two": ((8, 6), (1, 9), (3, 7), (5, 6)),
        "tie": rows((0, 2, 0, 2)), "big": rows((1000, -2000, 0, 1500)), "small": rows((0.001, 0.004, 0, 0.002)),
        "tiny": rows((0, 3e-7, 1e-7, 7e-7)), "faint": rows((0, 3e-12, 1e-12, 7e-12))},
    5: {"gap": rows((0, 3, 1, 7, 2)), "tie": rows((0, 1, 0, 1, 0)), "two": ((8, 6), (1, 9), (3, 7), (5, 6), (2, 2))},
    6: {"gap": rows((0, 3, 1, 7, 2, 9)), "lump": rows((0, 0, 0, 40, 99, 180)), "ends": rows((90, 0, 1, 0, 1, 40)),
        "turn": rows((0, 50, 0, 50, 0, 51)), "tiny": rows((0, 7e-7, 3e-7, 1e-7, 9e-7, 4e-7)),
        "faint": rows((0, 7e-10, 3e-10, 1e-10, 9e-10, 4e-10)), "huge": rows((0, 7e9, 3e9, 1e9, 9e9, 4e9)),
        "far": rows((0, 7, 3, 1, 9, 1e7))},
    7: {"gap": rows((0, 3, 1, 7, 2, 9, 4)), "lump": rows((0, 1, 0, 0, 40, 99, 180)), "ends": rows((90, 0, 1, 0, 1, 0, 40)),
        "one": rows((0, 0, 0, 0, 0, 0, 9))},
    8: {"gap": rows((0, 3, 1, 7, 2, 9, 4, 6)), "lump": rows((0, 1, 0, 0, 1, 40, 99, 180)),
        "ends": rows((90, 0, 1, 0, 1, 0, 0, 40))},
}
# larger maps, on which only CBC's own answer is judged
WIDE = [maps.path(6), maps.star(6), maps.cycle(6), GRID23, ISL6, maps.path(7), maps.relabel(maps.path(7), (3, 0, 5, 1, 6, 2, 4)),
        maps.star(7), maps.cycle(7), KITE7, WHISKERS, maps.interleaved(maps.path(4), maps.path(3)),
        maps.interleaved(maps.path(6), maps.path(1)), maps.path(8), maps.star(8), maps.cycle(8)]
METRICS = ("euclidean", "manhattan", "cosine", "cheb", "l2", "cityblock")
METHODS = ("flow", "order", "tree")


def cosine_table(attr):
    def d(x, y):
        nx, ny = math.sqrt(sum(v * v for v in x)), math.sqrt(sum(v * v for v in y))
        return 1 - sum(a * b for a, b in zip(x, y)) / nx / ny
    return [[d(x, y) for y in attr] for x in attr]


def table_of(metric, attr):
    if metric in ("euclidean", "l2"):
        return orc.euclidean_table(attr)
    if metric in ("manhattan", "cityblock", "l1"):
        return orc.manhattan_table(attr)
    if metric == "cosine":
        return cosine_table(attr)
    return orc.chebyshev_table(attr)


def spread(dist):
    """The largest distance, one if there is none."""
    return max(map(max, dist)) or 1


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0

    def add(g, name, p, method, metrics, enum=True):
        nonlocal c
        for metric in metrics:
            c += 1
            out.append(dict(g=g, table=name, p=p, method=method, metric=metric, enum=enum, form=c % 4))
    for n in (1, 2, 3, 4):
        gs = list(maps.all_labelled(n)) if n <= 3 or th else list(maps.graphs(4))
        if n == 4 and not th:
            gs += [maps.relabel(g, (2, 0, 3, 1)) for g in gs[1:-1]]
        for i, g in enumerate(gs):
            for p in range(max(1, comps(g)), n + 1):
                for j, method in enumerate(METHODS):
                    for k, name in enumerate(TABLES[n]):
                        if n == 4 and not th and (i + j + k + p) % 3:
                            continue
                        ms = METRICS if name == "two" and (th or n == 3) else ("manhattan",) if name != "two" else \
                            (METRICS[(i + j) % 6], "cheb")
                        add(g, name, p, method, ms)
    for i, g in enumerate(five_maps(th)):
        for p in range(max(2, comps(g)), 5):
            for j, method in enumerate(METHODS):
                for k, name in enumerate(TABLES[5]):
                    if not th and (i + j + k + p) % 4:
                        continue
                    add(g, name, p, method, ("euclidean",), enum=p > 2 or th)
    if th:
        for g in (GRID23, maps.cycle(6), maps.path(6)):
            for p in (2, 3, 4):
                for method in METHODS:
                    add(g, "gap", p, method, ("euclidean",), enum=p > 3)
    for i, g in enumerate(WIDE):
        for p in range(max(2, comps(g)), g[0]):
            for j, method in enumerate(METHODS):
                for k, name in enumerate(TABLES[g[0]]):
                    if th or (i + j + k + p) % 4 == 0 or (name == "lump" or name in ("tiny", "faint", "far") and p == 3) \
                            and g in WIDE[:8]:
                        add(g, name, p, method, ("euclidean",), enum=False)
    return out


def judge(ctx, job, inst, err, opt, dist, how, **det):
    g, p = job["g"], job["p"]
    d = dict(map=g, attr=TABLES[g[0]][job["table"]], p=p, method=job["method"], metric=job["metric"], answer=how, **det)
    if err is not None:
        ctx.fail("fit failed although a solution exists: " + describe(err), **d)
        return
    labels = as_labels(inst.labels_)
    ctx.distinct("cases", (g, job["table"], p, job["method"], job["metric"], labels))
    problem = orc.partition_problem(labels, g[0], g[1], p)
    if problem:
        ctx.fail("labels {}: {}".format(labels, problem), **d)
        return
    cost = orc.pair_cost(labels, dist)
    if cost > opt + 1e-6 * min(1, spread(dist)) * max(1, abs(opt)):
        ctx.fail("labels {} cost {}, the optimum is {}".format(labels, cost, opt), **d)


def do_job(job, ctx):
    g, p = job["g"], job["p"]
    n = g[0]
    table = TABLES[n][job["table"]]
    dist = table_of(job["metric"], table)
    opt = orc.min_cost(n, g[1], p, dist)
    metric = fast_chebyshev if job["metric"] == "cheb" else job["metric"]
    at = arr(table, int if job["form"] == 1 and all(isinstance(x, int) for r in table for x in r) else float)
    if job["form"] == 2 and at.shape[1] == 1:
        at = at[:, 0]
    box = []

    def fit():
        inst = PRegionsExact()
        box.append(inst)
        name = job["method"] if job["form"] else job["method"].upper()
        inst.fit_from_scipy_sparse_matrix(any_csr(g, p, job["table"], job["method"]), at.copy(), p, method=name, metric=metric)

    def run(ctl):
        plan, err = exactly.first_fit(ctx, ctl, fit)
        judge(ctx, job, box[-1], err, opt, dist, "CBC's")
        if err is not None or not job["enum"] or ctx.enough():
            return
        sols = exactly.optima(ctx, plan)
        if sols is None:
            for k, handler in enumerate(exactly.rival_answers(ctx, fit, plan)):
                with exactly.sv.handled(handler):
                    err = ctx.attempt(ctl, fit)
                judge(ctx, job, box[-1], err, opt, dist, "rival {}".format(k))
                if ctx.enough() or ctx.late():
                    return
            return
        if not sols:
            ctx.count("search_disagrees_with_cbc")
            return
        for k, xs in enumerate(sols):
            err = exactly.answer(ctx, ctl, fit, plan, xs, k)
            judge(ctx, job, box[-1], err, opt, dist, "optimal answer {} of {}".format(k, len(sols)))
            if ctx.enough() or ctx.late():
                return
        ctx.sample(map=g, attr=table, p=p, method=job["method"], metric=job["metric"], optimum=opt, answers=len(sols))
    ctx.single(run)
