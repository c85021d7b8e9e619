"""C18: exact max-p solutions have the most regions, then the least dissimilarity, whichever optimal answer the solver gives."""
import itertools

import numpy as np

from .. import exactly, maps, oracle as orc
from ..common import any_csr, arr, as_labels, fast_chebyshev, rows
from ..job import describe
from ..maxp import thr_of, thr_row
from ..spaces import GRID23, comps, five_maps
from .c16 import TABLES, spread, table_of
from region.max_p_regions.exact import MaxPRegionsExact

LEVEL = "model_checking"
RULE = ("All node-labelled graphs up to 3 areas with all spatially extensive columns over {0,1,2} and all thresholds that "
        "have a solution; all graphs with 4 areas and relabellings of them (thorough: all labelled), selected ones with 5, "
        "with one or two spatially extensive attributes, scalar and vector thresholds, attribute tables with ties, equal "
        "rows and several columns, several metrics.  The integer program handed to the solver is searched exhaustively: "
        "all optimal assignments of the variables the code reads are reported back as the solver's answer (exactly, and "
        "off by up to 1e-6) and the labels are judged against the brute-force optimum over all partitions.")
ASSUMPTIONS = ["values of integer variables are off by at most 1e-6"]

# powers of two keep sums exact
UNITS = (1, 2.0 ** -30, 1, 2.0 ** -14, 1, 2.0 ** 20)
SPS = {
    4: (rows((1, 1, 1, 1)), rows((1, 2, 0, 3)), rows((0, 0, 2, 1)), ((1, 2), (1, 0), (1, 1), (1, 1)),
        ((2, 0), (0, 2), (1, 1), (0, 3)), rows((0.5, 0.25, 1.25, 0.5))),
    5: (rows((1, 1, 1, 1, 1)), rows((2, 1, 1, 1, 2)), ((1, 0), (0, 1), (2, 1), (0, 1), (1, 2))),
    6: (rows((1, 1, 1, 1, 1, 1)), rows((1, 2, 1, 1, 0, 3))),
}


def thresholds(g, sp):
    """Thresholds every island reaches."""
    low = [min(sum(sp[i][k] for i in orc.bits(c)) for c in orc.connected_components(*g)) for k in range(len(sp[0]))]
    total = [sum(r[k] for r in sp) for k in range(len(sp[0]))]
    out = []
    cand = sorted({0, 1, 2, 3, 0.75, 1.5} | {x for x in low})
    if len(low) == 1:
        out += [t for t in cand if t <= low[0]] + [(min(2, low[0]),)]
    else:
        out += [t for t in cand if t <= min(low)]
        out += [t for t in itertools.product((0, 1, 2), repeat=2) if all(x <= y for x, y in zip(t, low))]
        out.append(tuple(low))
    assert total
    return out


def trades():
    """More regions are possible only at the price of large distances inside of them."""
    out = []
    for g, sp, thr, far in ((maps.path(4), (2, 1, 1, 2), 2, 4), (maps.path(5), (3, 1, 1, 1, 3), 3, 6), (maps.cycle(5), (3, 1, 1, 1, 3), 3, 6),
                            (maps.relabel(maps.path(5), (3, 0, 4, 1, 2)), (1, 3, 3, 1, 1), 3, 6),
                            (maps.interleaved(maps.path(4), maps.path(1)), (2, 2, 1, 1, 2), 2, 4)):
        n = g[0]
        for b in (1, 2, 9.96 / far, 99.9 / far, 999.5 / far, 11 / far, 0.0996 / far, 9.9, 4.9, 49.5, 9.9e6, 9.96e9 / far):
            for high in (0b1100, 0b11100, 0b1010, 0b10010, 0b10110):
                if high < 1 << n:
                    out.append((g, rows(sp), thr, rows(tuple(b if high >> i & 1 else 0 for i in range(n)))))
    return out


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0
    for n in (1, 2, 3):
        for i, g in enumerate(maps.all_labelled(n)):
            for j, sp in enumerate([rows(x) for x in itertools.product((0, 1, 2), repeat=n)] +
                                   [((1, 0), (0, 2), (1, 1))[:n], ((2, 1), (1, 2), (0, 3))[:n]]):
                for k, thr in enumerate(thresholds(g, sp)):
                    c += 1
                    if n == 3 and not th and (i + j + k) % 4:
                        continue
                    for l, name in enumerate(TABLES[n]):
                        if th or n < 3 or (c // 4 + l) % 2 == 0:
                            metric = ("manhattan", "euclidean", "cheb")[(i + j + l) % 3] if name != "two" else \
                                ("cosine", "manhattan", "euclidean", "cheb")[(i + j + k) % 4]
                            out.append(dict(g=g, sp=sp, thr=thr, table=name, metric=metric, form=c % 5))
    gs = list(maps.all_labelled(4)) if th else \
        list(maps.graphs(4)) + [maps.relabel(g, q) for g in maps.graphs(4) for q in ((2, 0, 3, 1), (1, 3, 0, 2), (3, 2, 1, 0))]
    for i, g in enumerate(gs):
        for j, sp in enumerate(SPS[4]):
            for k, thr in enumerate(thresholds(g, sp)):
                for l, name in enumerate(TABLES[4]):
                    if not th and (i + 2 * j + 3 * k + l + i // 5) % 19:
                        continue
                    c += 1
                    metric = ("manhattan", "euclidean", "cheb", "cosine", "cityblock")[(i + j + l) % 5] if name == "two" \
                        else ("manhattan", "euclidean", "cheb")[(i + k) % 3]
                    out.append(dict(g=g, sp=sp, thr=thr, table=name, metric=metric, form=c % 5))
    for i, g in enumerate(five_maps(th)):
        for q in ((0, 1, 2, 3, 4), (3, 0, 4, 1, 2)):
            for j, sp in enumerate(SPS[5]):
                for k, thr in enumerate(thresholds(g, sp)):
                    for l, name in enumerate(TABLES[5]):
                        if (not th and (i + j + k + l + q[0]) % 29) or (thr if isinstance(thr, tuple) else (thr,))[0] < 1:
                            continue
                        c += 1
                        out.append(dict(g=maps.relabel(g, q), sp=sp, thr=thr, table=name, metric="euclidean", form=c % 5))
    if th:
        for g in (GRID23, maps.cycle(6), maps.path(6)):
            for sp in SPS[6]:
                for thr in (2, 3):
                    out.append(dict(g=g, sp=sp, thr=thr, table="gap", metric="euclidean", form=0))
    for k, (g, sp, thr, table) in enumerate(trades()):
        if th or k % 3 == 0 or 9.9e6 in sum(table, ()):
            out.append(dict(g=g, sp=sp, thr=thr, table=table, metric=("manhattan", "euclidean")[k % 2], form=k % 5))
    # areas' spatially extensive attributes and the threshold in other units
    for k, j in enumerate(out):
        f = UNITS[k // 7 % len(UNITS)]
        if f != 1:
            thr = j["thr"]
            j.update(sp=tuple(tuple(f * v for v in r) for r in j["sp"]),
                     thr=tuple(f * t for t in thr) if isinstance(thr, tuple) else f * thr)
    return out


def do_job(job, ctx):
    g, sp, thr = job["g"], job["sp"], job["thr"]
    n = g[0]
    table = TABLES[n][job["table"]] if isinstance(job["table"], str) else job["table"]
    dist = table_of(job["metric"], table)
    want = orc.max_p_optimum(n, g[1], sp, thr_row(thr, len(sp[0])), dist)
    metric = fast_chebyshev if job["metric"] == "cheb" else job["metric"]
    form = job["form"]
    at = arr(table)
    ints = form == 1 and all(isinstance(x, int) for r in sp for x in r)
    sparr = arr(sp, int if ints else float)
    if form == 2 and len(sp[0]) == 1 and not isinstance(thr, tuple):
        sparr = sparr[:, 0]
    if form == 3 and at.shape[1] == 1:
        at = at[:, 0]
    t = thr_of(thr)
    if form == 4 and not isinstance(thr, tuple):
        t = np.float64(thr)
    box = []

    def fit():
        inst = MaxPRegionsExact()
        box[:] = [inst]
        inst.fit_from_scipy_sparse_matrix(any_csr(g, sp, thr, table), at.copy(), sparr.copy(), t, metric=metric)

    def judge(err, how):
        d = dict(map=g, attr=table, spatially_extensive=sp, threshold=thr, metric=job["metric"], answer=how)
        if err is not None:
            ctx.fail("fit failed although a solution exists: " + describe(err), **d)
            return
        labels = as_labels(box[-1].labels_)
        ctx.distinct("cases", (g, sp, thr, job["table"], job["metric"], labels))
        problem = orc.partition_problem(labels, n, g[1])
        if problem:
            ctx.fail("labels {}: {}".format(labels, problem), **d)
        elif not orc.sums_reach(labels, sp, thr_row(thr, len(sp[0]))):
            ctx.fail("labels {}: a region does not reach the threshold".format(labels), **d)
        elif len(set(labels)) != want[0]:
            ctx.fail("labels {}: {} regions, {} are possible".format(labels, len(set(labels)), want[0]), **d)
        elif orc.pair_cost(labels, dist) > want[1] + 1e-6 * min(1, spread(dist)) * max(1, want[1]):
            ctx.fail("labels {} cost {}, the optimum is {}".format(labels, orc.pair_cost(labels, dist), want[1]), **d)

    def run(ctl):
        plan, err = exactly.first_fit(ctx, ctl, fit)
        judge(err, "CBC's")
        if err is not None or ctx.enough():
            return
        sols = exactly.optima(ctx, plan)
        if sols is None:
            for k, handler in enumerate(exactly.rival_answers(ctx, fit, plan)):
                with exactly.sv.handled(handler):
                    err = ctx.attempt(ctl, fit)
                judge(err, "rival {}".format(k))
                if ctx.enough() or ctx.late():
                    return
            return
        if not sols:
            ctx.count("search_disagrees_with_cbc")
            return
        for k, xs in enumerate(sols):
            judge(exactly.answer(ctx, ctl, fit, plan, xs, k), "optimal answer {} of {}".format(k, len(sols)))
            if ctx.enough() or ctx.late():
                return
        ctx.sample(map=g, attr=table, spatially_extensive=sp, threshold=thr, optimum=want, answers=len(sols))
    ctx.single(run)
