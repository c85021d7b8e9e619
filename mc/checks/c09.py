"""C09: feasibility of labellings is judged correctly, by the helpers and by the fits."""
import itertools

import numpy as np
import scipy.sparse as sp

from .. import maps, oracle as orc
from ..common import PAIRWISE, any_csr, arr, as_labels, make, rows
from ..job import describe
from ..spaces import BIG, BIG_COLS, COLS, big_starts, comps
from region.util import assert_feasible, boolean_assert_feasible

LEVEL = "model_checking"
RULE = ("All graphs up to 5 areas (all labelled graphs up to 4) x all labellings x every requested number of "
        "regions (or none) x label namings and dtypes, against the contiguity oracle; and fits of the four "
        "heuristics with every such labelling as start, which must be refused with ValueError and unchanged "
        "labels_ exactly if the labelling is infeasible for the requested number of regions.")
ASSUMPTIONS = ["all labellings for at most 5 areas (6 for some maps, thorough tier); on maps of 8 to 25 areas, a few feasible "
               "labellings and those that differ from them in one area"]

NAMINGS = [
    ("dense", int, lambda r: r), ("gaps", np.int64, lambda r: (7, 3, 19, 0, 12, 5)[r] if r < 6 else 2 * r + 9),
    ("int32", np.int32, lambda r: 30 - r), ("float", float, lambda r: float(r + 1)),
    ("large", np.int64, lambda r: (255, 256, 0, 100000, 257, 2)[r] if r < 6 else 1000 * r),
]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6):
        gs = maps.all_labelled(n) if n <= 4 else maps.graphs(n)
        for i in range(0, len(gs), 4 if n < 5 else 1):
            out.append(dict(kind="helpers", gs=gs[i:i + (4 if n < 5 else 1)]))
    if th:
        for g in maps.graphs(6):
            out.append(dict(kind="helpers", gs=(g,)))
    for gi, g in enumerate(BIG):
        k = comps(g)
        for p in sorted({k, k + 2, max(k, g[0] // 2), g[0]}):
            out.append(dict(kind="bighelpers", g=g, p=p))
            out.append(dict(kind="bigfits", g=g, p=p, alg=(("azp",), ("bt", 2, 1), ("rt", 3, 1, 1))[(gi + p) % 3]))
    for alg in (("azp",), ("bt", 2, 1), ("rt", 3, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
        for n in range(1, 5):
            for g in maps.graphs(n):
                if alg[0] == "sa" and not th and n > 3 and len(g[1]) not in (1, 3):
                    continue
                out.append(dict(kind="fits", g=g, alg=alg))
        if th or alg[0] != "sa":
            for g in maps.graphs(5)[::1 if th else 3]:
                out.append(dict(kind="fits", g=g, alg=alg))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def outcome(ctx, fn):
    """("value", v) or ("raise", e)"""
    box = []
    got = []

    def run(ctl):
        err = ctx.attempt(ctl, lambda: box.append(fn()))
        got.append(("raise", err) if err is not None else ("value", box[-1]))
    ctx.single(run)
    return got[0] if got else None


def around(g, p):
    """Some feasible labellings of a larger map, and what one moved area makes of them."""
    out = []
    nm = orc.nbr_masks(*g)
    for start in big_starts(g, p):
        out.append(start)
        for a in range(g[0]):
            for r in sorted({start[b] for b in orc.bits(nm[a])} | {p, a * 3 % p}):
                l = orc.moved(start, a, r)
                if l not in out:
                    out.append(l)
    return out


def do_bighelpers(job, ctx):
    do_helpers(dict(gs=(job["g"],), space=around(job["g"], job["p"])), ctx)


def do_bigfits(job, ctx):
    g = job["g"]
    space = around(g, job["p"])
    do_fits(dict(job, space=space[:1] + space[1::37], col=tuple(BIG_COLS[0](i, g[0]) for i in range(g[0]))), ctx)


def do_helpers(job, ctx):
    for gi, g in enumerate(job["gs"]):
        n, es = g
        big = "space" in job
        adj = any_csr(g, gi)
        weighted = adj.copy()
        weighted.data = weighted.data * 0.25
        for li, l0 in enumerate(job.get("space") or orc._growth_strings(n)):
            good = orc.contiguous(l0, n, es)
            k = len(set(l0))
            for ni, (name, dt, f) in enumerate(NAMINGS):
                if big and ni != li % 5:
                    continue
                labels = np.array([f(r) for r in l0], dtype=dt)
                a = weighted if (li + ni) % 3 == 2 else adj
                for want in [None] + list(range(0 if ni == 0 and not big else k - 1, k + 3 if ni == 0 else k + 2)):
                    d = dict(map=g, labels=labels.tolist(), n_regions=want)
                    right = want is None or want == k
                    before = labels.copy()
                    args = (labels, a) if want is None and li % 2 else (labels, a, want)
                    r1 = outcome(ctx, lambda: assert_feasible(*args))
                    r2 = outcome(ctx, lambda: boolean_assert_feasible(*args))
                    if r1 is None or r2 is None:
                        continue
                    ctx.distinct("cases", (g, name, l0, want))
                    if r1[0] == "raise" and not isinstance(r1[1], ValueError):
                        ctx.fail("assert_feasible raised " + describe(r1[1]), **d)
                    elif (r1[0] == "raise") != (not (good and right)):
                        ctx.fail("assert_feasible {} a labelling that is {}".format(
                            "refused" if r1[0] == "raise" else "accepted",
                            "feasible" if good and right else "infeasible"), **d)
                    if r2[0] == "raise":
                        if not isinstance(r2[1], ValueError):
                            ctx.fail("boolean_assert_feasible raised " + describe(r2[1]), **d)
                        elif right:
                            ctx.fail("boolean_assert_feasible raised for the right number of regions", **d)
                    elif not right:
                        ctx.fail("boolean_assert_feasible accepted a wrong number of regions", **d)
                    elif bool(r2[1]) != good:
                        ctx.fail("boolean_assert_feasible returned {}".format(r2[1]), **d)
                    if not np.array_equal(before, labels):
                        ctx.fail("the labels were changed", **d)
                    if ctx.enough():
                        return
        ctx.sample(map=g, labellings=len(job.get("space") or orc._growth_strings(n)))


def do_fits(job, ctx):
    g, alg = job["g"], job["alg"]
    n, es = g
    adj = any_csr(g, alg)
    at = arr(rows(job.get("col") or COLS[n][1]))
    for li, l0 in enumerate(job.get("space") or orc._growth_strings(n)):
        good = orc.contiguous(l0, n, es)
        k = len(set(l0))
        name, dt, f = NAMINGS[li % len(NAMINGS)]
        labels = np.array([f(r) for r in l0], dtype=dt)
        for p in range(max(k - 1, 1), min(k + 1, n) + 1):
            for earlier in (False, True) if li % 3 == 0 else (False,):
                def run(ctl):
                    inst = make(alg)
                    before = None
                    if earlier:
                        m = comps(g)
                        if ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                                adj.copy(), at.copy(), m, objective_func=PAIRWISE)) is not None:
                            ctx.fail("an ordinary fit failed", map=g, p=m, alg=alg)
                            return
                        before = as_labels(inst.labels_)
                    d = dict(alg=alg, map=g, attr=at.tolist(), start=labels.tolist(), p=p)
                    err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                        adj.copy(), at.copy(), p, initial_labels=labels.copy(), objective_func=PAIRWISE))
                    ctx.distinct("fits", (alg, g, l0, p))
                    if good and k == p:
                        if err is not None:
                            ctx.fail("a feasible start was refused: " + describe(err), **d)
                            return
                        problem = orc.partition_problem(as_labels(inst.labels_), n, es, p)
                        if problem:
                            ctx.fail(problem, **d)
                        return
                    if err is None:
                        ctx.fail("an infeasible start was accepted", labels=as_labels(inst.labels_), **d)
                    elif not isinstance(err, ValueError):
                        ctx.fail("raised " + describe(err), **d)
                    elif as_labels(inst.labels_) != before:
                        ctx.fail("a refused start changed labels_", labels=as_labels(inst.labels_), **d)
                ctx.single(run)
                if ctx.enough() or ctx.late():
                    return
