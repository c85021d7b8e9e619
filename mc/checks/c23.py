"""C23: SKATER returns contiguous regions of the requested number and size."""
import math
import warnings

import numpy as np

from .. import maps, oracle as orc, skater as sk
from ..common import as_labels
from ..job import describe
from ..spaces import BIG, BIG_COLS, GRID23, ISL5, ISL5B, ISL6, ISL6B, comps, scaled
from scipy.optimize import OptimizeWarning

LEVEL = "model_checking"
RULE = ("All graphs up to 4 areas (all node labellings; all with 5 areas, selected ones with 6 to 25, disconnected ones "
        "with their areas interleaved) as W objects of several kinds (names, weights, row-standardised), data tables with "
        "ties and equal rows (3 areas: all columns over {0,1,3}) or none, every number of clusters from 1 to one more than "
        "areas and infinity, quorum none, 1, 2, 3, both ways of treating islands, with and without trace; each result is "
        "checked for contiguity, sizes, number of regions, and, if there are fewer, that no edge of the remaining forest "
        "can be cut.")
ASSUMPTIONS = ["quick: every 2nd or 3rd combination of quorum, number of clusters and islands for 4 and more areas, every "
               "5th or 13th for the maps of 8 to 25 areas"]


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0
    for n in (1, 2, 3):
        for g in maps.all_labelled(n):
            for data in (sk.all_columns(n) + list(sk.DATA[n][2:3]) if th or n < 3 else sk.all_columns(3)[::2] + list(sk.DATA[3])):
                c += 1
                out.append(dict(g=g, data=data, form=c, every=1))
            out.append(dict(g=g, data=None, form=c, every=1))
    gs = list(maps.all_labelled(4))
    for i, g in enumerate(gs):
        for j, data in enumerate(sk.DATA[4] + (None,) + (tuple(sk.all_columns(4)[::5]) if th else ())):
            c += 1
            out.append(dict(g=g, data=data, form=c, every=1 if th else 2))
    five = list(maps.graphs(5)) + [ISL5, ISL5B]
    for g in five + [GRID23, ISL6, ISL6B, maps.path(6), maps.cycle(6)]:
        for data in sk.DATA[g[0]] + (None,):
            c += 1
            out.append(dict(g=g, data=data, form=c, every=1 if th else 3))
    for g in (maps.grid(3, 3), maps.grid(2, 4), maps.path(8)):
        for k in range(8 if th else 3):
            c += 1
            data = tuple((((k + 2) * (a + k) ** 2) % 7,) for a in range(g[0]))
            out.append(dict(g=g, data=data, form=c, every=1 if th else 2))
    for gi, g in enumerate(BIG):
        for k, col in enumerate(BIG_COLS):
            c += 1
            out.append(dict(g=g, data=tuple((col(i, g[0]),) for i in range(g[0])), form=c, every=(1 if g[0] < 14 else 3) if th else
                            5 if g[0] < 14 else 13, large=1))
    return out


def do_job(job, ctx):
    g, data = job["g"], job["data"]
    n, k = g[0], comps(g)
    least = min(bin(m).count("1") for m in orc.connected_components(*g))

    def run(ctl):
        i = 0
        for quorum in (-math.inf, 1, 2, 3) + ((4,) if n > 6 else ()) + ((5, n // 2) if n > 9 else ()):
            for want in list(range(1, n + 2)) + [math.inf]:
                for islands in ("increase", "ignore", "IGNORE") if k > 1 else ("increase", "ignore"):
                    i += 1
                    if (i + job["form"]) % job["every"]:
                        continue
                    one(ctx, ctl, g, data, quorum, want, islands, job["form"] + i, k, least)
                    if ctx.enough() or ctx.late():
                        return
    ctx.single(run)
    ctx.sample(map=g, data=data)


def one(ctx, ctl, g, data, quorum, want, islands, form, k, least):
    n = g[0]
    metric = ("manhattan", "euclidean", "affinity", "default")[form // 4 % 4]
    inst = sk.new(metric, ("sum", "mean", "max")[form % 3], ("mean", "median")[form // 3 % 2])
    w = sk.w_of(g, form)
    if metric != "affinity":
        data = scaled(data, form // 12)
    dt = None if data is None else sk.typed(data, metric, form)
    kw = {}
    if form % 3 == 0:
        kw["trace"] = True
    if islands != "increase":
        kw["islands"] = islands
    if quorum != -math.inf:
        kw["quorum"] = quorum
    seen = []

    def fit():
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            try:
                inst.fit(want, w, dt, **kw) if dt is not None else inst.fit(want, w, **kw)
            finally:
                seen.extend(x for x in got if issubclass(x.category, OptimizeWarning))
    err = ctx.attempt(ctl, fit)
    ctx.count("states")
    d = dict(map=g, data=data, quorum=quorum, n_clusters=want, islands=islands, dissimilarity=metric, w_form=form % 12)
    if k > 1 and least < quorum:
        if not isinstance(err, ValueError):
            ctx.fail("an island smaller than the quorum is not rejected with ValueError: {}".format(
                "labels {}".format(as_labels(getattr(inst, "current_labels_", None))) if err is None else describe(err)), **d)
        return
    if least < quorum:
        return
    if err is not None:
        ctx.fail("fit failed: " + describe(err), **d)
        return
    labels = as_labels(inst.current_labels_)
    ctx.distinct("cases", (g, data, quorum, want, islands, labels))
    problem = orc.partition_problem(labels, n, g[1])
    if problem:
        ctx.fail("labels {}: {}".format(labels, problem), **d)
        return
    have = len(set(labels))
    ctx.count("transitions", have)
    if not sk.sizes_ok(labels, quorum):
        ctx.fail("labels {}: a region is smaller than the quorum".format(labels), **d)
        return
    target = want if k == 1 else max(want, k) if islands.lower() == "ignore" else want + k
    if have > target:
        ctx.fail("labels {}: {} regions instead of {}".format(labels, have, target), **d)
        return
    edges = sk.forest_edges(inst.minimum_spanning_forest_)
    if sk.labels_of(n, edges) != orc.canon(labels):
        ctx.fail("labels {} are not the trees of the forest {}".format(labels, edges), **d)
        return
    if not set(edges) <= {tuple(sorted(e)) for e in g[1]}:
        ctx.fail("the forest {} has edges that W does not have".format(edges), **d)
        return
    if have < target:
        ctx.count("fewer")
        for e in edges:
            cut = sk.labels_of(n, [x for x in edges if x != e])
            if len(set(cut)) > have and sk.sizes_ok(cut, quorum):
                ctx.fail("labels {}: {} regions instead of {}, but edge {} of the forest {} can be cut".format(
                    labels, have, target, e, edges), **d)
                return
        if len(seen) < (1 if k == 1 else 2):
            ctx.fail("labels {}: {} regions instead of {} without a warning".format(labels, have, target), **d)
