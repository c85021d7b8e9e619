"""C24: SKATER starts from a minimum spanning forest, cuts greedily, and scores regions correctly."""
import itertools
import math
import warnings

import numpy as np
from scipy.sparse import csr_matrix

from .. import maps, oracle as orc, skater as sk
from ..common import arr, as_labels
from ..job import describe
from ..spaces import BIG, BIG_COLS, GRID23, ISL5, ISL5B, ISL6, ISL6B, SCALES, comps, scaled

LEVEL = "model_checking"
RULE = ("All node-labelled graphs up to 4 areas, all graphs with 5 and selected ones up to 25, as W objects of several kinds, "
        "data tables with ties and equal rows (3 areas: all columns over {0,1,3}), dissimilarities manhattan, euclidean and "
        "one made from an affinity, every quorum up to 3, reductions sum, mean, max, centers mean, median, min: the first "
        "forest is compared with a minimum spanning forest, every cut of every fit (trace, find_cut, make_cut, also "
        "restricted to each region) with all cuts of the remaining forest, find_cut and make_cut on every forest up to 5 areas "
        "with its edges stored in every combination of directions, and score with its definition for every "
        "labelling up to 4 areas under several kinds of labels.")
ASSUMPTIONS = ["two scores closer than 1e-9 are equal"]
STYLES = [("manhattan", "sum", "mean"), ("euclidean", "sum", "median"), ("affinity", "sum", "mean"),
          ("manhattan", "mean", "median"), ("manhattan", "max", "min"), ("euclidean", "max", "mean"), ("affinity", "mean", "min"), ("default", "sum", "mean")]


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0
    for n in (1, 2, 3):
        for g in maps.all_labelled(n):
            for data in sk.all_columns(n) + list(sk.DATA[n][2:3]):
                c += 1
                for s in range(len(STYLES)):
                    if th or (c + s) % 3 == 0:
                        out.append(dict(kind="cut", g=g, data=data, form=c, style=s))
    for g in maps.all_labelled(4):
        for data in sk.DATA[4] + (tuple(sk.all_columns(4)[::3]) if th else ()):
            c += 1
            for s in range(len(STYLES)):
                if th or (c + s) % 5 == 0:
                    out.append(dict(kind="cut", g=g, data=data, form=c, style=s))
    for g in list(maps.graphs(5)) + [ISL5, ISL5B, GRID23, ISL6, ISL6B, maps.path(6), maps.cycle(6)]:
        for data in sk.DATA[g[0]]:
            c += 1
            for s in range(len(STYLES)):
                if th or (c + s) % 4 == 0:
                    out.append(dict(kind="cut", g=g, data=data, form=c, style=s))
    for g in (maps.grid(3, 3), maps.grid(2, 4), maps.path(8)):
        for k in range(8 if th else 3):
            c += 1
            data = tuple((((k + 2) * (a + k) ** 2) % 7,) for a in range(g[0]))
            out.append(dict(kind="cut", g=g, data=data, form=c, style=c % len(STYLES)))
    for gi, g in enumerate(BIG):
        for k, col in enumerate(BIG_COLS):
            if th or (gi + k) % 2 == 0:
                c += 1
                out.append(dict(kind="cut", g=g, data=tuple((col(i, g[0]),) for i in range(g[0])), form=c, style=c % len(STYLES)))
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        for data in sk.DATA[n] + (tuple(sk.all_columns(n)) if th and n < 4 else ()):
            for s in range(len(STYLES)):
                out.append(dict(kind="score", n=n, data=data, style=s))
    for n in (2, 3, 4, 5) + ((6,) if th else ()):
        for g in maps.graphs(n):
            if len(g[1]) == n - comps(g) and g[1]:     # a forest
                for h in [g] if n > 4 else maps.shuffles(g):
                    for data in sk.DATA[n]:
                        c += 1
                        for s in range(len(STYLES)):
                            if th or (c + s) % (2 if n < 4 else 5) == 0:
                                out.append(dict(kind="forest", g=h, data=data, style=s))
    for k, j in enumerate(out):
        j["unit"] = k // 7
    return out


UNIT = [1]
REGIONS = (7, 2, 9, 0, 4, 1, 3, 5, 6) + tuple(range(60, 30, -1))


def do_job(job, ctx):
    if STYLES[job["style"]][0] != "affinity":
        job = dict(job, data=scaled(job["data"], job["unit"]))
        UNIT[0] = SCALES[job["unit"] % len(SCALES)]
    else:
        UNIT[0] = 1
    globals()["do_" + job["kind"]](job, ctx)


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(UNIT[0], abs(a), abs(b))


def do_cut(job, ctx):
    g, data, style = job["g"], job["data"], STYLES[job["style"]]
    n, k = g[0], comps(g)
    metric, reduction, center = style
    dt = sk.typed(data, metric, job["form"])
    w = sk.w_of(g, job["form"])
    least = min(bin(m).count("1") for m in orc.connected_components(*g))
    d = dict(map=g, data=data, style=style, w_form=job["form"] % 12)
    known = {}

    def score(edges, quorum):
        key = (edges, quorum)
        if key not in known:
            known[key] = sk.score_of(data, sk.labels_of(n, edges), quorum, *style)
        return known[key]

    def fitted(ctl, want, quorum, trace):
        inst = sk.new(*style)

        def go():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                inst.fit(want, w, dt, quorum=quorum, trace=trace, islands="ignore")
        err = ctx.attempt(ctl, go)
        if err is not None:
            ctx.fail("fit failed: " + describe(err), quorum=quorum, n_clusters=want, **d)
            return None
        return inst

    def judge_cut(edges, quorum, cut, inside=None, what="cut"):
        """Is `cut` a best cut of the forest `edges`?  Returns the rest of the forest."""
        e = (min(cut[0], cut[1]), max(cut[0], cut[1]))
        if e not in edges:
            ctx.fail("the {} {} is no edge of the forest {}".format(what, e, edges), quorum=quorum, **d)
            return None
        options = {x: score(tuple(y for y in edges if y != x), quorum) for x in edges
                   if inside is None or x[0] in inside}
        low = min(options.values())
        ctx.count("transitions")
        if e not in options or options[e] > low + 1e-9 * max(UNIT[0], abs(low)):
            ctx.fail("the {} {} of the forest {} is not a best one: scores {}".format(what, e, edges, options),
                     quorum=quorum, **d)
            return None
        if not close(float(cut[2]), options[e]):
            ctx.fail("the {} {} of the forest {} has score {}, not {}".format(what, e, edges, options[e], cut[2]),
                     quorum=quorum, **d)
            return None
        return tuple(y for y in edges if y != e)

    def run(ctl):
        base = fitted(ctl, 1, -math.inf, False)
        if base is None:
            return
        start = tuple(sk.forest_edges(base.minimum_spanning_forest_))
        ctx.count("states")
        if not set(start) <= {tuple(sorted(e)) for e in g[1]}:
            ctx.fail("the forest {} has edges that W does not have".format(start), **d)
            return
        want_edges, weight = sk.spanning_weight(g, data, metric)
        if len(start) != want_edges or len(orc.connected_components(n, start)) != k:
            ctx.fail("the forest {} does not span {} islands".format(start, k), **d)
            return
        got = sum(sk.distance(data[a], data[b], metric) for a, b in start)
        if not close(got, weight):
            ctx.fail("the forest {} weighs {}, the minimum is {}".format(start, got, weight), **d)
            return
        for quorum in (-math.inf, 1, 2, 3):
            if least < quorum:
                continue
            # the steps by hand
            msf, edges = base.minimum_spanning_forest_.copy(), start
            hand = sk.new(*style)
            for step in range(n):
                ctx.count("states")
                if step < 3:
                    regions = sk.labels_of(n, edges)
                    for target in sorted(set(regions)):
                        names = np.array([REGIONS[l] for l in regions])
                        box = []
                        err = ctx.attempt(ctl, lambda: box.append(hand.find_cut(
                            msf, dt, quorum=quorum, labels=names, target_label=REGIONS[target])))
                        if err is not None:
                            ctx.fail("find_cut fails: " + describe(err), quorum=quorum, forest=edges, region=target, **d)
                            return
                        inside = {a for a in range(n) if regions[a] == target}
                        possible = [x for x in edges if x[0] in inside and
                                    math.isfinite(score(tuple(y for y in edges if y != x), quorum))]
                        if bool(possible) != bool(np.isfinite(box[0].score)):
                            ctx.fail("find_cut in the region {} of the forest {} gives {}".format(
                                sorted(inside), edges, box[0]), quorum=quorum, **d)
                            return
                        if possible and judge_cut(edges, quorum, box[0], inside, "cut inside {}".format(sorted(inside))) is None:
                            return
                box = []
                err = ctx.attempt(ctl, lambda: box.append(hand.find_cut(msf, dt, quorum=quorum)))
                if err is not None:
                    ctx.fail("find_cut fails: " + describe(err), quorum=quorum, forest=edges, **d)
                    return
                cut = box[0]
                if tuple(sk.forest_edges(msf)) != edges:
                    ctx.fail("find_cut changes the forest", quorum=quorum, forest=edges, **d)
                    return
                possible = [x for x in edges if math.isfinite(score(tuple(y for y in edges if y != x), quorum))]
                if not possible:
                    if np.isfinite(cut.score):
                        ctx.fail("find_cut gives {} although no edge of {} can be cut".format(cut, edges), quorum=quorum, **d)
                        return
                    break
                rest = judge_cut(edges, quorum, cut)
                if rest is None:
                    return
                box = []
                if step % 2:
                    err = ctx.attempt(ctl, lambda: box.append(hand.make_cut(*cut, MSF=msf)))
                else:
                    err = ctx.attempt(ctl, lambda: box.append(hand.find_cut(msf, dt, quorum=quorum, make=True)))
                if err is not None:
                    ctx.fail("the cut cannot be made: " + describe(err), quorum=quorum, forest=edges, **d)
                    return
                msf, count, labels = box[0]
                now = tuple(sk.forest_edges(msf))
                if step % 2 == 0:
                    gone = [x for x in edges if x not in now]
                    if len(gone) != 1 or judge_cut(edges, quorum, gone[0] + (cut.score,)) is None:
                        ctx.fail("find_cut(make=True) makes {} of the forest {}".format(now, edges), quorum=quorum, **d)
                        return
                    rest = now
                if now != rest or orc.canon(as_labels(labels)) != sk.labels_of(n, rest) or count != len(set(as_labels(labels))):
                    ctx.fail("cutting {} from {} gives the forest {}, {} regions, labels {}".format(
                        cut, edges, now, count, as_labels(labels)), quorum=quorum, **d)
                    return
                edges = rest
            # whole fits
            for want in sorted({2, k + 1, n}):
                inst = fitted(ctl, want, quorum, True)
                if inst is None:
                    return
                trace = list(inst._trace)
                ctx.distinct("cases", (g, data, style, quorum, want, as_labels(inst.current_labels_)))
                edges = start
                if orc.canon(as_labels(trace[0][0])) != sk.labels_of(n, edges):
                    ctx.fail("the trace begins with {}".format(as_labels(trace[0][0])), quorum=quorum, **d)
                    return
                for labels, cut in trace[1:]:
                    edges = judge_cut(edges, quorum, cut, None, "traced cut")
                    if edges is None:
                        return
                    if orc.canon(as_labels(labels)) != sk.labels_of(n, edges):
                        ctx.fail("the trace lists the labels {} with the cut {} leaving the forest {}".format(
                            as_labels(labels), cut, edges), quorum=quorum, **d)
                        return
                final = tuple(sk.forest_edges(inst.minimum_spanning_forest_))
                if final != edges or orc.canon(as_labels(inst.current_labels_)) != sk.labels_of(n, final):
                    ctx.fail("the fit ends in the forest {} and labels {}, the trace in {}".format(
                        final, as_labels(inst.current_labels_), edges), quorum=quorum, n_clusters=want, **d)
                    return
                for q in (-math.inf, 2):
                    have = inst.score(dt, quorum=q)
                    if not close(float(have), score(final, q)):
                        ctx.fail("the score of the fitted labels is {}, not {}".format(have, score(final, q)), quorum=q, **d)
                        return
                # the same fit without a trace
                bare = fitted(ctl, want, quorum, False)
                if bare is None:
                    return
                if len(set(as_labels(bare.current_labels_))) != len(set(as_labels(inst.current_labels_))) or \
                        not close(score(tuple(sk.forest_edges(bare.minimum_spanning_forest_)), quorum), score(final, quorum)):
                    if not greedy(start, tuple(sk.forest_edges(bare.minimum_spanning_forest_)), lambda e: score(e, quorum)):
                        ctx.fail("without a trace the labels are {}".format(as_labels(bare.current_labels_)),
                                 quorum=quorum, n_clusters=want, **d)
                        return
    ctx.single(run)
    ctx.sample(map=g, data=data, style=style)


def do_forest(job, ctx):
    """find_cut and make_cut on every forest, its edges stored in either direction."""
    g, data, style = job["g"], job["data"], STYLES[job["style"]]
    n, dt = g[0], arr(data)
    edges = tuple(tuple(sorted(e)) for e in g[1])

    def run(ctl):
        inst = sk.new(*style)
        for quorum in (-math.inf, 1, 2):
            options = {x: sk.score_of(data, sk.labels_of(n, tuple(y for y in edges if y != x)), quorum, *style) for x in edges}
            low = min(options.values())
            for way in itertools.product((0, 1), repeat=len(edges)):
                msf = csr_matrix(([2.5 + i for i in range(len(edges))],
                                  ([e[f] for e, f in zip(edges, way)], [e[1 - f] for e, f in zip(edges, way)])), shape=(n, n))
                d = dict(forest=[(e[f], e[1 - f]) for e, f in zip(edges, way)], areas=n, data=data, style=style, quorum=quorum)
                box = []
                err = ctx.attempt(ctl, lambda: box.append(inst.find_cut(msf, dt, quorum=quorum)))
                ctx.count("states")
                ctx.count("transitions", len(edges))
                ctx.distinct("cases", (g, data, style, quorum, way))
                if err is not None:
                    ctx.fail("find_cut fails: " + describe(err), **d)
                    return
                cut = box[0]
                if not math.isfinite(low):
                    if np.isfinite(cut.score):
                        ctx.fail("find_cut gives {} although no edge can be cut".format(cut), **d)
                        return
                    continue
                if not np.isfinite(cut.score):
                    ctx.fail("find_cut finds no cut: scores {}".format(options), **d)
                    return
                e = tuple(sorted((int(cut.in_node), int(cut.out_node))))
                if e not in options or not close(float(cut.score), options[e]) or not close(options[e], low):
                    ctx.fail("{} is not a best cut: scores {}".format(cut, options), **d)
                    return
                box = []
                err = ctx.attempt(ctl, lambda: box.append(inst.make_cut(*cut, MSF=msf.copy())))
                rest = tuple(y for y in edges if y != e)
                if err is not None or tuple(sk.forest_edges(box[0][0])) != tuple(sorted(rest)) or \
                        orc.canon(as_labels(box[0][2])) != sk.labels_of(n, rest):
                    ctx.fail("making the cut {} gives {}".format(cut, box[0] if err is None else describe(err)), **d)
                    return
    ctx.single(run)


def greedy(start, end, score):
    """Do best cuts lead from one forest to the other?"""
    if start == end:
        return True
    if len(start) <= len(end):
        return False
    options = {x: score(tuple(y for y in start if y != x)) for x in start}
    low = min(options.values())
    return any(greedy(tuple(y for y in start if y != x), end, score) for x in start
               if x not in end and options[x] <= low + 1e-9 * max(UNIT[0], abs(low)))


KINDS = (lambda l: l, lambda l: (5, -2, 9, 0, 7)[l], lambda l: ("b", "a10", "z", "A", "c")[l], lambda l: (0.5, -1.5, 2.25, 7.0, 1.0)[l])


def do_score(job, ctx):
    n, data, style = job["n"], job["data"], STYLES[job["style"]]
    dt = arr(data)

    def run(ctl):
        inst = sk.new(*style)
        for labels in itertools.product(range(min(n, 4)), repeat=n):
            want = {}
            for j, kind in enumerate(KINDS):
                named = np.array([kind(l) for l in labels])
                for quorum in (-math.inf, 1, 2, 3):
                    if quorum not in want:
                        want[quorum] = sk.score_of(data, labels, quorum, *style)
                    box = []
                    given = named.copy()
                    err = ctx.attempt(ctl, lambda: box.append(
                        inst.score(dt, given, quorum) if quorum != -math.inf else inst.score(dt, labels=given)))
                    ctx.count("states")
                    ctx.count("transitions")
                    d = dict(data=data, labels=list(named.tolist()), quorum=quorum, style=style)
                    if err is not None:
                        ctx.fail("score fails: " + describe(err), **d)
                    elif not close(float(box[0]), want[quorum]):
                        ctx.fail("score is {}, not {}".format(box[0], want[quorum]), **d)
                    elif given.tolist() != named.tolist():
                        ctx.fail("score changes the labels", **d)
                    if ctx.enough() or ctx.late():
                        return
            ctx.distinct("cases", labels)
    ctx.single(run)
    ctx.sample(areas=n, data=data, style=style)
