"""C13: the caller's data stay as they were."""
import numpy as np

from .. import explore as ex, maps, oracle as orc
from ..common import (ObjectiveFunctionCenter, ObjectiveFunctionPairwise, PAIRWISE, arr, as_labels, csr, fast_chebyshev,
                      fast_manhattan, make, rows)
from ..entries import CELLS, Desc, Rep, cell_graph
from ..explore import POLICIES
from ..job import describe
from ..snap import Watch, snap
from ..spaces import BIG, GRID23, ISL5, big_starts
from region.p_regions.exact import PRegionsExact
from region.max_p_regions.exact import MaxPRegionsExact
from region.max_p_regions.heuristics import MaxPRegionsHeu
from region.skater.skater import Spanning_Forest
from libpysal import weights
import pandas as pd

LEVEL = "model_checking"
RULE = ("Every class with every entry point, in several spellings of the arguments (arrays of floats and ints, flat or "
        "not, dicts of scalars, lists or arrays, attribute names, label arrays and dicts, scalar and vector "
        "thresholds, binary, weighted and row-standardised W), maps of up to 15 areas (SKATER 25): for every random outcome explored, deep snapshots of "
        "all arguments and of label arrays handed out before are equal before and after; SKATER's fit, score and "
        "find_cut likewise.")
ASSUMPTIONS = ["a deviation bound of 1 (2 thorough) on random outcomes; maps of more than 6 areas under five fixed policies", "contents are compared, not the storage layout"]

ATT = {3: ((0,), (5,), (1,)), 4: ((0,), (7,), (1,), (3,)), 6: ((0,), (7,), (1,), (3,), (3,), (0,))}
ATT2 = {3: ((0, 1), (5, 2), (1, 4)), 4: ((8, 6), (1, 9), (3, 7), (5, 6)), 6: ((8, 6), (1, 9), (3, 7), (5, 6), (0, 1), (3, 3))}
SP = {3: ((1, 3), (2, 1), (1, 4)), 4: ((1, 3), (2, 1), (1, 5), (1, 4)), 6: ((1, 3), (2, 1), (1, 5), (1, 4), (2, 2), (1, 1))}


def tables(n, low):
    """One and two attribute columns, two spatially extensive ones."""
    if n in ATT:
        att, att2, sp = ATT[n], ATT2[n], SP[n]
    else:
        att = tuple(((i * 7 + 3) % 11,) for i in range(n))
        att2 = tuple(((i * 7 + 3) % 11, i * i % 5 + 1) for i in range(n))
        sp = tuple((1 + i % 2, 3 + i % 3) for i in range(n))
    return tuple((x + low,) for x, in att), tuple((x + low, y - low) for x, y in att2), sp


OBJS = {"pair": lambda: PAIRWISE, "center": lambda: ObjectiveFunctionCenter(fast_manhattan, reduction=np.max),
        "cheb": lambda: ObjectiveFunctionPairwise(fast_chebyshev), None: lambda: None}
KINDS = ("matrix", "fit", "dict", "graph", "w", "gdf")
NAMING = ("ints", "strs", "negs", "flts", "idx")


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0
    for alg in (("azp",), ("bt", 2, 1), ("rt", 4, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
        for kind in KINDS:
            if kind == "fit" and alg[0] == "sa":
                continue
            for cells in ("L3", "T4", "isl4", "sq6") if alg[0] != "sa" or th else ("L3", "isl4"):
                for oi, opt in enumerate((dict(), dict(init=1, obj="pair"), dict(init=1, obj="cheb", wide=1),
                                          dict(init=1, obj="center", dtype="int", flat=1), dict(flat=1, obj="pair"))):
                    for style in range(6 if th else 2):
                        c += 1
                        if cells == "sq6" and not opt.get("init") and not th:
                            continue
                        out.append(dict(kind="heur", alg=alg, way=kind, cells=cells, style=style * 5 + c,
                                        naming=NAMING[c % 5], **opt))
    for ls in (None, ("azp",), ("bt", 2, 1), ("rt", 4, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
        for kind in KINDS:
            for cells in ("L3", "T4", "isl4") if ls is None or th else ("L3", "isl4"):
                for opt in (dict(max_it=2, obj="pair"), dict(thr=(2, 3), obj="cheb", max_it=1, wide=1),
                            dict(dtype="int", max_it=2, obj="center"), dict(thr=(1, 5), dtype="int", max_it=1)):
                    c += 1
                    out.append(dict(kind="mheu", ls=ls, way=kind, cells=cells, style=c // 3 + c, naming=NAMING[c % 5], **opt))
    for kind in KINDS:
        for cells in ("L3", "T4", "isl4"):
            for opt in (dict(), dict(metric="manhattan", method="order", dtype="int"), dict(method="tree", wide=1)):
                c += 1
                out.append(dict(kind="pex", way=kind, cells=cells, style=c // 3 + c, naming=NAMING[c % 5], **opt))
            for opt in (dict(wide=1), dict(thr=(2, 3)), dict(dtype="int", metric="manhattan")):
                c += 1
                out.append(dict(kind="mex", way=kind, cells=cells, style=c // 3 + c, naming=NAMING[c % 5], **opt))
    for cells in ("g34", "stairs", "blocks"):
        for ki, kind in enumerate(KINDS):
            for ai, alg in enumerate((("azp",), ("bt", 3, 2), ("rt", 8, 2, 1), ("sa", 1.0, 1, 1, 1, 1))):
                for oi, opt in enumerate((dict(), dict(init=1, obj="pair"), dict(init=1, obj="cheb", wide=1),
                                          dict(init=1, obj="center", dtype="int", flat=1))):
                    c += 1
                    if kind == "fit" and alg[0] == "sa" or not th and (alg[0] == "sa" and oi > 1 or c % 2):
                        continue
                    out.append(dict(kind="heur", alg=alg, way=kind, cells=cells, style=c // 2, naming=NAMING[c // 2 % 5],
                                    policy=list(POLICIES)[c // 3 % 5], **opt))
            for oi, opt in enumerate((dict(max_it=2, obj="pair"), dict(thr=(2, 6), obj="cheb", max_it=1, wide=1))):
                c += 1
                out.append(dict(kind="mheu", ls=(None, ("bt", 2, 1))[c // 2 % 2], way=kind, cells=cells, style=c // 2,
                                naming=NAMING[c // 2 % 5], policy=list(POLICIES)[c // 3 % 5], **opt))
    for inst in ("azp", "bt", "rt", "sa", "pex", "mheu", "mex", "sk"):
        for n in (4, 6):
            if inst in ("pex", "mex") and n == 6:
                continue
            out.append(dict(kind="handed", inst=inst, n=n))
    big = [g for g in BIG if g[0] <= (25 if th else 12)]
    for g in (maps.path(3), maps.cycle(4), maps.star(4), ISL5, GRID23, maps.complete(4), maps.path(6), maps.cycle(7)):
        for style in range(4):
            for wide in (0, 1):
                c += 1
                out.append(dict(kind="skater", g=g, style=style, wide=wide, off=c // (1 + c // 8 % 2) % 3))
    for i, g in enumerate(big):
        for style in range(4):
            out.append(dict(kind="skater", g=g, style=style, wide=(i + style) % 2, off=(i + style) % 3,
                            few=(2, 5, g[0] // 2)))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def options(job):
    return {k: v for k, v in job.items() if k not in ("kind", "cells", "g", "naming", "style")}


def bend(job, x):
    """The requested dtype and shape."""
    if not isinstance(x, np.ndarray):
        return x
    if job.get("dtype"):
        x = x.astype(job["dtype"])
    if job.get("flat") and x.ndim == 2 and x.shape[1] == 1:
        x = x[:, 0].copy()
    return x


def watched(ctx, job, new, call, dev, p=None, thr=None, sp=False):
    n = len(CELLS[job["cells"]])
    g = cell_graph(job["cells"])
    labels = None
    if job.get("init"):
        ls = orc.feasible_partitions(g[0], g[1], p) if n < 8 else big_starts(g, p)
        labels = tuple((4, 0, 7, 2, 5, 1)[x] for x in ls[(len(ls) - 1) * (job["style"] % 3) // 2])
    att, att2, sps = tables(n, (0, 3, -2, 0)[job["style"] // 2 % 4])
    spr = None
    if sp:
        spr = sps if job.get("thr") else tuple(r[:1] for r in sps)
    order = list(range(n))
    order = order[job["style"] % n:] + order[:job["style"] % n]
    d = Desc(g, order, job["naming"], att2 if job.get("wide") else att, spr, labels, job["cells"])

    def run(ctl):
        rep = Rep(job["way"], d, job["style"])
        rep.attr, rep.sp = bend(job, rep.attr), bend(job, rep.sp)
        t = np.array(thr, dtype=job.get("dtype", float)) if isinstance(thr, tuple) else thr
        if job["way"] in ("w",) and job["style"] % 2:
            rep.first.sparse
        inst = new()
        watch = Watch(map=rep.first, attr=rep.attr, sp=rep.sp, labels=rep.labels, threshold=t)
        err = ctx.attempt(ctl, lambda: call(inst, rep, t))
        det = dict(entry=rep.method, options=options(job), map=g, names=d.names, choices=ctl.choices())
        ctx.distinct("cases", (job["way"], d.naming, as_labels(inst.labels_)))
        if err is not None:
            ctx.fail("fit failed: " + describe(err), **det)
            return
        what = watch.changed()
        if what:
            ctx.fail(what, **det)
    st = ctx.explore(run, max_dev=0 if "policy" in job else dev, policy=job.get("policy", "first"))
    if st is not None:
        ctx.sample(entry=job["way"], map=g, options=options(job), executions=st.execs)


def do_heur(job, ctx):
    g = cell_graph(job["cells"])
    p = max(2, len(orc.connected_components(*g)) + (g[0] > 3))

    def call(inst, rep, t):
        kw = {}
        if rep.labels is not None:
            kw["initial_labels"] = rep.labels
        if job.get("obj"):
            kw["objective_func"] = OBJS[job["obj"]]()
        getattr(inst, rep.method)(rep.first, rep.attr, p, **kw)
    big = g[0] > 3 and (not job.get("init") or job["alg"][0] == "sa")
    watched(ctx, job, lambda: make(job["alg"]), call, (0 if big else 1) + (ctx.tier == "thorough"), p)


def do_mheu(job, ctx):
    def call(inst, rep, t):
        getattr(inst, rep.method)(rep.first, rep.attr, rep.sp, t, max_it=job["max_it"],
                                  objective_func=OBJS[job["obj"]]() if job.get("obj") else PAIRWISE)
    watched(ctx, job, lambda: MaxPRegionsHeu(make(job["ls"]) if job["ls"] else None, random_state=0), call,
            (0 if job["ls"] else 1) + (ctx.tier == "thorough"), thr=job.get("thr", 2), sp=True)


def do_pex(job, ctx):
    def call(inst, rep, t):
        kw = {k: job[k] for k in ("metric", "method") if job.get(k)}
        getattr(inst, rep.method)(rep.first, rep.attr, 2 if job["cells"] != "isl4" else 3, **kw)
    watched(ctx, job, PRegionsExact, call, 0)


def do_mex(job, ctx):
    def call(inst, rep, t):
        kw = {k: job[k] for k in ("metric",) if job.get(k)}
        getattr(inst, rep.method)(rep.first, rep.attr, rep.sp, t, **kw)
    watched(ctx, job, MaxPRegionsExact, call, 0, thr=job.get("thr", 2), sp=True)


ALGS = {"azp": ("azp",), "bt": ("bt", 2, 1), "rt": ("rt", 4, 1, 1), "sa": ("sa", 1.0, 1, 1, 1, 1)}


def do_handed(job, ctx):
    """Labels handed out earlier, which may serve as the next start, survive later fits."""
    n, kind = job["n"], job["inst"]
    g1, g2 = (maps.cycle(4), maps.path(4)) if n == 4 else (GRID23, maps.cycle(6))
    t1, t2 = (arr(rows((0, 3, 1, 7))), arr(rows((5, 0, 0, 2)))) if n == 4 else \
        (arr(rows((0, 3, 1, 7, 2, 2))), arr(rows((5, 0, 0, 2, 9, 1))))

    def new():
        if kind in ALGS:
            return make(ALGS[kind])
        return {"pex": PRegionsExact, "mex": MaxPRegionsExact, "mheu": lambda: MaxPRegionsHeu(random_state=0),
                "sk": Spanning_Forest}[kind]()

    def fits(inst):
        sp = np.ones((n, 1))

        def one(g, t, start):
            if kind in ALGS:
                inst.fit_from_scipy_sparse_matrix(csr(g), t, 2, initial_labels=start, objective_func=PAIRWISE)
            elif kind == "pex":
                inst.fit(csr(g), t, 2)
            elif kind in ("mex", "mheu"):
                kw = {} if kind == "mex" else dict(max_it=1, objective_func=PAIRWISE)
                inst.fit(csr(g), t, sp, 2, **kw)
            else:
                inst.fit(3, wof(g), t)
            return inst.current_labels_ if kind == "sk" else inst.labels_
        a = np.array([0, 0] + [1] * (n - 2))
        yield a
        l1 = one(g2, t1, a)
        yield l1
        l2 = one(g2, t2, l1)
        yield l2
        l3 = one(g1, t2, None)
        yield l3
        yield one(g1, t1, l3)
        if kind in ALGS:
            try:
                one(g1, t1, np.array([0, 1] * (n // 2)))
            except ValueError:
                pass

    def run(ctl):
        inst = new()
        seen = []

        def go():
            for l in fits(inst):
                seen.append((l, snap(l)))
                for i, (x, s) in enumerate(seen):
                    if snap(x) != s:
                        raise AssertionError("labels {} of fit {} became {} after fit {}".format(s[3], i, list(x), len(seen) - 1))
        err = ctx.attempt(ctl, go)
        for i, (x, s) in enumerate(seen):
            if err is None and snap(x) != s:
                err = AssertionError("labels {} of fit {} became {} in the end".format(s[3], i, list(x)))
        ctx.distinct("cases", (kind, n, tuple(str(s) for _, s in seen)))
        if err is not None:
            ctx.fail(str(err) if isinstance(err, AssertionError) else describe(err), inst=kind, areas=n, choices=ctl.choices())
    ctx.explore(run, max_dev=(1 if n == 4 or kind == "bt" else 0) + (ctx.tier == "thorough"))


def wof(g, style=0):
    nb = {a: orc.bits(m) for a, m in enumerate(orc.nbr_masks(*g))}
    kw = {}
    if style == 1:
        kw["weights"] = {a: [0.5 + b for b in nb[a]] for a in nb}
    w = weights.W(nb, silence_warnings=True, **kw)
    if style == 2 and all(nb.values()):
        w.transform = "R"
    if style == 3:
        w.sparse
    return w


def do_skater(job, ctx):
    g, n = job["g"], job["g"][0]
    low = (0, 2, -3)[job["off"]]
    col = [low + c for c in (0, 4, 1, 0, 3, 3, 1, 2)]
    col = [col[i % 8] for i in range(n)]
    data = arr([(c, (c * 3 + i) % 5 + 2 * low) for i, c in enumerate(col)] if job["wide"] else rows(col))
    isl = len(orc.connected_components(*g))

    def run(ctl):
        for dt in (float, int):
            for k in job.get("few") or range(1, n + 1):
                for kw in (dict(), dict(quorum=1, trace=True), dict(quorum=2, islands="ignore"), dict(islands="ignore")):
                    x = data.astype(dt)
                    w = wof(g, job["style"])
                    inst = Spanning_Forest()
                    if job["style"] == 1:
                        inst = Spanning_Forest(center=np.median, reduction=np.max)
                    watch = Watch(W=w, data=x)
                    err = ctx.attempt(ctl, lambda: inst.fit(k, w, x, **kw))
                    ctx.count("states")
                    ctx.count("transitions")
                    d = dict(map=g, data=x.tolist(), n_clusters=k, options=kw, style=job["style"])
                    if err is not None:
                        ctx.fail("fit failed: " + describe(err), **d)
                        return
                    labels = inst.current_labels_
                    msf = inst.minimum_spanning_forest_
                    other = np.arange(n) % 2
                    w2 = Watch(W=w, data=x, labels=labels, other=other, forest=msf)
                    ctx.distinct("cases", (g, dt.__name__, k, str(kw), as_labels(labels)))

                    def queries():
                        inst.score(x)
                        inst.score(x, labels=other)
                        inst.score(x, labels=labels, quorum=2)
                        if msf.nnz:
                            inst.find_cut(msf, x)
                            inst.find_cut(msf)
                            inst.find_cut(msf, x, quorum=2)
                            inst.find_cut(msf, x, labels=labels, target_label=labels[0])
                    err = ctx.attempt(ctl, queries)
                    what = watch.changed() or w2.changed()
                    if err is not None:
                        ctx.fail("score or find_cut failed: " + describe(err), **d)
                        return
                    if what:
                        ctx.fail(what, **d)
                        return
    ctx.single(run)
