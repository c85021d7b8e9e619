"""C10: every entry point means the same map."""
import itertools

import numpy as np

from .. import entries, explore as ex, maps, oracle as orc, solver as sv
from ..common import (AZP, AllowMoveStrategy, ObjectiveFunctionCenter, ObjectiveFunctionPairwise, PAIRWISE, as_labels, csr_of_kind,
                      fast_chebyshev, fast_manhattan, make)
from ..entries import CELLS, Desc, Rep, cell_graph
from ..job import describe
from ..spaces import GRID23, HOUSE, ISL5, ISL6, big_starts, comps
from region.p_regions.exact import PRegionsExact
from region.max_p_regions.exact import MaxPRegionsExact
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("Maps up to 5 areas, listed in every order (3-4 areas) under several namings, described as dict, networkx "
        "graph, W and GeoDataFrame and fitted with every class and every optional argument; for each random "
        "outcome explored on the matrix entry point (row order = the representation's order) the other entry "
        "point runs under the same outcomes and has to give each area the same region; for the exact classes "
        "the solver asked, the recorded method and solver and the partition are compared.  Arrays of eleven numeric "
        "types and matrices with stored zeros or self-neighbors are compared with 64 bit floats and plain matrices.")
ASSUMPTIONS = ["orders are exhaustive for 3 and 4 areas, deviation bound 1 on random outcomes (2 thorough)",
               "maps of 11 to 15 areas: three orders, five fixed ways of answering random draws",
               "CBC itself is trusted to be deterministic"]

LARGE = ("g34", "stairs", "blocks")
AT1 = {3: ((0,), (5,), (1,)), 4: ((0,), (7,), (1,), (3,)), 5: ((0,), (7,), (1,), (3,), (12,))}
MET4 = ((8, 6), (1, 9), (3, 7), (5, 6))     # the optimum differs between the metrics
AT2 = {3: ((0, 1), (5, 2), (1, 4)), 4: MET4, 5: ((8, 6), (1, 9), (3, 7), (5, 6), (2, 2))}
LAB = {3: (4, 0, 4), 4: (1, 3, 3, 3), 5: (2, 5, 2, 5, 9)}
CENTER = ObjectiveFunctionCenter(fast_manhattan, reduction=np.max)
CHEB = ObjectiveFunctionPairwise(fast_chebyshev)
OBJS = {"pair": PAIRWISE, "center": CENTER, "cheb": CHEB, None: None}
for n_ in (11, 12, 15):
    AT1[n_] = tuple((i * 7 % 11 + i // 4,) for i in range(n_))
    AT2[n_] = tuple((i * 7 % 11, (i * i + 3) % 13) for i in range(n_))
NAMING = ("ints", "strs", "negs", "tups", "flts", "idx")


def orders(n, tier):
    perms = list(itertools.permutations(range(n)))
    if n <= 3 or tier == "thorough":
        return perms
    return perms[::4] + [perms[-1]] if n == 4 else perms[::23][:6]


def feasible_labels(g, p, k=0):
    """A feasible start with odd region names."""
    ls = orc.feasible_partitions(g[0], g[1], p) if g[0] < 7 else big_starts(g, p)
    l = ls[(len(ls) - 1) * k // 2] if ls else None
    return None if l is None else tuple((4, 0, 7, 2, 5, 1, 3, 6, 8, 9)[x] for x in l)


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0
    plain = [("L3", None), ("T4", None), ("zig4", None), ("isl4", None), ("sq4", None), ("diag3", None)]
    for alg in (("azp",), ("bt", 2, 1), ("rt", 4, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
        opts = [dict(), dict(init=1, obj="pair"), dict(obj="cheb"), dict(init=1, obj="center")]
        if alg[0] == "sa":
            opts += [dict(init=1, cool=0.3, obj="pair"), dict(cool=0.99, obj="pair")]
        for cells, _ in plain:
            n = len(CELLS[cells])
            for oi, opt in enumerate(opts):
                if alg[0] == "sa" and n == 4 and not th and cells != "T4":
                    continue
                for i, order in enumerate(orders(n, tier)):
                    if not th and n == 4 and (i + oi) % 2 and opt.get("obj") != "cheb":
                        continue
                    if alg[0] == "sa" and not th and i % 3:
                        continue
                    c += 1
                    out.append(dict(kind="heur", alg=alg, cells=cells, order=order, naming=NAMING[c % 6],
                                    style=c // 6 + c, **opt))
        if alg[0] == "sa":
            # worsening moves denied by default: the objective decides; or drawn at 0.3: the temperature does
            for cells in ("L3", "row3", "T4", "sq4", "zig4"):
                for i, order in enumerate(orders(len(CELLS[cells]), tier)):
                    if not th and (i % 2 and len(CELLS[cells]) == 4 or i % 3 == 1):
                        continue
                    for opt in (dict(obj="cheb", reals=(0.999999, 0.0)), dict(obj="center", reals=(0.999999, 0.0)),
                                dict(cool=0.1, obj="pair", reals=(0.3, 0.0), alg=("sa", 1.0, 3, 1, 2, 2)),
                                dict(cool=0.2, reals=(0.1, 0.0), alg=("sa", 2.0, 2, 1, 2, 1))):
                        c += 1
                        out.append(dict(dict(kind="heur", alg=alg, cells=cells, order=order, naming=NAMING[c % 6],
                                             style=c // 6 + c, init=1), **opt))
        for g in (ISL5, HOUSE):
            for i, order in enumerate(orders(5, "quick")):
                c += 1
                if alg[0] == "sa" and i % 3:
                    continue
                out.append(dict(kind="heur", alg=alg, g=g, order=order, naming=NAMING[c % 6], style=c // 6 + c,
                                **opts[c % len(opts)]))
    for cells in ("L3", "T4", "sq4", "isl4"):
        n = len(CELLS[cells])
        eo = [dict(), dict(metric="manhattan"), dict(method="order"), dict(method="TREE", solver="glpk"),
              dict(metric="cosine", method="tree"), dict(metric="fastcheb", solver="Gurobi"), dict(solver="cplex")]
        for i, order in enumerate(orders(n, tier)):
            for oi, opt in enumerate(eo):
                if not th and (i + oi) % (3 if n == 4 else 2):
                    continue
                c += 1
                out.append(dict(kind="pex", cells=cells, order=order, naming=NAMING[c % 6], style=c // 6 + c, **opt))
        for i, order in enumerate(orders(n, tier)):
            for oi, opt in enumerate((dict(), dict(metric="manhattan"), dict(solver="glpk", thr=1),
                                      dict(metric="fastcheb", thr=(2, 3)), dict(solver="CPLEX", thr=(1, 5)))):
                if not th and (i + oi) % 4:
                    continue
                c += 1
                out.append(dict(kind="mex", cells=cells, order=order, naming=NAMING[c % 6], style=c // 6 + c, **opt))
    for cells in ("L3", "T4", "sq4", "isl4"):
        n = len(CELLS[cells])
        for i, order in enumerate(orders(n, tier)):
            for oi, opt in enumerate((dict(), dict(max_it=1), dict(max_it=2, obj="cheb"), dict(max_it=2, thr=(2, 3)),
                                      dict(max_it=3, thr=(1, 5), obj="center"), dict(ls=("sa", 1.0, 1, 1, 1, 1), max_it=1),
                                      dict(ls=("bt", 2, 1), max_it=2), dict(ls="still", max_it=1))):
                if not th and n == 4 and (i + oi) % 3:
                    continue
                c += 1
                out.append(dict(kind="mheu", cells=cells, order=order, naming=NAMING[c % 6], style=c // 6 + c, **opt))
    for ci, cells in enumerate(LARGE):
        n = len(CELLS[cells])
        for i, order in enumerate((list(range(n)), list(range(n))[::-1], [(a * 7 + 2) % n for a in range(n)])):
            for qi, policy in enumerate(("first", "last", "mid", "turns", "zigzag")):
                for ai, alg in enumerate((("azp",), ("bt", 3, 2), ("rt", 8, 2, 1), ("sa", 1.0, 1, 1, 1, 1))):
                    for oi, opt in enumerate((dict(init=1, obj="pair"), dict(obj="cheb"), dict(init=1))):
                        if alg[0] == "sa" and oi:
                            continue
                        if alg[0] == "sa":
                            opt = dict(opt, cool=0.3)
                        if th or (ci + i + qi + ai + oi) % 5 == 0:
                            c += 1
                            out.append(dict(kind="heur", alg=alg, cells=cells, order=order, naming=NAMING[c % 6], style=c // 6 + c,
                                            policy=policy, **opt))
                for oi, opt in enumerate((dict(max_it=2, obj="pair"), dict(max_it=1, thr=(2, 3)), dict(ls=("bt", 2, 1), max_it=1, thr=4))):
                    if th or (ci + i + qi + oi) % 3 == 0:
                        c += 1
                        out.append(dict(kind="mheu", cells=cells, order=order, naming=NAMING[c % 6], style=c // 6 + c,
                                        policy=policy, **opt))
    out += type_jobs(th)
    return out


# attributes with many areas per value of small types: sums, differences and squares leave the type's range
VALUES = {"uint8": (200, 250, 3, 4, 190, 100), "int8": (100, -120, 3, 127, -90, 50), "int16": (32000, -30000, 7, 32767, -9, 150),
          "uint16": (65000, 20, 64000, 7, 33000, 150), "int32": (2 * 10 ** 9, -2 * 10 ** 9, 5, 10 ** 9, 0, 7), "uint32": (4 * 10 ** 9, 5, 0, 9, 3 * 10 ** 9, 1),
          "int64": (2 ** 40, 3, 2 ** 41, -7, 0, 2 ** 40 + 5), "uint64": (2 ** 40, 3, 2 ** 41, 9, 0, 2 ** 40 + 5), "float32": (0.5, 2.25, 0, 8.5, 7, 1),
          "float16": (0.5, 2.25, 0, 60000, 7, 1), "bool": (1, 0, 0, 1, 1, 0)}
EXTENTS = {"uint8": (100, 200, 50, 250, 100, 60), "int8": (100, 120, 50, 127, 90, 60), "int16": (30000, 20000, 9000, 32767, 15000, 12000),
           "uint16": (60000, 40000, 20000, 65000, 30000, 25000), "int32": (2 * 10 ** 9, 10 ** 9, 10 ** 9, 2 * 10 ** 9, 1500 * 10 ** 6, 10 ** 9),
           "uint32": (4 * 10 ** 9, 10 ** 9, 2 * 10 ** 9, 3 * 10 ** 9, 10 ** 9, 10 ** 9), "int64": (2 ** 40, 2 ** 41, 2 ** 40, 2 ** 41, 2 ** 39, 2 ** 40),
           "float32": (0.5, 1.25, 2, 0.75, 1, 1), "bool": (1, 1, 0, 1, 1, 1)}
LIMIT = {"uint8": (260, 300), "int8": (130, 200), "int16": (33000, 40000), "uint16": (70000, 90000), "int32": (2200 * 10 ** 6, 3 * 10 ** 9),
         "uint32": (4400 * 10 ** 6, 5 * 10 ** 9), "int64": (2 ** 41, 2 ** 41 + 2 ** 40), "float32": (1.5, 2), "bool": (2, 3)}
MAPS6 = (GRID23, ISL6, maps.cycle(6))
MATRICES = ("float64", "int64", "bool", "int8", "uint8", "float32", "zeros", "loops", "more zeros")


def type_jobs(th):
    out = []
    c = 0
    for gi, g in enumerate(MAPS6):
        for alg in (("azp",), ("bt", 3, 1), ("rt", 6, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
            for dt in VALUES:
                for center in (0, 1):
                    c += 1
                    if th or (c + gi) % 3 == 0:
                        out.append(dict(kind="types", what="p", g=g, alg=alg, at=dt, center=center, matrix=c % 9, c=c))
        for dt in EXTENTS:
            for thr in LIMIT[dt]:
                if any(sum(EXTENTS[dt][a] for a in range(6) if isl >> a & 1) < thr for isl in orc.connected_components(*g)):
                    continue        # no partition possible
                for ls in (None, ("bt", 2, 1)):
                    c += 1
                    out.append(dict(kind="types", what="m", g=g, ls=ls, at=list(VALUES)[c % len(VALUES)], sp=dt, thr=thr, matrix=c % 9, c=c))
    for dt in VALUES:
        for method in ("flow", "order", "tree"):
            c += 1
            out.append(dict(kind="types", what="pex", g=(maps.path(4), maps.cycle(4))[c % 2], at=dt, method=method, matrix=c % 6, c=c))
    for dt in EXTENTS:
        for thr in LIMIT[dt]:
            c += 1
            out.append(dict(kind="types", what="mex", g=(maps.path(4), maps.cycle(4))[c % 2], at=list(VALUES)[c % len(VALUES)], sp=dt, thr=thr,
                            matrix=c % 6, c=c))
    return out


def do_types(job, ctx):
    """Arrays of other numeric types with the same values."""
    g, c, what = job["g"], job["c"], job["what"]
    n = g[0]
    at = [VALUES[job["at"]][(i + c) % 6] for i in range(n)]
    p = comps(g) + 1 + c % 2
    start = feasible_labels(g, p, c % 3) if what == "p" and c % 4 else None
    flat = what == "p" and c % 5 == 0
    metric = "manhattan" if job["at"] in ("float16", "float32") else ("manhattan", "euclidean")[c % 2]   # no roundings

    def call(typed):
        a = np.array(at, dtype=job["at"] if typed else float)
        a = a if flat else a.reshape(-1, 1)
        m = csr_of_kind(g, MATRICES[job["matrix"]] if typed else "float64")
        if what == "p":
            inst = make(job["alg"])
            k = (np.int64, np.int8, np.uint8, np.int32, int)[c % 5](p) if typed else p
            inst.fit_from_scipy_sparse_matrix(
                m, a, k, initial_labels=None if start is None else
                np.array(start, dtype=("int8", "uint8", "float32", "int32", "uint64", float)[c % 6] if typed else int),
                objective_func=ObjectiveFunctionCenter(metric) if job["center"] else ObjectiveFunctionPairwise(metric))
            return inst.labels_
        if what == "pex":
            inst = PRegionsExact()
            inst.fit_from_scipy_sparse_matrix(m, a, 2, method=job["method"], metric=metric)
            return inst.labels_
        sp = np.array(EXTENTS[job["sp"]][:n], dtype=job["sp"] if typed else float).reshape(-1, 1)
        thr = job["thr"]
        if typed:
            thr = (thr, float(thr), np.float64(thr), np.array([thr]), np.array([thr], dtype=float), np.float32(thr))[c % 6]
        if what == "mex":
            inst = MaxPRegionsExact()
            inst.fit_from_scipy_sparse_matrix(m, a, sp, thr, metric=metric)
            return inst.labels_
        inst = MaxPRegionsHeu(make(job["ls"]) if job["ls"] else None, random_state=0)
        inst.fit_from_scipy_sparse_matrix(m, a, sp, thr, max_it=2)
        return inst.labels_

    def run(ctl):
        box = []
        e1 = ctx.attempt(ctl, lambda: box.append(call(False)))
        e2 = ctx.attempt(ex.Follow(ctl.choices()), lambda: box.append(call(True)))
        d = dict(map=g, attr=at, start=start, options=options(job))
        ctx.distinct("cases", (what, c, str(box)))
        for e, with_ in ((e1, "64 bit floats"), (e2, "other types")):
            if e is not None:
                ctx.fail("failed with {}: {}".format(with_, describe(e)), **d)
                return
        if as_labels(box[0]) != as_labels(box[1]):
            ctx.fail("{} with {} as attributes and a matrix of the kind '{}', {} with 64 bit floats".format(
                as_labels(box[1]), job["at"], MATRICES[job["matrix"]], as_labels(box[0])), **d)
    ctx.explore(run, max_dev=0 if what in ("pex", "mex") or job.get("alg", ("",))[0] == "sa" else 1)
    ctx.sample(map=g, options=options(job))


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def variants(job):
    """(kind, contiguity) of the representations to compare."""
    out = [(k, None) for k in ("dict", "graph", "w")]
    if "cells" in job:
        out.append(("gdf", None))
        out.append(("gdf", ("queen", "Queen", "ROOK", "rook")[job["style"] % 4]))
    return out


def descs(job, attr, sp=None, p=None):
    for kind, cont in variants(job):
        g = job["g"] if "g" in job else cell_graph(job["cells"], "queen" if cont and cont.lower() == "queen"
                                                   else "rook")
        labels = feasible_labels(g, p(g), job["style"] % 3) if p and job.get("init") else None
        naming = job["naming"]
        if kind == "w" and naming == "tups":
            naming = "strs"
        yield kind, cont, Desc(g, job["order"], naming, attr, sp, labels, job.get("cells"))


def compare(ctx, job, kind, cont, d, new, call, dev, extra=lambda inst: None):
    """call(inst, rep, **kw) fits; explores the reference and replays the other entry point."""
    rep0 = Rep(kind, d, job["style"])
    reals = job.get("reals", (0.0, 0.999999))

    def run(ctl):
        # fresh arguments for each run: representations are built inside
        rep = Rep(kind, d, job["style"])
        ref = rep.reference()
        a = new()
        e1 = ctx.attempt(ctl, lambda: call(a, ref, {}))
        la = as_labels(a.labels_)
        b = new()
        fo = ex.Follow(ctl.choices(), reals=reals)
        kw = {} if cont is None else {"contiguity": cont}
        e2 = ctx.attempt(fo, lambda: call(b, rep, kw))
        lb = as_labels(b.labels_)
        ctx.distinct("cases", (kind, cont, d.order, d.naming, la))
        det = dict(entry=rep.method, contiguity=cont, options=options(job), map=d.g,
                   order=[d.names[x] for x in d.order], attr=d.attr, start=d.labels,
                   choices=ctl.choices())
        if e1 is not None:
            if e2 is None:
                ctx.fail("the matrix entry point failed but {} did not: {}".format(rep.method, describe(e1)), **det)
            else:
                ctx.fail("both entry points failed: " + describe(e1), **det)
            return
        if e2 is not None:
            ctx.fail("{} failed: {}".format(rep.method, describe(e2)), **det)
            return
        if lb is None or len(lb) != d.g[0]:
            ctx.fail("labels_ is {}".format(lb), **det)
            return
        if orc.canon(ref.by_area(la)) != orc.canon(rep.by_area(lb)):
            ctx.fail("{} put the areas {} into {} and the matrix entry point into {}".format(
                rep.method, d.names, rep.by_area(lb), ref.by_area(la)), **det)
            return
        x1, x2 = extra(a), extra(b)
        if x1 != x2:
            ctx.fail("{} ran with {} instead of {}".format(rep.method, x2, x1), **det)
    st = ctx.explore(run, max_dev=0 if "policy" in job else dev, reals=reals, policy=job.get("policy", "first"))
    if st is not None:
        ctx.sample(entry=rep0.method, map=d.g, order=d.order, naming=d.naming, options=options(job),
                   executions=st.execs)


def options(job):
    return {k: v for k, v in job.items() if k not in ("kind", "cells", "g", "order", "naming", "style")}


def do_heur(job, ctx):
    n = len(job["order"])
    attr = AT2[n] if job.get("obj") == "cheb" else AT1[n]
    alg = job["alg"]

    def islands(g):
        return max(2, len(orc.connected_components(*g)) + (3 if n > 6 else 1 if n > 3 else 0))

    def call(inst, rep, kw):
        kw = dict(kw)
        if rep.labels is not None:
            kw["initial_labels"] = rep.labels
        if job.get("obj"):
            kw["objective_func"] = OBJS[job["obj"]]
        if job.get("cool"):
            kw["cooling_factor"] = job["cool"]
        p = islands(rep.d.g)
        getattr(inst, rep.method)(rep.first, rep.attr, p, **kw)
    dev = 1
    if ctx.tier == "thorough" and alg[0] in ("bt", "rt") or job.get("init") and n == 3 and alg[0] != "sa":
        dev = 2
    if alg[0] == "sa" and n > 3 or not job.get("init") and n > 4:
        dev = 0 if ctx.tier != "thorough" else 1
    if job.get("cool") and job.get("reals"):
        dev = 1 if ctx.tier == "thorough" else 0
    for kind, cont, d in descs(job, attr, p=islands):
        compare(ctx, job, kind, cont, d, lambda: make(alg), call, dev)
        if ctx.enough() or ctx.late():
            return


METRICS = {"fastcheb": fast_chebyshev}


def do_pex(job, ctx):
    n = len(job["order"])
    log = []

    def handler(c):
        log.append(c.name)
        return c.real()

    def call(inst, rep, kw):
        kw = dict(kw)
        for k in ("method", "solver"):
            if job.get(k):
                kw[k] = job[k]
        if job.get("metric"):
            kw["metric"] = METRICS.get(job["metric"], job["metric"])
        del log[:]
        with sv.handled(handler):
            getattr(inst, rep.method)(rep.first, rep.attr, 2 if n < 4 or job["cells"] != "isl4" else 3, **kw)
        inst.seen = tuple(log)

    def extra(inst):
        return (inst.seen, inst.method, inst.solver, inst.metric, inst.n_regions)
    for kind, cont, d in descs(job, AT2[n]):
        compare(ctx, job, kind, cont, d, PRegionsExact, call, 0, extra)
        if ctx.enough() or ctx.late():
            return


SP = {n_: tuple((1 + i % 3, 1 + i * 5 % 4) for i in range(n_)) for n_ in (11, 12, 15)}
SP.update({3: ((1, 3), (2, 1), (1, 4)), 4: ((1, 3), (2, 1), (1, 5), (1, 4))})


def do_mex(job, ctx):
    n = len(job["order"])
    log = []

    def handler(c):
        log.append(c.name)
        return c.real()
    thr = job.get("thr", 2)
    sp = SP[n] if isinstance(thr, tuple) else tuple(r[:1] for r in SP[n])
    thr = np.array(thr) if isinstance(thr, tuple) else thr

    def call(inst, rep, kw):
        kw = dict(kw)
        if job.get("solver"):
            kw["solver"] = job["solver"]
        if job.get("metric"):
            kw["metric"] = METRICS.get(job["metric"], job["metric"])
        del log[:]
        with sv.handled(handler):
            getattr(inst, rep.method)(rep.first, rep.attr, rep.sp, thr, **kw)
        inst.seen = tuple(log)

    def extra(inst):
        return (inst.seen, inst.metric)
    for kind, cont, d in descs(job, AT2[n], sp):
        compare(ctx, job, kind, cont, d, MaxPRegionsExact, call, 0, extra)
        if ctx.enough() or ctx.late():
            return


class Still(AllowMoveStrategy):
    """Allows no move, so the constructed partitions show in the result."""

    def __call__(self, *args):
        return False


def do_mheu(job, ctx):
    n = len(job["order"])
    thr = job.get("thr", 2)
    sp = SP[n] if isinstance(thr, tuple) else tuple(r[:1] for r in SP[n])
    thr = np.array(thr) if isinstance(thr, tuple) else thr
    attr = AT2[n] if job.get("obj") == "cheb" else AT1[n]

    def new():
        ls = job.get("ls")
        local = AZP(allow_move_strategy=Still(), random_state=0) if ls == "still" else make(ls) if ls else None
        return MaxPRegionsHeu(local_search=local, random_state=0)

    def call(inst, rep, kw):
        kw = dict(kw)
        if job.get("max_it"):
            kw["max_it"] = job["max_it"]
        if job.get("obj"):
            kw["objective_func"] = OBJS[job["obj"]]
        getattr(inst, rep.method)(rep.first, rep.attr, rep.sp, thr, **kw)
    dev = 2 if job.get("ls") == "still" else 1 if job.get("max_it") and not job.get("ls") else 0
    for kind, cont, d in descs(job, attr, sp):
        compare(ctx, job, kind, cont, d, new, call, dev)
        if ctx.enough() or ctx.late():
            return
