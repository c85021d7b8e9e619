"""C17: no labels when there is no solution, or when the solver found none."""
import itertools

import numpy as np
import pulp

from .. import exactly, explore as ex, maps, oracle as orc, solver as sv
from ..common import PAIRWISE, arr, as_labels, csr, make, rows
from ..entries import Desc, Rep, cell_graph
from ..job import describe
from ..maxp import thr_of, thr_row
from ..spaces import ISL5, ISL6B, comps
from region.p_regions.exact import PRegionsExact
from region.max_p_regions.exact import MaxPRegionsExact
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("Requests without solution: every disconnected graph up to 4 areas (all node labellings up to 3) and some with 5 "
        "and 6, every p below the number of islands and every exact method; every threshold pattern some island cannot "
        "reach, one or several attributes; MaxPRegionsHeu under every random outcome (deviation-bounded on 5 areas).  The "
        "integer program is searched exhaustively for solutions the solver might report.  Solvers without an answer: "
        "every solver name, method, entry point, every status other than optimal, every kind of variable values left "
        "behind (none, zeros, ones, a feasible or an optimal solution), on new and on fitted instances.")
ASSUMPTIONS = ["heuristic on 5 and more areas: deviation bound 2 (3 thorough) on random outcomes"]

METHODS = ("flow", "order", "tree")
SOLVERS = ("cbc", "cplex", "glpk", "gurobi")
STATUSES = (pulp.LpStatusNotSolved, pulp.LpStatusInfeasible, pulp.LpStatusUnbounded, pulp.LpStatusUndefined)
VALUES = ("none", "zeros", "ones", "real", "near", "half")
COL = (0, 3, 1, 7, 2, 9)
# spatially extensive rows: one or two attributes
SP = {1: ((0,), (1,), (2, 1)), 2: ((1, 0), (0, 2), (2, 0))}


def columns(n, th):
    """Spatially extensive tables."""
    vals = (0, 1, 2)
    if n <= 2 or (th and n == 3):
        return [rows(c) for c in itertools.product(vals, repeat=n)] + \
            [((1, 0), (0, 2))[:n], ((1, 2), (2, 0))[:n]]
    return [rows(((1, 1, 1, 1), (0, 2, 1, 0), (3, 0, 0, 1))[k][:n] if n <= 4 else (1, 2, 0, 1, 3, 1)[:n])
            for k in range(3 if n <= 4 else 1)] + \
        [((1, 0), (0, 2), (1, 1), (2, 0), (1, 1), (1, 1))[:n]]


def island_min(g, sp):
    """Per attribute, the least island total."""
    return [min(sum(sp[i][k] for i in orc.bits(comp)) for comp in orc.connected_components(*g)) for k in range(len(sp[0]))]


def unreachable(g, sp):
    """Thresholds some island cannot reach."""
    out = []
    low = island_min(g, sp)
    if len(low) == 1:
        total = sum(r[0] for r in sp)
        for t in {low[0] + 1, low[0] + 0.5, total + 1}:
            out.append(t)
    else:
        out.append((low[0] + 1, 0))
        out.append((0, low[1] + 1))
        out.append(max(low) + 1)
        out.append(tuple(min(x, 1) for x in low[:-1]) + (low[-1] + 0.5,))
    return sorted(out, key=str)


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in (2, 3, 4, 5, 6):
        gs = list(maps.all_labelled(n)) if n <= 3 or th and n == 4 else list(maps.graphs(4)) if n == 4 else \
            [g for g in maps.graphs(5) if comps(g) > 1] if th and n == 5 else [ISL5] if n == 5 else [ISL6B]
        if n == 4 and not th:
            gs += [maps.interleaved(maps.path(2), maps.path(2)), maps.interleaved(maps.path(3), maps.path(1))]
        for i, g in enumerate(gs):
            for p in range(1, comps(g)) if n < 6 or th else (1,):
                for method in METHODS:
                    out.append(dict(kind="few", g=g, p=p, method=method, way=(i + p) % 4))
            for j, sp in enumerate(columns(n, th)):
                for k, thr in enumerate(unreachable(g, sp)):
                    if n >= 4 and not th and (i + j + k) % 2:
                        continue
                    if n <= 5:
                        out.append(dict(kind="unreach", g=g, sp=sp, thr=thr, way=(i + j + k) % 4))
                    if n <= 4 or k == 0:
                        out.append(dict(kind="heu", g=g, sp=sp, thr=thr,
                                        dev=None if n <= 3 or len(g[1]) < n and n == 4 else 3 if th else 2,
                                        ls=(None, ("azp",), ("bt", 2, 1), ("rt", 3, 1, 1), ("sa", 1.0, 1, 1, 1, 1))[(i + j + k) % 5]))
    for cls in ("p", "mp"):
        for method in METHODS if cls == "p" else ("",):
            for s in SOLVERS:
                for way in ("matrix", "fit", "dict", "graph", "w", "gdf"):
                    out.append(dict(kind="status", cls=cls, method=method, solver=s, way=way))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


OTHER = (maps.path(3), rows((0, 3, 1)), rows((1, 2, 1)))


def fitted(inst):
    """A previous, successful fit."""
    g, at, sp = OTHER
    if isinstance(inst, PRegionsExact):
        inst.fit_from_scipy_sparse_matrix(csr(g), arr(at), 2, method="order")
    elif isinstance(inst, MaxPRegionsExact):
        inst.fit_from_scipy_sparse_matrix(csr(g), arr(at), arr(sp), 2)
    else:
        inst.fit_from_scipy_sparse_matrix(csr(g), arr(at), arr(sp), 2, max_it=1, objective_func=PAIRWISE)


def exact_without_solution(ctx, new, fit, fitted_too, detail):
    """fit(inst) must raise whatever the solver says; the program must have no solution to report."""
    for state in (False, True) if fitted_too else (False,):
        def run(ctl):
            box = []

            def go():
                inst = new()
                if state:
                    fitted(inst)
                box[:] = [inst, as_labels(inst.labels_)]
                fit(inst)
            models = []

            def handler(call):
                models.append(exactly.milp.Model(call.lp))
                return call.real()

            def prepared():
                inst = new()
                if state:
                    fitted(inst)
                box[:] = [inst, as_labels(inst.labels_)]
            ctx.attempt(ctl, prepared)
            with sv.handled(handler), exactly.milp.reads():
                err = ctx.attempt(ctl, lambda: fit(box[0]))
            judge(ctx, box, err, dict(detail, fitted_before=state, solver_says="CBC's answer"))
            if not models or not models[0].integer:
                return
            m = models[0]
            try:
                v = m.minimum(60000)
            except exactly.milp.TooBig:
                ctx.count("not_enumerated")
                return
            ctx.count("states", m.nodes + 1)
            ctx.count("transitions", m.nodes)
            ctx.count("infeasible_programs", v is None)
            if v is None:
                return
            # an answer the solver may give
            sol = m.completion(list(m.lo), list(m.hi), 60000)
            plan = exactly.Plan()
            plan.models = [m]
            err = exactly.answer(ctx, ctl, lambda: fit(box[0]), plan, sol, 0)
            judge(ctx, box, err, dict(detail, fitted_before=state, solver_says="a solution of the program"))
        ctx.single(run)
        if ctx.enough():
            return
    ctx.sample(**detail)


def judge(ctx, box, err, det):
    inst, have = box
    now = as_labels(inst.labels_)
    ctx.distinct("cases", tuple(sorted((k, str(v)) for k, v in det.items())))
    if err is None:
        ctx.fail("labels {} although there is no solution".format(now), **det)
    elif now != have:
        ctx.fail("labels became {} (were {}) in a failing fit".format(now, have), **det)
    elif not isinstance(err, Exception):
        ctx.fail("did not end: " + describe(err), **det)


def do_few(job, ctx):
    g, p = job["g"], job["p"]
    n = g[0]
    at = arr(rows(COL[:n]))
    exact_without_solution(
        ctx, PRegionsExact,
        lambda inst: inst.fit_from_scipy_sparse_matrix(csr(g), at.copy(), p, method=job["method"]),
        job["way"] % 2, dict(map=g, p=p, method=job["method"]))


def do_unreach(job, ctx):
    g, sp, thr = job["g"], job["sp"], job["thr"]
    n = g[0]
    assert orc.max_p_optimum(g[0], g[1], sp, thr_row(thr, len(sp[0])), [[0] * n] * n) is None
    at = arr(rows((COL if job["way"] % 3 else (1,) * 6)[:n]))
    ints = job["way"] == 1
    exact_without_solution(
        ctx, MaxPRegionsExact,
        lambda inst: inst.fit_from_scipy_sparse_matrix(csr(g), at.copy(), arr(sp, int if ints else float), thr_of(thr)),
        job["way"] % 2, dict(map=g, spatially_extensive=sp, threshold=thr))


def do_heu(job, ctx):
    g, sp, thr, ls = job["g"], job["sp"], job["thr"], job["ls"]
    n = g[0]
    at = arr(rows(COL[:n]))
    for state, max_it in ((False, 1), (True, 2)):
        def run(ctl):
            inst = MaxPRegionsHeu(local_search=None if ls is None else make(ls), random_state=0)
            if state:
                ctx.attempt(ex.Follow((0, 1)), lambda: fitted(inst))
            box = [inst, as_labels(inst.labels_)]
            err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                csr(g), at.copy(), arr(sp), thr_of(thr), max_it=max_it, objective_func=PAIRWISE))
            judge(ctx, box, err, dict(map=g, spatially_extensive=sp, threshold=thr, local_search=ls, max_it=max_it,
                                      fitted_before=state))
        ctx.explore(run, max_dev=job["dev"] if max_it == 1 else 1)
        if ctx.enough() or ctx.late():
            return


def do_status(job, ctx):
    """The solver ends without an optimal solution."""
    way, cls = job["way"], job["cls"]
    g = cell_graph("sq4") if way == "gdf" else maps.path(4)
    d = Desc(g, (2, 0, 3, 1), "strs" if way == "dict" else "ints", rows((0, 3, 1, 7)), rows((1, 2, 0, 3)), None,
             "sq4" if way == "gdf" else None)
    rep = Rep(way, d, 0)
    new = PRegionsExact if cls == "p" else MaxPRegionsExact

    def fit(inst, solver):
        if cls == "p":
            getattr(inst, rep.method)(rep.first, rep.attr, 2, method=job["method"], solver=solver)
        else:
            getattr(inst, rep.method)(rep.first, rep.attr, rep.sp, 3, solver=solver)
    spelled = job["solver"] if len(way) % 2 else job["solver"].upper()
    asked = []

    def run(ctl):
        for status in STATUSES:
            for values in VALUES:
                for state in (False, True):
                    if ctx.tier != "thorough" and (way, job["solver"]) != ("matrix", "cbc") and \
                            (STATUSES.index(status) + VALUES.index(values) + state) % 3:
                        continue
                    box = []

                    def prepare():
                        inst = new()
                        if state:
                            fitted(inst)
                        box[:] = [inst, as_labels(inst.labels_)]

                    def handler(call):
                        lp = call.lp
                        asked.append(call.name)
                        vs = lp.variables()
                        if values in ("real", "near", "half"):
                            call.real()
                        for i, v in enumerate(vs):
                            if values == "none":
                                v.varValue = None
                            elif values in ("zeros", "ones"):
                                v.varValue = float(values == "ones")
                            elif values == "near" and v.varValue is not None:
                                v.varValue += 1e-6
                            elif values == "half" and i % 2:
                                v.varValue = None
                        lp.status = status
                        return status
                    ctx.attempt(ctl, prepare)
                    with sv.handled(handler):
                        err = ctx.attempt(ctl, lambda: fit(box[0], spelled))
                    ctx.count("states")
                    ctx.count("transitions")
                    judge(ctx, box, err, dict(entry=rep.method, method=job["method"], solver=spelled, values_left=values,
                                              solver_status=pulp.LpStatus[status], fitted_before=state))
                    if ctx.enough():
                        return
        if set(asked) - {job["solver"]}:
            ctx.count("other_solver_asked")
    ctx.single(run)
    ctx.sample(entry=rep.method, method=job["method"], solver=job["solver"])
