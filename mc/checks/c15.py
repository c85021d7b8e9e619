"""C15: a fit that fails midway leaves the previous result intact."""
import numpy as np

from .. import explore as ex, maps, oracle as orc, solver as sv
from ..common import (AllowMoveAZP, AllowMoveAZPSimulatedAnnealing, AllowMoveStrategy, AZP, AZPBasicTabu, AZPReactiveTabu,
                      ObjectiveFunctionCenter, ObjectiveFunctionPairwise, PAIRWISE, arr, as_labels, csr,
                      fast_manhattan, make, rows)
from ..entries import Desc, Rep, cell_graph
from ..job import describe
from ..snap import Watch, snap
from ..spaces import GRID23, HOUSE, ISL5
from region.p_regions.exact import PRegionsExact
from region.max_p_regions.exact import MaxPRegionsExact
from region.max_p_regions.heuristics import MaxPRegionsHeu
from region.objective_function import ObjectiveFunction
from region.skater.skater import Spanning_Forest
from libpysal import weights
import pulp

LEVEL = "fault_enumeration"
RULE = ("For every class, callable role (metric, objective function, acceptance strategy, SKATER dissimilarity, center "
        "and reduction) and explored random outcome: the number N of calls during the whole fit is counted and the "
        "fit is run again N times, raising at call 1..N; likewise every way the solver backend can fail. Each time "
        "the very exception reaches the caller, labels_ and all arguments are as before, on a new and on a fitted "
        "instance, and a further fit gives what a new instance gives.")
ASSUMPTIONS = ["one fault per fit (two in a row on the same instance)", "deviation bound 1 on random outcomes (2 thorough)"]


class Boom(Exception):
    pass


class BoomLookup(KeyError):
    pass


class BoomValue(ValueError):
    pass


class BoomAttr(AttributeError):
    pass


class BoomType(TypeError):
    pass


KINDS = (Boom, BoomLookup, BoomValue, BoomAttr, BoomType)


class Fuse:
    """Counts calls; raises at the `at`-th."""

    def __init__(self):
        self.arm(None)

    def arm(self, at, kind=Boom):
        self.n, self.at, self.kind, self.raised = 0, at, kind, None

    def __call__(self):
        self.n += 1
        if self.n == self.at:
            self.raised = self.kind("call {}".format(self.n))
            raise self.raised


def metric_with(fuse, f=fast_manhattan):
    def metric(X, Y=None):
        fuse()
        return f(X, Y)
    return metric


class Obj(ObjectiveFunction):
    """A user's objective function."""

    def __init__(self, fuse):
        super().__init__(fast_manhattan)
        self.fuse, self.real = fuse, ObjectiveFunctionPairwise(fast_manhattan)

    def __call__(self, labels, attr):
        self.fuse()
        return self.real(labels, attr)

    def update(self, *args):
        self.fuse()
        return self.real.update(*args)


class Strategy(AllowMoveStrategy):
    """A user's acceptance strategy."""

    def __init__(self, fuse):
        self.fuse, self.real = fuse, AllowMoveAZP()

    def start_new_component(self, *args):
        self.fuse()
        super().start_new_component(*args)
        self.real.start_new_component(*args)
        self.real.attr_all = getattr(self, "attr_all", None)

    def __call__(self, *args):
        self.fuse()
        return self.real(*args)


ALGS = (("azp",), ("bt", 2, 1), ("bt", None, 2), ("rt", 6, 0, 0), ("rt", 5, 1, 1), ("sa", 1.0, 2, 1, 1, 1))
FITS = {
    "cyc": (maps.cycle(4), (0, 1, 0, 1), 2, (0, 0, 1, 1)),
    "isl": (ISL5, (0, 3, 1, 0, 2), 3, (4, 0, 4, 9, 9)),
    "house": (HOUSE, (0, 7, 1, 4, 2), 2, (0, 0, 0, 0, 1)),
    "path": (maps.path(4), (0, 3, 1, 7), 2, None),
    "grid": (GRID23, (5, 1, 2, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0)),
}
MPFITS = {
    "path": (maps.path(4), (1, 2, 0, 3), 3, (0, 3, 1, 0)),
    "cyc": (maps.cycle(5), (1, 1, 1, 1, 2), 2, (0, 4, 1, 0, 3)),
    "isl": (maps.interleaved(maps.path(2), maps.path(3)), (2, 1, 1, 1, 2), 2, (0, 3, 1, 0, 2)),
}


def jobs(tier):
    th = tier == "thorough"
    out = []
    for alg in ALGS:
        for name in FITS:
            for role in ("metric", "center-metric", "center", "reduction", "objective"):
                if alg[0] == "sa" and name in ("grid", "house") and not th:
                    continue
                if name == "grid" and role not in ("metric", "objective") and not th:
                    continue
                for way in ("matrix", "dict", "graph", "w") if th or role == "metric" and name in ("path", "isl") else ("matrix",):
                    out.append(dict(kind="heur", alg=alg, fit=name, role=role, way=way))
        if alg[0] == "azp":
            for name in FITS:
                out.append(dict(kind="heur", alg=alg, fit=name, role="strategy", way="matrix"))
                out.append(dict(kind="heur", alg=alg, fit=name, role="observer", way="matrix"))
    for ls in (None, ("azp",), ("bt", 2, 1), ("rt", 4, 0, 0), ("sa", 1.0, 1, 1, 1, 1)):
        for name in MPFITS:
            for role in ("metric", "center-metric", "objective"):
                out.append(dict(kind="heu", ls=ls, fit=name, role=role))
            if ls == ("azp",):
                out.append(dict(kind="heu", ls=ls, fit=name, role="strategy"))
    for cls in ("pex", "mex"):
        for way in ("matrix", "dict", "w"):
            for method in ("flow", "order", "tree") if cls == "pex" else ("",):
                out.append(dict(kind="exact", cls=cls, way=way, method=method))
    for g in ("cyc", "isl", "grid"):
        for role in ("dissimilarity", "affinity", "center", "reduction"):
            for q in (0, 2):
                out.append(dict(kind="skater", fit=g, role=role, quorum=q))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def enumerate_faults(ctx, ctl, new, fit, prefit, fuse, args, labels_of, det, most=400):
    """`new()` makes an instance, `fit(inst)` is the fit whose callables trip over `fuse`, `prefit(inst, same)` another
    one that does not, on a small map or on the same map with other data; `args` are the fit's arguments."""
    watch = Watch(**args)
    fuse.arm(None)
    whole = new()
    err = ctx.attempt(ctl, lambda: fit(whole))
    if err is not None:
        ctx.fail("fit failed: " + describe(err), **det)
        return
    n, want, choices = fuse.n, labels_of(whole), ctl.choices()
    reals = ctl.reals
    ks = list(range(1, n + 1))
    if n > most:
        ks = ks[:most // 2] + ks[-most // 2:]
        ctx.count("capped")
    for k in ks:
        kind = KINDS[k % len(KINDS)]
        before = ("small", "same")[k // 3 % 2]
        for state in ((None, before) if n <= 60 else (None,) if (k + n) % 2 else (before,)):
            inst = new()
            fuse.arm(None)
            if state:
                ctx.attempt(ex.Follow((1, 0, 1), reals=reals), lambda: prefit(inst, state == "same"))
            have = labels_of(inst)
            fuse.arm(k, kind)
            err = ctx.attempt(ex.Follow(choices, reals=reals), lambda: fit(inst))
            ctx.count("evaluations")
            ctx.distinct("cases", (k, state))
            d = dict(det, fault_at_call=k, of=n, exception=kind.__name__, fitted_before=state, choices=choices)
            if fuse.raised is None:
                ctx.count("not_reached")    # fewer calls this time
                break
            if err is not fuse.raised:
                ctx.fail("the exception did not reach the caller: {}".format(
                    "no exception" if err is None else describe(err)), **d)
                return
            if labels_of(inst) != have:
                ctx.fail("labels became {} (were {}) in a failing fit".format(labels_of(inst), have), **d)
                return
            what = watch.changed()
            if what:
                ctx.fail(what, **d)
                return
            if k % 5 == 0:      # a second failure in a row
                fuse.arm(max(1, k // 2), kind)
                ctx.attempt(ex.Follow(choices, reals=reals), lambda: fit(inst))
                if labels_of(inst) != have:
                    ctx.fail("labels became {} (were {}) in a second failing fit".format(labels_of(inst), have), **d)
                    return
            fuse.arm(None)
            err = ctx.attempt(ex.Follow(choices, reals=reals), lambda: fit(inst))
            if err is not None or labels_of(inst) != want:
                ctx.fail("the next fit gives {} instead of {}".format(
                    labels_of(inst) if err is None else describe(err), want), **d)
                return
        if ctx.late():
            return
    ctx.sample(faults=n, **det)


def objective(role, fuse):
    def r(x, *a, **k):
        fuse()
        return np.sum(x, *a, **k)

    def c(x, *a, **k):
        fuse()
        return np.mean(x, *a, **k)
    if role == "metric":
        return ObjectiveFunctionPairwise(metric_with(fuse))
    if role == "center-metric":
        return ObjectiveFunctionCenter(metric_with(fuse))
    if role == "center":
        return ObjectiveFunctionCenter(fast_manhattan, center=c)
    if role == "reduction":
        return ObjectiveFunctionCenter(fast_manhattan, reduction=r)
    if role == "objective":
        return Obj(fuse)
    return PAIRWISE


def do_heur(job, ctx):
    g, col, p, start = FITS[job["fit"]]
    alg, role = job["alg"], job["role"]

    def run(ctl):
        fuse = Fuse()
        d = Desc(g, range(g[0]), "ints", rows(col), None, start)
        rep = Rep(job["way"], d, 1)
        obj = objective(role, fuse)
        kw = {} if rep.labels is None else {"initial_labels": rep.labels}

        def new():
            if role == "strategy":
                return AZP(Strategy(fuse), random_state=0)
            if role == "observer":
                s = AllowMoveAZPSimulatedAnnealing(1.0, sa_moves_term=1)
                s.register_move_made(fuse)
                s.register_sa_moves_term(fuse)
                return AZP(s, random_state=0)
            return make(alg)

        def fit(inst):
            getattr(inst, rep.method)(rep.first, rep.attr, p, objective_func=obj, **kw)

        def prefit(inst, same):
            if same:
                inst.fit_from_scipy_sparse_matrix(
                    csr(g), arr(rows(col[::-1])), p, objective_func=PAIRWISE,
                    initial_labels=None if start is None else np.array([11 + 2 * x for x in start]))
                return
            inst.fit_from_scipy_sparse_matrix(csr(maps.path(3)), arr(rows((0, 5, 1))), 2, objective_func=PAIRWISE)
        enumerate_faults(ctx, ctl, new, fit, prefit, fuse, dict(map=rep.first, attr=rep.attr, labels=rep.labels),
                         lambda inst: as_labels(inst.labels_),
                         dict(alg=alg, map=g, attr=col, p=p, start=start, role=role, entry=rep.method))
    th = ctx.tier == "thorough"
    slow = alg[0] == "sa" or start is None or job["fit"] in ("house", "grid") or role != "metric" and job["fit"] == "cyc"
    ctx.explore(run, max_dev=(0 if slow else 1) + th)


def do_heu(job, ctx):
    g, sp, thr, col = MPFITS[job["fit"]]
    ls, role = job["ls"], job["role"]

    def run(ctl):
        fuse = Fuse()
        obj = objective(role, fuse)
        adj, at, spa = csr(g), arr(rows(col)), arr(rows(sp))

        def new():
            l = None
            if ls is not None:
                l = AZP(Strategy(fuse), random_state=0) if role == "strategy" else make(ls)
            return MaxPRegionsHeu(l, random_state=0)

        def fit(inst):
            inst.fit_from_scipy_sparse_matrix(adj, at, spa, thr, max_it=2, objective_func=obj)

        def prefit(inst, same):
            h = g if same else maps.path(3)
            inst.fit_from_scipy_sparse_matrix(csr(h), arr(rows(range(h[0]))), arr(rows((1,) * h[0])), 1,
                                              max_it=1, objective_func=PAIRWISE)
        enumerate_faults(ctx, ctl, new, fit, prefit, fuse, dict(map=adj, attr=at, sp=spa),
                         lambda inst: as_labels(inst.labels_),
                         dict(local_search=ls, map=g, attr=col, sp=sp, threshold=thr, role=role), most=120)
    ctx.explore(run, max_dev=1 if ctx.tier == "thorough" else 0)


class SolverDown(pulp.solvers.PulpSolverError):
    pass


def do_exact(job, ctx):
    cls = {"pex": PRegionsExact, "mex": MaxPRegionsExact}[job["cls"]]
    pex = job["cls"] == "pex"
    g = maps.path(3)

    def run(ctl):
        fuse = Fuse()
        solver_fault = [None]
        d = Desc(g, range(3), "ints", ((0, 1), (5, 2), (1, 4)), rows((1, 1, 1)))
        rep = Rep(job["way"], d, 1)
        metric = metric_with(fuse)

        def fit(inst, sol="cbc"):
            def handler(call):
                what = solver_fault[0]
                if what is None:
                    return call.real()
                if isinstance(what, BaseException):
                    raise what
                if what[1] == "values":
                    call.real()
                elif what[1] == "zeros":
                    for v in call.lp.variables():
                        v.varValue = 0
                call.lp.status = what[0]
                return what[0]
            with sv.handled(handler):
                if pex:
                    getattr(inst, rep.method)(rep.first, rep.attr, 2, metric=metric, method=job["method"], solver=sol)
                else:
                    getattr(inst, rep.method)(rep.first, rep.attr, rep.sp, 2, metric=metric, solver=sol)

        def prefit(inst, same=False):
            with sv.handled(lambda c: c.real()):
                if same and pex:
                    inst.fit_from_scipy_sparse_matrix(csr(g), arr(rows((0, 5, 1))), 3, metric=fast_manhattan)
                elif same:
                    inst.fit_from_scipy_sparse_matrix(csr(g), arr(rows((0, 5, 1))), arr(rows((1, 1, 1))), 1,
                                                      metric=fast_manhattan)
                elif pex:
                    inst.fit_from_scipy_sparse_matrix(csr(maps.path(2)), arr(rows((0, 5))), 1, metric=fast_manhattan)
                else:
                    inst.fit_from_scipy_sparse_matrix(csr(maps.path(2)), arr(rows((0, 5))), arr(rows((1, 1))), 1,
                                                      metric=fast_manhattan)
        args = dict(map=rep.first, attr=rep.attr, sp=rep.sp)
        det = dict(cls=job["cls"], method=job["method"], entry=rep.method)
        enumerate_faults(ctx, ctl, cls, fit, prefit, fuse, args, lambda i: as_labels(i.labels_), det)
        if ctx.enough():
            return
        whole = cls()
        fit(whole)
        want = as_labels(whole.labels_)
        faults = [SolverDown("not installed"), OSError("no such executable"), Boom("solver"), MemoryError()]
        faults += [(s, v) for s in (0, -1, -2, -3) for v in ("none", "values", "zeros")]
        for sol in ("cbc", "glpk", "cplex", "gurobi"):
            for f in faults:
                if sol != "cbc" and isinstance(f, tuple) and f[1] == "zeros":
                    continue
                for state in (False, True):
                    inst = cls()
                    if state:
                        prefit(inst)
                    have = as_labels(inst.labels_)
                    watch = Watch(**args)
                    solver_fault[0] = f
                    err = ctx.attempt(ex.Follow(()), lambda: fit(inst, sol))
                    solver_fault[0] = None
                    ctx.count("evaluations")
                    ctx.distinct("cases", (sol, str(f), state))
                    d2 = dict(det, solver=sol, fault=repr(f), fitted_before=state)
                    if err is None or isinstance(f, BaseException) and err is not f:
                        ctx.fail("the solver's failure did not reach the caller: {}".format(
                            "labels_ is {}".format(as_labels(inst.labels_)) if err is None else describe(err)), **d2)
                    elif as_labels(inst.labels_) != have:
                        ctx.fail("labels_ became {} (was {}) in a failing fit".format(as_labels(inst.labels_), have), **d2)
                    elif watch.changed():
                        ctx.fail(watch.changed(), **d2)
                    elif sol == "cbc" or state and f == (0, "none"):
                        err = ctx.attempt(ex.Follow(()), lambda: fit(inst))
                        if err is not None or as_labels(inst.labels_) != want:
                            ctx.fail("the next fit gives {} instead of {}".format(
                                as_labels(inst.labels_) if err is None else describe(err), want), **d2)
                    if ctx.enough() or ctx.late():
                        return
    ctx.single(run)


def do_skater(job, ctx):
    g, col = FITS[job["fit"]][:2]
    role = job["role"]

    def wof(g):
        return weights.W({a: orc.bits(m) for a, m in enumerate(orc.nbr_masks(*g))}, silence_warnings=True)

    def run(ctl):
        for dis in (dict(), dict(islands="ignore"), dict(trace=True)):
            fuse = Fuse()

            def trip(f):
                def wrapped(*a, **k):
                    fuse()
                    return f(*a, **k)
                return wrapped

            def new():
                if role == "dissimilarity":
                    return Spanning_Forest(dissimilarity=metric_with(fuse))
                if role == "affinity":
                    return Spanning_Forest(affinity=trip(lambda X, Y=None: np.exp(-fast_manhattan(X, Y))))
                return Spanning_Forest(dissimilarity=fast_manhattan,
                                       **{role: trip(np.mean if role == "center" else np.sum)})
            w, data = wof(g), arr(rows(col))

            def fit(inst):
                inst.fit(3, w, data, quorum=job["quorum"], **dis)

            def prefit(inst, same):
                h = g if same else maps.path(3)
                inst.fit(2, wof(h), arr(rows([a * a % 7 for a in range(h[0])])), **(dis if same else {}))

            def labels_of(inst):
                return as_labels(getattr(inst, "current_labels_", None))
            enumerate_faults(ctx, ctl, new, fit, prefit, fuse, dict(W=w, data=data), labels_of,
                             dict(cls="Spanning_Forest", map=g, data=col, role=role, options=dis, quorum=job["quorum"]))
            if ctx.enough() or ctx.late():
                return
    ctx.single(run)
