"""C02: every heuristic fit ends."""
import numpy as np

from .. import explore as ex, maps, oracle as orc
from ..common import (AllowMoveAZP, ObjectiveFunctionPairwise, PAIRWISE, arr, any_csr, as_labels,
                      fast_manhattan, int_labels, make, rows, starts)
from ..job import describe
from ..maxp import CASES as MAXP_CASES, big_maxp, fit_maxp
from ..spaces import COLS, HOUSE, ISL5, big_jobs, comps, each_fit, five_maps, search_jobs, small_maps

LEVEL = "model_checking"
RULE = ("Fits explored over all random outcomes within the deviation bound, with tie-heavy attributes; "
        "an execution violates the property if it exceeds the horizon on draws (5000) or on metric "
        "evaluations (60000; an ordinary execution needs fewer than 3000).  Round counts of the tabu "
        "searches are bounded through the number of objective updates and of offered moves.  The graph "
        "of moves AZP may accept is built from the real strategy for float attributes and searched for "
        "cycles that keep improving.")
ASSUMPTIONS = ["horizon exceeded = does not terminate", "maps up to 6 areas; maps of 8 to 25 areas under five fixed ways "
               "of answering random draws (horizon 100000 draws, 2000000 metric evaluations)"]
WORK = 60000


class Meter:
    def __init__(self, limit=WORK):
        self.calls = 0
        self.limit = limit

    def __call__(self, X, Y=None):
        self.calls += 1
        if self.calls > self.limit:
            raise ex.Horizon("more than {} metric evaluations".format(self.limit))
        return fast_manhattan(X, Y)


def jobs(tier):
    th = tier == "thorough"
    out = [dict(j, kind="fit") for j in search_jobs(tier, cols_limit=1 if not th else None, gen=th)]
    for j in search_jobs(tier, cols_limit=None, azp=False, sa=False, gen=False):
        # two-valued attributes give many ties
        if len(set(j["attr"])) == 2:
            out.append(dict(j, kind="fit"))
    for j in big_jobs(tier, [("azp",), ("bt", 4, 2), ("bt", None, 3), ("rt", 30, 1, 1), ("sa", 1.0, 2, 1, 1, 1)]):
        out.append(dict(j, kind="fit", limit=2000000))
    for ls, case, max_it, policy in big_maxp(tier, (None, ("azp",), ("bt", 3, 1), ("rt", 10, 1, 1))):
        if th or len(out) % 3 == 0:
            out.append(dict(kind="maxp", case=case, ls=ls, max_it=max_it, policy=policy))
        else:
            out.append(None)
    out = [j for j in out if j]
    for g in small_maps(4, shuffled=False) + [maps.cycle(5), maps.star(5), HOUSE]:
        for reps in (1, 2, 3):
            for tl in (1, 3):
                out.append(dict(kind="btrounds", g=g, attr=rows(COLS[g[0]][1]), reps=reps, tl=tl))
        out.append(dict(kind="rtrounds", g=g, attr=rows(tuple((7 * i * i) % 11 for i in range(g[0])))))
    vals = (0.1, 0.2, 0.3, 0.6) if not th else (0.1, 0.2, 0.3, 0.4, 0.6, 0.7)
    for g in (maps.path(4), maps.cycle(4), maps.complete(4)) + ((maps.cycle(5),) if th else ()):
        for v in vals:
            for w in vals:
                out.append(dict(kind="cycles", g=g, first=(v, w), vals=vals))
    for i in range(len(MAXP_CASES)):
        for ls in (None, ("azp",), ("sa", 1.0, 1, 1, 1, 1), ("bt", 2, 1), ("rt", 3, 1, 1)):
            out.append(dict(kind="maxp", case=i, ls=ls))
    for g in small_maps(4, shuffled=False):
        out.append(dict(kind="skater", g=g))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def judge_end(ctx, err, **detail):
    if isinstance(err, (ex.Horizon, ex.Hang)):
        ctx.fail("the fit does not end: " + describe(err), **detail)


def do_fit(job, ctx):
    meter = Meter(job.get("limit", WORK))

    def judge(r):
        ctx.n["max_metric_evaluations"] = max(ctx.n["max_metric_evaluations"], meter.calls)
        meter.calls = 0
        judge_end(ctx, r["err"], alg=r["alg"], map=r["g"], attr=r["attr"], p=r["p"], start=r["start"])
    each_fit(job, ctx, judge, obj=ObjectiveFunctionPairwise(meter), horizon=100000 if "limit" in job else 5000)


def do_btrounds(job, ctx):
    """AZPBasicTabu: each zoning is met at most reps times, so the number of rounds is bounded by reps
    times the number of different zonings offered or evaluated."""
    g, reps = job["g"], job["reps"]
    n = g[0]
    for p in range(comps(g), n + 1):
        for start in starts(g, p):
            zonings = {}

            class Obj(ObjectiveFunctionPairwise):
                total = 0

                def update(self, area, region, labels, attr):
                    zonings[(len(attr),) + tuple(labels.tolist())] = 1
                    Obj.total += 1
                    if Obj.total > WORK:
                        raise ex.Horizon("more than {} updates".format(WORK))
                    return super().update(area, region, labels, attr)

            def run(ctl):
                Obj.total = 0
                zonings.clear()
                inst = make(("bt", job["tl"], reps))
                err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                    any_csr(g, job["attr"], p), arr(job["attr"]), p, initial_labels=int_labels(start),
                    objective_func=Obj(fast_manhattan)))
                d = dict(map=g, attr=job["attr"], p=p, start=start, reps=reps)
                judge_end(ctx, err, **d)
                if err is None:
                    per_round = 2 * len(g[1])          # (area, neighbouring region) pairs
                    cap = (reps + 1) * max(1, len(zonings)) * (4 * per_round + 8)
                    if Obj.total > cap:
                        ctx.fail("{} objective updates for {} zonings: the search goes on after it met a "
                                 "zoning {} times".format(Obj.total, len(zonings), reps), **d)
                ctx.distinct("cases", (g, p, start, reps, Obj.total))
            ctx.explore(run, max_dev=1, horizon=5000)
            if ctx.enough():
                return


def do_rtrounds(job, ctx):
    g = job["g"]
    n = g[0]
    for p in range(comps(g), n + 1):
        for start in starts(g, p):
            for maxit in (1, 2, 4):
                offers = []

                class Spy(AllowMoveAZP):
                    def start_new_component(self, *a, **k):
                        offers.append(0)
                        super().start_new_component(*a, **k)

                    def __call__(self, area, region, labels):
                        offers[-1] += 1
                        return super().__call__(area, region, labels)

                def run(ctl):
                    del offers[:]
                    inst = make(("rt", maxit, 10 ** 6, 1))
                    inst.allow_move_strategy = Spy()
                    err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                        any_csr(g, job["attr"], p), arr(job["attr"]), p, initial_labels=int_labels(start),
                        objective_func=PAIRWISE))
                    d = dict(map=g, attr=job["attr"], p=p, start=start, max_iterations=maxit)
                    judge_end(ctx, err, **d)
                    if offers and max(offers) > maxit:
                        ctx.fail("{} moves offered in {} rounds".format(max(offers), maxit), **d)
                    ctx.distinct("cases", (g, p, start, maxit, tuple(offers)))
                ctx.explore(run, max_dev=1, horizon=5000)
                if ctx.enough():
                    return


def do_cycles(job, ctx):
    """Explicit-state search on the graph of moves the AZP strategy accepts."""
    import itertools
    import networkx as nx
    g = job["g"]
    n = g[0]
    for rest in itertools.product(job["vals"], repeat=n - 2):
        col = job["first"] + rest
        at = arr(rows(col))
        for p in (2, 3):
            G = nx.DiGraph()
            for l in itertools.product(range(p), repeat=n):
                if len(set(l)) != p or not orc.contiguous(l, n, g[1]):
                    continue
                strat = AllowMoveAZP()
                la = np.array(l)
                for a, r in orc.admissible_moves(l, n, g[1]):
                    strat.start_new_component(la, at, PAIRWISE, np.arange(n))
                    before = float(np.asarray(strat.objective_val).reshape(-1)[0])
                    ok = strat(a, r, la)
                    ctx.count("evaluations")
                    ctx.count("transitions")
                    if ok:
                        after = float(np.asarray(strat.objective_val).reshape(-1)[0])
                        G.add_edge(l, orc.moved(l, a, r), d=after - before)
                ctx.count("states")
            for c in nx.strongly_connected_components(G):
                if len(c) > 1:
                    for u, v, d in G.subgraph(c).edges(data="d"):
                        if d < -1e-9:
                            ctx.fail("accepted moves form a cycle that improves the tracked objective value "
                                     "by {} on the way".format(-d), map=g, attr=col, state=u, to=v)
                            return


def do_maxp(job, ctx):
    large = "policy" in job
    case = job["case"] if large else MAXP_CASES[job["case"]]
    meter = Meter(2000000 if large else WORK)
    obj = ObjectiveFunctionPairwise(meter)

    def run(ctl):
        meter.calls = 0
        inst, err = fit_maxp(ctx, ctl, case, job["ls"], max_it=job.get("max_it", 2), obj=obj)
        judge_end(ctx, err, case=case, local_search=job["ls"])
    dev = 1 if ctx.tier == "thorough" or len(case[1]) <= 4 and job["ls"] is None else 0
    if large:
        ctx.explore(run, max_dev=0, horizon=100000, policy=job["policy"])
    else:
        ctx.explore(run, max_dev=dev, horizon=5000)
    ctx.n["max_metric_evaluations_maxp"] = max(ctx.n["max_metric_evaluations_maxp"], meter.calls)


def do_skater(job, ctx):
    import libpysal
    from region.skater.skater import Spanning_Forest
    g = job["g"]
    n = g[0]
    nb = {i: [] for i in range(n)}
    for a, b in g[1]:
        nb[a].append(b)
        nb[b].append(a)
    for col in COLS[n]:
        for k in range(1, n + 2):
            for quorum in (-np.inf, 1, 2, 3):
                for isl in ("ignore", "increase"):
                    meter = Meter()

                    def metric(X, Y=None):
                        return meter(X, Y)

                    def run(ctl):
                        w = libpysal.weights.W(nb, silence_warnings=True)
                        err = ctx.attempt(ctl, lambda: Spanning_Forest(dissimilarity=metric).fit(
                            k, w, data=arr(rows(col)), quorum=quorum, islands=isl))
                        judge_end(ctx, err, map=g, data=col, n_clusters=k, quorum=quorum, islands=isl)
                    ctx.single(run)
                    if ctx.enough():
                        return
