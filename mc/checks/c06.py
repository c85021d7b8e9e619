"""C06: simulated annealing follows its acceptance rule, cooling and move counting."""
import math

import numpy as np

from .. import explore as ex, maps, oracle as orc
from ..common import (AZPSimulatedAnnealing, AllowMoveAZPSimulatedAnnealing, PAIRWISE, arr, as_labels, csr,
                      int_labels, rows, starts)
from ..job import describe
from ..spaces import COLS, HOUSE, ISL5, big_jobs, comps
from region.objective_function import ObjectiveFunction

LEVEL = "model_checking"
RULE = ("(1) All operation sequences up to a depth (5 quick, 6 thorough) on the real strategy: moves with "
        "differences -2, 0, 1, 3 and uniform draws just below and just above exp(-d/T), temperature changes, "
        "resets, new components; each answer, notification, counter-driven notification and the tracked "
        "objective value is compared with a reference model.  (2) Fits of AZPSimulatedAnnealing with every "
        "uniform draw chosen just below or just above the model's exp(-d/T): the cooling schedule, the number "
        "of runs per step, and the stop after the given number of steps without moves follow the model.")
ASSUMPTIONS = ["draws are placed within a factor 1 +- 1e-6 of exp(-d/T)", "at most 5 areas in fits; maps of 8 to 25 areas under five fixed ways of answering random "
               "draws only"]
EPS = 1e-6


class Draws(ex.Controller):
    """Uniform draws next to the acceptance probability the model expects."""
    prob = None
    drawn = None

    def real(self):
        if self.prob is None:
            u = (0.999999, 0.0)[self.choose(2)]
        else:
            opts = [u for u in (min(self.prob * (1 + EPS), 0.999999999), self.prob * (1 - EPS))]
            u = opts[self.choose(2)]
        self.drawn.append(u)
        return u


def with_draws(ctl, reals=None):
    """Turn the explorer's controller into one with draws at the threshold."""
    ctl.__class__ = Draws
    ctl.drawn = []
    ctl.prob = None
    return ctl


class Stub(ObjectiveFunction):
    def __init__(self, as_array):
        super().__init__("manhattan")
        self.start = 0.0
        self.diff = 0.0
        self.as_array = as_array

    def __call__(self, labels, attr):
        return self.start

    def update(self, moving_area, recipient_region, labels, attr):
        return np.array([self.diff]) if self.as_array else self.diff


OPS = [("move", 1.0), ("move", 3.0), ("move", 0.0), ("move", -2.0), ("temp", 0.5), ("temp", 4.0), ("temp", 0.0),
       ("reset",), ("start", 10.0)]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for first in range(len(OPS)):
        for q in (1, 2, 3, "inf", "default"):
            for second in (range(len(OPS)) if th else [None]):
                out.append(dict(kind="ops", first=first, second=second, q=q, t0=1.0 if q != 2 else 2.5,
                                depth=6 if th else 5 if q == 2 else 4, arr=q in (1, "inf")))
    fits = [maps.path(2), maps.path(3), maps.complete(3), maps.path(4), maps.star(4), maps.cycle(4),
            maps.interleaved(maps.path(2), maps.path(3)), HOUSE]
    for g in fits:
        for col in COLS[g[0]][1:3 if g[0] < 5 else 2]:
            for par in ((1.0, 1, 10 ** 6, 1, 0.5, 3), (2.0, 1, 10 ** 6, 2, 0.85, 2), (1.5, 2, 1, 1, 0.5, 2),
                        (3.0, 3, 2, 1, 0.9, 1)):
                if not th and (g[0] == 5 and par[1] > 1 or g is HOUSE and par[0] != 1.0):
                    continue
                for p in range(comps(g), g[0]):
                    out.append(dict(kind="fit", g=g, attr=rows(col), par=par, p=p,
                                dev=(3 if len(g[1]) <= 1 else 2 if g[0] <= 3 and len(g[1]) < 3 else 1) + (1 if th else 0)))
    # larger maps
    for j in big_jobs(tier, [(2.0, 1, 10 ** 6, 1, 0.5, 2), (3.0, 2, 3, 1, 0.8, 2)], gen=False):
        out.append(dict(kind="fit", g=j["g"], attr=j["attr"], par=j["alg"], p=j["ps"][0], dev=0, starts=j["init"][:2], policy=j["policy"]))
    # the count of SA-moves begins anew in every step
    for g in (maps.path(3), maps.complete(3), maps.path(4), maps.interleaved(maps.path(2), maps.path(3))):
        for col in COLS[g[0]][1:3 if g[0] < 4 or th else 2]:
            for par in ((2.0, 2, 2, 2, 0.5, 3), (2.0, 2, 3, 1, 0.9, 2), (4.0, 3, 2, 1, 0.5, 4)):
                for p in range(comps(g) + 1 if g[0] == 5 else 2, g[0]):
                    out.append(dict(kind="fit", g=g, attr=rows(col), par=par, p=p,
                                    dev=(3 if g[0] == 3 and len(g[1]) < 3 else 1 if g[0] == 3 else 2) + (1 if th else 0)))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def prob_of(d, t):
    return math.exp(-d / t) if t > 0 else 0.0


def num(x):
    try:
        a = np.asarray(x, dtype=float).reshape(-1)
    except (TypeError, ValueError):
        return None
    return float(a[0]) if a.shape == (1,) else None


def do_ops(job, ctx):
    q = job["q"]
    labels = np.array([0, 0, 1])
    attr = np.zeros((3, 1))

    def run(ctl):
        with_draws(ctl)
        obj = Stub(job["arr"])
        obj.start = 5.0
        if q == "default":
            s = AllowMoveAZPSimulatedAnnealing(job["t0"])
        else:
            s = AllowMoveAZPSimulatedAnnealing(
                init_temperature=job["t0"], sa_moves_term=float("inf") if q == "inf" else q)
        term = float("inf") if q in ("inf", "default") else q
        moved, sa, moved2, sa2 = [], [], [], []
        s.register_move_made(lambda: moved.append(1))
        s.register_sa_moves_term(lambda: sa.append(1))
        s.register_move_made(lambda: moved2.append(1))
        s.register_sa_moves_term(lambda: sa2.append(1))
        s.start_new_component(labels, attr, obj, np.arange(3))
        t, val, cnt = job["t0"], 5.0, 0
        hist = []
        for i in range(job["depth"]):
            op = OPS[job["first"] if i == 0 else job["second"] if i == 1 and job["second"] is not None
                     else ctl.choose(len(OPS))]
            hist.append(op)
            m0, s0 = len(moved), len(sa)
            m1, s1 = len(moved2), len(sa2)
            problem = None
            if op[0] == "move":
                d = obj.diff = op[1]
                ctl.prob = prob_of(d, t) if d > 0 else None
                del ctl.drawn[:]
                ans = bool(s(1, 1, labels))
                if d <= 0:
                    want = True
                else:
                    want = bool(ctl.drawn) and ctl.drawn[-1] < ctl.prob
                    hist[-1] = op + tuple(ctl.drawn)
                if ans != want:
                    problem = "move worsening by {} at temperature {}: {} with draws {}".format(
                        d, t, "accepted" if ans else "denied", ctl.drawn)
                if want:
                    val += d
                    cnt += d > 0
                for a, b in ((len(moved) - m0, len(sa) - s0), (len(moved2) - m1, len(sa2) - s1)):
                    if a != (1 if want else 0):
                        problem = problem or "a move observer was notified {} times".format(a)
                    if b and not (want and d > 0 and cnt >= term):
                        problem = problem or "SA-observer notified after {} SA-moves".format(cnt)
                    if want and d > 0 and cnt == term and b != 1:
                        problem = problem or "SA-observer not notified once at {} SA-moves".format(cnt)
            else:
                if op[0] == "temp":
                    t = op[1]
                    s.update_temperature(t)
                elif op[0] == "reset":
                    cnt = 0
                    s.reset()
                else:
                    val = obj.start = op[1]
                    s.start_new_component(labels, attr, obj, np.arange(3))
                if len(moved) != m0 or len(sa) != s0:
                    problem = "observers were notified without a move"
            got = num(s.objective_val)
            if problem is None and (got is None or abs(got - val) > 1e-9):
                problem = "tracked objective value is {} instead of {}".format(s.objective_val, val)
            if labels.tolist() != [0, 0, 1]:
                problem = "the strategy changed the labels"
                labels[:] = [0, 0, 1]
            if problem:
                ctx.fail(problem, operations=hist, sa_moves_term=q, init_temperature=job["t0"])
                return
        ctx.distinct("cases", tuple(hist))

    def guarded(ctl):
        err = ctx.attempt(ctl, lambda: run(ctl))
        if err is not None:
            ctx.fail("unexpected " + describe(err), sa_moves_term=q)
    ctx.explore(guarded)
    ctx.sample(first=OPS[job["first"]], depth=job["depth"], sa_moves_term=q)


class Monitor:
    """Follows the calls of the (only) strategy object of a fit."""

    def __init__(self, ctl, par, g):
        self.ctl, self.g = ctl, g
        self.t0, self.maxit, self.term, self.nonmoving, self.cool, self.reps = par
        self.t = None
        self.problem = None
        self.comps = set()
        self.run_start = None       # labels at the start of this AZP run
        self.cur = [None] * g[0]
        self.it = 0
        self.sa = 0
        self.moved = False          # in this step
        self.idle = 0
        self.steps = 0
        self.runs = 0
        self.over = self.may = False
        self.results = []

    def bad(self, msg):
        if self.problem is None:
            self.problem = msg

    def end_run(self):
        """The run is over: does the step end as well?"""
        unchanged = self.prev is not None and self.prev == list(self.cur)
        if unchanged or self.sa >= self.term or self.it >= self.maxit:
            self.steps += 1
            self.t *= self.cool
            self.results.append(tuple(self.cur))
            seen = self.results.count(tuple(self.cur))
            self.may = seen >= self.reps
            if seen > self.reps:
                self.over = True
            if not self.moved:
                self.idle += 1
                if self.idle >= self.nonmoving:
                    self.over = True
            self.moved = False
            self.it = 0
            self.sa = 0

    def begin(self, labels, comp_idx):
        key = int(comp_idx[0])
        if self.t is None:
            self.t = self.t0
            self.new_run()
            self.first = True
        elif key in self.comps:
            self.end_run()
            if self.over:
                self.bad("goes on after {} steps, {} of them without moves".format(self.steps, self.idle))
            self.prev = list(self.cur)
            self.new_run()
            self.first = False
        self.comps.add(key)
        for i, l in zip(comp_idx, labels):
            if not self.first and self.cur[i] is not None and self.cur[i] != l:
                self.bad("the run does not start from the result of the run before it")
            self.cur[i] = l

    def new_run(self):
        self.comps = set()
        self.it += 1
        self.runs += 1

    def decided(self, area, region, comp_idx, diff, drawn, ans):
        i = int(comp_idx[int(area)])
        if diff <= 0:
            want = True
        else:
            want = bool(drawn) and drawn[-1] < prob_of(diff, self.t)
        if bool(ans) != want:
            self.bad("step {}, temperature {}: move worsening by {} was {} with draws {}".format(
                self.steps, self.t, diff, "accepted" if ans else "denied", drawn))
        if ans:
            self.cur[i] = region
            self.moved = True
            self.sa += diff > 0


def do_fit(job, ctx):
    g, par = job["g"], job["par"]
    n = g[0]
    adj, at = csr(g), arr(job["attr"])
    dist = orc.manhattan_table(job["attr"])
    cls = AllowMoveAZPSimulatedAnnealing
    for p in (job["p"],):
        for start in job.get("starts") or starts(g, p):
            def run(ctl):
                with_draws(ctl)
                mon = Monitor(ctl, par, g)
                state = {}
                orig_call, orig_start = cls.__call__, cls.start_new_component

                def call(self, moving_area, new_region, labels):
                    idx = state["idx"]
                    cur = [mon.cur[i] for i in idx]
                    new = list(cur)
                    new[int(moving_area)] = new_region
                    tab = [[dist[i][j] for j in idx] for i in idx]
                    diff = orc.pair_cost(new, tab) - orc.pair_cost(cur, tab)
                    ctl.prob = prob_of(diff, mon.t) if diff > 0 else None
                    del ctl.drawn[:]
                    ans = orig_call(self, moving_area, new_region, labels)
                    mon.decided(moving_area, new_region.item() if hasattr(new_region, "item") else new_region,
                                idx, diff, list(ctl.drawn), ans)
                    ctl.prob = None
                    want = state["val"] + (diff if ans else 0)
                    got = num(self.objective_val)
                    if got is None or abs(got - want) > 1e-9:
                        mon.bad("tracked objective value {} instead of {}".format(self.objective_val, want))
                    state["val"] = want
                    return ans

                def begin(self, initial_labels, attr, objective_func, comp_idx):
                    idx = [int(i) for i in comp_idx]
                    labels = list(as_labels(initial_labels))
                    mon.begin(labels, idx)
                    state["idx"] = idx
                    tab = [[dist[i][j] for j in idx] for i in idx]
                    state["val"] = orc.pair_cost(labels, tab)
                    return orig_start(self, initial_labels, attr, objective_func, comp_idx)
                inst = AZPSimulatedAnnealing(init_temperature=par[0], max_iterations=par[1],
                                             sa_moves_term=par[2], nonmoving_steps_before_stop=par[3],
                                             repetitions_before_termination=par[5], random_state=0)
                mon.prev = list(start)
                cls.__call__, cls.start_new_component = call, begin
                try:
                    err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                        adj.copy(), at.copy(), p, initial_labels=int_labels(start),
                        cooling_factor=par[4], objective_func=PAIRWISE))
                finally:
                    cls.__call__, cls.start_new_component = orig_call, orig_start
                d = dict(map=g, attr=job["attr"], p=p, start=start, init_temperature=par[0],
                         max_iterations=par[1], sa_moves_term=par[2], nonmoving_steps=par[3], cooling=par[4])
                ctx.n["max_runs"] = max(ctx.n["max_runs"], mon.runs)
                ctx.count("steps", mon.steps)
                if mon.problem:
                    ctx.fail(mon.problem, **d)
                elif err is not None:
                    ctx.fail("fit failed: " + describe(err), **d)
                elif mon.t is not None:
                    mon.end_run()
                    if not mon.over and not mon.may:
                        ctx.fail("stopped after {} steps, {} of them without moves".format(
                            mon.steps, mon.idle), **d)
                    elif list(as_labels(inst.labels_)) != mon.cur:
                        ctx.fail("labels_ is {} but the accepted moves lead to {}".format(
                            as_labels(inst.labels_), mon.cur), **d)
                ctx.distinct("cases", (g, p, start, tuple(mon.cur), mon.steps))
            ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"), horizon=40000)
            if ctx.enough() or ctx.late():
                return
