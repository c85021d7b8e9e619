"""C21: the threshold filter blocks exactly the moves that break the threshold."""
import itertools

import numpy as np

from .. import explore as ex, oracle as orc
from ..common import (AllowMoveAZP, AllowMoveAZPMaxPRegions, AllowMoveAZPSimulatedAnnealing, AllowMoveStrategy, PAIRWISE,
                      arr, as_labels, rows)
from ..job import describe
from ..maxp import BIG_SPS
from ..spaces import BIG, SCALES, big_starts, comps, scaled

LEVEL = "model_checking"
RULE = ("Every spatially extensive table over {-1,0,1,2} (one attribute, up to 4 areas; a quarter of those with 5, thorough: all with 6) and tables over "
        "{-1,0,2} x {-1,0,2} (up to 3 areas, selected with 4), scalar and vector thresholds, every partition that reaches the threshold, "
        "every move that keeps the donor non-empty, both answers of the wrapped strategy; selected partitions of 8 to 25 areas;  components at every place of a "
        "larger map; every sequence of up to 3 (thorough 4) offers against AllowMoveAZP and simulated annealing (every outcome of its "
        "draws), comparing the tracked objective value, attributes and methods with a strategy that is not wrapped.")
ASSUMPTIONS = ["uniform draws of simulated annealing: 0.0 or 0.999999"]


class Asked(AllowMoveStrategy):
    """Answers as told and writes down what it is asked."""

    def __init__(self, answer):
        self.answer, self.calls, self.started = answer, [], []

    def start_new_component(self, *args, **kwargs):
        self.started.append((args, kwargs))
        super().start_new_component(*args, **kwargs)

    def __call__(self, moving_area, new_region, labels):
        self.calls.append((moving_area, new_region, tuple(labels)))
        return self.answer


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in (2, 3, 4, 5) + ((6,) if th else ()):
        for first in itertools.product((-1, 0, 1, 2), repeat=min(n - 1, 3)):
            out.append(dict(kind="one", n=n, first=first))
    for n in (2, 3, 4) if th else (2, 3):
        for first in itertools.product(itertools.product((-1, 0, 2), repeat=2), repeat=1 if n < 4 else 2):
            out.append(dict(kind="two", n=n, first=first))
    for first in itertools.product(((-1, 2), (0, 1), (2, 0)), repeat=2):
        out.append(dict(kind="four", first=first))
    for gi, g in enumerate(BIG):
        for si, f in enumerate(BIG_SPS):
            if th or (gi + si) % 2:
                out.append(dict(kind="large", g=g, sp=tuple(f(i, g[0]) for i in range(g[0])), c=gi + si))
    for k, sp in enumerate([rows((1, 2, 0, 3)), rows((1, -1, 2, 1)), ((1, 2), (2, -1), (0, 2), (-1, 1)), rows((2, 2, 2, 2)),
                            ((1, -1), (-1, 1), (2, 2), (1, 2)), rows((-2, 3, 3, -1))]):
        for thr in (0, 1, 2) + (((1, 0), (0, 1)) if len(sp[0]) == 2 else ()):
            for kind in ("azp", "sa"):
                out.append(dict(kind="sequence", sp=sp, thr=thr, strategy=kind, depth=4 if th else 3))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def partitions(n):
    return orc.feasible_partitions(n, tuple(itertools.combinations(range(n), 2)))


def moves(labels):
    for a, r in itertools.product(range(len(labels)), sorted(set(labels))):
        if r != labels[a] and labels.count(labels[a]) > 1:
            yield a, r


def places(n, c):
    """Where the component's areas are in the whole map."""
    return (tuple(range(n)), tuple(range(1, 2 * n, 2)), tuple(range(2, n + 2)))[c % 3]


NAMES = (tuple(range(25)), (5, 2, 9, 0, 7, 1) + tuple(range(50, 30, -1)))


def one_table(ctx, ctl, sp, thrs, c, parts=None):
    unit = SCALES[c // 3 % len(SCALES)]
    if unit != 1:
        sp = scaled(sp, c // 3)
        thrs = [tuple(unit * x for x in t) if isinstance(t, tuple) else unit * t for t in thrs]
    n, width = len(sp), len(sp[0])
    place = places(n, c)
    whole = [[7] * width for _ in range(max(place) + 2)]
    for i, a in enumerate(place):
        whole[a] = sp[i]
    whole = np.array(whole, dtype=int if c % 2 and all(isinstance(x, int) for r in sp for x in r) else float)
    at = arr(rows(tuple((0, 3, 1, 7, 2, 5)[i % 6] for i in range(n))))
    idx = np.array(place)
    for t, thr in enumerate(thrs):
        need = thr if isinstance(thr, tuple) else (thr,) * width
        real = np.array(thr, dtype=float) if isinstance(thr, tuple) else thr
        for labels in parts or partitions(n):
            if not orc.sums_reach(labels, sp, need):
                continue
            names = NAMES[(c + t) % 2]
            named = tuple(names[l] for l in labels)
            larr = np.array(named, dtype=float if t % 2 else int)
            for answer in (True, False):
                inner = Asked(answer)
                filt = AllowMoveAZPMaxPRegions(whole, real, inner)
                if (c + t) % 2:         # the filter has worked on another component before
                    filt.start_new_component(np.array([0, 1]), at[:2], PAIRWISE, np.array([len(whole) - 1, 0]))
                filt.start_new_component(larr.copy(), at, PAIRWISE, idx)
                value = inner.objective_val
                for a, r in moves(named):
                    inner.calls = []
                    given = larr.copy()
                    got = filt(a, r, given)
                    ctx.count("transitions")
                    want = orc.sums_reach(orc.moved(named, a, r), sp, need)
                    d = dict(spatially_extensive=sp, threshold=thr, labels=named, moving_area=a, new_region=r,
                             wrapped_answers=answer)
                    ctx.distinct("cases", (thr, named, a, r, answer))
                    if not want and got:
                        ctx.fail("the move is allowed although it breaks the threshold", **d)
                    elif not want and filt.objective_val != value:
                        ctx.fail("a denied move changes the objective value", **d)
                    elif want and len(inner.calls) != 1:
                        ctx.fail("the wrapped strategy is asked {} times about a move that keeps the threshold".format(
                            len(inner.calls)), **d)
                    elif want and inner.calls[0] != (a, r, named):
                        ctx.fail("the wrapped strategy is asked about {}".format(inner.calls[0]), **d)
                    elif want and bool(got) != answer:
                        ctx.fail("the wrapped strategy answers {}, the filter {}".format(answer, got), **d)
                    elif tuple(given.tolist()) != tuple(larr.tolist()):
                        ctx.fail("the labels passed in are changed", **d)
                    if ctx.enough():
                        return
                ctx.count("states")


def do_one(job, ctx):
    n = job["n"]

    def run(ctl):
        for c, rest in enumerate(itertools.product((-1, 0, 1, 2), repeat=n - len(job["first"]))):
            if n == 5 and c % 4 and ctx.tier != "thorough":
                continue
            sp = rows(job["first"] + rest)
            ctx.attempt(ctl, lambda: None)
            one_table(ctx, ctl, sp, (-1, 0, 1, 2, (1,)) if n < 4 else (0, 1, 2), c)
            if ctx.enough() or ctx.late():
                return
    ctx.single(run)
    ctx.sample(areas=n, first_values=job["first"])


def do_two(job, ctx):
    n = job["n"]

    def run(ctl):
        for c, rest in enumerate(itertools.product(itertools.product((-1, 0, 2), repeat=2), repeat=n - len(job["first"]))):
            one_table(ctx, ctl, job["first"] + rest, ((0, 0), (1, 0), (-1, 1), (0, 1), 0, 1, -1), c)
            if ctx.enough() or ctx.late():
                return
    ctx.single(run)
    ctx.sample(areas=n, first_values=job["first"])


def do_four(job, ctx):
    def run(ctl):
        for c, rest in enumerate(itertools.product(((-1, 2), (0, 1), (2, 0)), repeat=2)):
            one_table(ctx, ctl, job["first"] + rest, ((0, 0), (1, 0), 0, 1), c)
            if ctx.enough() or ctx.late():
                return
    ctx.single(run)


def do_large(job, ctx):
    """Larger tables, selected partitions, the thresholds where they begin to fail."""
    g, sp = job["g"], job["sp"]
    n, width = g[0], len(sp[0])

    def run(ctl):
        for p in sorted({max(2, comps(g)), n // 3, n // 2}):
            for labels in big_starts(g, p):
                sums = [tuple(sum(sp[a][k] for a in range(n) if labels[a] == r) for k in range(width)) for r in set(labels)]
                least = tuple(min(x) for x in zip(*sums))
                thrs = (0, min(least), least, tuple(x - 1 for x in least), tuple(x - .5 for x in least))
                one_table(ctx, ctl, sp, thrs, job["c"], (labels,))
                if ctx.enough() or ctx.late():
                    return
    ctx.single(run)
    ctx.sample(spatially_extensive=sp)


def do_sequence(job, ctx):
    """Sequences of offers; the same offers, without those that break the threshold, go to a bare strategy."""
    sp, thr = job["sp"], job["thr"]
    n, width = len(sp), len(sp[0])
    need = thr if isinstance(thr, tuple) else (thr,) * width
    at = arr(rows((0, 3, 1, 7)[:n]))

    def new():
        if job["strategy"] == "azp":
            return AllowMoveAZP()
        return AllowMoveAZPSimulatedAnnealing(2.0, 2)

    for labels in partitions(n):
        if not orc.sums_reach(labels, sp, need) or len(set(labels)) < 2:
            continue

        def run(ctl):
            log = {"filter": [], "bare": []}
            inner, bare = new(), new()
            filt = AllowMoveAZPMaxPRegions(arr(sp), np.array(thr, dtype=float) if isinstance(thr, tuple) else thr, inner)
            if job["strategy"] == "sa":
                for name, who in (("filter", filt), ("bare", bare)):
                    who.register_move_made(lambda name=name: log[name].append("move"))
                    who.register_sa_moves_term(lambda name=name, who=who: (log[name].append("term"), who.reset()))
                    who.update_temperature(3.0)
            now = [np.array(labels), np.array(labels)]
            filt.start_new_component(now[0], at, PAIRWISE, np.arange(n))
            bare.start_new_component(now[1], at, PAIRWISE, np.arange(n))
            history = []
            for _ in range(job["depth"]):
                cur = as_labels(now[0])
                ms = list(moves(cur))
                if not ms:
                    break
                a, r = ms[ctl.choose(len(ms))]
                history.append((a, r))
                before = len(ctl.trace)
                keeps = orc.sums_reach(orc.moved(cur, a, r), sp, need)
                box = []
                err = ctx.attempt(ctl, lambda: box.append(filt(a, r, now[0])))
                d = dict(spatially_extensive=sp, threshold=thr, start=labels, offers=history, strategy=job["strategy"])
                if err is not None:
                    ctx.fail("the filter fails: " + describe(err), **d)
                    return
                got = bool(box[0])
                draws = ctl.choices()[before:]
                want = False
                if keeps:
                    want = []
                    follow = ex.Follow(draws, reals=ctl.reals)
                    ctx.attempt(follow, lambda: want.append(bare(a, r, now[1])))
                    want = bool(want[0])
                if got != want:
                    ctx.fail("the filter answers {}, the strategy alone {}".format(got, want), **d)
                    return
                if got:
                    now[0][a] = r
                    now[1][a] = r
                if abs(float(filt.objective_val) - float(bare.objective_val)) > 1e-9 or \
                        abs(float(filt.objective_val) - PAIRWISE(now[0], at)) > 1e-9:
                    ctx.fail("the objective value is {}, alone it is {}".format(filt.objective_val, bare.objective_val), **d)
                    return
                if log["filter"] != log["bare"]:
                    ctx.fail("observers are notified {}, alone {}".format(log["filter"], log["bare"]), **d)
                    return
                ctx.distinct("cases", (labels, tuple(history), got))
        ctx.explore(run)
        if ctx.enough() or ctx.late():
            return
    ctx.sample(spatially_extensive=sp, threshold=thr, strategy=job["strategy"])
