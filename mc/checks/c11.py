"""C11: fits are independent of what happened to the instance before."""
import itertools

import numpy as np

from .. import explore as ex, fresh, maps, oracle as orc, solver as sv
from ..common import (ObjectiveFunctionCenter, ObjectiveFunctionPairwise, PAIRWISE, arr, as_labels, csr,
                      fast_chebyshev, fast_manhattan, int_labels, make, rows)
from ..job import describe
from ..spaces import ASPIRING, BIG, BIG_COLS, BOWTIE, GRID23, HOUSE, ISL5, ISL6, big_starts
from ..explore import POLICIES
from region.p_regions.exact import PRegionsExact
from region.max_p_regions.exact import MaxPRegionsExact
from region.max_p_regions.heuristics import MaxPRegionsHeu
from region.skater.skater import Spanning_Forest
from libpysal import weights

LEVEL = "model_checking"
FRESH = True
RULE = ("All histories of up to 2 earlier fits (3 thorough) out of an alphabet of fits per class - other maps, sizes, "
        "numbers of regions, objectives, starts, refused arguments, callables raising midway, solver failures, "
        "uses of a local search inside and outside a max-p fit - followed by each fit of the alphabet; its labels "
        "are compared with those of a newly made instance under the same random outcomes, which are explored on "
        "the new instance up to a deviation bound.  The AZP classes also on maps of 8 to 16 areas, mixed with small ones.  "
        "Families of fits that differ in one argument only (the table with equal sums, the map, start, number of regions, threshold, "
        "objective, method, metric, quorum): every pair, on the same instance and on two, in a new process, against the "
        "second fit alone in a new process.")
ASSUMPTIONS = ["the histories' own random outcomes follow three fixed patterns"]

PATTERNS = ((), (1, 0, 1, 1, 0, 2, 1, 0, 1) * 4, (2, 1, 3, 0, 1, 2) * 6)


class Boom(Exception):
    pass


def bomb(k):
    """A metric that raises at its k-th call."""
    left = [k]

    def metric(X, Y=None):
        left[0] -= 1
        if left[0] <= 0:
            raise Boom()
        return fast_manhattan(X, Y)
    return metric


# ---- alphabets: each action is a function of the instance
def fit(g, col, p, start=None, obj=None, bad=False, **kw):
    def act(inst):
        extra = {"cooling_factor": kw["tuning"]} if kw.get("tuning") else {}
        if obj != "default":
            extra["objective_func"] = obj() if obj else PAIRWISE
        inst.fit_from_scipy_sparse_matrix(csr(g), arr(rows(col)), p, initial_labels=None if start is None
                                          else int_labels(start), **extra)
    act.bad = bad
    act.show = ("fit", g, col, p, start, bad, kw)
    return act


P2 = [
    fit(maps.cycle(4), (0, 1, 0, 1), 2, (0, 0, 1, 1)),
    fit(maps.path(3), (0, 5, 1), 2),
    fit(ISL5, (0, 3, 1, 0, 2), 3),
    fit(HOUSE, (0, 3, 1, 0, 2), 3, (4, 0, 0, 9, 4), obj=lambda: ObjectiveFunctionCenter(fast_manhattan)),
    fit(GRID23, (5, 1, 2, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0)),
    fit(maps.path(2), (1, 2), 1),
    fit(maps.cycle(4), (0, 1, 0, 1), 2, (0, 1, 0, 1), bad=True),                       # refused
    fit(maps.path(4), (0, 3, 1, 7), 3, (0, 1, 1, 2), obj=lambda: ObjectiveFunctionPairwise(bomb(3)), bad="maybe"),
    fit(maps.cycle(4), (0, 1, 0, 1), 2, (0, 0, 1, 1), obj=lambda: ObjectiveFunctionPairwise(bomb(12)), bad="maybe"),
    fit(ISL5, (0, 3, 1, 0, 2), 3, (0, 1, 1, 2, 1), obj=lambda: ObjectiveFunctionPairwise(bomb(9)), bad="maybe"),
]
TUNED = P2 + [fit(maps.path(3), (0, 5, 1), 2, (1, 1, 0), tuning=0.1)]
ALGS = (("azp",), ("bt", 1, 2), ("bt", 2, 1), ("bt", None, 2), ("rt", 6, 0, 0), ("rt", 5, 1, 1), ("rt", 4, 2, 0),
        ("sa", 1.0, 2, 1, 1, 1), ("sa", 2.0, 1, 2, 2, 2))


def large(i, p, k=None, **kw):
    g = BIG[i]
    starts_ = big_starts(g, p)
    return fit(g, tuple(BIG_COLS[i % len(BIG_COLS)](a, g[0]) for a in range(g[0])), p,
               None if k is None else starts_[k % len(starts_)], **kw)


LARGE = [
    large(0, 4, 0), large(0, 4, 1), large(0, 3), large(1, 7, 0), large(3, 3, 2), large(4, 6, 1), large(6, 6, 0), large(9, 3, 1),
    fit(maps.path(3), (0, 5, 1), 2, (0, 0, 1)), fit(ISL5, (0, 3, 1, 0, 2), 3, (0, 1, 0, 2, 2)),
    large(0, 4, 0, obj=lambda: ObjectiveFunctionPairwise(bomb(60)), bad="maybe"),
]


def maxp(g, sp, thr, col, max_it=2, obj=None, bad=False):
    def act(inst):
        extra = {} if obj == "default" else {"objective_func": obj() if obj else PAIRWISE}
        inst.fit_from_scipy_sparse_matrix(csr(g), arr(rows(col)), arr(rows(sp)), thr, max_it=max_it, **extra)
    act.bad = bad
    act.show = ("maxp", g, sp, thr, col, bad)
    return act


MP = [
    maxp(maps.path(4), (1, 2, 0, 3), 3, (0, 3, 1, 0)),
    maxp(maps.cycle(5), (1, 1, 1, 1, 2), 2, (0, 4, 1, 0, 3)),
    maxp(maps.interleaved(maps.path(2), maps.path(3)), (2, 1, 1, 1, 2), 2, (0, 3, 1, 0, 2), max_it=1),
    maxp(maps.path(3), (1, 1, 0), 5, (0, 3, 1), bad=True),                             # no solution
    maxp(maps.path(4), (1, 1, 1, 1), 2, (0, 3, 1, 0), obj=lambda: ObjectiveFunctionPairwise(bomb(15)), bad="maybe"),
    maxp(maps.path(4), (1, 1, 1, 1), 2, (0, 3, 1, 0), obj=lambda: ObjectiveFunctionPairwise(bomb(30)), bad="maybe"),
]


def exact(g, tab, p, fail=None, bad=False, **kw):
    def act(inst):
        def handler(call):
            if fail is None:
                return call.real()
            if fail == "raise":
                raise Boom()
            call.lp.status = fail
            return fail
        k = dict(kw)
        if k.get("metric") == "bomb":
            k["metric"] = bomb(3)
        with sv.handled(handler):
            inst.fit_from_scipy_sparse_matrix(csr(g), arr(tab), p, **k)
    act.bad = bad
    act.show = ("exact", g, tab, p, fail, kw)
    return act


T3 = ((0, 1), (5, 2), (1, 4))
T4 = ((8, 6), (1, 9), (3, 7), (5, 6))
SQ = (4, ((0, 1), (0, 2), (1, 3), (2, 3)))
PE = [
    exact(maps.path(3), T3, 2),
    exact(SQ, T4, 2, metric="manhattan", method="tree"),
    exact(SQ, T4, 2, metric=fast_chebyshev, method="order"),
    exact(SQ, T4, 2, method="tree"),
    exact(maps.union(maps.path(2), maps.path(1)), T3, 1, bad=True, method="tree"),
    exact(maps.path(3), T3, 4, bad=True),
    exact(maps.path(3), T3, 2, fail=-3, bad=True, method="order"),
    exact(maps.path(3), T3, 2, fail="raise", bad=True, solver="glpk"),
    exact(maps.path(3), T3, 2, bad=True, metric="bomb"),
]


def maxpex(g, sp, thr, tab, fail=None, bad=False, **kw):
    def act(inst):
        def handler(call):
            if fail is None:
                return call.real()
            if fail == "raise":
                raise Boom()
            call.lp.status = fail
            return fail
        k = dict(kw)
        if k.get("metric") == "bomb":
            k["metric"] = bomb(3)
        with sv.handled(handler):
            inst.fit_from_scipy_sparse_matrix(csr(g), arr(tab), arr(rows(sp)), thr, **k)
    act.bad = bad
    act.show = ("maxpex", g, sp, thr, fail, kw)
    return act


ME = [
    maxpex(maps.path(3), (2, 1, 2), 2, T3),
    maxpex(SQ, (1, 1, 2, 1), 2, T4, metric="manhattan"),
    maxpex(SQ, (1, 1, 2, 1), 2, T4),
    maxpex(maps.path(3), (2, 1, 2), 9, T3, bad=True),
    maxpex(maps.path(3), (2, 1, 2), 2, T3, bad=True, fail=0),
    maxpex(maps.path(3), (2, 1, 2), 2, T3, bad=True, fail="raise", solver="cplex"),
    maxpex(maps.path(3), (2, 1, 2), 2, T3, bad=True, metric="bomb"),
]


def skater(g, tab, k, bad=False, **kw):
    def act(inst):
        w = weights.W({a: orc.bits(m) for a, m in enumerate(orc.nbr_masks(*g))}, silence_warnings=True)
        data = arr(tab)
        if kw.get("nodata"):
            inst.fit(k, w)
        else:
            inst.fit(k, w, data, **kw)
        inst.got_score = None if kw.get("nodata") else float(inst.score(data))
    act.bad = bad
    act.show = ("skater", g, tab, k, kw)
    return act


SK = [
    skater(maps.cycle(5), rows((0, 4, 1, 0, 3)), 3),
    skater(ISL5, rows((0, 3, 1, 0, 2)), 3, islands="ignore", trace=True),
    skater(maps.path(4), ((0, 1), (3, 1), (1, 1), (0, 5)), 2, quorum=2),
    skater(maps.path(4), rows((0, 3, 1, 7)), 4, quorum=2),                 # stops early
    skater(ISL5, rows((0, 3, 1, 0, 2)), 3, quorum=4, bad=True),
    skater(maps.path(3), rows((0, 3, 1)), 2, nodata=True),
]

# fits that differ from the first one in one argument
G6, CY6, PA4, ST4 = GRID23, maps.cycle(6), maps.path(4), maps.star(3)
KIN_P = [
    fit(G6, (5, 1, 2, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0), obj="default"),
    fit(G6, (5, 1, 1, 2, 1, 1), 2, (0, 0, 1, 0, 0, 0), obj="default"),
    fit(CY6, (5, 1, 2, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0), obj="default"),
    fit(G6, (5, 1, 2, 1, 1, 1), 2, (0, 1, 1, 0, 0, 1), obj="default"),
    fit(G6, (5, 1, 2, 1, 1, 1), 3, (0, 0, 1, 0, 2, 2), obj="default"),
    fit(G6, (5, 1, 2, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0), obj=lambda: ObjectiveFunctionCenter(fast_manhattan)),
    fit(G6, (5, 1, 2, 1, 1, 1), 3, obj="default"),
    fit(CY6, (5, 1, 2, 1, 1, 1), 3, obj="default"),
    fit(G6, (1, 1, 1, 5, 2, 1), 3, obj="default"),
    fit(maps.interleaved(maps.path(3), maps.path(3)), (5, 1, 2, 1, 1, 1), 3, obj="default"),
]
KIN_MP = [
    maxp(PA4, (1, 2, 0, 3), 3, (0, 3, 1, 0), obj="default"),
    maxp(PA4, (1, 2, 0, 3), 3, (0, 1, 3, 0), obj="default"),
    maxp(PA4, (1, 0, 2, 3), 3, (0, 3, 1, 0), obj="default"),
    maxp(PA4, (1, 2, 0, 3), 2, (0, 3, 1, 0), obj="default"),
    maxp(PA4, (1, 2, 0, 3), 3, (0, 3, 1, 0), max_it=1, obj="default"),
    maxp(ST4, (1, 2, 0, 3), 3, (0, 3, 1, 0), obj="default"),
    maxp(PA4, (1, 2, 0, 3), 3, (0, 3, 1, 0), obj=lambda: ObjectiveFunctionCenter(fast_manhattan)),
]
KIN_PE = [
    exact(PA4, T4, 2),
    exact(PA4, (T4[0], T4[2], T4[1], T4[3]), 2),
    exact(ST4, T4, 2),
    exact(PA4, T4, 3),
    exact(PA4, T4, 2, method="tree"),
    exact(PA4, T4, 2, method="order"),
    exact(PA4, T4, 2, metric="manhattan"),
]
KIN_ME = [
    maxpex(SQ, (1, 1, 2, 1), 2, T4),
    maxpex(SQ, (1, 1, 2, 1), 2, (T4[0], T4[2], T4[1], T4[3])),
    maxpex(SQ, (1, 2, 1, 1), 2, T4),
    maxpex(SQ, (1, 1, 2, 1), 1, T4),
    maxpex(PA4, (1, 1, 2, 1), 2, T4),
    maxpex(SQ, (1, 1, 2, 1), 2, T4, metric="manhattan"),
]
KIN_SK = [
    skater(maps.cycle(5), rows((0, 4, 1, 0, 3)), 3),
    skater(maps.cycle(5), rows((0, 0, 4, 1, 3)), 3),
    skater(maps.path(5), rows((0, 4, 1, 0, 3)), 3),
    skater(maps.cycle(5), rows((0, 4, 1, 0, 3)), 2),
    skater(maps.cycle(5), rows((0, 4, 1, 0, 3)), 3, quorum=2),
    skater(maps.path(5), rows((3, 0, 4, 1, 0)), 3),
    skater(maps.path(5), rows((0, 3, 0, 4, 1)), 2, quorum=2),
    skater(ISL5, rows((0, 4, 1, 0, 3)), 3, islands="ignore"),
]
SKERS = {"plain": lambda: Spanning_Forest(), "center": lambda: Spanning_Forest(center=np.median, reduction=np.max)}


def instances():
    out = [("p:" + "-".join(map(str, a)), (lambda a=a: make(a)), TUNED if a[0] == "sa" else P2) for a in ALGS]
    out += [("large:" + "-".join(map(str, a)), (lambda a=a: make(a)), LARGE) for a in
            (("azp",), ("bt", 4, 2), ("bt", None, 1), ("rt", 12, 2, 1), ("sa", 1.0, 1, 1, 1, 1))]
    out += [("mheu", lambda: MaxPRegionsHeu(random_state=0), MP)]
    out += [("pex", PRegionsExact, PE), ("mex", MaxPRegionsExact, ME)]
    out += [("sk:" + k, f, SK) for k, f in SKERS.items()]
    kin = [("p:" + "-".join(map(str, a)), (lambda a=a: make(a)), KIN_P) for a in ALGS]
    kin += [("mheu", lambda: MaxPRegionsHeu(random_state=0), KIN_MP), ("pex", PRegionsExact, KIN_PE), ("mex", MaxPRegionsExact, KIN_ME)]
    kin += [("sk:" + k, f, KIN_SK) for k, f in SKERS.items()]
    out += [("kin:" + nm, f, alpha) for nm, f, alpha in kin]
    return out


def jobs(tier):
    th = tier == "thorough"
    out = []
    for name, _, alpha in instances():
        n = len(alpha)
        if name.startswith("kin"):
            out += [dict(kind="kin", inst=name, final=f, policies=list(POLICIES) if th else [list(POLICIES)[(f + i) % 5] for i in ((0,) if ":sa" in name else (0, 2))])
                    for f in range(n)]
            continue
        if name.startswith("large"):
            for f in range(n - 1):
                for h in range(n):
                    if th or (f + h) % 2 == 0 or f == h:
                        out.append(dict(kind="one", inst=name, hist=(h,), final=f, dev=0, policy=list(POLICIES)[(f + 2 * h) % 5]))
                    if th or (f + h) % 5 == 0:
                        out.append(dict(kind="two", inst=name, first=h, final=f, every=1 if th else 4, policy=list(POLICIES)[(f + h // 5) % 5]))
            continue
        for f in range(n):
            if alpha[f].bad:
                continue
            slow = name.startswith("p:sa")
            for h in range(n):
                out.append(dict(kind="one", inst=name, hist=(h,), final=f, dev=1 if not slow or th else 0))
                if slow and not th and (h + f) % 2:
                    continue
                out.append(dict(kind="two", inst=name, first=h, final=f,
                                every=1 if th else 6 if slow else 4 if name != "mheu" and not name.startswith("sk") else 1))
                if th:
                    for h2 in range(n):
                        out.append(dict(kind="two", inst=name, first=(h, h2), final=f, every=3))
    for ls in (("azp",), ("bt", 2, 1), ("rt", 4, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
        for f in range(3):
            for h in range(len(MP)):
                out.append(dict(kind="ls", ls=ls, f=f, h=h))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def lookup(name):
    for nm, new, alpha in instances():
        if nm == name:
            return new, alpha
    raise KeyError(name)


def result(inst):
    if isinstance(inst, Spanning_Forest):
        return (as_labels(getattr(inst, "current_labels_", None)), getattr(inst, "got_score", None))
    return as_labels(inst.labels_)


def replay_history(ctx, inst, alpha, hist, pattern):
    done = []
    for i, h in enumerate(hist):
        fo = ex.Follow(PATTERNS[(pattern + i) % 3])
        err = ctx.attempt(fo, lambda: alpha[h](inst))
        done.append((alpha[h].show, type(err).__name__ if err is not None else "done"))
        if alpha[h].bad != "maybe" and (err is not None) != alpha[h].bad:
            return done, "fit {} {}".format(alpha[h].show, "succeeded" if err is None else "failed: " + describe(err))
    return done, None


def against_fresh(ctx, job, new, alpha, hist, final, dev, pattern=0):
    def run(ctl):
        fresh = new()
        e0 = ctx.attempt(ctl, lambda: alpha[final](fresh))
        if e0 is not None:
            ctx.fail("a fit of a new instance failed: " + describe(e0), inst=job.get("inst"), fit=alpha[final].show)
            return
        old = new()
        done, problem = replay_history(ctx, old, alpha, hist, pattern)
        d = dict(inst=job.get("inst"), history=done, fit=alpha[final].show, choices=ctl.choices())
        if problem:
            ctx.fail(problem, **d)
            return
        e1 = ctx.attempt(ex.Follow(ctl.choices()), lambda: alpha[final](old))
        ctx.distinct("cases", (job.get("inst"), hist, final, result(fresh)))
        if e1 is not None:
            ctx.fail("failed after a history: " + describe(e1), **d)
        elif result(old) != result(fresh):
            ctx.fail("{} after a history, {} from a new instance".format(result(old), result(fresh)), **d)
    ctx.explore(run, max_dev=dev, policy=job.get("policy", "first"))


def in_new_process(name, hist, final, policy):
    """Results of the last fit on an instance that did the others, and on a new one; draws follow the policy."""
    new, alpha = lookup(name)
    out = []

    def once(inst, act):
        def run(ctl):
            try:
                ex.under(ctl, lambda: act(inst), 40)
                out.append(result(inst))
            except (Exception, ex.Horizon, ex.Hang) as e:  # noqa
                out.append("failed: " + describe(e))
        ex.explore(run, max_dev=0, policy=policy)
    old = new()
    for h in hist:
        once(old, alpha[h])
    out = []
    once(new(), alpha[final])
    if hist:
        once(old, alpha[final])
    return out


def do_kin(job, ctx):
    """In new processes: a fit alone, and after another one of this class."""
    name, f = job["inst"], job["final"]
    _, alpha = lookup(name)
    for policy in job["policies"]:
        alone, = fresh.call("mc.checks.c11", "in_new_process", name, (), f, policy)
        ctx.distinct("cases", (name, f, alone))
        if isinstance(alone, str):
            ctx.fail("a fit in a new process " + alone, inst=name, fit=alpha[f].show)
            return
        for h in range(len(alpha)):
            got = fresh.call("mc.checks.c11", "in_new_process", name, (h,), f, policy)
            ctx.count("executions", 2)
            for what, r in zip(("on a new instance", "on the same instance"), got):
                if r != alone:
                    ctx.fail("{} {} after another fit, {} in a new process".format(r, what, alone), inst=name, fit=alpha[f].show,
                             history=alpha[h].show, policy=policy)
                    return


def do_one(job, ctx):
    new, alpha = lookup(job["inst"])
    drawing = job["inst"].startswith(("p:", "mheu", "large"))
    for pattern in range(3) if drawing and ctx.tier == "thorough" else (job["final"] % 3 if drawing else 0,):
        against_fresh(ctx, job, new, alpha, job["hist"], job["final"], job["dev"], pattern)
        if ctx.enough() or ctx.late():
            return


def do_two(job, ctx):
    new, alpha = lookup(job["inst"])
    first = job["first"] if isinstance(job["first"], tuple) else (job["first"],)
    for h2 in range(len(alpha)):
        if (h2 + sum(first) + job["final"]) % job["every"]:
            continue
        against_fresh(ctx, job, new, alpha, first + (h2,), job["final"], 0, h2 % 3)
        if ctx.enough() or ctx.late():
            return


def do_ls(job, ctx):
    """A local search that was used before, inside a max-p fit and on its own afterwards."""
    ls, f, h = job["ls"], job["f"], job["h"]
    on_its_own = [P2[0], P2[1], P2[4]]

    def run(ctl):
        fresh_ls = make(ls)
        fresh = MaxPRegionsHeu(local_search=fresh_ls, random_state=0)
        e0 = ctx.attempt(ctl, lambda: MP[f](fresh))
        if e0 is not None:
            ctx.fail("a fit of a new instance failed: " + describe(e0), ls=ls, fit=MP[f].show)
            return
        used = make(ls)
        for i, act in enumerate((P2[4], P2[6], P2[8])):
            ctx.attempt(ex.Follow(PATTERNS[i % 3]), lambda: act(used))
        heu = MaxPRegionsHeu(local_search=used, random_state=0)
        ctx.attempt(ex.Follow(PATTERNS[1]), lambda: MP[h](heu))
        d = dict(ls=ls, history=MP[h].show, fit=MP[f].show, choices=ctl.choices())
        e1 = ctx.attempt(ex.Follow(ctl.choices()), lambda: MP[f](heu))
        if e1 is not None:
            ctx.fail("failed after a history: " + describe(e1), **d)
            return
        if result(heu) != result(fresh):
            ctx.fail("{} after a history, {} from a new instance".format(result(heu), result(fresh)), **d)
            return
        for act in on_its_own:
            new = make(ls)
            ea = ctx.attempt(ex.Follow(PATTERNS[2]), lambda: act(new))
            eb = ctx.attempt(ex.Follow(PATTERNS[2]), lambda: act(used))
            ctx.distinct("cases", (ls, h, f, result(new)))
            if ea is not None or eb is not None:
                ctx.fail("the local search used on its own failed: " + describe(ea or eb), **d)
            elif result(new) != result(used):
                ctx.fail("{} from the local search on its own, {} from a new one".format(
                    result(used), result(new)), on_its_own=act.show, **d)
    ctx.explore(run, max_dev=1 if ctx.tier == "thorough" else 0)
