"""C05: the acceptance strategy is obeyed and only ever offered legal moves."""
import numpy as np

from .. import maps, oracle as orc
from ..common import (AZP, AllowMoveAZP, AllowMoveStrategy, PAIRWISE, arr, as_labels, csr, int_labels,
                      make, rows, starts)
from ..job import describe
from ..spaces import ASPIRING, BOWTIE, COLS, GRID23, HOUSE, ISL5, ISL5B, ISL6, big_jobs, comps, five_maps, remote, small_maps

LEVEL = "model_checking"
RULE = ("AZP, AZPBasicTabu and AZPReactiveTabu fits whose acceptance strategy is the harness: each answer (accept or deny) and each random draw "
        "is an explored choice, within a deviation bound from 'always deny', from 'always accept' and from "
        "the original rule.  A model of the current partition follows the accepted offers; each offer is "
        "checked for legality on it and the final labels_ must equal it "
        "(AZPReactiveTabu: a partition that was passed).")
ASSUMPTIONS = ["choices are varied on maps of at most 6 areas (9 in special cases); the maps of 8 to 25 areas are explored "
               "around five fixed ways of answering random draws only",
               "after 6 (on larger maps up to 40) accepted moves per island the scripted strategies deny everything"]
CAP = 6


class Watch:
    """Follows one fit."""

    def __init__(self, g, start, attr, cap=CAP):
        self.g, self.start, self.attr, self.cap = g, start, attr, cap
        self.nm = orc.nbr_masks(*g)
        self.islands = orc.connected_components(*g)
        self.model = list(start) if start is not None else [None] * g[0]
        self.idx = None
        self.begun = []
        self.problem = None
        self.offers = 0
        self.accepted = 0
        self.passed = {}        # island -> the partitions it went through

    def bad(self, msg):
        if self.problem is None:
            self.problem = msg

    def begin(self, initial_labels, attr, comp_idx):
        idx = [int(i) for i in comp_idx]
        mask = sum(1 << i for i in idx)
        if mask not in self.islands or sorted(idx) != idx:
            self.bad("start_new_component got areas {} which are no island".format(idx))
            return
        if mask in self.begun:
            self.bad("island {} was started twice".format(idx))
        self.begun.append(mask)
        self.idx = idx
        labels = as_labels(initial_labels)
        if len(labels) != len(idx):
            self.bad("start_new_component got {} labels for {} areas".format(len(labels), len(idx)))
            return
        if self.start is not None and list(labels) != [self.start[i] for i in idx]:
            self.bad("the starting labels of island {} are {} instead of {}".format(
                idx, labels, [self.start[i] for i in idx]))
        if np.asarray(attr).tolist() != [list(self.attr[i]) for i in idx]:
            self.bad("the attributes of island {} are {}".format(idx, np.asarray(attr).tolist()))
        for i, l in zip(idx, labels):
            self.model[i] = l
        self.passed[mask] = [list(labels)]
        if any(not orc.mask_connected(m, self.nm) for m in self.regions().values()):
            self.bad("the starting regions of island {} are not connected: {}".format(idx, labels))

    def regions(self):
        out = {}
        for i in self.idx:
            out[self.model[i]] = out.get(self.model[i], 0) | 1 << i
        return out

    def offer(self, area, region, labels):
        self.offers += 1
        cur = [self.model[i] for i in self.idx]
        if list(as_labels(labels)) != cur:
            self.bad("the labels passed along are {} but the current partition is {}".format(
                as_labels(labels), cur))
            return
        a = self.idx[int(area)]
        donor = self.model[a]
        regs = self.regions()
        what = "move of area {} from region {} to {} in {}".format(int(area), donor, region, cur)
        if region == donor or region not in regs:
            self.bad("pointless " + what)
        elif not self.nm[a] & regs[region]:
            self.bad("no neighbour in the recipient region: " + what)
        elif not orc.mask_connected(regs[donor] & ~(1 << a), self.nm):
            self.bad("the donor region is emptied or split: " + what)

    def accept(self, area, region):
        self.accepted += 1
        self.model[self.idx[int(area)]] = region.item() if hasattr(region, "item") else region
        self.passed[sum(1 << i for i in self.idx)].append([self.model[i] for i in self.idx])

    def final_problem(self, got, last):
        """What is wrong with the final labels (last: they must be the last partition passed)."""
        if got is None or len(got) != self.g[0]:
            return True
        for mask in self.islands:
            if mask in self.passed:
                mine = [got[i] for i in orc.bits(mask)]
                if mine not in (self.passed[mask][-1:] if last else self.passed[mask]):
                    return True
        return False


class Scripted(AllowMoveStrategy):
    def __init__(self, watch, ctl, default):
        self.watch, self.ctl, self.default = watch, ctl, default

    def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
        super().start_new_component(initial_labels, attr, objective_func, comp_idx)
        self.watch.begin(initial_labels, attr, comp_idx)
        self.left = self.watch.cap
        self.objective_val = 100.0

    def __call__(self, moving_area, new_region, labels):
        self.watch.offer(moving_area, new_region, labels)
        if not self.left:
            return False
        ans = self.ctl.choose(2)
        if self.default == "accept":
            ans = 1 - ans
        if ans:
            self.left -= 1
            self.objective_val -= 1.0
            self.watch.accept(moving_area, new_region)
        return bool(ans)


class Original(AllowMoveAZP):
    def __init__(self, watch):
        self.watch = watch

    def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
        super().start_new_component(initial_labels, attr, objective_func, comp_idx)
        self.watch.begin(initial_labels, attr, comp_idx)

    def __call__(self, moving_area, new_region, labels):
        self.watch.offer(moving_area, new_region, labels)
        ans = super().__call__(moving_area, new_region, labels)
        if ans:
            self.watch.accept(moving_area, new_region)
        return ans


def jobs(tier):
    th = tier == "thorough"
    out = []
    for pol in ("deny", "accept"):
        for g in small_maps(4):
            if not g[1] or comps(g) == g[0]:
                continue
            n, m = g[0], len(g[1])
            dev = None if n <= 2 else (4 if m < 3 else 2) if n == 3 else 2 if m <= 3 else 1
            if th and n >= 3:
                dev += 1
            out.append(dict(pol=pol, g=g, attr=rows(COLS[n][1]), init="all", dev=dev))
        for g in five_maps(th):
            if not g[1]:
                continue
            for p in range(comps(g), 5):
                out.append(dict(pol=pol, g=g, attr=rows(COLS[5][1]), init="all", ps=(p,),
                                dev=2 if th else 1 if len(g[1]) <= 5 or p == 2 else 0))
        for g in (GRID23, ISL6, maps.cycle(6)) + ((maps.complete(6), maps.star(6)) if th else ()):
            for p in (2, 3, 4):
                out.append(dict(pol=pol, g=g, attr=rows(COLS[6][1]), init="all", ps=(p,),
                                dev=1 if th or pol == "accept" and (p == 2 or len(g[1]) < 7) else 0))
        for g in small_maps(4, shuffled=False) + [HOUSE, ISL5, ISL5B]:
            if g[1]:
                out.append(dict(pol=pol, g=g, attr=rows(COLS[g[0]][1]), init="none", dev=2 if th else 1))
    for g in small_maps(4) + five_maps(th) + [GRID23, ISL6]:
        if not g[1]:
            continue
        for col in COLS[g[0]][1:(4 if th else 2 if g[0] > 4 else 3)]:
            out.append(dict(pol="original", g=g, attr=rows(col), init="all",
                            dev=(2 if g[0] < 4 or len(g[1]) < 4 else 1 if g[0] < 5 or len(g[1]) < 6 else 0)
                            + (1 if th else 0)))
        out.append(dict(pol="original", g=g, attr=rows(COLS[g[0]][1]), init="none", dev=1))
    for a, alg in enumerate((("bt", 2, 2), ("bt", None, 1), ("bt", 1, 2), ("rt", 5, 0, 0), ("rt", 6, 1, 1))):
        for g in small_maps(4, shuffled=False) + five_maps(th):
            if not g[1] or comps(g) == g[0]:
                continue
            n = g[0]
            for pol in ("deny", "accept"):
                for c, col in enumerate(COLS[n][1:]):
                    for p in range(max(comps(g), 2), n):
                        if n < 4 or th or n < 5 and c == a % 3 or n == 5 and (c + a + p + len(g[1])) % 6 == 0:
                            out.append(dict(alg=alg, pol=pol, g=g, attr=rows(col), init="all", ps=(p,),
                                            dev=(4 if th else 3) if n < 4 else 3 if th or n < 5 and len(g[1]) < 4 else
                                            2 if n < 5 or len(g[1]) < 6 and alg[1] != 1 else 1))
        for g in (GRID23, ISL6):
            for p in (2, 3):
                for pol in ("deny", "accept"):
                    out.append(dict(alg=alg, pol=pol, g=g, attr=rows(COLS[6][1 + (a + p) % 3]), init="all", ps=(p,),
                                    dev=2 if th else 1))
    for g, col, p, start, alg in ASPIRING:
        for pol in ("deny", "accept", "original"):
            out.append(dict(alg=alg, pol=pol, g=g, attr=rows(col), init=(orc.canon(start),), ps=(p,),
                            dev=4 if th else 3 if pol == "original" else 2))
    for k, j in enumerate(big_jobs(tier, [("azp",), ("bt", 4, 1), ("rt", 12, 1, 1)])):
        out.append(dict(j, pol=("accept", "original", "accept", "original", "deny")[k % 5], cap=(6, 15, 40)[k % 3]))
    for k, j in enumerate(out):
        j["attr"] = remote(j["attr"], k // 3)
    return out


NAMES = (4, 0, 7, 2, 9, 1)


def do_job(job, ctx):
    g, pol, alg = job["g"], job["pol"], job.get("alg", ("azp",))
    n = g[0]
    adj, at = csr(g), arr(job["attr"])
    for p in job.get("ps") or range(comps(g), n + 1):
        inits = [None] if job["init"] == "none" else starts(g, p) if job["init"] == "all" else job["init"]
        for k, start0 in enumerate(inits):
            # every other start uses labels that are not 0..p-1
            start = start0 if start0 is None or k % 2 else tuple(NAMES[x] if x < len(NAMES) else 10 + x for x in start0)

            def run(ctl):
                watch = Watch(g, start, job["attr"], job.get("cap", CAP))
                strat = Original(watch) if pol == "original" else Scripted(watch, ctl, pol)
                if alg[0] == "azp":
                    inst = AZP(allow_move_strategy=strat, random_state=0)
                else:
                    inst = make(alg)
                    inst.allow_move_strategy = strat
                il = None if start is None else int_labels(start)
                err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                    adj.copy(), at.copy(), p, initial_labels=il, objective_func=PAIRWISE))
                d = dict(alg=alg, policy=pol, map=g, attr=job["attr"], p=p, start=start)
                ctx.count("offers", watch.offers)
                ctx.count("accepted", watch.accepted)
                ctx.distinct("outcomes", (alg, g, p, start, tuple(watch.model), watch.offers))
                if watch.problem:
                    ctx.fail(watch.problem, **d)
                elif err is not None:
                    ctx.fail("fit failed: " + describe(err), **d)
                else:
                    got = as_labels(inst.labels_)
                    if watch.final_problem(got, alg[0] != "rt"):
                        ctx.fail("labels_ is {} but the accepted moves lead to {}".format(
                            got, watch.model), **d)
            st = ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))
            if ctx.enough() or ctx.late():
                return
            if st is not None:
                ctx.sample(policy=pol, map=g, p=p, start=start, executions=st.execs)
