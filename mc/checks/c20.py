"""C20: heuristic max-p keeps the most regions it built and the best partition it found."""
import itertools

import numpy as np

from .. import maps, oracle as orc
from ..common import (AZP, AZPBasicTabu, AZPReactiveTabu, AllowMoveStrategy, CENTERS, PAIRWISE, arr, any_csr, as_labels, make)
from ..job import describe
from ..maxp import Scripted, big_maxp, cases, growths, thr_of, thr_row
from ..spaces import BULL, GRID23, HOUSE, ISL5, scaled_case, small_maps
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("Fits with max_it 1 to 3 on maps up to 6 areas, under every random outcome up to a number of deviations from the "
        "default answers (every outcome for max_it=1 and up to 3 areas); the partitions the public methods grow_regions "
        "and assign_enclaves return and the labels each local search starts from and ends in are recorded, and the result "
        "is compared with them: number of regions, lowest objective value, no improving single move.  Besides, all "
        "sequences of two (three on up to 3 areas) results the construction phase could have are scripted, and maps "
        "of 8 to 25 areas are followed under five fixed ways of answering random draws.")
ASSUMPTIONS = ["deviation bound 1-3 on random outcomes except for max_it=1 on up to 3 areas, none for more than 6 areas"]


class Recorder(MaxPRegionsHeu):
    """Writes down what the public construction methods return."""

    def start(self):
        self.grown, self.completed = [], []

    def grow_regions(self, *args, **kwargs):
        out = super().grow_regions(*args, **kwargs)
        self.grown.append(len(out[0]))
        if not out[1]:
            self.completed.append([frozenset(int(a) for a in r) for r in out[0]])
        return out

    def assign_enclaves(self, *args, **kwargs):
        out = super().assign_enclaves(*args, **kwargs)
        self.completed.append([frozenset(int(a) for a in r) for r in out])
        return out


class ScriptedRecorder(Recorder, Scripted):
    """The same, with scripted results of the construction."""


class Still(AllowMoveStrategy):
    def __call__(self, *args):
        return False


def recording(cls, **kw):
    """A local search that writes down where it starts and ends."""
    log = []

    class Search(cls):
        def fit_from_scipy_sparse_matrix(self, *args, **kwargs):
            super().fit_from_scipy_sparse_matrix(*args, **kwargs)
            log.append(as_labels(self.labels_))

        def fit(self, *args, **kwargs):
            super().fit_from_scipy_sparse_matrix(*args, **kwargs)
            log.append(as_labels(self.labels_))
    return Search(random_state=0, **kw), log


def new_search(ls):
    if ls == "azp":
        return recording(AZP)
    if ls == "still":
        return recording(AZP, allow_move_strategy=Still())
    if ls == "bt":
        return recording(AZPBasicTabu, tabu_length=2, repetitions_before_termination=1)
    if ls == "rt":
        return recording(AZPReactiveTabu, max_iterations=4, k1=1, k2=1)
    return None, None


LS = (None, "azp", "still", "bt", "rt")


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(case, ls, max_it, dev, obj="pair"):
        out.append(dict(case=case, ls=ls, max_it=max_it, dev=dev, obj=obj))
    for c, case in enumerate(cases(small_maps(3))):
        for i, ls in enumerate(LS):
            if th or (c + i) % 2 == 0:
                add(case, ls, 1, None, ("pair", "center")[c % 2])
                if th or (c + i) % 4 or case[0][0] < 3:
                    add(case, ls, 2, 4 if th else 2 if case[0][0] == 3 else None)
                if th or (c + i) % 6 == 0:
                    add(case, ls, 3, 3 if th else 2, ("pair", "center")[c // 2 % 2])
    for c, case in enumerate(cases(small_maps(4)[-24:], 1 if th else 2)):
        for i, ls in enumerate(LS):
            if th or (c + i) % 8 == 0:
                add(case, ls, 1, 3 if th else 2, ("pair", "center")[c % 2])
            if th or (c + i) % 6 == 1:
                add(case, ls, 2, 2 if th or ls == "still" and c % 4 == 0 else 1)
            if th or (c + i) % 9 == 2:
                add(case, ls, 3, 2 if th or ls == "still" and c % 8 == 0 else 1)
    for c, case in enumerate(cases((HOUSE, BULL, ISL5, maps.cycle(5), maps.path(5)), 1 if th else 4)):
        for i, ls in enumerate(LS):
            if th or (c + i) % 6 == 0:
                add(case, ls, 2, 2 if th else 1, ("pair", "center")[c % 3 == 0])
    for c, case in enumerate(cases((GRID23, maps.cycle(6)), 1 if th else 3)):
        for i, ls in enumerate(LS):
            if th or (c + i) % 6 == 0:
                add(case, ls, 2, 1)
    i = 0
    for case, every in [(c, 1) for c in cases(small_maps(3)[1:])] + [(c, 3) for c in cases(small_maps(4)[-24:], 3)] + [
            (c, 4) for c in cases((HOUSE, ISL5, maps.path(5)), 9)] + [(c, 1) for c in MIXED]:
        i += 1
        for k, seq in enumerate(((2,), (2, 3))[case[0][0] < 4]):
            for j, ls in enumerate(("still", None, "azp", "bt", "rt")):
                if th or (i + j + k) % 5 in ((0, 2) if case in MIXED else (0,)):
                    out.append(dict(case=case, ls=ls, max_it=seq, obj=("pair", "center")[i % 2], dev=1 if th else 0,
                                    script=1 if th else every))
    for ls, case, max_it, policy in big_maxp(tier, (None, "azp", "still", "bt", "rt")):
        out.append(dict(case=case, ls=ls, max_it=max_it, dev=0, obj="pair", policy=policy))
    for k, j in enumerate(out):
        if j["obj"] == "pair":
            j["case"] = scaled_case(j["case"], k // 3)
    return out


# construction results that differ in their numbers of regions and of remaining areas in every way
MIXED = [
    (maps.path(5), ((4,), (1,), (2,), (2,), (4,)), 4, ((0,), (3,), (1,), (0,), (2,))),
    (maps.path(6), ((1,),) * 6, 2, ((0,), (3,), (1,), (0,), (2,), (2,))),
    (maps.star(5), ((3,), (1,), (2,), (2,), (3,)), 3, ((0,), (3,), (1,), (0,), (2,))),
    (GRID23, ((3,), (1,), (3,), (1,), (1,), (2,)), 3, ((0,), (3,), (1,), (0,), (2,), (2,))),
    (maps.interleaved(maps.path(3), maps.path(3)), ((1,), (2,), (1,), (1,), (2,), (1,)), 2,
     ((0,), (3,), (1,), (0,), (2,), (2,))),
]


def cost_of(job):
    attr = job["case"][3]
    obj = PAIRWISE if job["obj"] == "pair" else CENTERS
    at = arr(attr)
    known = {}

    def cost(labels):
        key = orc.canon(labels)
        if key not in known:
            if job["obj"] == "pair":
                known[key] = orc.pair_cost(key, orc.manhattan_table(attr))
            else:
                known[key] = float(obj(np.array(key), at))      # C04 is about its values
        return known[key]
    return obj, at, cost


def do_job(job, ctx):
    g, sp, thr, attr = job["case"]
    n = g[0]
    obj, at, cost = cost_of(job)
    if "script" in job:
        all_ = growths(g, sp, thr)
        if len(all_) ** job["max_it"] > 400 and ctx.tier != "thorough":
            all_ = all_[::max(1, len(all_) // 16)]
        for i, results in enumerate(itertools.product(all_, repeat=job["max_it"])):
            if i % job["script"] == 0:
                explore(job, ctx, obj, at, cost, results)
                if ctx.enough() or ctx.late():
                    return
        return
    explore(job, ctx, obj, at, cost, None)


def explore(job, ctx, obj, at, cost, results):
    g, sp, thr, attr = job["case"]
    n = g[0]
    need = thr_row(thr, len(sp[0]))

    def run(ctl):
        search, ended = new_search(job["ls"])
        inst = (Recorder if results is None else ScriptedRecorder)(local_search=search, random_state=0)
        inst.start()
        if results is not None:
            inst.script(n, results)
        err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
            any_csr(g, job), at.copy(), arr(sp), thr_of(thr), max_it=job["max_it"], objective_func=obj))
        d = dict(map=g, spatially_extensive=sp, threshold=thr, attr=attr, local_search=job["ls"], max_it=job["max_it"],
                 objective=job["obj"], construction=results)
        if err is not None:
            ctx.fail("fit failed although every island reaches the threshold: " + describe(err), **d)
            return
        labels = as_labels(inst.labels_)
        if labels is None or len(labels) != n:
            ctx.fail("labels {}".format(labels), **d)
            return
        ctx.distinct("outcomes", (job["case"], job["ls"], labels))
        k, value = len(set(labels)), cost(labels)
        eps = 1e-9 * max(max(abs(v) for row in attr for v in row), abs(value))
        if inst.grown:
            ctx.count("grown", len(inst.grown))
            if len(inst.grown) != job["max_it"]:
                ctx.fail("{} partitions were constructed, max_it is {}".format(len(inst.grown), job["max_it"]), **d)
                return
            if k != max(inst.grown):
                ctx.fail("labels {}: {} regions, but partitions with {} regions were constructed".format(
                    labels, k, inst.grown), **d)
                return
        if job["ls"] in (None, "azp", "still"):
            for part in inst.completed:
                start = [None] * n
                for r, areas in enumerate(part):
                    for a in areas:
                        start[a] = r
                if None in start or len(part) != k:
                    continue
                if value > cost(start) + eps:
                    ctx.fail("labels {} have objective value {}, the constructed partition {} has {}".format(
                        labels, value, tuple(start), cost(start)), **d)
                    return
        if ended:
            ends = [l for l in ended if l is not None and len(l) == n and len(set(l)) == k]
            ctx.count("searched", len(ends))
            low = min(map(cost, ends)) if ends else None
            if ends and abs(low - value) > eps:
                ctx.fail("labels {} have objective value {}, the local searches ended in {}".format(
                    labels, value, [(l, cost(l)) for l in ends]), **d)
                return
            if ends and orc.canon(labels) not in {orc.canon(l) for l in ends}:
                ctx.fail("labels {} are not what a local search returned: {}".format(labels, ends), **d)
                return
        if job["ls"] in (None, "azp"):
            better, same = [], False
            for a, r in orc.admissible_moves(labels, n, g[1]):
                if not any(l == labels[a] for i, l in enumerate(labels) if i != a):
                    continue
                other = orc.moved(labels, a, r)
                if not orc.sums_reach(other, sp, need):
                    continue
                diff = cost(other) - value
                if diff < -eps:
                    better.append((a, r, diff))
                elif diff <= eps:
                    same = True
            if better and not same:
                ctx.fail("labels {} can be improved by moving an area to a region: {}".format(labels, better), **d)
    st = ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))
    if st is not None:
        ctx.sample(map=g, spatially_extensive=sp, threshold=thr, attr=attr, local_search=job["ls"], max_it=job["max_it"],
                   executions=st.execs, max_choices=st.max_choices)
