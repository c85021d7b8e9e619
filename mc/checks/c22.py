"""C22: max-p construction builds valid regions and places every enclave."""
import itertools

import numpy as np

from .. import maps, oracle as orc
from ..common import PAIRWISE, any_csr, arr, fast_manhattan
from ..job import describe
from ..maxp import SPS, big_maxp, cases, thr_of, thr_row
from ..spaces import BOWTIE, BULL, GRID23, HOUSE, ISL5, ISL6, scaled_case, small_maps
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("grow_regions and assign_enclaves called directly and inside fits (max_it 1 and 2), on maps up to 6 areas (all "
        "graphs up to 4), attribute tables with ties, one or two spatially extensive attributes, thresholds islands reach "
        "or do not reach, every random outcome (up to 4 areas; deviation-bounded beyond): the regions returned must be "
        "explained by some order of least-dissimilar additions that stops as soon as the threshold is reached, and the "
        "completed partition by some order of placing each enclave in a least-dissimilar neighbouring region.  "
        "assign_enclaves is also given every partial partition of every map up to 4 areas; find_best_area and "
        "find_best_region_idx every candidate set.  Construction is also followed on 12 maps of 8 to 25 areas under five "
        "fixed ways of answering random draws.")
ASSUMPTIONS = ["deviation bound 2 on random outcomes for 5 and 6 areas, none for larger maps"]


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(kind, case, **kw):
        out.append(dict(kind=kind, case=case, **kw))
    for case in cases(small_maps(3)):
        add("grow", case, dev=None)
        add("fit", case, dev=None, max_it=1)
    for c, case in enumerate(cases(small_maps(4)[-24:])):
        add("grow", case, dev=None)
        if th or c % 5 == 0:
            add("fit", case, dev=3 if th else 2, max_it=1)
        if th or c % 5 == 1:
            add("fit", case, dev=1, max_it=2)
    for c, case in enumerate(cases((HOUSE, BULL, BOWTIE, ISL5, maps.cycle(5), maps.path(5), maps.star(5)))):
        if th or c % 3 == 0:
            add("grow", case, dev=None if th or len(case[0][1]) < 6 else 3)
        if th or c % 9 == 1:
            add("fit", case, dev=2 if th else 1, max_it=1)
    for c, case in enumerate(cases((GRID23, maps.cycle(6), ISL6, maps.path(6)))):
        if th or c % 3 == 0:
            add("grow", case, dev=3 if th else 2)
    # thresholds some or all islands do not reach
    for g in small_maps(4):
        n = g[0]
        for k, sp in enumerate(SPS[n]):
            total = max(sum(r[0] for r in sp), 1)
            for thr in (total, total + 1, 2) if len(sp[0]) == 1 else ((1, total), (total + 1, 1)):
                for attr in (((0,), (3,), (1,), (0,))[:n], ((1,),) * n) if th or k % 2 else (((0,), (3,), (1,), (0,))[:n],):
                    add("grow", (g, sp, thr, attr), dev=None)
    for g in small_maps(4):
        for attr in (((0,), (3,), (1,), (0,)), ((1,),) * 4, ((8, 6), (1, 9), (3, 7), (5, 6))):
            add("place", (g, None, None, attr[:g[0]]), dev=None)
    for c, g in enumerate((HOUSE, BULL, BOWTIE, maps.cycle(5), maps.path(5), maps.star(5), maps.complete(5), GRID23)):
        for attr in (((0,), (3,), (1,), (0,), (2,), (3,)), ((1,),) * 6):
            add("place", (g, None, None, attr[:g[0]]), dev=None if th else 2)
    for attr in (((0,), (3,), (1,), (0,)), ((1,),) * 4, ((8, 6), (1, 9), (3, 7), (5, 6))):
        add("best", (None, None, None, attr), dev=None)
    for kind, case, max_it, policy in big_maxp(tier, ("grow", "fit")):
        add(kind, case, dev=0, policy=policy, max_it=max_it)
    for k, j in enumerate(out):
        j["case"] = scaled_case(j["case"], k // 3)
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def total(sp, areas):
    return [sum(sp[a][k] for a in areas) for k in range(len(sp[0]))]


def reaches(sp, areas, need):
    return all(x >= t for x, t in zip(total(sp, areas), need))


def grown_in_order(region, free, nm, sp, need, dist):
    """Can `region` be grown from one of its areas, `free` being the unassigned areas?"""
    if any(a not in free for a in region):
        return False

    dead = set()

    def extend(have):
        if reaches(sp, have, need):
            return have == region
        key = frozenset(have)
        if key in dead:
            return False
        dead.add(key)
        cand = {b for a in have for b in orc.bits(nm[a])} & free - have
        if not cand:
            return False
        cost = {b: sum(dist[a][b] for a in have) for b in cand}
        low = min(cost.values()) + 1e-9 * max(map(max, dist))
        return any(extend(have | {b}) for b in cand if cost[b] <= low and b in region)
    return any(extend({a}) for a in region)


def growth_problem(g, sp, need, dist, regions, left):
    """None, or why grow_regions cannot have returned this."""
    n = g[0]
    nm = orc.nbr_masks(*g)
    areas = [a for r in regions for a in r] + list(left)
    if sorted(areas) != list(range(n)):
        return "regions and remaining areas do not make up all areas exactly once"
    for r in regions:
        if not r:
            return "an empty region"
        if not orc.mask_connected(sum(1 << a for a in r), nm):
            return "region {} is not connected".format(sorted(r))
        if not reaches(sp, r, need):
            return "region {} does not reach the threshold".format(sorted(r))
    for comp in components(left, nm):
        if reaches(sp, comp, need):
            return "the remaining areas {} reach the threshold".format(sorted(comp))

    dead = set()

    def explain(todo, free):
        if not todo:
            return True
        key = frozenset(free)
        if key in dead:
            return False
        dead.add(key)
        for i, r in enumerate(todo):
            if grown_in_order(r, free, nm, sp, need, dist) and explain(todo[:i] + todo[i + 1:], free - r):
                return True
        return False
    if not explain([set(r) for r in regions], set(range(n))):
        return "no order of additions of least dissimilar neighbours gives these regions"
    return None


def components(areas, nm):
    areas = set(areas)
    while areas:
        comp, todo = set(), [next(iter(areas))]
        while todo:
            a = todo.pop()
            if a not in comp:
                comp.add(a)
                todo += [b for b in orc.bits(nm[a]) if b in areas]
        areas -= comp
        yield comp


def placing_problem(g, dist, before, left, after):
    """None, or why assign_enclaves cannot have made `after` of `before` and the enclaves `left`."""
    n = g[0]
    nm = orc.nbr_masks(*g)
    if sorted(a for r in after for a in r) != list(range(n)):
        return "the regions do not make up all areas exactly once"
    goal = sorted(sorted(r) for r in after)
    for r in goal:
        if not orc.mask_connected(sum(1 << a for a in r), nm):
            return "region {} is not connected".format(r)
    if len(after) != len(before):
        return "there are {} regions instead of {}".format(len(after), len(before))
    where = {a: tuple(sorted(r)) for r in after for a in r}
    dead = set()

    def explain(parts, todo):
        if not todo:
            return sorted(sorted(r) for r in parts) == goal
        key = (frozenset(parts), todo)
        if key in dead:
            return False
        for a in todo:
            near = [i for i, r in enumerate(parts) if any(b in r for b in orc.bits(nm[a]))]
            if not near:
                continue
            cost = {i: sum(dist[a][b] for b in parts[i]) for i in near}
            low = min(cost.values()) + 1e-9 * max(map(max, dist))
            for i in near:
                if cost[i] <= low and parts[i] <= set(where[a]):
                    rest = parts[:i] + (parts[i] | {a},) + parts[i + 1:]
                    if explain(rest, todo - {a}):
                        return True
        dead.add(key)
        return False
    if not explain(tuple(frozenset(r) for r in before), frozenset(left)):
        return "no order of placing enclaves in least dissimilar neighbouring regions gives these regions"
    return None


def plain(regions):
    return [{int(a) for a in r} for r in regions]


def do_grow(job, ctx):
    g, sp, thr, attr = job["case"]
    need = thr_row(thr, len(sp[0]))
    dist = orc.manhattan_table(attr)
    ints = len(attr) % 2 and all(isinstance(x, int) for r in sp for x in r)

    def run(ctl):
        inst = MaxPRegionsHeu(random_state=0)
        inst.metric = fast_manhattan
        box = []
        adj, at, spa = any_csr(g, job), arr(attr), arr(sp, int if ints else float)
        err = ctx.attempt(ctl, lambda: box.append(inst.grow_regions(adj, at, spa, thr_of(thr))))
        d = dict(map=g, spatially_extensive=sp, threshold=thr, attr=attr)
        if err is not None:
            ctx.fail("grow_regions fails: " + describe(err), **d)
            return
        regions, left = plain(box[0][0]), [int(a) for a in box[0][1]]
        ctx.distinct("outcomes", (job["case"], tuple(map(tuple, map(sorted, regions))), tuple(left)))
        problem = growth_problem(g, sp, need, dist, regions, left)
        if problem:
            ctx.fail("grow_regions gives {} and the remaining areas {}: {}".format(regions, left, problem), **d)
            return
        if not regions or any(not any(a in r for r in regions for a in orc.bits(c))
                              for c in orc.connected_components(*g)):
            return
        nb = {a: orc.bits(m) for a, m in enumerate(orc.nbr_masks(*g))}
        before = [set(r) for r in regions]
        got = []
        err = ctx.attempt(ctl, lambda: got.append(inst.assign_enclaves(
            [set(r) for r in regions], list(left), nb, at)))
        if err is not None:
            ctx.fail("assign_enclaves fails: " + describe(err), regions=before, enclaves=left, **d)
            return
        problem = placing_problem(g, dist, before, left, plain(got[0]))
        if problem:
            ctx.fail("assign_enclaves makes {} of {} and {}: {}".format(plain(got[0]), before, left, problem), **d)
    ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))
    ctx.sample(map=g, spatially_extensive=sp, threshold=thr, attr=attr)


class Recorder(MaxPRegionsHeu):
    def start(self):
        self.grown, self.placed = [], []

    def grow_regions(self, *args, **kwargs):
        out = super().grow_regions(*args, **kwargs)
        self.grown.append((plain(out[0]), [int(a) for a in out[1]]))
        return out

    def assign_enclaves(self, partition, enclave_areas, *args, **kwargs):
        before = (plain(partition), [int(a) for a in enclave_areas])
        out = super().assign_enclaves(partition, enclave_areas, *args, **kwargs)
        self.placed.append(before + (plain(out),))
        return out


def do_fit(job, ctx):
    g, sp, thr, attr = job["case"]
    need = thr_row(thr, len(sp[0]))
    dist = orc.manhattan_table(attr)
    spa = arr(sp)
    spa.setflags(write=False)

    def run(ctl):
        inst = Recorder(random_state=0)
        inst.start()
        err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
            any_csr(g, job), arr(attr), spa, thr_of(thr), max_it=job["max_it"], objective_func=PAIRWISE))
        d = dict(map=g, spatially_extensive=sp, threshold=thr, attr=attr, max_it=job["max_it"])
        if err is not None:
            ctx.fail("fit failed although every island reaches the threshold: " + describe(err), **d)
            return
        for regions, left in inst.grown:
            ctx.distinct("outcomes", (job["case"], tuple(map(tuple, map(sorted, regions))), tuple(left)))
            problem = growth_problem(g, sp, need, dist, regions, left)
            if problem:
                ctx.fail("grow_regions gives {} and the remaining areas {}: {}".format(regions, left, problem), **d)
                return
        for before, left, after in inst.placed:
            if (sorted(map(sorted, before)), sorted(left)) not in [(sorted(map(sorted, r)), sorted(l)) for r, l in inst.grown]:
                ctx.fail("assign_enclaves is given {} and {}, which was not grown".format(before, left), **d)
                return
            problem = placing_problem(g, dist, before, left, after)
            if problem:
                ctx.fail("assign_enclaves makes {} of {} and {}: {}".format(after, before, left, problem), **d)
                return
    ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))


def do_place(job, ctx):
    """Every partial partition with a region in each island."""
    g, _, _, attr = job["case"]
    n = g[0]
    nm = orc.nbr_masks(*g)
    nb = {a: orc.bits(m) for a, m in enumerate(nm)}
    dist = orc.manhattan_table(attr)
    at = arr(attr)
    c = 0
    for size in range(1, n + 1):
        for covered in itertools.combinations(range(n), size):
            if any(not any(a in covered for a in orc.bits(comp)) for comp in orc.connected_components(*g)):
                continue
            idx = {a: i for i, a in enumerate(covered)}
            sub = (size, tuple((idx[a], idx[b]) for a, b in g[1] if a in idx and b in idx))
            left = [a for a in range(n) if a not in idx]
            for labels in orc.feasible_partitions(*sub):
                c += 1
                if n >= 5 and ctx.tier != "thorough" and c % 4:
                    continue
                parts = [{a for a in covered if labels[idx[a]] == r} for r in range(max(labels) + 1)]
                if c % 2:
                    parts.reverse()
                    left.reverse()

                def run(ctl):
                    inst = MaxPRegionsHeu(random_state=0)
                    inst.metric = fast_manhattan
                    got = []
                    err = ctx.attempt(ctl, lambda: got.append(inst.assign_enclaves(
                        [set(r) for r in parts], list(left), {a: list(b) for a, b in nb.items()}, at)))
                    d = dict(map=g, attr=attr, regions=parts, enclaves=left)
                    if err is not None:
                        ctx.fail("assign_enclaves fails: " + describe(err), **d)
                        return
                    after = plain(got[0])
                    ctx.distinct("outcomes", (tuple(map(tuple, map(sorted, parts))), tuple(map(tuple, map(sorted, after)))))
                    problem = placing_problem(g, dist, parts, left, after)
                    if problem:
                        ctx.fail("assign_enclaves makes {}: {}".format(after, problem), **d)
                ctx.explore(run, max_dev=job["dev"])
                if ctx.enough() or ctx.late():
                    return


def do_best(job, ctx):
    """The two helpers, on every region and candidate set of four areas."""
    attr = job["case"][3]
    n = len(attr)
    dist = orc.manhattan_table(attr)
    at = arr(attr)
    for labels in itertools.product((0, 1, 2), repeat=n):       # 0: region, 1: candidate, 2: neither
        region = {a for a in range(n) if labels[a] == 0}
        cand = {a for a in range(n) if labels[a] == 1}
        if not region or not cand:
            continue

        def run(ctl):
            inst = MaxPRegionsHeu(random_state=0)
            inst.metric = fast_manhattan
            got = []
            err = ctx.attempt(ctl, lambda: got.append(inst.find_best_area(set(region), set(cand), at)))
            d = dict(attr=attr, region=sorted(region), candidates=sorted(cand))
            if err is not None:
                ctx.fail("find_best_area fails: " + describe(err), **d)
                return
            cost = {b: sum(dist[a][b] for a in region) for b in cand}
            ctx.distinct("outcomes", (labels, got[0]))
            if got[0] not in cost or cost[got[0]] > min(cost.values()):
                ctx.fail("find_best_area gives {}; dissimilarities {}".format(got[0], cost), **d)
        ctx.explore(run)
        if ctx.enough():
            return
    for area in range(n):
        rest = [a for a in range(n) if a != area]
        for labels in itertools.product((0, 1, 2), repeat=n - 1):
            parts = [{a for a, l in zip(rest, labels) if l == r} for r in range(3)]
            parts = [p for p in parts if p]
            for k in range(1, len(parts) + 1):
                for cand in itertools.combinations(range(len(parts)), k):
                    def run(ctl):
                        inst = MaxPRegionsHeu(random_state=0)
                        inst.metric = fast_manhattan
                        got = []
                        err = ctx.attempt(ctl, lambda: got.append(inst.find_best_region_idx(
                            area, [set(p) for p in parts], list(cand) * 2, at)))
                        d = dict(attr=attr, area=area, regions=parts, candidates=cand)
                        if err is not None:
                            ctx.fail("find_best_region_idx fails: " + describe(err), **d)
                            return
                        cost = {i: sum(dist[area][b] for b in parts[i]) for i in cand}
                        ctx.distinct("outcomes", (area, labels, cand, got[0]))
                        if got[0] not in cost or cost[got[0]] > min(cost.values()):
                            ctx.fail("find_best_region_idx gives {}; dissimilarities {}".format(got[0], cost), **d)
                    ctx.explore(run)
                    if ctx.enough():
                        return
