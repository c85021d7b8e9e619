"""C19: heuristic max-p regions are contiguous, complete and reach the threshold."""
from .. import maps, oracle as orc
from ..common import CENTERS, PAIRWISE, make, rows
from ..job import describe
from ..maxp import Scripted, big_maxp, cases, fit_maxp, growths, thr_row
from ..spaces import ASPIRING, BOWTIE, BULL, GRID23, HOUSE, ISL5, ISL6, scaled_case, small_maps
from ..common import as_labels

LEVEL = "model_checking"
RULE = ("Maps up to 6 areas (all graphs up to 4), one or two spatially extensive attributes with zeros and fractions, "
        "scalar and vector thresholds every island reaches, attribute tables with ties and several columns, every local "
        "search, pairwise and center objective: every random outcome of the construction and the local search up to 3 "
        "areas with max_it=1, up to a number of deviations from the default answers otherwise, max_it up to 3.  Besides, "
        "every result the construction phase could have (disjoint regions reaching the threshold, no group of remaining "
        "areas reaching it) is scripted through the public method grow_regions, followed by enclave assignment and every "
        "local search; and tabu searches are started where moves out of the tabu list break the threshold.  Maps of 8 "
        "to 25 areas are followed under five fixed ways of answering random draws.  Each result is checked for coverage, contiguity and the threshold.")
ASSUMPTIONS = ["deviation bound 1-3 on random outcomes for 4 and more areas and for max_it > 1, none for more than 6 areas",
               "uniform draws of simulated annealing: 0.0 or 0.999999"]

LS = (None, ("azp",), ("bt", 2, 1), ("bt", None, 2), ("rt", 4, 1, 1), ("rt", 6, 0, 0), ("sa", 1.0, 2, 1, 1, 1),
      ("sa", 2.0, 1, 2, 2, 2))


BIG_LS = (None, ("azp",), ("bt", 3, 2), ("bt", None, 1), ("rt", 10, 2, 1), ("sa", 2.0, 2, 1, 1, 1))


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(case, ls, max_it, dev, obj="pair"):
        out.append(dict(case=case, ls=ls, max_it=max_it, dev=dev, obj=obj))
    for c, case in enumerate(cases(small_maps(3))):
        for i, ls in enumerate(LS):
            if not th and (c + i) % 2:
                continue
            sa = ls is not None and ls[0] == "sa"
            if not th and sa and (c + i) % 4:
                continue
            add(case, ls, 1, None if not sa else 3 if th else 2, ("pair", "pair", "center")[(c + i) % 3])
            add(case, ls, 2, 2 if th or not sa else 1)
    for c, case in enumerate(cases(small_maps(4)[-24:] if not th else small_maps(4), 1 if th else 3)):
        for i, ls in enumerate(LS):
            sa = ls is not None and ls[0] == "sa"
            if th or (c + i) % (9 if sa else 3) == 0:
                add(case, ls, 1, (3 if sa else 4) if th else 1 if sa else 2, ("pair", "pair", "center")[(c + i) % 3])
            if th or (c + i) % 12 == 1:
                add(case, ls, 2 + c % 2, 2 if th else 1)
    for c, case in enumerate(cases((HOUSE, BULL, BOWTIE, ISL5, maps.cycle(5), maps.path(5), maps.star(5)), 1 if th else 5)):
        for i, ls in enumerate(LS):
            if th or (c + i) % 4 == 0 and ls != LS[-1]:
                add(case, ls, 1, 2 if th else 1)
    for c, case in enumerate(cases((GRID23, maps.cycle(6), ISL6), 1 if th else 3)):
        for i, ls in enumerate(LS):
            if th or (c + i) % 4 == 0 and ls != LS[-1]:
                add(case, ls, 1, 1)
    for c, case in enumerate(cases(small_maps(4)[1:], 1 if th else 2)
                             + cases((HOUSE, BULL, ISL5, maps.cycle(5), maps.path(5)), 1 if th else 3)
                             + cases((GRID23, ISL6), 1 if th else 8)):
        for i, ls in enumerate(LS):
            if ls is not None and (th or (c + i) % (3 if case[0][0] < 5 else 8) == 0):
                out.append(dict(case=case, ls=ls, max_it=1, obj="pair", script="all",
                                dev=1 if th or case[0][0] < 4 and ls[0] != "sa" else 0))
    for g, col, p, start, alg in ASPIRING:
        n = g[0]
        sizes = [start.count(r) for r in set(start)]
        part = tuple(sum(1 << i for i in range(n) if start[i] == r) for r in sorted(set(start)))
        for sp in ((1,) * n, col, tuple(1 + (3 * i + 1) % 4 for i in range(n))):
            low = min(sum(sp[i] for i in range(n) if m >> i & 1) for m in part)
            for thr in range(1, low + 1) if th or n < 7 else range(max(1, low - 1), low + 1):
                for a in {alg, ("bt", 2, 2), ("rt", 6, 0, 0)} if th else (alg,):
                    out.append(dict(case=(g, rows(sp), thr, rows(col)), ls=a, max_it=1, obj="pair", script=(part,),
                                    dev=4 if th else 2))
    for ls, case, max_it, policy in big_maxp(tier, BIG_LS):
        out.append(dict(case=case, ls=ls, max_it=max_it, dev=0, obj="pair", policy=policy))
    for k, j in enumerate(out):
        if j["obj"] == "pair":
            j["case"] = scaled_case(j["case"], k // 3)
    return out


def do_job(job, ctx):
    g, sp, thr, attr = job["case"]
    n = g[0]
    obj = PAIRWISE if job["obj"] == "pair" else CENTERS
    if "script" in job:
        for result in growths(g, sp, thr) if job["script"] == "all" else job["script"]:
            explore(job, ctx, obj, result)
            if ctx.enough() or ctx.late():
                return
        return
    explore(job, ctx, obj, None)


def explore(job, ctx, obj, result):
    g, sp, thr, attr = job["case"]
    n = g[0]

    def run(ctl):
        inst = None
        if result is not None:
            inst = Scripted(local_search=make(job["ls"]), random_state=0)
            inst.script(n, [result])
        inst, err = fit_maxp(ctx, ctl, job["case"], job["ls"], job["max_it"], obj, inst=inst,
                             dtype=int if len(job["case"][3]) % 2 and all(isinstance(x, int) for r in sp for x in r) else float)
        d = dict(map=g, spatially_extensive=sp, threshold=thr, attr=attr, local_search=job["ls"], max_it=job["max_it"],
                 construction=result)
        if err is not None:
            ctx.fail("fit failed although every island reaches the threshold: " + describe(err), **d)
            return
        labels = as_labels(inst.labels_)
        ctx.distinct("outcomes", (job["case"], job["ls"], labels))
        problem = "no labels" if labels is None else orc.partition_problem(labels, n, g[1])
        if problem:
            ctx.fail("labels {}: {}".format(labels, problem), **d)
        elif not orc.sums_reach(labels, sp, thr_row(thr, len(sp[0]))):
            ctx.fail("labels {}: a region does not reach the threshold".format(labels), **d)
    st = ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))
    if st is not None:
        ctx.sample(map=g, spatially_extensive=sp, threshold=thr, attr=attr, local_search=job["ls"], max_it=job["max_it"],
                   executions=st.execs, max_choices=st.max_choices)
