"""C08: initial solutions and component splits."""
import itertools

import numpy as np

from .. import maps, oracle as orc
from ..common import any_csr, csr
from ..job import describe
from ..spaces import BIG, BOWTIE, GRID23, HOUSE, ISL5, ISL5B, ISL6, ISL6B, big_starts, comps
from region.util import (distribute_regions_among_components, generate_initial_sol,
                         separate_components)

LEVEL = "model_checking"
RULE = ("Every random outcome of generate_initial_sol on every graph up to 4 areas (and re-ordered island maps), "
        "with at most k deviations on larger ones, for every feasible number of regions; the yielded arrays "
        "are compared with the partition oracle, and on completely explored trees every split of the regions "
        "over the islands must have occurred.  Every draw sequence of distribute_regions_among_components for "
        "all vectors of island labels up to 6 areas.  separate_components on all graphs up to 5 areas and all "
        "labellings, with the consumer overwriting each yielded array.")
ASSUMPTIONS = ["maps of 8 to 25 areas: around five fixed ways of answering random draws only (0 or 1 deviations)",
               "maps beyond the listed sizes and outcomes beyond the deviation bounds are not explored"]


def island_maps(th):
    P, K, U, I = maps.path, maps.complete, maps.union, maps.interleaved
    out = [I(P(2), P(3)), I(P(1), K(3)), I(P(2), P(2)), ISL5B, U(P(1), P(1), P(3)), I(P(1), P(4)),
           U(P(2), P(1), P(2)), ISL6, ISL6B]
    if th:
        out += [I(P(3), P(3)), I(P(2), maps.cycle(4)), U(P(1), I(P(2), P(3))), U(P(2), P(2), P(2))]
    return out


def tree_size(g, p):
    """Executions of the present implementation (only used to choose the bound)."""
    sizes = [len(orc.bits(m)) for m in orc.connected_components(*g)]
    total = 0
    for split in orc.distributions(sizes, p):
        k = 1
        for s, c in zip(sizes, split):
            for i in range(c - 1):
                k *= max(s - 1 - i, 1) ** 5
        total += k
    for i in range(p - len(sizes)):
        total *= g[0] - len(sizes) - i
    return total


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 5):
        for g in maps.graphs(n):
            for h in (maps.shuffles(g) if comps(g) > 1 else [g]):
                for p in range(comps(h), n + 1):
                    dev = None if n < 4 or p == 2 or th or comps(h) > 1 else 3
                    out.append(dict(kind="gen", g=h, p=p, dev=dev, w=0))
                    if n <= 3 or p == 2:
                        out.append(dict(kind="gen", g=h, p=p, dev=None if n <= 3 else 2, w=1))
    for g in [maps.path(5), maps.cycle(5), maps.star(5), HOUSE, BOWTIE, maps.complete(5)]:
        for p in range(1, 6):
            out.append(dict(kind="gen", g=g, p=p, dev=3 if th else 2, w=0))
    for g in [GRID23, maps.cycle(6), maps.star(6)] + ([maps.complete(6), maps.grid(2, 4)] if th else []):
        for p in range(1, g[0] + 1):
            out.append(dict(kind="gen", g=g, p=p, dev=2 if th else 1, w=0))
    for g in island_maps(th):
        for p in range(comps(g), g[0] + 1):
            small = tree_size(g, p) <= (20000 if th else 1500)
            out.append(dict(kind="gen", g=g, p=p, dev=None if small else 3 if th else 2, w=0))
    c = 0
    for gi, g in enumerate(BIG):
        k = comps(g)
        for p in range(k, g[0] + 1):
            pols = ("first", "last", "mid", "turns", "zigzag")
            for policy in pols if th or p - k < 2 or p > g[0] - 2 else (pols[(p + gi) % 5], pols[(p + gi + 2) % 5]):
                c += 1
                out.append(dict(kind="gen", g=g, p=p, dev=1 if p == k + 1 and (th or g[0] < 14 or c % 5 == 0) else 0, w=c % 2,
                                policy=policy))
        out.append(dict(kind="sepbig", g=g))
    for n in range(1, 7):
        out.append(dict(kind="split", n=n))
    for k, sizes in enumerate(((12, 1), (1, 9, 3), (4, 4, 4, 4), (2,) * 8, (20, 5), (11,), (1,) * 12)):
        out.append(dict(kind="splitbig", sizes=sizes))
    for n in range(1, 6):
        for g in maps.graphs(n):
            out.append(dict(kind="sep", g=g, full=n <= 4 or th))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def adjacency(g, weighted):
    m = csr(g) if weighted else any_csr(g)
    if weighted:        # symmetric, all different
        d = m.toarray()
        for i, (a, b) in enumerate(g[1]):
            d[a, b] = d[b, a] = (i * 7 % 5) + 0.5
        import scipy.sparse as sp
        m = sp.csr_matrix(d)
    return m


def do_gen(job, ctx):
    g, p = job["g"], job["p"]
    n = g[0]
    cc = orc.connected_components(*g)
    sizes = [len(orc.bits(m)) for m in cc]
    splits = set()
    reals = []          # uniform draws are only sampled: no statement about what never occurs

    def run(ctl):
        adj = adjacency(g, job["w"])
        got = []
        err = ctx.attempt(ctl, lambda: got.extend(list(generate_initial_sol(adj, p))))
        if ctl.used_real:
            reals.append(1)
        d = dict(map=g, p=p, weighted=bool(job["w"]))
        if err is not None:
            ctx.fail("generate_initial_sol failed: " + describe(err), **d)
            return
        arrays = [np.asarray(a) for a in got]
        d["yielded"] = [a.tolist() for a in arrays]
        if len(arrays) != len(cc):
            ctx.fail("{} labellings for {} components".format(len(arrays), len(cc)), **d)
            return
        whole = [None] * n
        found = []
        for a in arrays:
            if a.shape != (n,):
                ctx.fail("labelling of shape {}".format(a.shape), **d)
                return
            mask = sum(1 << i for i in range(n) if a[i] != -1)
            found.append(mask)
            for i in orc.bits(mask):
                whole[i] = a[i].item()
        if sorted(found) != sorted(cc):
            ctx.fail("the labellings cover {} instead of the components".format(
                [orc.bits(m) for m in found]), **d)
            return
        problem = orc.partition_problem(whole, n, g[1], p)
        if problem:
            ctx.fail(problem, **d)
            return
        if set(whole) != set(range(p)):
            ctx.fail("regions are labelled {}".format(sorted(set(whole))), **d)
            return
        splits.add(tuple(len({whole[i] for i in orc.bits(m)}) for m in cc))
        ctx.distinct("outcomes", (job["w"], g, p, tuple(whole)))

    st = ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))
    if ctx.enough() or st is None or ctx.only is not None:
        return
    if st.capped == 0 and job["dev"] is None and not reals:
        want = set(orc.distributions(sizes, p))
        if splits != want:
            ctx.fail("splits {} of {} regions over components of sizes {} never occur".format(
                sorted(want - splits), p, sizes), map=g, p=p)
        ctx.count("complete_trees")
    ctx.sample(map=g, p=p, executions=st.execs, splits=sorted(splits))


def do_split(job, ctx):
    """Regions over components: all draw sequences, all vectors of component labels."""
    n = job["n"]
    for labels in orc._growth_strings(n):
        k = max(labels) + 1
        sizes = [labels.count(c) for c in range(k)]
        for p in range(k, n + 1):
            want = set(orc.distributions(sizes, p))
            for as_list in (False, True):
                seen = set()
                reals = []
                arg = list(labels) if as_list else np.array(labels, dtype=np.int32)

                def run(ctl):
                    res = {}
                    err = ctx.attempt(ctl, lambda: res.update(distribute_regions_among_components(arg, p)))
                    d = dict(component_labels=labels, p=p)
                    if ctl.used_real:
                        reals.append(1)
                    if err is not None:
                        ctx.fail("distribute_regions_among_components failed: " + describe(err), **d)
                        return
                    got = {int(c): int(v) for c, v in res.items()}
                    if list(arg) != list(labels):
                        ctx.fail("the argument was changed to {}".format(list(arg)), **d)
                        return
                    if set(got) != set(range(k)) or tuple(got[c] for c in range(k)) not in want:
                        ctx.fail("split {} of {} regions over components of sizes {}".format(got, p, sizes), **d)
                        return
                    seen.add(tuple(got[c] for c in range(k)))
                    ctx.distinct("splits", (labels, p, tuple(got[c] for c in range(k))))
                st = ctx.explore(run)
                if ctx.enough() or ctx.late():
                    return
                if st is not None and not st.capped and ctx.only is None and not reals and seen != want:
                    ctx.fail("splits {} never occur".format(sorted(want - seen)), component_labels=labels, p=p)
                    return
                if n > 5:
                    break


def do_splitbig(job, ctx):
    """Many regions over large components, around the fixed policies."""
    sizes = job["sizes"]
    n = sum(sizes)
    labels, left = [], list(sizes)
    while len(labels) < n:
        for c in range(len(sizes)):
            if left[c] and (c or len(labels) % 2 == 0 or sum(left) == left[0]):
                left[c] -= 1
                labels.append(c)
    for p in range(len(sizes), n + 1):
        for policy in ("first", "last", "mid", "turns", "zigzag"):
            def run(ctl):
                res = {}
                err = ctx.attempt(ctl, lambda: res.update(distribute_regions_among_components(np.array(labels), p)))
                d = dict(component_labels=labels, p=p)
                if err is not None:
                    ctx.fail("distribute_regions_among_components failed: " + describe(err), **d)
                    return
                got = {int(c): int(v) for c, v in res.items()}
                if set(got) != set(range(len(sizes))) or sum(got.values()) != p or \
                        any(not 1 <= got[c] <= s for c, s in enumerate(sizes)):
                    ctx.fail("split {} of {} regions over components of sizes {}".format(got, p, sizes), **d)
                ctx.distinct("splits", (sizes, p, tuple(sorted(got.items()))))
            ctx.explore(run, policy=policy, max_dev=1 if n < 14 and policy in ("first", "turns") else 0)
            if ctx.enough() or ctx.late():
                return


def do_sepbig(job, ctx):
    g = job["g"]
    k = comps(g)
    do_sep(dict(maps=[g], space=sum((big_starts(g, p) for p in (k, (k + g[0]) // 2, g[0])), ())), ctx)


def do_sep(job, ctx):
    g = job.get("g")
    for h in job.get("maps") or maps.shuffles(g):
        n = h[0]
        cc = orc.connected_components(*h)
        adj = any_csr(h)
        space = job.get("space") or (orc._growth_strings(n) if job["full"] else orc.feasible_partitions(n, h[1]))
        for l0 in space:
            for dt, f in ((int, lambda x: x), (np.int32, lambda x: 3 * x + 2), (float, lambda x: 30 - x)):
                labels = np.array([f(x) for x in l0], dtype=dt)
                before = labels.copy()
                d = dict(map=h, labels=before.tolist())
                covered = []

                def run(ctl):
                    def consume():
                        for a in separate_components(adj, labels):
                            a = np.asarray(a)
                            mask = sum(1 << i for i in range(n) if a[i] != -1)
                            covered.append(mask)
                            if a.shape != (n,) or any(a[i] != before[i] for i in orc.bits(mask)):
                                ctx.fail("yielded {}".format(a.tolist()), **d)
                            a[:] = 99            # consumers move areas in the yielded arrays
                    err = ctx.attempt(ctl, consume)
                    if err is not None:
                        ctx.fail("separate_components failed: " + describe(err), **d)
                    elif sorted(covered) != sorted(cc):
                        ctx.fail("the labellings cover {}".format([orc.bits(m) for m in covered]), **d)
                    elif not np.array_equal(labels, before):
                        ctx.fail("the caller's labels were changed to {}".format(labels.tolist()), **d)
                    ctx.distinct("separated", (h, tuple(before.tolist())))
                ctx.single(run)
                if ctx.enough() or ctx.late():
                    return
