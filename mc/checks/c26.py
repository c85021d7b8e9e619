"""C26: islands do not influence each other."""
import itertools

import numpy as np

from .. import explore as ex, maps, oracle as orc
from ..common import (ObjectiveFunctionCenter, ObjectiveFunctionPairwise, arr, as_labels, csr, fast_manhattan, int_labels, make, rows)
from ..job import describe
from ..maxp import reachable, thr_of
from ..spaces import ARCHIPELAGO, BIG_COLS, COLS, HOUSE, PAIRS, big_starts, comps, remote, starts
from ..explore import POLICIES
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("Maps made of two to six islands (numbered one after the other, interleaved or mixed), every feasible start of "
        "the small ones, AZP, AZPBasicTabu, AZPReactiveTabu, and MaxPRegionsHeu with one construction: for every random outcome "
        "explored, the result on each island must be a result the same class can have on that island alone (its random "
        "outcomes replayed from the whole fit's in some order of the islands, or else looked up in the completely explored "
        "set of results); where both sides are completely explored, every combination of the islands' results must "
        "occur on the whole map.")
ASSUMPTIONS = ["all random outcomes for islands of up to 3 areas, a deviation bound of 1 to 3 beyond, five fixed policies for "
               "maps of more than 9 areas",
               "objectives whose value for a region does not depend on other regions"]

OBJ = {"pair": lambda: ObjectiveFunctionPairwise(fast_manhattan), "center": lambda: ObjectiveFunctionCenter(fast_manhattan),
       "max": lambda: ObjectiveFunctionCenter(fast_manhattan, reduction=np.max)}
CAP = 4000

P1, P2, P3, K3 = maps.path(1), maps.path(2), maps.path(3), maps.complete(3)


def mixed(*gs):
    """A disjoint union with its areas in another order."""
    u = maps.union(*gs)
    n = u[0]
    step = next(s for s in (5, 3, 7, 2, 11, 13) if np.gcd(s, n) == 1)
    return maps.relabel(u, [(i * step + 1) % n for i in range(n)])


def joined(*gs):
    out = [maps.union(*gs), mixed(*gs)]
    if len(gs) == 2:
        out += [maps.interleaved(*gs), maps.interleaved(gs[1], gs[0])]
    return list(dict.fromkeys(out))


SMALL = joined(P2, P2) + joined(P3, P1) + joined(P2, P3) + joined(K3, P2) + joined(P3, P3) + joined(P3, K3)
MIDDLE = joined(P2, P2, P2) + joined(P1, P3, P2) + joined(maps.path(4), P3) + joined(maps.cycle(4), maps.star(4)) + \
    joined(HOUSE, P3) + joined(maps.path(5), maps.path(4)) + joined(maps.cycle(5), K3, P1)
LARGE = [ARCHIPELAGO, PAIRS, maps.interleaved(maps.grid(3, 3), maps.grid(2, 4)), mixed(maps.grid(2, 4), maps.path(6), maps.complete(4)),
         mixed(maps.star(6), maps.cycle(7))]
ALGS = (("azp",), ("bt", 2, 1), ("bt", None, 2), ("bt", 3, 3), ("rt", 6, 0, 0), ("rt", 8, 1, 1), ("rt", 9, 0, 1))


def cols(n):
    out = list(COLS[n]) if n in COLS else []
    out += [tuple(f(i, n) for i in range(n)) for f in BIG_COLS]
    out += [tuple((0, 1, 0, 2, 1, 9)[(i * 5 + 2) % 6] for i in range(n)), tuple(i * i % 7 for i in range(n))]
    return [c for c in out if len(set(c)) > 1]


def jobs(tier):
    th = tier == "thorough"
    out = []
    c = 0
    for gi, g in enumerate(SMALL + MIDDLE):
        n, k = g[0], comps(g)
        for ai, alg in enumerate(ALGS):
            for ci, col in enumerate(cols(n)):
                for p in range(k + 1, n):
                    c += 1
                    if n > 4 and not th and c % (2 if n == 5 else 4 if n < 7 else 9):
                        continue
                    dev = None if alg[0] != "azp" or n <= 5 else 3 if th else 2 if n == 6 else 1
                    out.append(dict(kind="p", g=g, alg=alg, attr=remote(rows(col), c // 5), p=p, dev=dev, obj=("pair", "pair", "center", "max")[c % 4],
                                    every=1 if n < 7 or th else 2 if n == 7 else 5))
    for gi, g in enumerate(LARGE):
        n, k = g[0], comps(g)
        for ai, alg in enumerate(ALGS):
            for ci, col in enumerate(cols(n)[-7:]):
                for pi, p in enumerate(sorted({k + 1, k + 3, (n + k) // 2, n - 2})):
                    for policy in POLICIES:
                        c += 1
                        if th or c % 4 == 0:
                            out.append(dict(kind="p", g=g, alg=alg, attr=remote(rows(col), c // 5), p=p, dev=0, obj="pair", policy=policy,
                                            every=1))
    for g in [g for g in SMALL + MIDDLE if g[0] < 8]:
        n = g[0]
        for si, sp in enumerate((((1,),) * n, tuple((1 + i % 2,) for i in range(n)), tuple((1 + i % 2, 1 + i % 3) for i in range(n)),
                                 tuple((i % 3,) for i in range(n)))):
            for ti, thr in enumerate(reachable(g, sp)):
                for ci, col in enumerate(cols(n)):
                    for ls in (None, ("bt", 2, 1), ("rt", 6, 0, 0)):
                        c += 1
                        if th or c % (3 if n == 4 else 7 if n == 5 else 31) == 0:
                            out.append(dict(kind="m", g=g, attr=rows(col), sp=sp, thr=thr, ls=ls, dev=None if n <= 4 else 2 if th else 1))
    return out


def sub(g, isl):
    at = {a: i for i, a in enumerate(isl)}
    return (len(isl), tuple(sorted((min(at[a], at[b]), max(at[a], at[b])) for a, b in g[1] if a in at)))


def do_job(job, ctx):
    g = job["g"]
    isls = [tuple(orc.bits(m)) for m in orc.connected_components(*g)]
    if job["kind"] == "m":
        compare(job, ctx, isls, None)
        return
    all_ = starts(g, job["p"]) if g[0] < 10 else big_starts(g, job["p"])
    for i, start in enumerate(all_):
        if i % job["every"] == 0:
            compare(job, ctx, isls, start)
            if ctx.enough() or ctx.late():
                return


def fit(job, areas, start):
    """Fit the part of the map that consists of these areas."""
    g = sub(job["g"], areas)
    at = arr([job["attr"][a] for a in areas])
    if job["kind"] == "m":
        inst = MaxPRegionsHeu(make(job["ls"]) if job["ls"] else None, random_state=0)
        inst.fit_from_scipy_sparse_matrix(csr(g), at, arr([job["sp"][a] for a in areas]), thr_of(job["thr"]), max_it=1,
                                          objective_func=OBJ["pair"]())
    else:
        inst = make(job["alg"])
        part = [start[a] for a in areas]
        inst.fit_from_scipy_sparse_matrix(csr(g), at, len(set(part)), initial_labels=int_labels(part),
                                          objective_func=OBJ[job["obj"]]())
    return as_labels(inst.labels_)


ALONE = {}


def alone(job, ctx, areas, start):
    """(every result possible on these areas alone, or None)."""
    key = (areas, None if start is None else tuple(start[a] for a in areas))
    if key not in ALONE:
        found, bad = set(), []

        def run(ctl):
            box = []
            err = ctx.attempt(ctl, lambda: box.append(fit(job, areas, start)))
            if err is None:
                found.add(orc.canon(box[0]))
            else:
                bad.append(err)
        st = ex.explore(run, max_execs=CAP, should_stop=lambda: ctx.late() or bool(bad))
        ctx.count("executions", st.execs)
        ctx.count("transitions", st.edges)
        ALONE[key] = None if st.capped or bad else found
    return ALONE[key]


def elsewhere(job, ctx, isl, start, result):
    """Is this result possible when the island's areas are numbered in another order (ties may depend on that)?"""
    k = len(isl)
    orders = itertools.permutations(isl) if k <= 4 else [tuple(isl[(a * i + b) % k] for i in range(k))
                                                         for a in range(1, k) if np.gcd(a, k) == 1 for b in range(k)]
    for order in orders:
        possible = alone(job, ctx, order, start)
        if possible is None or orc.canon([result[isl.index(a)] for a in order]) in possible:
            return True
    return False


def compare(job, ctx, isls, start):
    g, n = job["g"], job["g"][0]
    occurred = set()

    def replayed(trace, parts):
        """Do the islands, fitted alone in some order under these random outcomes, give these results?"""
        for order in itertools.islice(itertools.permutations(range(len(isls))), 24):
            rest, good = list(trace), True
            for i in order:
                fo = ex.Follow([c for _, c in rest])
                box = []
                err = ctx.attempt(fo, lambda: box.append(fit(job, isls[i], start)))
                ctx.count("executions")
                if err is not None or orc.canon(box[0]) != parts[i] or list(map(tuple, fo.trace)) != list(map(tuple, rest[:len(fo.trace)])):
                    good = False
                    break
                rest = rest[len(fo.trace):]
            if good and not rest:
                return True
        return False

    def run(ctl):
        box = []
        err = ctx.attempt(ctl, lambda: box.append(fit(job, tuple(range(n)), start)))
        d = dict(map=g, attr=job["attr"], start=start, options={k: v for k, v in job.items() if k not in ("g", "attr")})
        if err is not None:
            ctx.fail("fit failed: " + describe(err), **d)
            return
        labels = box[0]
        parts = [orc.canon([labels[a] for a in isl]) for isl in isls]
        occurred.add(tuple(parts))
        ctx.distinct("outcomes", (g, start, labels))
        shared = [(i, j) for i, j in itertools.combinations(range(len(isls)), 2)
                  if {labels[a] for a in isls[i]} & {labels[a] for a in isls[j]}]
        if shared:
            ctx.fail("labels {}: a region has areas of two islands".format(labels), **d)
            return
        trace = list(ctl.trace)
        if job["kind"] == "p" and replayed(trace, parts):
            ctx.count("replayed")
            return
        for i, isl in enumerate(isls):
            possible = alone(job, ctx, isl, start)
            if possible is None:
                ctx.count("undecided")
            elif parts[i] not in possible and not elsewhere(job, ctx, isl, start, parts[i]):
                ctx.fail("labels {}: the island {} cannot end in {} on its own, only in {}".format(
                    labels, isl, parts[i], sorted(possible)[:8]), **d)
                return
            else:
                ctx.count("looked_up")
    ALONE.clear()
    st = ctx.explore(run, max_dev=job["dev"], max_execs=CAP * 5, policy=job.get("policy", "first"))
    if st is None or ctx.enough():
        return
    ctx.sample(map=g, attr=job["attr"], start=start, executions=st.execs)
    if job["dev"] is None and not st.capped:
        sets = [alone(job, ctx, isl, start) for isl in isls]
        if None in sets:
            return
        ctx.count("combinations", len(occurred))
        for combo in itertools.product(*sets):
            if combo not in occurred:
                ctx.fail("the islands {} can end in {} on their own, but not together".format(isls, combo), map=g,
                         attr=job["attr"], start=start, options={k: v for k, v in job.items() if k not in ("g", "attr")})
                return
