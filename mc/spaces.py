"""The bounded input spaces shared by the search checks (C01-C03, C05-C07, ...)."""
from . import maps, oracle as orc
from .common import (PAIRWISE, as_labels, arr, any_csr, ex, int_labels, make, rows, starts)

COLS = {
    1: [(0,), (4,)],
    2: [(0, 0), (0, 1)],
    3: [(0, 0, 0), (0, 2, 1), (1, 1, 0)],
    4: [(0, 0, 0, 0), (0, 3, 1, 0), (0, 1, 3, 7), (2, 2, 0, 2)],
    5: [(0, 0, 0, 0, 0), (0, 3, 1, 0, 2), (1, 0, 1, 0, 1), (0, 1, 3, 7, 15)],
    6: [(0, 0, 0, 0, 0, 0), (0, 3, 1, 0, 2, 3), (0, 1, 0, 1, 0, 1), (0, 1, 3, 7, 15, 31)],
    7: [(0, 0, 0, 0, 0, 0, 0), (0, 3, 1, 0, 2, 3, 1), (0, 1, 0, 1, 0, 1, 1)],
    8: [(0, 3, 1, 0, 2, 3, 1, 5), (0, 1, 0, 1, 0, 1, 1, 0)],
}

HOUSE = (5, ((0, 1), (1, 2), (2, 3), (0, 3), (0, 4), (1, 4)))
BOWTIE = (5, ((0, 1), (0, 2), (1, 2), (0, 3), (0, 4), (3, 4)))
BULL = (5, ((0, 1), (0, 2), (1, 2), (1, 3), (2, 4)))
ISL5 = maps.interleaved(maps.path(3), maps.path(2))
ISL5B = maps.interleaved(maps.complete(3), maps.path(2))
ISL6 = maps.interleaved(maps.path(3), maps.complete(3))
ISL6B = maps.union(maps.path(1), maps.path(2), maps.path(3))
GRID23 = maps.grid(2, 3)

# searches in which aspiration moves are made: (map, attributes, regions, start, algorithm)
G33, G24 = maps.grid(3, 3), maps.grid(2, 4)
ASPIRING = [
    (G33, (3, 2, 3, 2, 1, 0, 3, 0, 2), 2, (0, 0, 0, 0, 0, 0, 1, 1, 0), ("bt", 4, 2)),
    (G33, (3, 1, 1, 2, 3, 1, 1, 1, 2), 2, (0, 0, 0, 0, 0, 0, 0, 0, 1), ("bt", None, 2)),
    (G33, (5, 1, 2, 2, 2, 2, 2, 2, 2), 3, (0, 1, 1, 0, 0, 0, 2, 0, 0), ("bt", 4, 2)),
    (G33, (2, 1, 2, 5, 5, 0, 3, 1, 0), 2, (0, 0, 1, 0, 1, 1, 0, 0, 1), ("bt", None, 2)),
    (G33, (3, 0, 1, 0, 0, 1, 1, 3, 2), 3, (0, 0, 0, 0, 0, 1, 2, 0, 0), ("bt", None, 2)),
    (G33, (1, 0, 1, 0, 2, 2, 2, 1, 5), 3, (0, 0, 1, 2, 1, 1, 1, 1, 1), ("bt", None, 2)),
    (G24, (5, 0, 2, 2, 0, 0, 2, 1), 2, (0, 0, 0, 0, 0, 0, 1, 0), ("bt", None, 2)),
    (G24, (0, 0, 5, 5, 5, 3, 1, 0), 3, (0, 0, 0, 1, 0, 0, 2, 1), ("bt", None, 2)),
    (GRID23, (5, 1, 2, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0), ("bt", None, 2)),
    (GRID23, (2, 0, 2, 0, 0, 3), 3, (0, 0, 1, 0, 0, 2), ("bt", None, 2)),
    (GRID23, (3, 1, 1, 1, 1, 1), 2, (0, 0, 1, 0, 0, 0), ("bt", 3, 2)),
    (maps.cycle(6), (1, 2, 5, 1, 0, 2), 2, (0, 0, 0, 0, 1, 0), ("bt", 3, 2)),
    (HOUSE, (5, 3, 5, 3, 1), 2, (0, 0, 1, 0, 0), ("bt", None, 2)),
    (HOUSE, (1, 1, 5, 3, 1), 3, (0, 1, 1, 2, 1), ("bt", 3, 2)),
    (maps.complete(5), (0, 0, 1, 2, 0), 3, (0, 1, 2, 2, 1), ("bt", 3, 2)),
]


# powers of two, which leave the arithmetic exact
SCALES = (1, 2.0 ** -40, 1, 2.0 ** 16, 2.0 ** -24)


def scaled(table, k):
    """The rows of a table in another unit (k-th scale)."""
    f = SCALES[k % len(SCALES)]
    return table if f == 1 or table is None else tuple(tuple(f * v for v in r) for r in table)


FAR = 2 ** 30


def remote(table, k):
    """Every seventh table in other units, or far away from zero, where single precision does not tell the areas apart."""
    table = scaled(table, k)
    if k % 7 != 3 or table is None or SCALES[k % len(SCALES)] != 1:
        return table
    return tuple(tuple(v + FAR for v in r) for r in table)


def scaled_case(case, k):
    """A max-p case (map, spatially extensive attribute, threshold, attributes) in other units."""
    g, sp, thr, attr = case
    f = SCALES[k // len(SCALES) % len(SCALES)]
    if sp is not None and f != 1:
        sp = tuple(tuple(f * v for v in r) for r in sp)
        thr = tuple(f * t for t in thr) if isinstance(thr, tuple) else f * thr
    return g, sp, thr, remote(attr, k)


def comps(g):
    return len(orc.connected_components(*g))


def small_maps(nmax=4, shuffled=True):
    out = []
    for n in range(1, nmax + 1):
        for g in maps.graphs(n):
            out.append(g)
            if shuffled and n >= 3 and comps(g) > 1:
                out += [h for h in maps.shuffles(g)[1:] if h not in out]
    return out


def five_maps(all_=False):
    if all_:
        return list(maps.graphs(5))
    return [maps.path(5), maps.cycle(5), maps.star(5), HOUSE, BOWTIE, BULL, ISL5, ISL5B]


def default_dev(g, big=2):
    """Full tree on sparse maps, a deviation bound on dense ones."""
    n, es = g
    if n <= 3 or (len(es) <= n - 1 and n <= 5):
        return None
    if len(es) <= n:
        return big
    return big - 1


def each_fit(job, ctx, judge, obj=PAIRWISE, horizon=20000, reals=(0.0, 0.999999), wrap=None):
    """Explore every fit of `job`:
        alg, g, attr (rows), ps ("all" or tuple), init ("all"/"none"/tuple of labels), dev
    judge(info) with info: inst, labels, err, start, p, g, attr, ctl
    """
    g, attr, alg, dev = job["g"], job["attr"], job["alg"], job.get("dev")
    n = g[0]
    adj = any_csr(g, job)
    at = arr(attr)
    k = comps(g)
    ps = range(k, n + 1) if job.get("ps", "all") == "all" else job["ps"]
    for p in ps:
        if job["init"] == "none":
            inits = [None]
        elif job["init"] == "all":
            inits = starts(g, p)
        else:
            inits = job["init"]
        for start in inits:
            def run(ctl):
                inst = make(alg)
                if wrap is not None:
                    wrap(inst, ctl)
                il = None if start is None else int_labels(start)
                err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                    adj.copy(), at.copy(), p, initial_labels=il, objective_func=obj))
                labels = as_labels(inst.labels_)
                ctx.distinct("outcomes", (g, attr, p, start, labels))
                judge(dict(inst=inst, labels=labels, err=err, start=start, p=p, g=g, attr=attr,
                           ctl=ctl, alg=alg))
            st = ctx.explore(run, max_dev=dev, horizon=horizon, reals=reals, policy=job.get("policy", "first"))
            if ctx.enough() or ctx.late():
                return
            if st is not None and start is not None:
                ctx.sample(alg=alg, map=g, attr=attr, p=p, start=start, executions=st.execs,
                           max_choices=st.max_choices)


TRIANGLES = (6, ((0, 1), (0, 2), (1, 2), (2, 3), (3, 4), (3, 5), (4, 5)))
KITE7 = (7, ((0, 1), (0, 2), (1, 2), (2, 3), (3, 4), (3, 5), (4, 5), (2, 6)))
WHISKERS = (6, ((0, 1), (0, 2), (1, 2), (0, 3), (0, 4), (3, 4), (0, 5)))


def cut_maps(th):
    """Maps whose regions are full of cut areas."""
    out = list(maps.trees(6)) + [TRIANGLES, WHISKERS]
    out += (list(maps.trees(7)) + [KITE7]) if th else list(maps.trees(7))[1::3] + [KITE7]
    return out


def marks(g):
    """Attributes that draw one area to one of its neighbours."""
    out = []
    for a, b in g[1]:
        out.append(tuple(10 if i in (a, b) else 0 for i in range(g[0])))
        out.append(tuple(10 - 3 * (i == a) if i in (a, b) else i % 2 for i in range(g[0])))
    return out


def cut_jobs(tier, algs):
    th = tier == "thorough"
    out = []
    for gi, g in enumerate(cut_maps(th)):
        for ai, alg in enumerate(algs):
            cols = marks(g)
            for c, col in enumerate(cols):
                if not th and (c + ai + gi) % (2 if g[0] == 6 else 3):
                    continue
                for p in (2, 3) if th or (c + gi) % 4 == 0 else (2,):
                    out.append(dict(alg=alg, g=g, attr=rows(col), init="all", ps=(p,), dev=1 if th else 0))
    return out


def search_jobs(tier, cols_limit=None, azp=True, sa=True, tabu=True, gen=True):
    """Standard mix of search jobs."""
    thorough = tier == "thorough"
    out = []

    def cols(n):
        c = COLS[n]
        return c if thorough or cols_limit is None else c[:cols_limit]

    if azp:
        for g in small_maps(4):
            for col in cols(g[0]):
                out.append(dict(alg=("azp",), g=g, attr=rows(col), init="all",
                                dev=(None if g[0] <= 3 else 3 if thorough else default_dev(g))))
        for g in five_maps(thorough):
            for col in cols(5)[:4 if thorough else 2]:
                out.append(dict(alg=("azp",), g=g, attr=rows(col), init="all",
                                dev=2 if thorough else 1 if len(g[1]) > 4 else 2))
        if thorough:
            for g in (GRID23, maps.cycle(6), ISL6, ISL6B):
                for col in cols(6)[:3]:
                    for p in range(comps(g), 6):
                        out.append(dict(alg=("azp",), g=g, attr=rows(col), init="all", ps=(p,), dev=1))
    if tabu:
        for g, col, p, start, alg in ASPIRING:
            out.append(dict(alg=alg, g=g, attr=rows(col), init=(orc.canon(start),), ps=(p,), dev=3))
        for alg in (("bt", 1, 1), ("bt", 2, 2), ("bt", None, 2), ("rt", 6, 0, 0), ("rt", 5, 1, 1),
                    ("rt", 2, 3, 0)):
            for g in small_maps(4, shuffled=False):
                for col in cols(g[0]):
                    out.append(dict(alg=alg, g=g, attr=rows(col), init="all", dev=None))
            for g in (five_maps(thorough) if alg[1] != 1 else five_maps()[:3]):
                for col in cols(5)[:4 if thorough else 3]:
                    out.append(dict(alg=alg, g=g, attr=rows(col), init="all", dev=None))
            if alg in (("bt", 2, 2), ("rt", 6, 0, 0)):
                for g in (GRID23, ISL6):
                    for col in cols(6)[:3]:
                        out.append(dict(alg=alg, g=g, attr=rows(col), init="all", dev=2))
    if sa:
        algs = [("sa", 1.0, 2, 1, 1, 1), ("sa", 2.0, 1, 2, 2, 2)]
        for alg in algs:
            for g in (maps.path(2), maps.path(3), maps.complete(3), maps.path(4), maps.star(4),
                      maps.cycle(4), maps.union(maps.path(2), maps.path(2)),
                      maps.interleaved(maps.path(2), maps.path(2))):
                for col in cols(g[0])[:2]:
                    out.append(dict(alg=alg, g=g, attr=rows(col), init="all",
                                    dev=2 if thorough or g[0] <= 3 else 1))
            if thorough:
                for g in five_maps():
                    for col in cols(5)[:2]:
                        out.append(dict(alg=alg, g=g, attr=rows(col), init="all", dev=1))
    out += cut_jobs(tier, ([("azp",)] if azp else []) + ([("bt", 2, 1), ("rt", 6, 1, 1)] if tabu else []))
    if gen:
        for alg in (("azp",), ("bt", 2, 1), ("rt", 4, 1, 1), ("sa", 1.0, 1, 1, 1, 1)):
            for g in small_maps(4):
                if comps(g) == g[0] and g[0] > 2:
                    continue
                dev = 1 if g[0] >= 4 or alg[0] == "sa" else 2
                if thorough:
                    dev += 1
                out.append(dict(alg=alg, g=g, attr=rows(COLS[g[0]][1]), init="none", dev=dev))
            for g in five_maps(thorough):
                if alg[0] == "sa" and not thorough:
                    continue
                out.append(dict(alg=alg, g=g, attr=rows(COLS[5][1]), init="none", dev=1))
    return out


# ---- larger maps, explored around fixed policies of answering random draws
CATERPILLAR = (13, tuple((i, i + 1) for i in range(5)) + tuple((i % 6, 6 + i) for i in range(7)))
WHEEL = (9, tuple((0, i) for i in range(1, 9)) + tuple((i, i % 8 + 1) for i in range(1, 9)))
PAIRS = maps.union(*[maps.path(2)] * 6)
ARCHIPELAGO = maps.interleaved(maps.union(maps.grid(3, 3), maps.path(1)), maps.union(maps.path(4), maps.complete(3)))
BIG = [maps.grid(3, 4), ARCHIPELAGO, maps.path(12), WHEEL, maps.grid(4, 4), maps.cycle(11), CATERPILLAR, maps.star(10),
       PAIRS, maps.complete(8), maps.interleaved(maps.grid(3, 3), maps.grid(2, 4)), maps.grid(5, 5)]
BIG_COLS = [lambda i, n: (i * 7 + 3) % 11, lambda i, n: i * i % 5, lambda i, n: i, lambda i, n: i % 2,
            lambda i, n: (i * 37 + 11) % 101]


def _tree_edges(g, deep):
    """A spanning forest, breadth or depth first."""
    nm = orc.nbr_masks(*g)
    seen, out = set(), []
    for root in range(g[0]):
        if root in seen:
            continue
        seen.add(root)
        todo = [(root, b) for b in orc.bits(nm[root])]
        while todo:
            a, b = todo.pop() if deep else todo.pop(0)
            if b not in seen:
                seen.add(b)
                out.append((a, b))
                todo += [(b, c) for c in orc.bits(nm[b])]
    return out


def big_starts(g, p):
    """Feasible labellings of any map: balanced pieces of a breadth or depth first forest, and one with many small regions."""
    n = g[0]
    out = []
    for deep, balanced in ((False, True), (True, True), (True, False)):
        edges = _tree_edges(g, deep)
        while True:
            parts = orc.connected_components(n, tuple(edges))
            if len(parts) >= p:
                break
            best = None
            for e in edges:
                rest = tuple(x for x in edges if x != e)
                sizes = sorted((bin(m).count("1") for m in orc.connected_components(n, rest)), reverse=True)
                key = sizes if balanced else [-s for s in sizes]
                if best is None or key < best[0]:
                    best = (key, e)
            edges.remove(best[1])
        label = [0] * n
        for k, m in enumerate(parts):
            for i in orc.bits(m):
                label[i] = k
        label = orc.canon(label)
        if label not in out:
            out.append(label)
    return tuple(out)


def big_jobs(tier, algs, maps_=None, gen=True):
    th = tier == "thorough"
    out = []
    c = 0
    policies = list(("first", "last", "mid", "turns", "zigzag"))
    for gi, g in enumerate(maps_ or BIG):
        n, k = g[0], comps(g)
        ps = sorted({max(k, 2), min(k + 2, n - 1), max(k, n // 2), n - 1})
        for ai, alg in enumerate(algs):
            for pi, p in enumerate(ps):
                for qi, policy in enumerate(policies):
                    c += 1
                    if not th and (gi + ai + pi + qi) % 3:
                        continue
                    col = tuple(BIG_COLS[c % len(BIG_COLS)](i, n) for i in range(n))
                    out.append(dict(alg=alg, g=g, attr=rows(col), ps=(p,), policy=policy, dev=0,
                                    init="none" if gen and (c // 3) % 4 == 3 else big_starts(g, p)))
    return out
