"""Bounded inputs and drivers for the max-p checks."""
import numpy as np

from . import maps
from .common import (PAIRWISE, any_csr, arr, as_labels, make)
from region.max_p_regions.heuristics import MaxPRegionsHeu

# (map, spatially extensive rows, threshold, attribute rows)
CASES = [
    (maps.path(2), ((1,), (1,)), 1, ((0,), (1,))),
    (maps.path(3), ((1,), (2,), (1,)), 2, ((0,), (3,), (1,))),
    (maps.path(4), ((1,), (1,), (1,), (1,)), 2, ((0,), (0,), (3,), (3,))),
    (maps.path(4), ((1,), (2,), (0,), (3,)), 3, ((0,), (3,), (1,), (0,))),
    (maps.cycle(4), ((1,), (1,), (1,), (1,)), 2, ((0,), (3,), (0,), (3,))),
    (maps.complete(4), ((2,), (1,), (1,), (1,)), 2, ((0,), (3,), (1,), (0,))),
    (maps.star(4), ((1,), (1,), (2,), (1,)), 2, ((0,), (3,), (1,), (0,))),
    (maps.union(maps.path(2), maps.path(2)), ((1,), (1,), (2,), (2,)), 2, ((0,), (3,), (1,), (0,))),
    (maps.interleaved(maps.path(2), maps.path(3)), ((2,), (1,), (1,), (1,), (2,)), 2,
     ((0,), (3,), (1,), (0,), (2,))),
    (maps.path(4), ((1, 2), (1, 0), (1, 1), (1, 1)), (2, 2), ((0,), (0,), (3,), (3,))),
    (maps.cycle(5), ((1,), (1,), (1,), (1,), (2,)), 2, ((0,), (0,), (0,), (0,), (0,))),
    (maps.path(5), ((1,), (1,), (1,), (1,), (1,)), 2, ((0,), (5,), (1,), (4,), (2,))),
    # no solution
    (maps.path(3), ((1,), (1,), (0,)), 5, ((0,), (3,), (1,))),
    (maps.union(maps.path(2), maps.path(1)), ((1,), (1,), (1,)), 2, ((0,), (3,), (1,))),
    # large threshold: one region
    (maps.grid(2, 3), ((1,),) * 6, 6, ((0,), (3,), (1,), (0,), (2,), (2,))),
    (maps.grid(2, 3), ((1,), (2,), (1,), (1,), (0,), (3,)), 3, ((0,), (3,), (1,), (0,), (2,), (2,))),
]


def thr_of(thr):
    return np.array(thr, dtype=float) if isinstance(thr, tuple) else thr


def thr_row(thr, width):
    return tuple(thr) if isinstance(thr, tuple) else (thr,) * width


def fit_maxp(ctx, ctl, case, ls, max_it=2, obj=PAIRWISE, inst=None, dtype=float):
    g, sp, thr, attr = case
    local = None if ls is None else make(ls)
    if inst is None:
        inst = MaxPRegionsHeu(local_search=local, random_state=0)
    err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
        any_csr(g, case), arr(attr), arr(sp, dtype), thr_of(thr), max_it=max_it, objective_func=obj))
    return inst, err


# ---- bounded spaces for C19, C20 and C22
SPS = {
    1: (((1,),), ((0,),)),
    2: (((1,), (1,)), ((0,), (2,)), ((1, 2), (2, 0))),
    3: (((1,), (1,), (1,)), ((1,), (0,), (2,)), ((2,), (1,), (0,)), ((1, 0), (0, 2), (1, 1))),
    4: (((1,), (1,), (1,), (1,)), ((1,), (2,), (0,), (3,)), ((0,), (0,), (2,), (1,)),
        ((1, 2), (1, 0), (1, 1), (1, 1)), ((0.5,), (0.25,), (1.25,), (0.5,))),
    5: (((1,), (1,), (1,), (1,), (1,)), ((2,), (1,), (1,), (1,), (2,)), ((0,), (3,), (1,), (0,), (2,)),
        ((1, 0), (0, 1), (2, 1), (0, 1), (1, 2))),
    6: (((1,),) * 6, ((1,), (2,), (1,), (1,), (0,), (3,)), ((1, 1), (0, 2), (1, 0), (2, 1), (1, 0), (0, 2))),
}
ATTRS = {
    1: (((3,),),),
    2: (((0,), (3,)), ((1,), (1,))),
    3: (((0,), (3,), (1,)), ((2,), (2,), (2,)), ((0, 1), (5, 2), (1, 4))),
    4: (((0,), (3,), (1,), (0,)), ((1,), (1,), (1,), (1,)), ((8, 6), (1, 9), (3, 7), (5, 6)), ((0,), (3,), (0,), (3,))),
    5: (((0,), (3,), (1,), (0,), (2,)), ((0,), (0,), (0,), (0,), (0,)), ((8, 6), (1, 9), (3, 7), (5, 6), (2, 2))),
    6: (((0,), (3,), (1,), (0,), (2,), (2,)), ((0,), (9,), (1,), (8,), (2,), (7,))),
}


def island_min(g, sp):
    from . import oracle as orc
    return [min(sum(sp[i][k] for i in orc.bits(c)) for c in orc.connected_components(*g)) for k in range(len(sp[0]))]


def reachable(g, sp):
    """Thresholds every island reaches, largest last."""
    low = island_min(g, sp)
    if len(low) == 1:
        out = sorted({t for t in (1, 2, 3, 0.75, low[0]) if t <= low[0]})
        return out + [(t,) for t in out[-1:]]
    out = [t for t in (1, 2) if t <= min(low)]
    out += sorted({t for t in ((1, 2), (2, 1), (0, 2), tuple(low)) if all(x <= y for x, y in zip(t, low))})
    return out


def cases(gs, every=1, zero=True):
    """(map, sp, threshold, attributes), every `every`-th combination."""
    out = []
    for i, g in enumerate(gs):
        n = g[0]
        for j, sp in enumerate(SPS[n]):
            for k, thr in enumerate(reachable(g, sp)):
                for l, attr in enumerate(ATTRS[n]):
                    if (i + 2 * j + 3 * k + l) % every == 0:
                        out.append((g, sp, thr, attr))
    return out


BIG_SPS = (lambda i, n: (1,), lambda i, n: (1 + i * 3 % 4,), lambda i, n: (i * 5 % 3, 1 + i % 2),
           lambda i, n: ((i * i + 2) % 7,), lambda i, n: (0.25 + i % 3,))


def big_maxp(tier, searches):
    """(local search, case, max_it, policy) on the larger maps: thresholds from a few areas up to most of an island."""
    from . import oracle as orc
    from .spaces import BIG, BIG_COLS
    out, c = [], 0
    for gi, g in enumerate(BIG):
        n = g[0]
        for si, f in enumerate(BIG_SPS):
            sp = tuple(f(i, n) for i in range(n))
            low = island_min(g, sp)
            for k, share in enumerate((1, 0.6, 0.3, 0)):
                need = []
                for j, x in enumerate(low):
                    few = sorted(r[j] for r in sp)[-2:]
                    need.append(min(x, max(sum(few), x * share // 1)))
                thr = need[0] if len(need) == 1 else tuple(need)
                for ai, ls in enumerate(searches):
                    for qi, policy in enumerate(("first", "last", "mid", "turns", "zigzag")):
                        c += 1
                        if tier != "thorough" and (gi + si + 2 * k + ai + 3 * qi) % 7:
                            continue
                        attr = tuple((BIG_COLS[(c // 7) % len(BIG_COLS)](i, n),) for i in range(n))
                        out.append((ls, (g, sp, thr, attr), 1 + c % 3, policy))
    return out


# ---- construction results, scripted
def growths(g, sp, thr, most=None):
    """All results the construction phase could have: disjoint contiguous regions that each reach the threshold
    (at least one per island), leaving no connected group of areas that reaches it.  Lists of bit masks; most
    regions first."""
    from . import oracle as orc
    n = g[0]
    nm = orc.nbr_masks(*g)
    need = thr_row(thr, len(sp[0]))

    def reaches(m):
        return all(sum(sp[i][k] for i in orc.bits(m)) >= need[k] for k in range(len(need)))
    good = [m for m in range(1, 1 << n) if orc.mask_connected(m, nm) and reaches(m)]
    islands = orc.connected_components(*g)
    out = []

    def rec(used, last, chosen):
        rest = ((1 << n) - 1) & ~used
        if all(m & used for m in islands) and not any(m & ~rest == 0 for m in good):
            out.append(tuple(chosen))
        for m in good:
            if m > last and not m & used:
                rec(used | m, m, chosen + [m])
    rec(0, 0, [])
    out.sort(key=lambda c: (-len(c), c))
    return out if most is None else out[:most]


class Scripted(MaxPRegionsHeu):
    """Its construction phase gives the results it is told to."""

    def script(self, n, results):
        from . import oracle as orc
        self.left = [([set(orc.bits(m)) for m in c],
                      [a for a in range(n) if not any(m >> a & 1 for m in c)]) for c in results]
        self.left.reverse()
        self.given = 0

    def grow_regions(self, *args, **kwargs):
        self.given += 1
        return self.left.pop()
