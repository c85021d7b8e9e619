"""C04: objective functions are exact, update() equals the recomputed difference."""
import itertools
import math
import statistics

import numpy as np

from .. import oracle as orc
from ..common import ObjectiveFunctionCenter, ObjectiveFunctionPairwise, fast_chebyshev, fast_manhattan
from ..job import describe, from_region
from ..spaces import BIG, BIG_COLS, SCALES, big_starts, comps, scaled

LEVEL = "model_checking"
RULE = ("Explicit-state enumeration: states are all labellings of n areas into any number of regions (n <= 5, "
        "6 for a few tables), transitions are all moves of an area to another existing region that leave "
        "its region non-empty; for every state, transition, attribute table, metric, center and reduction "
        "of the alphabet, the real objective value and update() are compared with a plain-Python "
        "recomputation, and labels and attributes with copies taken before, also when the metric raises at "
        "any of its calls.  Besides, selected labellings of 8 to 25 areas with all their moves.")
ASSUMPTIONS = ["the cosine metric is not applied to zero vectors (it is no metric there)", "floating point results compared with relative tolerance 1e-9"]


# ---- reference model: plain Python on lists of lists
def _manhattan(a, b):
    return sum(abs(x - y) for x, y in zip(a, b))


def _euclid(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def _cheb(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


def _cos(a, b):
    na = math.sqrt(sum(x * x for x in a))
    nb = math.sqrt(sum(x * x for x in b))
    if na == 0 or nb == 0:
        return 1.0
    return 1 - sum(x * y for x, y in zip(a, b)) / (na * nb)


METRICS = {  # name -> (argument for region, reference)
    "fastman": (fast_manhattan, _manhattan),
    "fastcheb": (fast_chebyshev, _cheb),
    "none": (None, _manhattan),
    "manhattan": ("manhattan", _manhattan),
    "cityblock": ("cityblock", _manhattan),
    "l1": ("l1", _manhattan),
    "euclidean": ("euclidean", _euclid),
    "l2": ("l2", _euclid),
    "cosine": ("cosine", _cos),
}


def _mid(xs):
    return (min(xs) + max(xs)) / 2


def np_mid(a, axis=0):
    return (np.min(a, axis=axis) + np.max(a, axis=axis)) / 2


CENTERS = {"mean": (np.mean, statistics.fmean), "median": (np.median, statistics.median),
           "min": (np.min, min), "mid": (np_mid, _mid)}
REDUCTIONS = {"sum": (np.sum, sum), "max": (np.max, max), "mean": (np.mean, statistics.fmean),
              "min": (np.min, min)}


def ref_pair(labels, attr, d):
    n = len(labels)
    return sum(d(attr[i], attr[j]) for i in range(n) for j in range(i + 1, n) if labels[i] == labels[j])


def ref_center(labels, attr, d, center, red):
    vals = []
    for mask in orc.region_masks(labels).values():
        idx = orc.bits(mask)
        c = [center([attr[i][k] for i in idx]) for k in range(len(attr[0]))]
        vals.append(red([d(attr[i], c) for i in idx]))
    return red(vals)


NAMES = {"dense": lambda r: r, "sparse": lambda r: (7, 3, 9, 0, 12, 5)[r] if r < 6 else 40 - r, "float": lambda r: float(r + 1)}


def tables(n, tier):
    th = tier == "thorough"
    if n <= 4:
        alph = (0, 1, 3)
        out = [tuple((v,) for v in c) for c in itertools.product(alph, repeat=n)]
        out.append(tuple((v,) for v in (5, -2, 0.5, 1)[:n]))
    elif n == 5:
        out = [tuple((v,) for v in c) for c in ((0, 3, 1, 0, 2), (1, 2, 4, 8, 16), (0, 0, 1, 1, 5))]
    else:
        out = [tuple((v,) for v in (0, 3, 1, 0, 2, 7))]
    out.append(tuple((i * i % 5, (i * 3 + 1) % 4) for i in range(n)))
    out.append(tuple((0.1 * i, 1.0 - 0.3 * i, (-1) ** i * 2.5) for i in range(n)))
    return out


def objectives(n, tier):
    th = tier == "thorough"
    out = [("pair", "fastman"), ("pair", "fastcheb")]
    out += [("center", "fastman", c, r) for c in CENTERS for r in REDUCTIONS]
    out += [("center", "fastcheb", "median", "max")]
    if n <= 3 or th:
        out += [("pair", m) for m in METRICS if not m.startswith("fast")]
        out += [("center", m, "mean", r) for m in METRICS if not m.startswith("fast")
                for r in ("sum", "max")]
    return out


def jobs(tier):
    out = []
    for n in range(1, 7 if tier == "thorough" else 6):
        for ob in objectives(n, tier):
            tabs = tables(n, tier)
            step = 6 if n == 4 else 40
            for i in range(0, len(tabs), step):
                out.append(dict(kind="eval", n=n, ob=ob, tabs=tabs[i:i + step]))
            if n in (3, 4):
                for k in (1, 3, 4):
                    out.append(dict(kind="eval", n=n, ob=ob, tabs=[scaled(t, k) for t in tabs[5::7 if n == 3 else 19]],
                                    unit=SCALES[k]))
    if tier != "thorough":
        for ob in (("pair", "fastman"), ("center", "fastman", "median", "max"),
                   ("center", "fastman", "mean", "sum"), ("center", "fastcheb", "mean", "mean")):
            out.append(dict(kind="eval", n=6, ob=ob, tabs=tables(6, tier)[:2]))
    for n in (2, 3, 4):
        for ob in (("pair", "fastman"), ("center", "fastman", "mean", "sum"),
                   ("center", "fastman", "median", "max")):
            out.append(dict(kind="raise", n=n, ob=ob))
    out.append(dict(kind="defaults"))
    for i, g in enumerate(BIG):
        n = g[0]
        for j, ob in enumerate((("pair", "fastman"), ("pair", "fastcheb"), ("pair", "euclidean"), ("center", "fastman", "mean", "sum"),
                                ("center", "fastman", "median", "max"), ("center", "fastcheb", "mid", "mean"))):
            col = BIG_COLS[(i + j) % len(BIG_COLS)]
            tabs = [tuple((col(a, n),) for a in range(n)), tuple((col(a, n), 0.5 * (a % 7), -a) for a in range(n))]
            ls = sorted({l for p in {max(comps(g), 2), n // 2, n - 1} for l in big_starts(g, p)})
            out.append(dict(kind="eval", n=n, ob=ob, tabs=tabs if tier == "thorough" else tabs[(i + j) % 2:][:1], labellings=ls))
    return out


class Boom(Exception):
    pass


def build(ob, metric=None):
    m = METRICS[ob[1]][0] if metric is None else metric
    if ob[0] == "pair":
        return ObjectiveFunctionPairwise(m)
    return ObjectiveFunctionCenter(m, center=CENTERS[ob[2]][0], reduction=REDUCTIONS[ob[3]][0])


def reference(ob):
    d = METRICS[ob[1]][1]
    if ob[0] == "pair":
        return lambda l, a: ref_pair(l, a, d)
    c, r = CENTERS[ob[2]][1], REDUCTIONS[ob[3]][1]
    return lambda l, a: ref_center(l, a, d, c, r)


def scalar(x):
    """The number in a number or array of one element, None for anything else."""
    try:
        a = np.asarray(x, dtype=float).reshape(-1)
    except (TypeError, ValueError):
        return None
    return float(a[0]) if a.shape == (1,) else None


def close(a, b, unit=1.0):
    return a is not None and abs(a - b) <= 1e-9 * max(unit, abs(a), abs(b))


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def do_eval(job, ctx):
    n, ob = job["n"], job["ob"]
    unit = 1.0 if ob[1] == "cosine" else job.get("unit", 1.0)
    obj = build(ob)
    ref = reference(ob)
    for ti, tab in enumerate(job["tabs"]):
        if ob[1] == "cosine" and any(not any(r) for r in tab):
            continue        # not a metric on zero vectors
        naming = ("dense", "sparse", "float")[ti % 3]
        integral = all(isinstance(v, int) for r in tab for v in r)
        at = np.array(tab, dtype=int if integral and ti % 2 else float)
        before = at.copy()
        value = {}
        for l0 in job.get("labellings") or list(orc._growth_strings(n)):
            l = tuple(NAMES[naming](r) for r in l0)
            value[l0] = ref(l0, tab)
            la = np.array(l)
            d = dict(objective=ob, attr=tab, labels=l)
            try:
                got = obj(la, at)
            except Exception as e:  # noqa
                if not from_region(e):
                    raise
                ctx.fail("objective raised " + describe(e), **d)
                return
            ctx.count("states")
            ctx.count("executions")
            if not close(scalar(got), value[l0], unit):
                ctx.fail("objective value is {} instead of {}".format(got, value[l0]), **d)
                return
            if tuple(la.tolist()) != l or not np.array_equal(at, before):
                ctx.fail("the objective changed its arguments", **d)
                return
            ctx.distinct("cases", (tab, l0, value[l0]))
        for l0, v0 in list(value.items()):
            l = tuple(NAMES[naming](r) for r in l0)
            for a in range(n):
                if l0.count(l0[a]) == 1:
                    continue
                for r in sorted(set(l0)):
                    if r == l0[a]:
                        continue
                    la = np.array(l)
                    d = dict(objective=ob, attr=tab, labels=l, area=a, recipient=NAMES[naming](r))
                    other = orc.canon(orc.moved(l0, a, r))
                    if other not in value:
                        value[other] = ref(other, tab)
                    want = value[other] - v0
                    try:
                        got = obj.update(a, NAMES[naming](r), la, at)
                    except Exception as e:  # noqa
                        if not from_region(e):
                            raise
                        ctx.fail("update raised " + describe(e), **d)
                        return
                    ctx.count("transitions")
                    ctx.count("executions")
                    if not close(scalar(got), want, unit):
                        ctx.fail("update returned {} instead of {}".format(got, want), **d)
                        return
                    if tuple(la.tolist()) != l or la.dtype != np.array(l).dtype \
                            or not np.array_equal(at, before):
                        ctx.fail("update changed its arguments", **d)
                        return
        ctx.sample(objective=ob, attr=tab, labellings=len(value))


def do_raise(job, ctx):
    """The metric raises at its k-th call."""
    n, ob = job["n"], job["ob"]
    tab = tuple((v,) for v in (0, 3, 1, 5)[:n])
    at = np.array(tab, dtype=float)
    state = {"left": -1}

    def metric(X, Y=None):
        state["left"] -= 1
        if state["left"] == 0:
            raise Boom()
        return fast_manhattan(X, Y)
    obj = build(ob, metric)
    for l in orc._growth_strings(n):
        calls = [("value", None, None)]
        for a in range(n):
            if l.count(l[a]) > 1:
                calls += [("update", a, r) for r in sorted(set(l)) if r != l[a]]
        for what, a, r in calls:
            for k in range(1, 60):
                la = np.array(l)
                aa = at.copy()
                state["left"] = k
                try:
                    if what == "value":
                        obj(la, aa)
                    else:
                        obj.update(a, r, la, aa)
                    raised = False
                except Boom:
                    raised = True
                ctx.count("executions")
                ctx.count("transitions")
                if tuple(la.tolist()) != l or not np.array_equal(aa, at):
                    ctx.fail("arguments changed after the metric raised in its call {} during {}".format(
                        k, what), objective=ob, labels=l, labels_after=la.tolist(), area=a, recipient=r)
                    return
                if not raised:
                    if state["left"] <= 0:
                        ctx.fail("the exception of the metric was swallowed", objective=ob, labels=l)
                        return
                    break
            ctx.count("states")
            ctx.distinct("cases", (l, what, a, r))


def do_defaults(job, ctx):
    """Default arguments: manhattan; mean and sum."""
    tab = ((0.0, 2.0), (3.0, 1.0), (1.0, 1.0), (0.0, 5.0))
    at = np.array(tab)
    for l in orc._growth_strings(4):
        la = np.array(l)
        for obj, want in ((ObjectiveFunctionPairwise(), ref_pair(l, tab, _manhattan)),
                          (ObjectiveFunctionCenter(), ref_center(l, tab, _manhattan, statistics.fmean, sum)),
                          (ObjectiveFunctionCenter(metric=_np_cheb), ref_center(
                              l, tab, _cheb, statistics.fmean, sum))):
            got = obj(la, at)
            ctx.count("states")
            ctx.count("executions")
            ctx.distinct("cases", (l, type(obj).__name__))
            if not close(scalar(got), want):
                ctx.fail("objective value is {} instead of {}".format(got, want), labels=l, attr=tab,
                         objective=type(obj).__name__)
                return


def _np_cheb(X, Y=None):
    return fast_chebyshev(X, Y)
