"""C14: invalid arguments raise ValueError and change nothing; valid spellings are accepted."""
import itertools

import numpy as np

from .. import explore as ex, maps, oracle as orc, solver as sv
from ..common import (PAIRWISE, AZP, AZPBasicTabu, AZPReactiveTabu, AZPSimulatedAnnealing, AllowMoveAZP,
                      AllowMoveAZPSimulatedAnnealing, arr, as_labels, csr, fast_manhattan, make, rows)
from ..entries import CELLS, Desc, Rep, cell_graph
from ..job import describe
from region.p_regions.exact import PRegionsExact
from region.max_p_regions.exact import MaxPRegionsExact
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("Every class, entry point and invalid argument value (regions, method, solver, metric, contiguity, cooling "
        "factor, dicts, constructor arguments) on a connected and a disconnected map, in every sequence of up to two "
        "rejected calls on a new and on a fitted instance, followed by a valid fit: each rejected call raises "
        "ValueError and leaves labels_ as it was; and every valid spelling of names is accepted.")
ASSUMPTIONS = ["the invalid values are a fixed list per argument", "random outcomes follow one fixed pattern"]

MAPS = ("L3", "isl4", "sq4")
KINDS = ("matrix", "fit", "dict", "graph", "w", "gdf")
ATT = {3: ((0,), (5,), (1,)), 4: ((0,), (7,), (1,), (3,))}
SP = {3: ((1,), (2,), (1,)), 4: ((1,), (2,), (1,), (1,))}
CLASSES = {"azp": lambda: make(("azp",)), "bt": lambda: make(("bt", 2, 1)), "rt": lambda: make(("rt", 4, 1, 1)),
           "sa": lambda: make(("sa", 1.0, 1, 1, 1, 1)), "pex": PRegionsExact, "mex": MaxPRegionsExact,
           "mheu": lambda: MaxPRegionsHeu(random_state=0)}
HEUR = ("azp", "bt", "rt", "sa")


def bad_values(cls, way, n, isl):
    """(argument, value) pairs that have to be rejected."""
    out = []
    if cls in HEUR + ("pex",):
        out += [("n_regions", v) for v in (0, -1, -n, n + 1, n + 2, 10 * n)]
    if cls in HEUR and isl > 1:
        out += [("n_regions", v) for v in range(1, isl)]
    if cls == "pex":
        out += [("method", v) for v in ("flw", "", "flow ", "trees", "tree_", "cbc", None, 1, ("flow",))]
    if cls in ("pex", "mex"):
        out += [("solver", v) for v in ("cbcc", "", "cb", "GUROBI ", "flow", "scip", None, 1, ("cbc",))]
        out += [("metric", v) for v in ("euclid", "", "MANHATTANN", "Foo", 1, 2.5, ("manhattan",))]
    if cls == "sa":
        out += [("cooling_factor", v) for v in (0, 0.0, 1, 1.0, -0.1, -1, 1.0001, 2, 85, float("inf"), -float("inf"))]
    if way == "gdf":
        out += [("contiguity", v) for v in ("bishop", "", "rok", "queens", "knn", 1, ("rook",))]
    if way == "dict" and cls in ("pex", "mex", "mheu"):
        out += [("first", v) for v in ("list", "items", "keys", "none", "matrix")]
        args = ("attr", "sp") if cls != "pex" else ("attr",)
        out += [(a, v) for a in args for v in ("missing", "extra", "renamed", "empty", "list", "array", "column", "none")]
    return out


def jobs(tier):
    out = []
    for cls in CLASSES:
        for way in KINDS:
            if way == "fit" and cls == "sa":
                continue
            for cells in MAPS:
                n = len(CELLS[cells])
                isl = len(orc.connected_components(*cell_graph(cells)))
                if bad_values(cls, way, n, isl):
                    out.append(dict(kind="bad", cls=cls, way=way, cells=cells))
        out.append(dict(kind="valid", cls=cls))
    out.append(dict(kind="makers"))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def spoil_dict(d, how):
    keys = list(d)
    if how == "missing":
        return {k: d[k] for k in keys[1:]}
    if how == "extra":
        return dict(d, **{"extra": d[keys[0]]}) if isinstance(keys[0], str) else dict(list(d.items()) + [(12345, d[keys[0]])])
    if how == "renamed":
        return {("other" if isinstance(k, str) else 12345) if i == 0 else k: d[k] for i, k in enumerate(keys)}
    if how == "empty":
        return {}
    if how in ("list", "items"):
        return [d[k] for k in keys] if how == "list" else list(d.items())
    if how == "keys":
        return keys
    if how == "array":
        return np.array([1.0] * len(keys))
    if how == "column":
        return "attr"
    if how == "none":
        return None
    if how == "matrix":
        return csr(maps.path(len(keys)))
    raise KeyError(how)


class Call:
    """One fit with possibly one spoilt argument."""

    def __init__(self, cls, way, cells, style=0, obj=True):
        g = cell_graph(cells)
        n = g[0]
        self.cls, self.way, self.g = cls, way, g
        self.isl = len(orc.connected_components(*g))
        d = Desc(g, range(n), ("strs", "ints")[style % 2], ATT[n], SP[n], None, cells)
        self.rep = Rep(way, d, style)
        self.p = max(2, self.isl)

    def go(self, inst, arg=None, value=None, init=False):
        r, cls = self.rep, self.cls
        first, at, spx = r.first, r.attr, r.sp
        kw = {}
        p = self.p
        if arg == "first":
            first = spoil_dict(first, value)
        elif arg == "attr":
            at = spoil_dict(at, value)
        elif arg == "sp":
            spx = spoil_dict(spx, value)
        elif arg == "n_regions":
            p = value
        elif arg is not None:
            kw[arg] = value
        m = getattr(inst, r.method)
        if cls in HEUR:
            kw["objective_func"] = PAIRWISE
            if init and r.kind in ("matrix", "fit", "w", "gdf"):
                kw["initial_labels"] = np.array(orc.feasible_partitions(self.g[0], self.g[1], self.p)[0])
            m(first, at, p, **kw)
        elif cls == "pex":
            m(first, at, p, **kw)
        elif cls == "mex":
            m(first, at, spx, 1, **kw)
        else:
            m(first, at, spx, 1, max_it=1, objective_func=PAIRWISE, **kw)


def stub(call):
    """Whatever solver is asked for, CBC answers."""
    return call.real()


def do_bad(job, ctx):
    cls, way = job["cls"], job["way"]
    n = len(CELLS[job["cells"]])
    isl = len(orc.connected_components(*cell_graph(job["cells"])))
    bads = bad_values(cls, way, n, isl)
    seqs = [(b,) for b in bads] + [(b, bads[(i * 7 + 3) % len(bads)]) for i, b in enumerate(bads)]
    if ctx.tier == "thorough":
        seqs = [(b,) for b in bads] + list(itertools.product(bads, bads))
    exact = cls in ("pex", "mex")

    def run(ctl):
        call = Call(cls, way, job["cells"], len(job["cells"]))
        inst0 = CLASSES[cls]()
        with sv.handled(stub):
            err = ctx.attempt(ex.Follow(()), lambda: call.go(inst0))
        want = as_labels(inst0.labels_)
        d = dict(cls=cls, entry=call.rep.method, map=call.g)
        if err is not None:
            ctx.fail("a valid fit failed: " + describe(err), **d)
            return
        for i, seq in enumerate(seqs):
            for fitted in (False, True):
                inst = CLASSES[cls]()
                if fitted:
                    if exact and len(seq) > 1:
                        inst = inst0
                    else:
                        with sv.handled(stub):
                            ctx.attempt(ex.Follow(()), lambda: call.go(inst))
                have = as_labels(inst.labels_)
                for arg, value in seq:
                    init = cls in HEUR and (i + fitted) % 3 == 2
                    with sv.handled(stub):
                        err = ctx.attempt(ex.Follow(()), lambda: call.go(inst, arg, value, init))
                    ctx.count("states")
                    ctx.count("transitions")
                    ctx.distinct("cases", (arg, value, fitted, len(seq)))
                    dd = dict(d, argument=arg, value=repr(value), fitted=fitted, sequence=seq, start_given=init)
                    if not isinstance(err, ValueError):
                        ctx.fail("{}={!r} {}".format(arg, value, "was accepted, labels_ is {}".format(as_labels(inst.labels_))
                                                     if err is None else "raised " + describe(err)), **dd)
                        if ctx.enough():
                            return
                        break
                    if as_labels(inst.labels_) != have:
                        ctx.fail("labels_ became {} (was {}) although {}={!r} was rejected".format(
                            as_labels(inst.labels_), have, arg, value), **dd)
                        return
                if not exact or (i % 9 == 0 and not fitted):
                    with sv.handled(stub):
                        err = ctx.attempt(ex.Follow(()), lambda: call.go(inst))
                    if err is not None or as_labels(inst.labels_) != want:
                        ctx.fail("a valid fit after the rejected calls gives {} instead of {}".format(
                            describe(err) if err else as_labels(inst.labels_), want), sequence=seq, **d)
                        return
            if ctx.late():
                return
        ctx.sample(cls=cls, entry=call.rep.method, map=call.g, sequences=len(seqs))
    ctx.single(run)


def spellings(name):
    return sorted({name, name.upper(), name.capitalize(), name[:-1] + name[-1].upper(), name.swapcase()})


def valid_values(cls):
    out = []
    if cls == "pex":
        out += [("method", s) for m in ("flow", "order", "tree") for s in spellings(m)]
    if cls in ("pex", "mex"):
        out += [("solver", s) for m in ("cbc", "cplex", "glpk", "gurobi") for s in spellings(m)]
        out += [("metric", m) for m in ("cityblock", "cosine", "euclidean", "l1", "l2", "manhattan", fast_manhattan)]
    if cls == "sa":
        out += [("cooling_factor", v) for v in (1e-9, 0.01, 0.5, 0.85, 0.999999, np.float64(0.3))]
    if cls in HEUR + ("pex",):
        out += [("n_regions", v) for v in (1, 2, 3, np.int64(2), np.int32(3))]
    return out


def do_valid(job, ctx):
    cls = job["cls"]

    def run(ctl):
        for way in KINDS if cls not in ("pex", "mex") else ("matrix", "dict", "graph", "w", "gdf"):
            if way == "fit" and cls == "sa":
                continue
            vals = valid_values(cls)
            if cls in ("pex", "mex") and way != "matrix" and ctx.tier != "thorough":
                vals = vals[len(way)::4]
            if way == "gdf":
                vals += [("contiguity", s) for c in ("rook", "queen") for s in spellings(c)]
            for arg, value in vals:
                call = Call(cls, way, "L3", len(way))
                inst = CLASSES[cls]()
                with sv.handled(lambda c: c.real()):
                    err = ctx.attempt(ex.Follow(()), lambda: call.go(inst, arg, value))
                ctx.count("states")
                ctx.count("transitions")
                ctx.distinct("cases", (way, arg, str(value)))
                if err is not None or inst.labels_ is None or len(inst.labels_) != 3:
                    ctx.fail("valid {}={!r}: {}".format(arg, value, describe(err) if err else as_labels(inst.labels_)),
                             cls=cls, entry=call.rep.method)
                    if ctx.enough():
                        return
    ctx.single(run)


def do_makers(job, ctx):
    inf = float("inf")
    reject = [("AZPReactiveTabu(max_iterations={!r})".format(v), lambda v=v: AZPReactiveTabu(v, 1, 1))
              for v in (0, -1, -100)]
    reject += [("sa_moves_term={!r}".format(v), lambda v=v: AllowMoveAZPSimulatedAnnealing(1.0, sa_moves_term=v))
               for v in (0, -1, -7, 0.5, 2.5, 1e-9, -0.5, -inf)]
    for v in ("azp", 1, 0, False, "", object(), lambda *a: True, AllowMoveAZP, [], {}):
        reject.append(("AZP(allow_move_strategy={!r})".format(v), lambda v=v: AZP(allow_move_strategy=v)))
    for name in ("register_sa_moves_term", "register_move_made"):
        for v in (None, 1, "x", [], {}, 0):
            def reg(name=name, v=v):
                getattr(AllowMoveAZPSimulatedAnnealing(1.0), name)(v)
            reject.append(("{}({!r})".format(name, v), reg))
    for v in (0, -3, 2.5):
        def sa(v=v):
            AZPSimulatedAnnealing(init_temperature=1.0, max_iterations=1, sa_moves_term=v,
                                  random_state=0).fit_from_scipy_sparse_matrix(
                csr(maps.path(3)), arr(rows((0, 1, 5))), 2, objective_func=PAIRWISE)
        reject.append(("fit of AZPSimulatedAnnealing(sa_moves_term={!r})".format(v), sa))
    accept = [("AZPReactiveTabu({!r})".format(v), lambda v=v: AZPReactiveTabu(v, 1, 1)) for v in (1, 2, 100)]
    accept += [("sa_moves_term={!r}".format(v), lambda v=v: AllowMoveAZPSimulatedAnnealing(1.0, sa_moves_term=v))
               for v in (1, 2, 10, inf, np.int64(3))]
    accept += [("AZP({!r})".format(v), lambda v=v: AZP(allow_move_strategy=v))
               for v in (None, AllowMoveAZP(), AllowMoveAZPSimulatedAnnealing(1.0))]
    for name in ("register_sa_moves_term", "register_move_made"):
        for v in (print, lambda: None, [].append, AllowMoveAZP):
            def reg(name=name, v=v):
                getattr(AllowMoveAZPSimulatedAnnealing(1.0), name)(v)
            accept.append(("{}({!r})".format(name, v), reg))

    def run(ctl):
        for ok, calls in ((False, reject), (True, accept)):
            for what, fn in calls:
                err = ctx.attempt(ex.Follow(()), fn)
                ctx.count("states")
                ctx.count("transitions")
                ctx.distinct("cases", what)
                if ok and err is not None:
                    ctx.fail("{} failed: {}".format(what, describe(err)))
                elif not ok and not isinstance(err, ValueError):
                    ctx.fail("{} {}".format(what, "was accepted" if err is None else "raised " + describe(err)))
    ctx.single(run)
