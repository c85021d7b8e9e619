"""C12: a given random_state makes results reproducible."""
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import entries, explore as ex, maps
from ..common import (PAIRWISE, AZP, AZPBasicTabu, AZPReactiveTabu, AZPSimulatedAnnealing, arr, as_labels, csr, rows)
from ..entries import Desc, Rep
from ..job import describe
from ..spaces import GRID23, HOUSE, ISL5
from region.max_p_regions.heuristics import MaxPRegionsHeu

LEVEL = "model_checking"
RULE = ("(a) Over the explored random outcomes of construction and fit, every draw is attributed to the generator it "
        "comes from and to that generator's last seeding, which must have happened since the construction, with the "
        "given random_state; (b) all histories of up to 2 actions (3 thorough: seeding, drawing from and replacing the "
        "state of Python's and numpy's generators, fits of other seeded and unseeded objects) before construction "
        "and fit, whose labels must equal those of the empty history; (c) the same fits in processes with other "
        "hash seeds.")
ASSUMPTIONS = ["(b) and (c) use four values of random_state, among them 0, a str and bytes"]

SEEDS = (0, 5, "abc", b"xy")
STAR = maps.star(6)
TIE5 = maps.complete(5)
STAR_NAMES = ("A", "a", "b", "c", "d", "e")


def new(alg, seed):
    kind = alg[0]
    if kind == "azp":
        return AZP(random_state=seed)
    if kind == "bt":
        return AZPBasicTabu(alg[1], alg[2], random_state=seed)
    if kind == "rt":
        return AZPReactiveTabu(*alg[1:], random_state=seed)
    if kind == "sa":
        return AZPSimulatedAnnealing(init_temperature=alg[1], max_iterations=alg[2], sa_moves_term=alg[3],
                                     nonmoving_steps_before_stop=alg[4], repetitions_before_termination=alg[5],
                                     random_state=seed)
    ls = None if len(alg) == 1 else new(alg[1], alg[2])
    return MaxPRegionsHeu(local_search=ls, random_state=seed)


ALGS = (("azp",), ("bt", 2, 1), ("rt", 6, 1, 1), ("sa", 1.0, 1, 1, 1, 1), ("mp",), ("mp", ("azp",), 7),
        ("mp", ("bt", 1, 1), 0), ("mp", ("rt", 4, 0, 0), "q"), ("mp", ("sa", 1.0, 1, 1, 1, 1), 3))
MAPS = {"star": (STAR, (0, 9, 2, 7, 4, 1), 3), "grid": (GRID23, (0, 3, 1, 7, 2, 4), 3),
        "isl": (ISL5, (0, 3, 1, 0, 2), 3), "house": (HOUSE, (0, 7, 1, 4, 2), 2), "ties": (GRID23, (0, 1, 0, 0, 1, 0), 2), "same": (TIE5, (0,) * 5, 3)}
WAYS = ("matrix", "dict", "graph", "w")
entries.NAMINGS["star"] = lambda n: STAR_NAMES[:n]


def fit(inst, alg, where, way):
    g, col, p = MAPS[where]
    naming = "star" if where == "star" else "strs"
    d = Desc(g, range(g[0]), naming, rows(col), rows((1, 2, 1, 1, 2, 1)[:g[0]]))
    r = Rep(way, d, 0)
    m = getattr(inst, r.method)
    if alg[0] == "mp":
        m(r.first, r.attr, r.sp, 2, max_it=3, objective_func=PAIRWISE)
    else:
        m(r.first, r.attr, p, objective_func=PAIRWISE)
    return as_labels(inst.labels_)


def outcome(case):
    alg, where, way, seed = case
    return fit(new(alg, seed), alg, where, way)


def cases(th=False, half=False):
    out = []
    for i, alg in enumerate(ALGS):
        for j, where in enumerate(MAPS):
            for k, way in enumerate(WAYS):
                for m, seed in enumerate(SEEDS):
                    if th or (i + j + k + m) % (2 if half else 4) == 0:
                        out.append((alg, where, way, seed))
    return out


# ---- histories
def h_seed(s):
    def act():
        random.seed(s)
    return act


def h_np():
    np.random.seed(3)
    np.random.rand(7)


def h_draw():
    random.random()
    random.randrange(77)
    random.shuffle([1, 2, 3, 4])


def h_state():
    random.setstate(random.Random(1234).getstate())


def h_fit(alg, where, seed, way="matrix"):
    def act():
        outcome((alg, where, way, seed))
    return act


def h_made(alg, seed):
    def act():
        KEEP.append(new(alg, seed))
    return act


KEEP = []
HISTORIES = (h_seed(5), h_seed("abc"), h_seed(None), h_np, h_draw, h_state, h_fit(("azp",), "grid", 5),
             h_fit(("sa", 1.0, 1, 1, 1, 1), "isl", None), h_fit(("mp",), "isl", 0), h_fit(("bt", 2, 1), "house", None, "dict"),
             h_fit(("rt", 6, 1, 1), "star", b"xy", "graph"), h_made(("azp",), 0), h_made(("mp",), None))


def jobs(tier):
    th = tier == "thorough"
    out = []
    for alg in ALGS:
        for where in MAPS:
            for way in WAYS:
                if not th and (len(where) + len(way)) % 2:
                    continue
                slow = "sa" in str(alg)
                out.append(dict(kind="taint", alg=alg, where=where, way=way, seed=1 if way == "w" else 2,
                                dev=2 if th and not slow else 1 if th or not slow or where == "isl" else 0))
    depth = 3 if th else 2
    cs = cases(th)
    for c in range(len(cs)):
        out.append(dict(kind="history", case=c, depth=1 if th else 2, every=1 if th else 20))
        if th and c % 9 == 0:
            out.append(dict(kind="history", case=c, depth=depth, every=1))
    for h in range(1, 9 if th else 4):
        out.append(dict(kind="process", hashseed=h))
    return out


def do_job(job, ctx):
    globals()["do_" + job["kind"]](job, ctx)


def shown(s):
    return s if isinstance(s, (int, str, type(None))) else repr(s)


def do_taint(job, ctx):
    alg, where, way = job["alg"], job["where"], job["way"]
    for seed in SEEDS[:job["seed"]] if ctx.tier != "thorough" else SEEDS:
        allowed = [seed] + ([alg[2]] if len(alg) == 3 and alg[0] == "mp" else [])

        def run(ctl):
            ctl.notes = notes = []
            box = []

            def both():
                inst = new(alg, seed)
                box.append(fit(inst, alg, where, way))
            err = ctx.attempt(ctl, both)
            d = dict(alg=alg, map=where, entry=way, random_state=shown(seed), choices=ctl.choices())
            if err is not None:
                ctx.fail("fit failed: " + describe(err), **d)
                return
            ctx.distinct("cases", (alg, where, way, seed, box[0]))
            last, saved = {}, []
            for what, value, who in notes:
                if what == "seed":
                    last[who] = ("seeded", value)
                elif what == "get":
                    saved.append((value, last.get(who)))
                elif what == "set":
                    last[who] = next((t for s, t in saved if s is value), ("restored", None))
                else:
                    how = last.get(who)
                    if how is None or how[0] != "seeded" or not any(
                            type(how[1]) is type(s) and how[1] == s for s in allowed):
                        ctx.fail("a draw of the fit comes from a generator {}".format(
                            "not seeded since the construction" if how is None else "seeded with {!r}".format(how[1])),
                            **d)
                        return
        st = ctx.explore(run, max_dev=job["dev"])
        if st is not None:
            ctx.sample(alg=alg, map=where, entry=way, random_state=shown(seed), executions=st.execs)
        if ctx.enough() or ctx.late():
            return


def quiet(fn):
    """A run with the real generators."""
    try:
        return fn(), None
    except Exception as e:  # noqa
        return None, e


def do_history(job, ctx):
    case = cases(ctx.tier == "thorough")[job["case"]]
    base, err = quiet(lambda: outcome(case))
    if err is not None:
        ctx.fail("fit failed: " + describe(err), case=[shown(x) for x in case])
        return
    hs = [h for k in range(1, job["depth"] + 1) for h in itertools.product(range(len(HISTORIES)), repeat=k)]
    for i, h in enumerate(hs):
        if len(h) > 1 and (i + job["case"]) % job["every"]:
            continue
        random.seed(99)
        for a in h:
            quiet(HISTORIES[a])
        got, err = quiet(lambda: outcome(case))
        ctx.count("executions")
        ctx.count("states", len(h) + 1)
        ctx.count("transitions", len(h) + 1)
        ctx.distinct("cases", (case, h))
        if err is not None or got != base:
            ctx.fail("labels {} instead of {} after the history {}".format(
                got if err is None else describe(err), base, h), case=[shown(x) for x in case])
            if ctx.enough():
                return
        if ctx.late():
            return


def compared():
    return cases(os.environ.get("VERIF_TIER") == "thorough", True)


def table():
    out = []
    for c in compared():
        got, err = quiet(lambda: outcome(c))
        out.append(None if got is None else [float(x) for x in got])
    return out


def do_process(job, ctx):
    os.environ["VERIF_TIER"] = ctx.tier
    here = table()
    env = dict(os.environ, PYTHONHASHSEED=str(job["hashseed"]), VERIF_TIER=ctx.tier)
    r = subprocess.run([sys.executable, "-m", "mc.seedproc"], env=env, capture_output=True, text=True, timeout=300,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    lines = [x for x in r.stdout.splitlines() if x.startswith("TABLE ")]
    if r.returncode or not lines:
        raise RuntimeError("the other process failed: " + r.stderr[-500:])
    there = json.loads(lines[0][6:])
    for c, a, b in zip(compared(), here, there):
        ctx.count("executions", 2)
        ctx.count("states", 2)
        ctx.count("transitions", 2)
        ctx.distinct("cases", (c, job["hashseed"]))
        if a != b or a is None:
            ctx.fail("labels {} in a process with another hash seed, {} in this one".format(b, a),
                     case=[shown(x) for x in c], hashseed=job["hashseed"])
            if ctx.enough():
                return
