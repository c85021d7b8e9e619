"""C07: tabu searches take the best admissible move and respect the tabu list."""
import itertools

import numpy as np

from .. import maps, oracle as orc
from ..common import AllowMoveAZP, PAIRWISE, arr, any_csr, as_labels, int_labels, make, rows, starts
from ..job import describe
from ..spaces import (ASPIRING, BOWTIE, BULL, COLS, GRID23, HOUSE, ISL5, ISL5B, ISL6, ISL6B, big_jobs, comps, five_maps, remote,
                      small_maps)

LEVEL = "model_checking"
RULE = ("Every tabu search of the bounded space (maps, integer attributes with ties, all feasible starts, tabu "
        "lengths, repetitions; every random choice of aspiration and escape moves), recorded move by move "
        "through the acceptance strategy; each move made is checked against a nondeterministic step model "
        "that recomputes all admissible moves, their objective changes and the tabu list, and the end of the "
        "search against the model's stopping rule.")
ASSUMPTIONS = ["random outcomes are varied on maps of at most 9 areas; the maps of 8 to 25 areas are explored around five fixed "
               "ways of answering random draws only", "the reactive search's tabu list may have any length of at least one in the "
               "model (its length is not part of the property)"]


class Spy(AllowMoveAZP):
    """The original rule, recording."""

    def __init__(self, rec):
        self.rec = rec

    def start_new_component(self, initial_labels, attr, objective_func, comp_idx):
        super().start_new_component(initial_labels, attr, objective_func, comp_idx)
        self.rec.append(("begin", tuple(int(i) for i in comp_idx), as_labels(initial_labels), None, False))

    def __call__(self, moving_area, new_region, labels):
        before = as_labels(labels)
        ans = super().__call__(moving_area, new_region, labels)
        self.rec.append(("offer", int(moving_area),
                         new_region.item() if hasattr(new_region, "item") else new_region, before, bool(ans)))
        return ans


def cols(n, tier):
    th = tier == "thorough"
    if n <= 3:
        return list(itertools.product((0, 1, 3), repeat=n))
    if n == 4:
        if th:
            return list(itertools.product((0, 1, 3), repeat=n))
        return [(0, 3, 1, 0), (0, 1, 3, 7), (2, 2, 0, 2), (0, 1, 0, 1), (1, 0, 0, 1), (0, 0, 1, 3), (3, 0, 1, 1)]
    if n == 5:
        out = COLS[5] + [(0, 2, 0, 2, 5), (1, 1, 0, 0, 3)]
        if th:
            out += [c for c in itertools.product((0, 1, 3), repeat=5) if c[0] < c[-1]]
        return out[1:]
    return COLS[n][1:] + [(0, 2, 0, 2, 5, 1), (5, 1, 4, 1, 0, 4)]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for g, col, p, start, alg in ASPIRING:
        for a in [alg] + ([("bt", k, 3) for k in (2, 3, 4, None)] if th else [("rt", 8, 10 ** 6, 1)]):
            out.append(dict(alg=a, g=g, cols=[col], ps=(p,), starts=[orc.canon(start)], dev=3))
        if g[0] <= 6:
            out.append(dict(alg=alg, g=g, cols=[col], ps=(p,), dev=2))
    bts = [("bt", 1, 1), ("bt", 2, 2), ("bt", 3, 1), ("bt", None, 2), ("bt", 0, 1)]
    rts = [("rt", 8, 10 ** 6, 1), ("rt", 2, 10 ** 6, 1), ("rt", 6, 0, 0), ("rt", 4, 1, 1)]
    for alg in bts + rts:
        for g in small_maps(4, shuffled=th):
            if not g[1]:
                continue
            cs = cols(g[0], tier)
            for i in range(0, len(cs), 9):
                out.append(dict(alg=alg, g=g, cols=cs[i:i + 9], ps="all", dev=None))
        for g in five_maps(th):
            if not g[1]:
                continue
            for p in range(comps(g), 5):
                for c in cols(5, tier)[:None if alg[:2] in (("bt", 2), ("bt", None)) or th else 3]:
                    out.append(dict(alg=alg, g=g, cols=[c], ps=(p,), dev=None if p > 2 else 3))
        for g in (GRID23, ISL6, maps.cycle(6)) + ((maps.star(6), maps.complete(6), ISL6B) if th else ()):
            for p in (2, 3, 4):
                for c in cols(6, tier)[:None if th else 3 if alg[0] == "bt" and alg[1] != 0 else 1]:
                    out.append(dict(alg=alg, g=g, cols=[c], ps=(p,), dev=2))
    for j in big_jobs(tier, [("bt", 4, 2), ("bt", None, 1), ("rt", 30, 10 ** 6, 1), ("rt", 12, 1, 1)], gen=False):
        out.append(dict(alg=j["alg"], g=j["g"], cols=[tuple(v for v, in j["attr"])], ps=j["ps"], starts=j["init"], dev=0,
                        policy=j["policy"]))
    for k, j in enumerate(out):
        j["cols"] = [tuple(v for v, in remote(rows(c), k // 3)) for c in j["cols"]]
    return out


def do_job(job, ctx):
    g, alg = job["g"], job["alg"]
    n = g[0]
    adj = any_csr(g, job["alg"], len(job["cols"]), job["cols"][0])
    for col in job["cols"]:
        at = arr(rows(col))
        dist = orc.manhattan_table(rows(col))
        for p in (range(max(2, comps(g)), n) if job["ps"] == "all" else job["ps"]):
            for start in job.get("starts") or starts(g, p):
                def run(ctl):
                    rec = []
                    inst = make(alg)
                    inst.allow_move_strategy = Spy(rec)
                    err = ctx.attempt(ctl, lambda: inst.fit_from_scipy_sparse_matrix(
                        adj.copy(), at.copy(), p, initial_labels=int_labels(start),
                        objective_func=PAIRWISE))
                    d = dict(alg=alg, map=g, attr=col, p=p, start=start,
                             moves=[r[1:] for r in rec if r[0] == "offer" and r[4]])
                    if err is not None:
                        ctx.fail("fit failed: " + describe(err), **d)
                        return
                    labels = as_labels(inst.labels_)
                    problem = judge(ctx, g, dist, alg, start, rec, labels)
                    ctx.distinct("outcomes", (g, col, p, start, labels))
                    if problem:
                        ctx.fail(problem, labels=labels, **d)
                st = ctx.explore(run, max_dev=job["dev"], policy=job.get("policy", "first"))
                if ctx.enough() or ctx.late():
                    return
                if st is not None:
                    ctx.sample(alg=alg, map=g, attr=col, p=p, start=start, executions=st.execs)


def judge(ctx, g, dist, alg, start, rec, final):
    n = g[0]
    if final is None or len(final) != n:
        return "labels_ is {}".format(final)
    runs = []
    for ev in rec:
        if ev[0] == "begin":
            runs.append((ev[1], []))
        elif not runs:
            return "a move was offered before any component was started"
        else:
            runs[-1][1].append(ev)
    seen = set()
    for idx, evs in runs:
        if any(i in seen for i in idx):
            return "island {} was searched twice".format(idx)
        seen.update(idx)
        pos = {a: i for i, a in enumerate(idx)}
        es = tuple((pos[a], pos[b]) for a, b in g[1] if a in pos and b in pos)
        tab = [[dist[i][j] for j in idx] for i in idx]
        problem = judge_island(ctx, (len(idx), es), tab, alg, tuple(start[i] for i in idx), evs,
                               tuple(final[i] for i in idx))
        if problem:
            return "island {}: {}".format(idx, problem)
    for i in range(n):
        if i not in seen and final[i] != start[i]:
            return "area {} changed its region outside a search".format(i)
    return None


def changes(state, g, dist):
    """{(area, old, new): objective change} of all admissible moves."""
    base = orc.pair_cost(state, dist)
    return {(a, state[a], r): orc.pair_cost(orc.moved(state, a, r), dist) - base
            for a, r in orc.admissible_moves(state, *g)}


def judge_island(ctx, g, dist, alg, state, evs, final):
    states = [state]
    made = []            # moves made, as (area, old, new)
    for _, area, region, before, ok in evs:
        if before != state:
            return "labels {} were passed along in state {}".format(before, state)
        if not ok:
            continue
        mv = (area, state[area], region)
        ch = changes(state, g, dist)
        if mv not in ch:
            return "move {} is not admissible in {}".format(mv, state)
        problem = (judge_bt if alg[0] == "bt" else judge_rt)(ctx, alg, mv, ch, made)
        if problem:
            return problem + " in state {}".format(state)
        ctx.count("moves")
        made.append(mv)
        state = orc.moved(state, area, region)
        states.append(state)
    costs = [orc.pair_cost(s, dist) for s in states]
    ch = changes(state, g, dist)
    if alg[0] == "bt":
        if final != state:
            return "the moves lead to {} but the labels are {}".format(state, final)
        tabu = tabu_list(made, alg[1])
        step = [m for m, d in ch.items() if m not in tabu and d <= 0]
        asp = [m for m, d in ch.items() if m in tabu and d < 0]
        if (step or asp) and states.count(state) < alg[2]:
            return "the search ended in {} although {} was possible and the zoning was met {} times".format(
                state, (step or asp)[0], states.count(state))
    else:
        if final not in states or orc.pair_cost(final, dist) != min(costs):
            return "reached {} but returned {}".format(states[costs.index(min(costs))], final)
        if alg[2] >= 10 ** 6:
            if len(made) > alg[1]:
                return "{} moves in {} rounds".format(len(made), alg[1])
            tabu = tabu_list(made, None)
            improving = len(costs) < 2 or costs[-1] < costs[-2]
            step = [m for m, d in ch.items() if m not in tabu and d <= 0]
            if improving and step and len(made) < alg[1]:
                return "the search ended in {} after {} rounds although {} was possible".format(
                    state, len(made), step[0])
    return None


def tabu_list(made, length):
    back = [(a, new, old) for a, old, new in made]
    if length is None:
        return set(back)
    return set(back[max(0, len(back) - length):]) if length and back else set()


def judge_bt(ctx, alg, mv, ch, made):
    tabu = tabu_list(made, alg[1])
    free = {m: d for m, d in ch.items() if m not in tabu}
    best = min(free.values()) if free else None
    if best is not None and best <= 0:
        if mv in tabu:
            return "tabu move {} made instead of a free one with change {}".format(mv, best)
        if ch[mv] != best:
            return "move {} with change {} made instead of one with change {}".format(mv, ch[mv], best)
        return None
    if mv not in tabu:
        return "worsening move {} with change {} made".format(mv, ch[mv])
    if not ch[mv] < 0:
        return "tabu move {} made although it does not improve".format(mv)
    ctx.count("aspirations")
    return None


def judge_rt(ctx, alg, mv, ch, made):
    if ch[mv] > 0:
        return "worsening move {} with change {} made".format(mv, ch[mv])
    for k in range(0 if not made else 1, len(made) + 1):
        tabu = tabu_list(made, k)
        if mv not in tabu and ch[mv] == min(d for m, d in ch.items() if m not in tabu):
            return None
    if alg[2] < 10 ** 6:
        ctx.count("escape_moves")
        return None
    return "move {} with change {} is no best non-tabu move ({})".format(mv, ch[mv], min(ch.values()))
