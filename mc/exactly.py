"""Drives an exact fit through every optimal answer its solver could give."""
import pulp

from . import milp, solver as sv

NOISE = (0.0, 1e-7, -1e-7, 1e-6)


class Plan:
    """What one fit asked of the solver."""

    def __init__(self):
        self.models = []
        self.read = set()


def first_fit(ctx, ctl, fit):
    """Runs fit() with the real solver; returns (plan, err)."""
    plan = Plan()

    def handler(call):
        plan.models.append(milp.Model(call.lp))
        return call.real()
    with sv.handled(handler), milp.reads() as r:
        err = ctx.attempt(ctl, fit)
        plan.read = set(r)
    return plan, err


def optima(ctx, plan, limit=60000, most=4000):
    """All optimal answers (restricted to the variables read); None if they cannot be enumerated."""
    if len(plan.models) != 1 or not plan.models[0].integer:
        ctx.count("not_enumerated")
        return None
    m = plan.models[0]
    read = sorted(n for n in plan.read if n in m.index) or sorted(m.index)
    try:
        v = m.minimum(limit)
        out = [] if v is None else m.optima(v, read, limit, most)
    except milp.TooBig:
        ctx.count("not_enumerated")
        out = None
    ctx.count("states", m.nodes + 1)
    ctx.count("transitions", m.nodes)
    return out


def answer(ctx, ctl, fit, plan, xs, k):
    """Runs fit() with the solver reporting the assignment xs."""
    m = plan.models[0]
    by_name = {v.name: x for v, x in zip(m.vars, xs)}
    noise = NOISE[k % len(NOISE)]
    strange = []

    def handler(call):
        vs = call.lp.variables()
        if {v.name for v in vs} != set(by_name):
            strange.append(1)
            return call.real()
        for i, v in enumerate(vs):
            v.varValue = by_name[v.name] + (noise if i % 2 else -noise)
        call.lp.status = pulp.LpStatusOptimal
        return call.lp.status
    with sv.handled(handler):
        err = ctx.attempt(ctl, fit)
    if strange:
        ctx.count("not_enumerated")
    ctx.count("answers")
    return err


def rival_answers(ctx, fit, plan, most=16):
    """Where the optima cannot be enumerated: other optimal answers of the real solver, pulled towards the least
    and the greatest value of each variable read.  Yields the exceptions (or None) of the fits."""
    names = sorted(plan.read)[:most]
    for name in names:
        for sign in (1, -1):
            def handler(call):
                st = call.real()
                lp = call.lp
                if st != pulp.LpStatusOptimal:
                    return st
                by = {v.name: v for v in lp.variables()}
                if name not in by:
                    return st
                best, old = pulp.value(lp.objective) or 0, lp.objective
                other = pulp.LpProblem("rival", lp.sense)
                other += sign * (1 if lp.sense == pulp.LpMinimize else -1) * by[name]
                for c in lp.constraints.values():
                    other += c.copy() if hasattr(c, "copy") else c
                gap = 1e-6 * max(1, abs(best))
                other += (old <= best + gap) if lp.sense == pulp.LpMinimize else (old >= best - gap)
                values = {n: v.varValue for n, v in by.items()}
                other.solve(pulp.solvers.PULP_CBC_CMD(msg=0))
                if other.status != pulp.LpStatusOptimal:
                    for n, v in by.items():
                        v.varValue = values[n]
                lp.status = pulp.LpStatusOptimal
                return lp.status
            yield handler
