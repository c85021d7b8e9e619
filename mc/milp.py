"""All optimal solutions of a small integer program, by exhaustive search with bound propagation.

Works on the pulp problem handed to the solver.  Solutions are enumerated up to the variables whose values the
caller reads (`read`), each completed to a full feasible optimal assignment.
"""
import contextlib
import math

import pulp

STEP = 1e-5     # improvements smaller than this do not count; constraints hold up to 1e-6


class TooBig(Exception):
    pass


class Model:
    def __init__(self, lp):
        self.vars = lp.variables()
        self.index = {v.name: i for i, v in enumerate(self.vars)}
        self.lo, self.hi = [], []
        # pulp adds a fixed dummy to an empty objective
        self.integer = all(v.cat in ("Integer", "Binary") or v.lowBound == v.upBound == 0 for v in self.vars)
        for v in self.vars:
            self.lo.append(-math.inf if v.lowBound is None else math.ceil(v.lowBound - 1e-9))
            self.hi.append(math.inf if v.upBound is None else math.floor(v.upBound + 1e-9))
        self.cons = []          # (terms, rhs): sum a*x <= rhs
        for c in lp.constraints.values():
            terms = [(self.index[v.name], float(a)) for v, a in c.items() if a]
            rhs = -float(c.constant)
            if c.sense in (-1, 0):
                self.cons.append((terms, rhs))
            if c.sense in (1, 0):
                self.cons.append(([(i, -a) for i, a in terms], -rhs))
        sign = 1 if lp.sense == pulp.LpMinimize else -1
        obj = lp.objective
        self.obj = [(self.index[v.name], sign * float(a)) for v, a in obj.items() if a]
        self.obj0 = sign * float(obj.constant)
        self.cutoff = math.inf
        self.nodes = 0

    def value(self, xs):
        return self.obj0 + sum(a * xs[i] for i, a in self.obj)

    def _watch(self):
        cons = self.cons + [(self.obj, self.cutoff - self.obj0)]
        watch = [[] for _ in self.vars]
        for k, (terms, _) in enumerate(cons):
            for i, _a in terms:
                watch[i].append(k)
        return cons, watch

    def propagate(self, cons, watch, lo, hi, queue):
        """Tighten bounds; None if infeasible."""
        queued = set(queue)
        while queue:
            k = queue.pop()
            queued.discard(k)
            terms, rhs = cons[k]
            low = 0.0
            for i, a in terms:
                low += a * (lo[i] if a > 0 else hi[i])
            if low > rhs + 1e-6:
                return False
            if low == -math.inf or rhs == math.inf:
                if rhs == math.inf:
                    continue
                # at most one unbounded term can be tightened
                free = [(i, a) for i, a in terms if a * (lo[i] if a > 0 else hi[i]) == -math.inf]
                if len(free) > 1:
                    continue
                i, a = free[0]
                rest = sum(b * (lo[j] if b > 0 else hi[j]) for j, b in terms if j != i)
                todo = [(i, a, rest)]
            else:
                todo = [(i, a, low - a * (lo[i] if a > 0 else hi[i])) for i, a in terms]
            for i, a, rest in todo:
                if lo[i] == hi[i]:
                    continue
                lim = (rhs - rest) / a
                if a > 0:
                    b = math.floor(lim + 1e-6)
                    if b < hi[i]:
                        hi[i] = b
                    else:
                        continue
                else:
                    b = math.ceil(lim - 1e-6)
                    if b > lo[i]:
                        lo[i] = b
                    else:
                        continue
                if lo[i] > hi[i]:
                    return False
                for k2 in watch[i]:
                    if k2 not in queued:
                        queued.add(k2)
                        queue.append(k2)
        return True

    def search(self, order, leaf, limit):
        """Depth-first over the variables in `order`; leaf(lo, hi) -> stop?"""
        cons, watch = self._watch()
        lo, hi = list(self.lo), list(self.hi)
        if not self.propagate(cons, watch, lo, hi, list(range(len(cons)))):
            return
        if any(l == -math.inf or h == math.inf for l, h in zip(lo, hi)):
            raise TooBig("unbounded variable")
        stack = [(lo, hi, 0)]
        while stack:
            lo, hi, pos = stack.pop()
            while pos < len(order) and lo[order[pos]] == hi[order[pos]]:
                pos += 1
            if pos == len(order):
                if leaf(lo, hi):
                    return
                continue
            i = order[pos]
            for v in range(int(hi[i]), int(lo[i]) - 1, -1):
                self.nodes += 1
                if self.nodes > limit:
                    raise TooBig("more than {} nodes".format(limit))
                l2, h2 = list(lo), list(hi)
                l2[i] = h2[i] = v
                if self.propagate(cons, watch, l2, h2, list(watch[i])):
                    stack.append((l2, h2, pos + 1))

    def completion(self, lo0, hi0, limit):
        """A full solution inside the box, or None."""
        save = self.lo, self.hi
        self.lo, self.hi = lo0, hi0
        found = []
        order = sorted(range(len(self.vars)), key=lambda i: hi0[i] - lo0[i])

        def leaf(lo, hi):
            found.append(list(lo))
            return True
        try:
            self.search(order, leaf, limit)
        finally:
            self.lo, self.hi = save
        return found[0] if found else None

    def minimum(self, limit=200000):
        """The optimal value (None: infeasible)."""
        best = [None]

        order = sorted(range(len(self.vars)), key=lambda i: -abs(dict(self.obj).get(i, 0)))
        while True:
            found = []

            def leaf(lo, hi):
                found.append(self.value(lo))
                return True
            self.search(order, leaf, limit)
            if not found:
                break
            best[0] = found[0]
            self.cutoff = found[0] - STEP * max(1, abs(found[0]))
        return best[0]

    def optima(self, value, read, limit=200000, most=5000):
        """Full optimal assignments, one per assignment of the variables in `read`."""
        self.cutoff = value + STEP / 10 * max(1, abs(value))
        order = [self.index[n] for n in read]
        out = []

        def leaf(lo, hi):
            x = self.completion(lo, hi, limit)
            if x is not None:
                out.append(x)
            if len(out) >= most:
                raise TooBig("more than {} optimal solutions".format(most))
        self.search(order, leaf, limit)
        return out


# ---- which variables' values does the caller read?
_reads = None


def _get(self):
    if _reads is not None:
        _reads.add(self.name)
    return self.__dict__.get("_vv")


def _set(self, v):
    self.__dict__["_vv"] = v


def install():
    if not isinstance(pulp.LpVariable.__dict__.get("varValue"), property):
        pulp.LpVariable.varValue = property(_get, _set)


@contextlib.contextmanager
def reads():
    global _reads
    install()
    old, _reads = _reads, set()
    try:
        yield _reads
    finally:
        _reads = old


def put(lp, model, xs, noise=0.0):
    """Report the assignment as the solver's optimal answer."""
    for i, v in enumerate(model.vars):
        v.varValue = xs[i] + (noise if i % 2 else -noise)
    lp.status = pulp.LpStatusOptimal
    return lp.status
