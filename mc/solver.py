"""The MIP solver behind a seam: pulp's solver classes ask `handler` instead of an executable."""
import contextlib

import pulp

CLASSES = {"cbc": pulp.solvers.PULP_CBC_CMD, "cplex": pulp.solvers.CPLEX, "glpk": pulp.solvers.GLPK,
           "gurobi": pulp.solvers.GUROBI}
_handler = None


class Call:
    """One solve: which solver was asked, with which problem."""

    def __init__(self, name, solver, lp, real):
        self.name, self.solver, self.lp = name, solver, lp
        self._real = real

    def real(self):
        return self._real(self.solver, self.lp)


def _real_cbc(solver, lp):
    cbc = pulp.solvers.PULP_CBC_CMD(msg=0)
    return _ORIG["cbc"](cbc, lp)


_ORIG = {}


def _patch(name, cls):
    orig = cls.actualSolve
    _ORIG[name] = orig

    def actualSolve(self, lp, *args, **kwargs):
        if _handler is None:
            return orig(self, lp, *args, **kwargs)
        return _handler(Call(name, self, lp, _real_cbc))
    cls.actualSolve = actualSolve


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    for name, cls in CLASSES.items():
        _patch(name, cls)


@contextlib.contextmanager
def handled(handler):
    """handler(call) -> status; it sets lp.status and the variables' values."""
    global _handler
    install()
    old, _handler = _handler, handler
    try:
        yield
    finally:
        _handler = old


def solve_real(call):
    return call.real()
