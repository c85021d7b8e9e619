"""The harness owns every random draw.

`install()` must run before `region` is imported.  It replaces the generator behind the `random`
module (and the drawing functions of numpy.random) with one that asks the active controller for
every draw.  Without an active controller the generators behave as usual.

A controller offers
    choose(n)   -> int in range(n)      (an integer draw)
    real()      -> float in [0, 1)      (a uniform draw)
    note(event)                         (seeding events, for C12)
"""
import random
import sys

_active = None
_installed = False


def set_active(ctl):
    global _active
    old = _active
    _active = ctl
    return old


def active():
    return _active


class CtlRandom(random.Random):
    """random.Random whose primitive draws come from the active controller."""

    def seed(self, *args, **kwargs):
        a = args[0] if args else kwargs.get("a")
        if _active is not None:
            _active.note(("seed", a, id(self)))
        super().seed(*args, **kwargs)

    def _who(self):
        return id(self)

    def getstate(self):
        state = super().getstate()
        if _active is not None:
            _active.note(("get", state, self._who()))
        return state

    def setstate(self, state):
        if _active is not None:
            _active.note(("set", state, self._who()))
        super().setstate(state)

    def _randbelow(self, n):
        if _active is not None:
            _active.note(("draw", n, self._who()))
            return _active.choose(n)
        if n <= 0:
            raise ValueError("empty range")
        k = n.bit_length()
        r = super().getrandbits(k)
        while r >= n:
            r = super().getrandbits(k)
        return r

    def random(self):
        if _active is not None:
            _active.note(("real", None, self._who()))
            return _active.real()
        return super().random()

    def getrandbits(self, k):
        if _active is not None:
            _active.note(("draw", 2 ** k, self._who()))
            if k > 20:
                return _active.choose(2)
            return _active.choose(2 ** k)
        return super().getrandbits(k)


_FUNCS = ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample",
          "shuffle", "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate",
          "gammavariate", "gauss", "betavariate", "binomialvariate", "paretovariate",
          "weibullvariate", "getstate", "setstate", "getrandbits", "randbytes")


class NpCtl:
    """Stand-in for numpy generators, used only while a controller is active."""

    def __init__(self, *args, **kwargs):
        self.who = "numpy" if _active is None else id(self)
        if _active is not None:
            a = args[0] if args else next(iter(kwargs.values()), None)
            _active.note(("seed", a, self.who))

    def _below(self, n):
        _active.note(("draw", n, self.who))
        return _active.choose(int(n))

    def _many(self, size, f):
        import numpy as np
        if size is None:
            return f()
        out = np.empty(size, dtype=object)
        flat = out.reshape(-1)
        for i in range(flat.shape[0]):
            flat[i] = f()
        return np.array(out.tolist())

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._many(size, lambda: low + self._below(high - low))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self._many(size, lambda: low + self._below(high - low + (1 if endpoint else 0)))

    def _real(self):
        _active.note(("real", None, self.who))
        return _active.real()

    def random(self, size=None):
        return self._many(size, self._real)

    random_sample = random

    def rand(self, *shape):
        return self._many(shape or None, self._real)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(size, lambda: low + (high - low) * self._real())

    def permutation(self, x):
        import numpy as np
        items = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(items)
        return np.array(items)

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self._below(i + 1)
            x[i], x[j] = x[j], x[i]

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return items[self._below(len(items))]
        total = int(np.prod(size))
        out = []
        pool = list(items)
        for _ in range(total):
            if replace:
                out.append(items[self._below(len(items))])
            else:
                out.append(pool.pop(self._below(len(pool))))
        return np.array(out).reshape(size)

    def seed(self, *args, **kwargs):
        _active.note(("seed", args[0] if args else None, self.who))


def install():
    global _installed
    if _installed:
        return
    if any(m == "region" or m.startswith("region.") for m in sys.modules):
        raise RuntimeError("rng.install() must run before region is imported")
    inst = CtlRandom()
    random._inst = inst
    for name in _FUNCS:
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))
    random.Random = CtlRandom

    class CtlSystemRandom(CtlRandom):
        def _who(self):
            return "system"
    random.SystemRandom = CtlSystemRandom

    # the libraries region builds on bind numpy's generators at import time: load them first
    import numpy as np
    import scipy.stats, scipy.sparse.csgraph, pandas, networkx, sklearn.metrics, pulp  # noqa
    import libpysal, geopandas  # noqa
    npctl = NpCtl()

    def wrap(name):
        real = getattr(np.random, name, None)

        def f(*args, **kwargs):
            if _active is not None:
                return getattr(npctl, name)(*args, **kwargs)
            return real(*args, **kwargs)
        f.__name__ = name
        return f
    for name in ("randint", "random", "random_sample", "rand", "uniform", "permutation", "shuffle",
                 "choice", "seed"):
        setattr(np.random, name, wrap(name))
    real_default = np.random.default_rng
    real_state = np.random.RandomState

    def default_rng(*args, **kwargs):
        if _active is not None:
            return NpCtl(*args, **kwargs)
        return real_default(*args, **kwargs)

    class RandomState(real_state):
        def __new__(cls, *args, **kwargs):
            if _active is not None:
                return NpCtl(*args, **kwargs)
            return real_state(*args, **kwargs)
    np.random.default_rng = default_rng
    np.random.RandomState = RandomState
    _installed = True
