"""Stateless depth-first exploration of all choice sequences (or all within a deviation bound)."""
import signal

from . import rng


class Divergence(BaseException):
    """Replaying a prefix did not reproduce the same choice points: nondeterminism not owned."""


class Horizon(BaseException):
    """An execution needed more choices (or work) than its horizon allows."""


# how draws beyond the prefix are answered: (position of the draw, number of options) -> option
POLICIES = {
    "first": lambda i, n: 0,
    "last": lambda i, n: n - 1,
    "mid": lambda i, n: n // 2,
    "turns": lambda i, n: (i * 7 + 3) % n,
    "zigzag": lambda i, n: i // 2 % n if i % 2 else n - 1 - i // 2 % n,
}


class Controller:
    """Answers draws from `prefix`, then as its policy says (the default answer is 0)."""

    def __init__(self, prefix=(), horizon=20000, reals=(0.0, 0.999999), record_notes=False, policy="first"):
        self.prefix = list(prefix)
        self.policy = POLICIES[policy]
        self.trace = []          # (n, chosen)
        self.horizon = horizon
        self.reals = reals
        self.notes = [] if record_notes else None

    def note(self, ev):
        if self.notes is not None:
            self.notes.append(ev)

    def choose(self, n):
        if n <= 0:
            raise ValueError("empty range for randrange()")
        i = len(self.trace)
        if i >= self.horizon:
            raise Horizon("more than {} random draws".format(self.horizon))
        if i < len(self.prefix):
            want = self.prefix[i]
            c = want[1] if isinstance(want, tuple) else want
            if isinstance(want, tuple) and want[0] != n:
                raise Divergence("choice {}: {} options, expected {}".format(i, n, want[0]))
            if c >= n:
                raise Divergence("choice {}: option {} of {}".format(i, c, n))
        else:
            c = self.policy(i, n)
        self.trace.append((n, c))
        return c

    used_real = False

    def real(self):
        self.used_real = True
        return self.reals[self.choose(len(self.reals))]

    def choices(self):
        return [c for _, c in self.trace]


class Follow(Controller):
    """Follows a given list of answers as far as it fits (indices taken modulo the number of
    options), then answers 0.  Used to put two different runs under the same random outcomes."""

    def choose(self, n):
        if n <= 0:
            raise ValueError("empty range for randrange()")
        i = len(self.trace)
        if i >= self.horizon:
            raise Horizon("more than {} random draws".format(self.horizon))
        c = self.prefix[i] % n if i < len(self.prefix) else 0
        self.trace.append((n, c))
        return c


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


def guarded(fn, seconds):
    """Run fn() with a wall-clock guard (only in the main thread of a worker)."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def under(ctl, fn, guard=40):
    """Run fn() with ctl answering all draws."""
    old = rng.set_active(ctl)
    try:
        return guarded(fn, guard)
    finally:
        rng.set_active(old)


class Stats:
    def __init__(self):
        self.execs = 0
        self.nodes = 0        # nodes of the choice tree (distinct choice prefixes)
        self.edges = 0
        self.max_choices = 0
        self.capped = 0


def explore(run, max_dev=None, max_execs=None, horizon=20000, reals=(0.0, 0.999999), stats=None,
            only=None, should_stop=None, policy="first"):
    """run(ctl) executes the system once with `ctl` active and judges it.

    Executes every choice sequence (with at most `max_dev` answers other than the policy's if given).
    `only`: a single choice list to replay instead.
    Returns Stats; stats.capped counts subtrees dropped by max_execs or a deadline.
    """
    st = stats if stats is not None else Stats()
    if only is not None:
        ctl = Controller(only, horizon, reals, policy=policy)
        run(ctl)
        st.execs += 1
        return st
    stack = [((), 0)]
    n0 = st.execs
    while stack:
        if (max_execs is not None and st.execs - n0 >= max_execs) or (should_stop and should_stop()):
            st.capped += len(stack)
            break
        prefix, dev = stack.pop()
        ctl = Controller(prefix, horizon, reals, policy=policy)
        run(ctl)
        st.execs += 1
        tr = ctl.trace
        if len(tr) < len(prefix):
            raise Divergence("replay ended after {} of {} choices".format(len(tr), len(prefix)))
        st.nodes += len(tr) - len(prefix) + (1 if prefix else 1)
        st.edges += len(tr) - len(prefix) + (1 if prefix else 0)
        st.max_choices = max(st.max_choices, len(tr))
        if max_dev is not None and dev >= max_dev:
            continue
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            n = tr[i][0]
            for alt in range(n - 1, -1, -1):
                if alt != tr[i][1]:
                    stack.append((tuple(tr[:i]) + ((n, alt),), dev + 1))
    return st
