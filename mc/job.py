"""What a check sees while it works on one job."""
import collections
import json
import time
import traceback

from . import explore as ex


def tup(x):
    """JSON lists back to tuples (jobs must be hashable and replayable)."""
    if isinstance(x, (list, tuple)):
        return tuple(tup(y) for y in x)
    if isinstance(x, dict):
        return {k: tup(v) for k, v in x.items()}
    return x


GUARD = 40      # seconds; an execution normally takes milliseconds


class Ctx:
    MAX_FAILS = 3

    def __init__(self, job, tier, only=None, deadline=None):
        self.job = job
        self.tier = tier
        self.only = only              # (sub, choices) when replaying
        self.deadline = deadline
        self.n = collections.Counter()
        self.seen = collections.defaultdict(set)
        self.samples = []
        self.violations = []
        self.sub = -1
        self.ctl = None
        self.hung = False

    # ---- bookkeeping
    def count(self, what, k=1):
        self.n[what] += k

    def distinct(self, what, key):
        """Count distinct observations (per job; jobs differ in their inputs)."""
        self.seen[what].add(hash(key))

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append(kw)

    def fail(self, msg, key=None, **detail):
        self.n["failures"] += 1
        if len(self.violations) < self.MAX_FAILS:
            v = {"message": msg, "key": key, "job": self.job, "detail": detail}
            if self.ctl is not None:
                v["sub"] = self.sub
                v["choices"] = [list(t) for t in self.ctl.trace]
            self.violations.append(v)

    def enough(self):
        return self.hung or len(self.violations) >= self.MAX_FAILS

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    # ---- exploration
    def explore(self, run, **kw):
        """run(ctl): one execution; judges through self.fail."""
        self.sub += 1
        only = None
        if self.only is not None:
            if self.only[0] != self.sub:
                return None
            only = [tuple(c) for c in self.only[1]]

        def one(ctl):
            self.ctl = ctl
            try:
                run(ctl)
            finally:
                self.ctl = None
        st = ex.explore(one, only=only, should_stop=lambda: self.enough() or self.late(), **kw)
        self.n["executions"] += st.execs
        self.n["states"] += st.nodes
        self.n["transitions"] += st.edges
        self.n["capped"] += st.capped
        return st

    def single(self, run, **kw):
        """One execution without branching (default answers)."""
        return self.explore(run, max_dev=0, **kw)

    def attempt(self, ctl, fn, guard=GUARD):
        """Run fn under ctl.  Returns None, or what went wrong (an exception)."""
        try:
            ex.under(ctl, fn, guard)
            return None
        except ex.Divergence:
            raise
        except (Exception, ex.Horizon, ex.Hang) as e:  # noqa
            if isinstance(e, (ex.Hang, ex.Horizon)):
                self.hung = True
            return e


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        if "/region/" in f.filename:
            where = " at {}:{}".format(f.filename.split("/region/", 1)[1], f.name)
            break
    return "{}: {}{}".format(type(e).__name__, str(e)[:200], where)


def from_region(e):
    return any("/region/" in f.filename and "/verif/" not in f.filename
               for f in traceback.extract_tb(e.__traceback__))


def run_job(mod, job, tier, only=None, deadline=None):
    ctx = Ctx(job, tier, only, deadline)
    if only is None and ctx.late():
        return {"skipped": 1, "n": {}, "distinct": {}, "samples": [], "violations": [], "error": None}
    error = None
    t0 = time.time()
    try:
        mod.do_job(tup(job), ctx)
    except ex.Divergence as e:
        error = "nondeterminism not owned by the harness: {} job={}".format(
            e, json.dumps(job, default=str)[:500])
    except (ex.Horizon, ex.Hang) as e:
        ctx.hung = True
        ctx.fail("did not end: {}".format(describe(e)))
    except Exception as e:  # noqa
        if from_region(e):
            ctx.fail("unexpected exception: " + describe(e))
        else:
            error = "".join(traceback.format_exception(type(e), e, e.__traceback__)) + \
                "\njob=" + json.dumps(job, default=str)[:500]
    return {"skipped": 0, "n": dict(ctx.n), "distinct": {k: len(v) for k, v in ctx.seen.items()},
            "samples": ctx.samples, "violations": ctx.violations, "error": error,
            "hung": ctx.hung, "secs": time.time() - t0}
