"""python -m mc.run Cxx [--tier quick|thorough] [--serial] [--replay FILE] [--limit N]"""
import argparse
import collections
import concurrent.futures as cf
import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])

sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from . import rng  # noqa
rng.install()
from . import fresh, job as jb, report  # noqa


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


_MOD = None
_TIER = None
_DEADLINE = None


def _init():
    sys.stdout = _Null()
    warnings.simplefilter("ignore")
    if getattr(_MOD, "FRESH", False):
        fresh.start()


def _work(job):
    return job, jb.run_job(_MOD, job, _TIER, deadline=_DEADLINE)


def main():
    global _MOD, _TIER, _DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    _TIER = a.tier
    _DEADLINE = t0 + float(os.environ.get("MC_BUDGET", 500 if a.tier == "quick" else 6 * 3600))
    _MOD = importlib.import_module("mc.checks." + prop.lower())

    if getattr(_MOD, "FRESH", False) and (a.replay or a.serial):
        fresh.start()
    if a.replay:
        v = json.load(open(a.replay))
        only = (v["sub"], v["choices"]) if "choices" in v else None
        out = sys.stdout
        sys.stdout = _Null()
        res = jb.run_job(_MOD, v["job"], _TIER, only=only)
        sys.stdout = out
        for w in res["violations"]:
            print("VIOLATION property={} replay={}".format(prop, a.replay))
            print("  " + w["message"])
            print("  " + json.dumps(w["detail"], default=str)[:2000])
        if res["error"]:
            print(res["error"])
            return 2
        return 1 if res["violations"] else 0

    jobs = list(_MOD.jobs(a.tier))
    if a.limit:
        jobs = jobs[::max(1, len(jobs) // a.limit)]
    total = len(jobs)
    # the seed only permutes the order of work; what is covered does not depend on it
    k = seed % max(1, total)
    jobs = jobs[k:] + jobs[:k]
    n = collections.Counter()
    distinct = collections.Counter()
    samples = []
    violations = []
    errors = []
    times = []

    def take(job, res):
        n["jobs"] += 1
        n["jobs_skipped"] += res["skipped"]
        for k_, v_ in res["n"].items():
            n[k_] = max(n[k_], v_) if k_.startswith("max_") else n[k_] + v_
        distinct.update(res["distinct"])
        if len(samples) < 5:
            samples.extend(res["samples"][:1])
        violations.extend(res["violations"])
        if res["error"]:
            errors.append(res["error"])
        times.append((res.get("secs", 0), job))

    if a.serial:
        out = sys.stdout
        sys.stdout = _Null()
        for j in jobs:
            take(*_work(j))
        sys.stdout = out
    else:
        workers = int(os.environ.get("MC_WORKERS", os.cpu_count() or 4))
        with cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("fork"),
                                    initializer=_init) as pool:
            it = iter(jobs)
            pending = set()
            live = True
            while True:
                while live and len(pending) < workers * 3:
                    try:
                        pending.add(pool.submit(_work, next(it)))
                    except StopIteration:
                        live = False
                if not pending:
                    break
                done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    take(*f.result())
                    if f.result()[1].get("hung"):
                        n["hung"] += 1
                if len(violations) >= 8 or n["hung"]:
                    live = False
                    for f in list(pending):
                        if f.cancel():
                            pending.discard(f)
    known = report.known_findings(prop)
    new = []
    hit = {}
    for v in violations:
        if v.get("key") and v["key"] in known:
            hit[v["key"]] = known[v["key"]]
        else:
            new.append(v)
    cov = _MOD.coverage(n, distinct) if hasattr(_MOD, "coverage") else {}
    cov = dict(default_coverage(_MOD, n, distinct), **cov)
    cov["samples"] = samples
    cov["exhaustive"] = not (n["jobs_skipped"] or n["capped"] or new or a.limit or n["jobs"] < total)
    if not cov["exhaustive"]:
        cov["cap"] = "jobs skipped: {}, subtrees dropped: {}, jobs run: {} of {}".format(
            n["jobs_skipped"], n["capped"], n["jobs"], total)
    report.write_evidence(prop, a.tier, seed, _MOD.LEVEL, cov, list(_MOD.ASSUMPTIONS), t0, len(new))
    for key, what in sorted(hit.items()):
        print("KNOWN-FINDING: property={} {}".format(prop, what or key))
    if a.times:
        for s, j in sorted(times, key=lambda t: -t[0])[:10]:
            print("%.2fs" % s, json.dumps(j, default=str)[:300])
        by = collections.Counter()
        for s, j in times:
            by["{} {}".format(j.get("kind", ""), j.get("inst", j.get("alg", "")))] += s
        print("cpu total %.1fs" % sum(by.values()), {k: round(v, 1) for k, v in by.most_common(14)})
    new.sort(key=lambda v: (len(json.dumps(v["job"], default=str)), len(v.get("choices", []))))
    for v in new[:5]:
        path = report.write_replay(prop, v)
        print("VIOLATION property={} replay={}".format(prop, path))
        print("  " + v["message"])
    print("{} {}: {} jobs, {} executions, {} violations, {:.1f}s, exhaustive={} {}".format(
        prop, a.tier, n["jobs"], n["executions"], len(new), time.time() - t0, cov["exhaustive"],
        {k: v for k, v in distinct.items()}))
    if new:
        return 1
    if errors:
        print("ERROR: " + errors[0])
        return 2
    return 0


def default_coverage(mod, n, distinct):
    c = {"rule": mod.RULE, "jobs": n["jobs"], "counts": dict(n),
         "distinct_observations": dict(distinct)}
    if mod.LEVEL == "model_checking":
        c["states"] = n["states"]
        c["transitions"] = n["transitions"]
        c["traces_validated_against_impl"] = n["executions"]
    else:
        c["evaluations"] = n["evaluations"] or n["executions"]
        c["distinct_nontrivial"] = distinct["cases"]
    return c


if __name__ == "__main__":
    sys.exit(main())
