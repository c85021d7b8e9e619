"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib, json, os, sys, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMD = "PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 /opt/venv/bin/python -m mc.run {} --tier {}"
TECH = {
 "default": "stateless model checking of the real code: exhaustive depth-first exploration of all random outcomes (up to a deviation bound) over a bounded input space, judged by an independent oracle",
 "C04": "exhaustive enumeration of labellings x moves x attribute tables x metrics of a bounded space against recomputation",
 "C05": "stateless model checking: acceptance decisions and random draws are explored choices; the fit is replayed on a legality model",
 "C06": "explicit-state model of the acceptance/cooling law, with all operation sequences up to a depth replayed on the real strategy",
 "C07": "conformance of every explored execution of the real search to a nondeterministic step model of tabu search",
 "C09": "exhaustive enumeration of graphs x labellings against a contiguity oracle",
 "C10": "exhaustive enumeration of node orders x entry points x options; differential exploration under the same random outcomes",
 "C11": "exhaustive enumeration of fit histories up to a depth; differential against a fresh instance under the same random outcomes",
 "C12": "exhaustive enumeration of histories x generator states x seeds, with every draw traced to its seeding",
 "C13": "exhaustive exploration of entry points x random outcomes with deep snapshots of all arguments",
 "C14": "exhaustive enumeration of invalid and valid argument values on every entry point",
 "C15": "fault enumeration: an exception at every call of every user callable and at the solver, then refit",
 "C16": "exhaustive enumeration of small instances x solver answers (alternative optima, rounding) against brute-force optimum",
 "C17": "exhaustive enumeration of infeasible instances and of all solver statuses",
 "C18": "exhaustive enumeration of small instances x solver answers against brute-force optimum",
 "C21": "exhaustive enumeration of labellings x moves x attribute tables x answers of the wrapped strategy",
 "C23": "exhaustive enumeration of maps x data x quorum x n_clusters against a partition oracle",
 "C24": "exhaustive enumeration of maps x data against spanning-forest and cut enumeration",
 "C25": "exhaustive enumeration of graphs, orders and namings against definitions",
 "C26": "stateless model checking: every execution on the whole map is matched with replayed or completely explored executions on each island alone",
}
NOT_BUILT = "The check for this property has not been built yet; model checking applies (see DESIGN.md)."

def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        path = os.path.join(ROOT, "mc", "checks", i.lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": i, "reason": NOT_BUILT})
            continue
        src = open(path).read()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        note = re.search(r'^NOTE = \((.*?)\)\n\n', src, re.M | re.S) or re.search(r'^RULE = \((.*?)\)\n[A-Z]', src, re.M | re.S)
        note = eval("(" + note.group(1) + ")")
        checks.append({"property": i, "quick_cmd": CMD.format(i, "quick"),
                       "thorough_cmd": CMD.format(i, "thorough"),
                       "technique": TECH.get(i, TECH["default"]), "level": level,
                       "level_note": note + " Exhaustive within those bounds on the real code; trusts the Python oracle in mc/oracle.py and the numeric libraries, and claims nothing beyond the bounds."})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import region, numpy, scipy, networkx, pulp, libpysal, geopandas'",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the random generators, the solver backend and the user callables are public seams. Every check imports region from /repo's working tree."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
