"""Evidence, violations, known findings."""
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "out", "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <what>`; `fixed:` lines suppress nothing."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property={} key=".format(prop)):
                    rest = line.split(" key=", 1)[1]
                    key, _, what = rest.partition(" ")
                    out[key] = what
    except FileNotFoundError:
        pass
    return out


def write_replay(prop, v):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps(v, indent=1, default=str, sort_keys=True)
    path = os.path.join(REPLAYS, "{}-{}.json".format(prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body)
    return path


def write_evidence(prop, tier, seed, level, coverage, assumptions, t0, nviol):
    os.makedirs(EVID, exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
         "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
