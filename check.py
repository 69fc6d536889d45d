#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.

usage: check.py <property> [quick|thorough]
"""
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))

KNOWN = os.path.join(HERE, "known-findings.txt")


def known(prop):
    """Keys of the recorded findings of one property."""
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=%s " % prop):
                key, _, text = line.split(" ", 2)[2].strip().partition(" :: ")
                r[key] = text or key
    return r


class Nothing:
    """What there is to say when the analysis itself came to no answer."""
    level = "other"
    violations = ()

    def __init__(self, why):
        self.undecided = [why]
        self.assumptions = []
        self.coverage = {"explanation": "The analysis came to no answer: " + why}


def run(prop, tier):
    import checks
    if prop not in checks.CHECKS:
        raise SystemExit("no such check: " + prop)
    try:
        return checks.run(prop, tier)
    except SystemExit:
        raise
    except BaseException:
        # a fault of the analysis is no finding about the code
        text = traceback.format_exc()
        sys.stderr.write(text)
        return Nothing(text.strip().splitlines()[-1])


def main():
    if len(sys.argv) < 2:
        raise SystemExit(__doc__)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    out = run(prop, tier)
    listed = known(prop)
    bad, seen = [], set()
    for m in out.violations:
        k = m.key()
        if k in seen:
            continue
        seen.add(k)
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
        else:
            bad.append(m)
    for u in out.undecided[:20]:
        print("undecided: %s" % u)
    for m in bad:
        d = os.path.join(HERE, "reports")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha256(m.key().encode()).hexdigest()[:10]))
        with open(f, "w") as g:
            g.write("property: %s\nkey: %s\nplace: %s\n%r\n\nto repeat: python3 check.py %s %s\n" % (
                prop, m.key(), m.where, m, prop, tier))
        print("%r" % m)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, HERE)))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": out.level,
          "coverage": out.coverage, "assumptions": out.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(bad)}
    ev["coverage"]["undecided"] = len(out.undecided)
    ev["coverage"]["undecided_items"] = out.undecided[:20]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not bad:
        print("%s: held (%s)" % (prop, ", ".join("%s %s" % (v, k) for k, v in out.coverage.items() if isinstance(v, int))))
    sys.stdout.flush()
    import dump
    dump._clean()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main()
