#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import checks

DF = "abstract interpretation (gated value numbering) over compiler MIR compared with a declarative format specification"
TECH = {}
NOTE = {}
BASE = ("Decided for every input at once on the compiler's MIR of /repo's current tree, rebuilt on each run; what is not "
        "understood is reported as undecided in the evidence and raises no alarm. Trusts rustc, the models of the standard "
        "library and of the typeface crate in engine/models.py, and the specification in engine/spec.py.")
NA = {
    "N01": "A bound on time and memory in terms of the size of the input is a quantitative statement about runtime quantities: offsets may "
           "alias, so that one stretch of input is decoded any number of times, and no static argument in reach bounds it.",
    "N02": "These tables are implemented in the dependencies truetype and postscript, outside /repo; this repository only re-exports them. "
           "Their registration under the right tag is part of C23.",
}
for x in checks.__dict__.get("TECHNIQUES", {}).items():
    TECH[x[0]] = x[1]
for x in checks.__dict__.get("NOTES", {}).items():
    NOTE[x[0]] = x[1]


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 engine/dump.py setup", "checks": [], "not_applicable": []}
    for i in ids:
        if i in checks.CHECKS:
            m["checks"].append({
                "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DF), "level": "other",
                "level_note": NOTE.get(i, BASE)})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
