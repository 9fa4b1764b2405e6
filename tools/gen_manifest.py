#!/usr/bin/env python3
"""MANIFEST.json from tools/suite.py and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suite import CHECKS, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"] for l in open(V + "/properties.jsonl")}
m = dict(version=1, setup_cmd="python3 tools/build.py " + " ".join(sorted({r[0] for c in CHECKS.values() for r in c["runs"]})),
         checks=[dict(property=p, quick_cmd=f"python3 tools/check.py {p} quick", thorough_cmd=f"python3 tools/check.py {p} thorough",
                      technique="TLA+ specification checked with TLC; recorded executions of the real code validated against it by TLC", level="model_checking", level_note=NOTES[p]) for p in sorted(CHECKS)],
         not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "specification and driver under construction")) for p in sorted(props - set(CHECKS))])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
