#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from props import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/na.json")) if os.path.exists(V + "/tools/na.json") else {}
TECH = {
 "C06": "stateless model checking of the real code: exhaustive enumeration of fault points (allocations, plan creations) x histories under a fault injector",
 "C11": "stateless model checking of the real code against a nondeterministic environment: every answer tree to a depth bound",
 "C04": "stateless model checking of the real code: every operation sequence to a depth bound, against matrix references",
 "C09": "stateless model checking of the real code under a controlled scheduler: every chunk-to-thread assignment and every interleaving of conflicting accesses",
 "C19": "bounded exhaustive exploration of call sequences through the real Python module, against the C solvers",
 "C20": "bounded exhaustive exploration of call sequences through the real MEX functions in Octave, against the C solvers",
 "C24": "stateless model checking of the real code: every sequence of solver calls to a depth bound and every fault point inside an earlier call, against a fresh process",
 "C22": "stateless model checking of the real code: every printer/verbosity sequence to a depth bound",
 "C23": "stateless model checking of the real code: every allocate/free history to a depth bound",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, "bounded exhaustive exploration of the real code (stateless model checking of every configuration/call in the bound) against an independent reference"),
            level=s["level"],
            level_note="Exhaustive within: " + s["bounds"]["quick"] + ". Assumes: " + "; ".join(s["assumptions"]) + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 run.py --list", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the checks compile /repo's sources with link-time interposition. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
