#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of harnesses that exist."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
SCHED = "stateless model checking of the real code: exhaustive delay-bounded exploration of schedules"
STATE = "explicit-state model checking of the real code against a reference model"
TECH = {
    "C04": "bounded exhaustive exploration of values, types and sizes through the real code against the passed values",
    "C06": STATE, "C07": STATE,
    "C08": SCHED + ", and exhaustive timing search in virtual time",
    "C11": "exhaustive exploration of operation sequences of the real code against a lifecycle model",
    "C13": "exhaustive exploration of usage histories with exact resource accounting in a virtual kernel",
    "C14": "bounded exhaustive enumeration of message contents through the real receiver",
    "C16": SCHED + " and crash points", "C17": SCHED + " of the start-up",
    "C22": "exhaustive enumeration of operating system refusals (single and pairs) on the real code",
    "C23": SCHED + " against a two-flag model",
    "C24": "exhaustive exploration of operation sequences of the real code against a reference model, replayed on the real kernel",
}
NOTE = ("Every execution of the real sources (virtual time, virtual kernel) within the bounds listed per scenario in the evidence file was explored; "
        "trusts the engine's model of pthreads and the POSIX kernel objects, sequential consistency with race detection, and the small configurations of the scenarios (2-3 instances, 1-3 pool threads).")
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/%s.cpp" % (ROOT, i.lower())):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=TECH.get(i, SCHED), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na), open(ROOT + "/MANIFEST.json", "w"), indent=1)
