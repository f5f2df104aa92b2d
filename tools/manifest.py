#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
}
NOTE_DEFAULT = ("Every case of the bounded alphabet in the evidence file's rule is executed on the real code and compared step by step "
  "with an independent model; complete within those bounds, nothing beyond them. Trusted: the model (itself tested on published "
  "vectors), the Go toolchain, and the standard library's SHA-2.")
TECH_DEFAULT = "bounded exhaustive enumeration of inputs and operation histories on the real code, against an executable model"
TECH = {
 'C07': "exhaustive fault enumeration of the random source (every failure point of every read) on the real code, against a model",
 'C12': "exhaustive hash-result fault injection over every step of the derivation interfaces of the real code, against a model",
 'C06': "explicit-state exploration of all word-list selection histories to a depth bound, model and real code in lock step",
 'C21': "exhaustive exploration of all call histories to a depth bound on the real code, in lock step with a model",
 'C22': "exhaustive exploration of all request histories to a depth bound on the real code, in lock step with a model",
 'C26': "exhaustive exploration of call histories on the real code against fresh-process baselines",
 'C27': "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler",
 'C28': "explicit-state exploration of all user-event histories to a depth bound on the real app under a window-system stand-in",
 'C29': "explicit-state exploration of all user-event histories to a depth bound on the real app under a window-system stand-in",
}
NOTE = {}
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
      "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH_DEFAULT), "level": "model_checking" if i not in ('C07','C12') else "fault_enumeration",
      "level_note": NOTE.get(i, NOTE_DEFAULT)})
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the checks build /repo's packages unchanged (crypto/hmac of the standard library gets an injection hook, and C27's scheduling points are inserted, through go build -overlay)."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
