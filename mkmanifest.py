#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and the list of implemented checks.
import json,sys
CLAIMED=open('/verif/claimed.txt').read().split()
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append(dict(property=i,quick_cmd=f"bash /verif/check.sh {i} quick",thorough_cmd=f"bash /verif/check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection: seeded search over schedules, weak-memory outcomes and faults, against reference-model oracles",
          level="exploration",level_note="Seeded sampling of complete simulated executions of the real code (std included); every run is checked against the property's oracles, every violation is minimised and replayable. A clean batch is evidence, not proof."))
    else:
        na.append(dict(property=i,reason="no check registered yet"))
m=dict(version=1,setup_cmd="bash /verif/check.sh build",
  hooks=dict(guard="none (no change to /repo is needed: the seam is the sanitizer ABI, -Zsanitizer=thread linked against /verif/sim/rt/simrt.cpp)",
    enable="/verif/sim/build.sh compiles /repo's crates and std with compiler-inserted hooks",source_commits=[]),
  checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
