#!/usr/bin/env python3
# Writes MANIFEST.json: claims every property in properties.jsonl that the driver implements.
import json, subprocess, sys
ids = sys.argv[1:] or subprocess.run(['./check','list'],capture_output=True,text=True).stdout.strip().strip('[]').split()
props = [json.loads(l) for l in open('properties.jsonl')]
note = ("seeded search over simulated executions of the unmodified program: the whole process runs on a simulated kernel "
 "(files, devices, clock, random source, scheduling), inputs come from a simulated InnoDB server, faults from a seeded plan; "
 "assurance: no violation in the runs explored, each failure is one exactly repeatable seed; trusts the InnoDB model and the simulated kernel")
m = {"version":1, "setup_cmd":"./check warm",
 "checks":[{"property":p['id'],"quick_cmd":"./check "+p['id'],"thorough_cmd":"VERIF_TIER=thorough ./check "+p['id'],
   "evidence_file":"evidence/%s.json"%p['id'],
   "technique":"deterministic simulation with fault injection","level":"exploration","level_note":note} for p in props if p['id'] in ids],
 "not_applicable":[{"property":p['id'],"reason":"check not built yet"} for p in props if p['id'] not in ids]}
json.dump(m,open('MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
