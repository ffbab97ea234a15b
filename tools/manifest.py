#!/usr/bin/env python3
# Writes /verif/MANIFEST.json (run in /verif).
import json
props=[json.loads(l) for l in open('properties.jsonl')]
NA=json.load(open('tools/not_applicable.json'))
checks=[]
NOTE="Seeded simulation samples executions; it does not enumerate them. Trusted: the reference model and history checks in /verif/sim, the consensus and disk stubs."
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
      technique="deterministic simulation with fault injection: seeded runs of the real application on simulated nodes, disks, network and clock, checked block by block against an executable reference model and history invariants",
      level="exploration",level_note=NOTE))
m=dict(version=1,setup_cmd="bash build.sh",hooks=dict(guard="build overlay generated by /verif/seams; nothing is added to /repo",enable="go build -overlay build/overlay/overlay.json",source_commits=[]),
  checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes="known-findings.txt lists recorded findings and repairs; replay.sh replays a violation.")
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
