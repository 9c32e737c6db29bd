#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
 'default':"Seeded search over generated applications, keyboard input, terminals, faults and thread schedules of the real liso code inside one process on a simulated kernel; every run is compared with an executable reference model. No violation in the runs made is evidence, not proof: only what the generator draws is covered.",
}
CLAIM=[l.strip() for l in open('/verif/tools/claimed.txt') if l.strip()]
NA={
 'N01':"Depends on no schedule, time, I/O or fault: how liso!, Line's methods and add_ansi_text construct values is pure sequential code that is the same in every simulated run.",
 'N02':"Serializing and deserializing values is pure sequential code with no schedule, time, I/O or fault to simulate.",
}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIM:
        checks.append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}',
          'evidence_file':f'evidence/{i}.json','technique':'deterministic simulation with fault injection: seeded search over schedules, faults and inputs, checked against a reference model',
          'level':'exploration','level_note':NOTE.get(i,NOTE['default'])})
    else:
        na.append({'property':i,'reason':NA.get(i,'No check yet.')})
m={'version':1,'setup_cmd':'bash tools/setup.sh','checks':checks,'not_applicable':na,
 'notes':'No hooks in /repo: the seam is the C library interface, redirected at link time, plus compiler instrumentation of the liso crate by the build of the checks. The commits in /repo are all repairs of genuine defects ("fix:").'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
