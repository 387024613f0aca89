#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
            technique=P.get('tech', 'runtime monitoring: instrumented MPI with an adversarial scheduler, online reference oracle, ASan/UBSan/MSan builds'),
            level='exploration', level_note=P.get('note', 'Seeded random exploration of the real code; a violation is always a real observed execution. Silence means none of the executions explored violated the property. Trusts the reference model in /verif/h, vmpi and the compilers.')))
    else: na.append(dict(property=i, reason=p.get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='python3 run.py --build-only', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the library is compiled unmodified against the instrumented MPI in /verif/vmpi. known_findings.txt lists findings and fixes.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
