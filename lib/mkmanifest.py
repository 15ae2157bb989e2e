#!/usr/bin/env python3
# writes /verif/MANIFEST.json from checks_conf.py and properties.jsonl
import json, os, sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R); sys.dont_write_bytecode=True
from checks_conf import CHECKS, NOT_APPLICABLE
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
checks=[]
for p in props:
    c=CHECKS.get(p['id'])
    if not c: continue
    checks.append(dict(property=p['id'],quick_cmd='python3 check.py %s'%p['id'],thorough_cmd='VERIF_TIER=thorough python3 check.py %s --tier thorough'%p['id'],
      technique=c.get('technique','runtime monitoring: online oracles over generated workloads under ASan+UBSan'),level='exploration',
      level_note=c.get('note','Oracle over the executions explored (counts in the evidence file); says nothing about inputs outside the generated families. Trusts the compiler, Eigen and the reference computations of the harness.')))
na=[dict(property=p['id'],reason=NOT_APPLICABLE.get(p['id'],'no check built yet')) for p in props if p['id'] not in CHECKS]
json.dump(dict(version=1,setup_cmd='python3 check.py --setup',checks=checks,not_applicable=na),open(R+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
