#!/usr/bin/env python3
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V,'tools'))
from config import CONFIG, NA
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CONFIG:
        c=CONFIG[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/run.py %s quick'%i, thorough_cmd='python3 tools/run.py %s thorough'%i,
          technique=c.get('technique','contract harnesses (Hoare triples) on the compiled code, discharged by Kani/CBMC'),
          level='proof', level_note=c.get('note','')))
    else:
        na.append(dict(property=i, reason=NA.get(i,'check not built yet')))
m=dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
  notes='No hooks in /repo: every contract is stated on the public API (and the doc(hidden) __private module derived code calls). Known findings and fixed defects: known-findings.txt.')
json.dump(m, open(os.path.join(V,'MANIFEST.json'),'w'), indent=1)
open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
