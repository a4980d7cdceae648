#!/bin/bash
cd /verif; for p in "$@"; do python3 tools/run.py $p; python3 -c "
import json;d=json.load(open('/verif/evidence/$p.json'));c=d['coverage'];print(d['level'],*[(k.split('::')[1],v['wall_s']) for k,v in c['contract_harnesses'].items()],c['notes'])"; done
