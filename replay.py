#!/usr/bin/env python3
"""replay.py <replay file>: re-runs the cases of a reported violation."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
d = json.load(open(sys.argv[1]))
print(d['what'])
rp = d['replay']
if 'cases' in rp:
    cs = [(c['src'].encode('latin-1'), c['flags'], c['period'], c['off']) for c in rp['cases']]
    rs = core.run_fresh(rp['spec'], cs)
    print('spec', rp['spec'])
    for c, r in list(zip(cs, rs))[-3:]:
        print('case', core.txt(c[0])); print('  ->', r.show())
    print('expected:', rp.get('expected'))
else:
    print(json.dumps(rp, indent=1))
