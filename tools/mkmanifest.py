#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/*.py."""
import json, os, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, V); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/checks/%s.py' % i.lower()):
        m = __import__('checks.' + i.lower(), fromlist=['x'])
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                           thorough_cmd='python3 check.py %s thorough' % i,
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Model checking applies, but no check has been built for it yet.')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '90a41e4..HEAD'], stdout=subprocess.PIPE).stdout.decode()
hooks = [l.split()[0] for l in log.splitlines() if 'verif hook' in l]
man = dict(version=1, setup_cmd='python3 -m vlib.build',
           hooks=dict(guard='SCM_VERIF_HOOKS', enable='vlib/build.py compiles /repo/src with -DSCM_VERIF_HOOKS=1', source_commits=hooks[::-1]),
           checks=checks, not_applicable=na,
           notes='Every check builds a driver (src/vdrv.c) together with the sources of /repo, enumerates a bounded space of programs, histories or inputs exhaustively and compares each execution with an explicit reference model; see DESIGN.md.')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
