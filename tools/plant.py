#!/usr/bin/env python3
"""plant.py plants.py [ID...]: makes and validates planted bugs.  Each entry: id, property, file, old, new, needs, what, demo (scheme text), expected output."""
import json, os, subprocess, sys, importlib.util
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
R = '/repo'
def clean(): sh('git -C /repo checkout -- .')
DEMO = '''#!/bin/bash
# prints nothing and exits 0 when the program's output is as specified
d=$(cd "$(dirname "$0")" && pwd)
for c in %s; do
  out=$(cd "$(mktemp -d)" && LC_ALL=C timeout 100 /repo/_build/$c/src/sscm --system-load-path /repo/lib "$d/demo.scm" 2>/dev/null </dev/null)
  [ "$out" = "$(cat "$d/expected")" ] || { echo "$c: got $out"; exit 1; }
done
exit 0
'''
def main():
    spec = importlib.util.spec_from_file_location('pl', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    for e in m.P:
        if want and e['id'] not in want: continue
        if not want and os.path.exists('/verif/seeded/%s/meta.json' % e['id']): continue
        clean()
        d = '/verif/seeded/' + e['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(e.get('sh') or DEMO % ' '.join(e.get('cfgs', ['compact'])))
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in e:
            open(d + '/demo.scm', 'w').write(e['demo']); open(d + '/expected', 'w').write(e['expected'])
        if sh('bash /opt/vp/build.sh').returncode: print(e['id'], 'base build failed'); return
        r = sh('bash %s/demo.sh' % d, cwd=R)
        if r.returncode: print(e['id'], 'DEMO FAILS ON BASE', r.stdout.decode()); continue
        edits = e['edits'] if 'edits' in e else [(e['file'], e['old'], e['new'])]
        bad = False
        for f, o, n in edits:
            s = open(R + '/' + f, encoding='latin-1').read()
            if s.count(o) != 1: print(e['id'], 'old text count', s.count(o), f); bad = True; break
            open(R + '/' + f, 'w', encoding='latin-1').write(s.replace(o, n))
        if bad: clean(); continue
        open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
        # lines removed must be original
        rt = sh('bash /tmp/rt.sh')
        t = rt.stdout.decode().splitlines()[-3:]
        if not any('missing []' in l for l in t): print(e['id'], 'TESTS', t); clean(); continue
        r = sh('bash %s/demo.sh' % d, cwd=R)
        if r.returncode == 0: print(e['id'], 'DEMO PASSES WITH PATCH'); clean(); continue
        json.dump(dict(property=e['prop'], needs=e['needs'], what_it_breaks=e['what']), open(d + '/meta.json', 'w'), indent=1)
        c = sh('cd /verif && timeout 900 python3 check.py %s quick' % e['prop'])
        o = c.stdout.decode().splitlines()
        v = [l for l in o if l.startswith('VIOLATION')]
        print(e['id'], 'valid; check', e['prop'], 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode, (v or o[-1:])[0][:160])
        sys.stdout.flush()
        clean()
    clean(); sh('bash /opt/vp/build.sh')
main()
