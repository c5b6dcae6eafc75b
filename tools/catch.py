#!/usr/bin/env python3
"""catch.py [-a] [ID..]: applies planted bugs one at a time in /repo, runs the check of their property (-a: every check), undoes them"""
import json, os, subprocess, sys, time
S = '/verif/seeded'
def sh(c): return subprocess.run(c, shell=True, cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
a = [x for x in sys.argv[1:] if x != '-a']
every = '-a' in sys.argv
env = dict(os.environ)
for i in sorted(os.listdir(S)):
    if a and i not in a: continue
    m = json.load(open(f'{S}/{i}/meta.json'))
    ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] if every else [m['property']]
    r = sh(f'git -C /repo apply {S}/{i}/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stdout.decode()); continue
    try:
        for p in ids:
            t = time.time()
            r = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./check.sh {p}')
            o = r.stdout.decode()
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            w = [l for l in o.split('\n') if l.startswith('  case')]
            print(i, p, 'CAUGHT' if r.returncode == 1 and any(f'property={p} ' in x for x in v) else f'missed ({r.returncode})', f'{time.time()-t:.0f}s', (w or [''])[0][:200] if r.returncode else '', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
