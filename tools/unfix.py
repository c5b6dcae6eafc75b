#!/usr/bin/env python3
"""unfix.py [COMMIT..]: undoes the repairs listed in known-findings.txt one at a time in /repo and runs the check of the
property named there, which has to report it. /repo is restored after each."""
import re, subprocess, sys
def sh(c): return subprocess.run(c, shell=True, cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for l in open('/verif/known-findings.txt'):
    m = re.match(r'fixed: property=(C\d\d) ([0-9a-f]+) (.*)', l)
    if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]): continue
    p, c, what = m.groups()
    assert sh('git -C /repo status --porcelain').stdout == '', 'dirty repo'
    try:
        r = sh(f'git -C /repo diff {c}~1 {c} | git -C /repo apply -R -3')
        if r.returncode or '<<<<' in sh('git -C /repo diff HEAD').stdout:
            print(c, p, 'does not undo', r.stdout.strip().split('\n')[-1][:80], flush=True)
            continue
        if sh('bash /opt/vp/build.sh').returncode: print(c, p, 'does not build without', flush=True); continue
        r = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./check.sh {p}')
        w = [x for x in r.stdout.split('\n') if x.startswith('  case')]
        print(c, p, 'REPORTED' if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout else f'missed ({r.returncode})', (w or [''])[0][:120], flush=True)
    finally:
        sh('git -C /repo reset -q --hard HEAD')
