#!/usr/bin/env python3
"""plant.py FILE.py [ID..]: makes /verif/seeded/<id>/ from the specifications in FILE.py (BUGS: list of dicts with id,
property, edits, demo, needs, breaks), and confirms each in /repo: it applies, builds, passes the stable tests, and its
demonstration fails with it and passes without. /repo is restored after each."""
import json, os, subprocess, sys, shutil, importlib.util
REPO, SEED = '/repo', '/verif/seeded'
HELP = '''import os, subprocess, sys, tempfile, shutil
REPO = os.getcwd()
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, TMP, True)
CLI = os.path.join(REPO, 'target/debug/tiny-spice-rs')
def run(deck, files={}, name='deck.spi', cwd='.', arg=None, timeout=60):
    """exit status and output of the program, and the lines of its waveform file as (names, rows)"""
    d = tempfile.mkdtemp(dir=TMP)
    for f, t in list(files.items()) + [(name, deck)]:
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)
    try:
        r = subprocess.run([CLI, arg or name], cwd=os.path.join(d, cwd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout', None, None
    names = rows = None
    for b, _, fs in os.walk(os.path.join(d, cwd)):
        if 'tran.dat' in fs:
            l = open(os.path.join(b, 'tran.dat')).read().split('\\n')
            names = l[0].split('\\t')
            rows = [[float(x) for x in y.split('\\t')] for y in l[2:] if y]
    return r.returncode, r.stdout.decode('utf8', 'replace'), names, rows
def need(ok, why):
    if not ok:
        print('FAILED:', why)
        sys.exit(1)
def col(names, rows, n):
    i = names.index(n)
    return [r[i] for r in rows]
def rust(src):
    """compile a program against the library and run it"""
    p = os.path.join(TMP, 'p.rs')
    open(p, 'w').write(src)
    import glob
    lib = max(glob.glob(os.path.join(REPO, 'target/debug/deps/libtiny_spice-*.rlib')), key=os.path.getmtime)
    subprocess.run(['rustc', '+stable', '--edition', '2021', '-A', 'warnings', '-o', p[:-3], p, '--extern', 'tiny_spice=' + lib, '-L', os.path.join(REPO, 'target/debug/deps')], check=True)
    r = subprocess.run([p[:-3]], cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    return r.returncode, r.stdout.decode('utf8', 'replace')
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def restore(): sh('git -C /repo checkout -- .')
def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout.decode()[-1500:]
spec = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
stable = None
for b in m.BUGS:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    d = f"{SEED}/{b['id']}"
    assert sh('git -C /repo status --porcelain').stdout == b'', 'dirty repo'
    try:
        for f, old, new in b['edits']:
            p = f'{REPO}/{f}'; s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'wb').write(diff)
        open(f'{d}/demo.py', 'w').write(HELP + '\n' + b['demo'])
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        ok, log = build()
        if not ok: print(b['id'], 'DOES NOT BUILD', log); continue
        t = sh('bash /opt/vp/test.sh /tmp/seed/o.json').stdout.decode().strip().split('\n')[-1]
        r = sh(f'bash {d}/demo.sh', cwd=REPO)
        bad = r.returncode
        out = r.stdout.decode().strip().split('\n')[-1]
    finally:
        restore()
    build()
    r = sh(f'bash {d}/demo.sh', cwd=REPO)
    good = r.returncode
    print(b['id'], 'tests:', t, '| with:', bad, out[:150], '| without:', good, '' if good == 0 else r.stdout.decode()[-300:], '=> ' + ('OK' if '49 passed' in t and bad and not good else 'NOT USABLE'), flush=True)
