#!/usr/bin/env python3
"""Run the check of each planted change's property against a patched scratch copy of /repo.
usage: seedrun.py [id ...]   (development tool; no check uses it)"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    w = f'/tmp/seedrun_{i}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    r = subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'])
    if r.returncode:
        print(i, prop, 'PATCH DOES NOT APPLY'); shutil.rmtree(w); continue
    t = time.time()
    r = subprocess.run(['python3-vt', V + '/check.py', prop, 'quick'], cwd=V, text=True, capture_output=True,
                       env=dict(os.environ, TSYM_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
    vio = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, prop, 'rc', r.returncode, '%.0fs' % (time.time() - t), vio or '-', flush=True)
    shutil.rmtree(w)
