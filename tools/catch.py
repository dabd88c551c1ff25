#!/usr/bin/env python3
"""catch.py [--all] [id...]: run the property's check (or, with --all, every check) against each planted bug, in the scratch copy."""
import sys, os, json, subprocess, time
R = '/tmp/seed/repo'
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
a = [x for x in sys.argv[1:] if not x.startswith('--')]
man = json.load(open(V + '/MANIFEST.json'))
claimed = [c['property'] for c in man['checks']]
tot = hit = 0
for s in sorted(os.listdir(V + '/seeded')):
    if a and s not in a: continue
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    sh(f'git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
    r = sh(f'git -C {R} apply {V}/seeded/{s}/patch.diff')
    if r.returncode: print(s, 'patch does not apply'); continue
    for p in (claimed if '--all' in sys.argv else [m['property']]):
        if p not in claimed: print(f'{s:40s} {p}  (not claimed)'); continue
        t = time.time()
        c = sh(f'python3 check.py {p}', cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE='/tmp/seed/ev'))
        ok = c.returncode == 1 and f'VIOLATION property={p} ' in c.stdout
        tot += 1; hit += ok
        first = [l for l in c.stdout.splitlines() if l.startswith('  [')]
        if ok or '--all' not in sys.argv or c.returncode: print(f'{s:40s} {p} {"caught" if ok else "MISSED rc=%d" % c.returncode} {time.time()-t:.0f}s {(first or [c.stdout[-200:]])[0][:190]}', flush=True)
    sh(f'git -C {R} checkout -q -- .')
print(f'{hit}/{tot}')
