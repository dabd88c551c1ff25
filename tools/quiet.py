#!/usr/bin/env python3
"""quiet.py REFAC.py [id...] [-c C01,C02]: apply behaviour-preserving edits in the scratch copy; every named check has to stay quiet."""
import sys, os, subprocess, time, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import edit
S = os.environ.get('SEEDDIR', '/tmp/seedq'); R = S + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
a = sys.argv[1:]
chk = None
if '-c' in a: i = a.index('-c'); chk = a[i + 1].split(','); del a[i:i + 2]
notest = '-n' in a
a = [x for x in a if x != '-n']
if not os.path.exists(R):
    os.makedirs(S, exist_ok=True); sh(f'cp -a /repo {R}')
for n in ('build', 'test'):
    open(f'{S}/{n}.sh', 'w').write(open(f'/opt/vp/{n}.sh').read().replace('/repo', R).replace('/opt/vp/logs', S + '/logs'))
sh(f'git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
for r in runpy.run_path(a[0])['REFAC']:
    if a[1:] and r['id'] not in a[1:]: continue
    sh(f'git -C {R} checkout -q -- .')
    edit.apply(R, r['edits'])
    for f, w in r.get('words', []):
        import re
        t = open(f'{R}/{f}').read()
        for a_, b_ in w.items(): t = re.sub(r'\b%s\b' % a_, b_, t)
        open(f'{R}/{f}', 'w').write(t)
    if not notest:
        b = sh(f'bash {S}/build.sh')
        if b.returncode: print(r['id'], 'does not build', b.stdout[-1500:]); continue
        import json
        sh(f'bash {S}/test.sh {S}/res.json')
        base, res = json.load(open('/opt/vp/BASELINE.json')), json.load(open(f'{S}/res.json'))
        pick = lambda d: set(d.get('passed') or d.get('stable') or [k for k, v in d.get('tests', {}).items() if v in ('pass', 'passed')])
        if pick(base) - pick(res): print(r['id'], 'tests fail', sorted(pick(base) - pick(res))[:5]); continue
    for p in chk or r['checks']:
        t = time.time()
        c = sh(f'python3 check.py {p}', cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE=S + '/ev', VERIF_RULES='all'))
        print(f'{r["id"]:28s} {p} {"quiet" if c.returncode == 0 else "ALARM rc=%d" % c.returncode} {time.time()-t:.0f}s', flush=True)
        if c.returncode: print('   ' + '\n   '.join(l[:260] for l in c.stdout.splitlines() if l.startswith('  [') or c.returncode > 1), flush=True)
sh(f'git -C {R} checkout -q -- .')
