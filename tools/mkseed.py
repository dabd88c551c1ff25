#!/usr/bin/env python3
"""mkseed.py SEEDS.py [id...]: build, test and record planted bugs.

SEEDS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=rust source or None,
sh=shell text or None, features, needs, breaks)].  Everything is validated in a scratch copy of
/repo: the change compiles, the stable tests pass, the demonstration passes on the unchanged tree
and fails with the change.  Not used by any check."""
import sys, os, subprocess, json, shutil, runpy, hashlib
S = '/tmp/seed'
R = S + '/repo'
OUT = '/verif/seeded'

SH = r'''#!/bin/bash
# exits 0 when the tree behaves, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 2
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$R", features = [@F@] }
reference_impl = { path = "$R/reference_impl" }
arrayvec = { version = "0.5.0", default-features = false }
[profile.dev]
opt-level = 1
@P@
[workspace]
EOF
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target"
cargo build -q --offline 2>"$T/err" || { cat "$T/err"; exit 3; }
timeout 200 "$T/target/debug/demo"
'''

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def prep():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R):
        shutil.copytree('/repo', R, symlinks=True)
    sh(f'git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
    for n in ('build', 'test'):
        t = open(f'/opt/vp/{n}.sh').read().replace('/repo', R).replace('/opt/vp/logs', S + '/logs')
        open(f'{S}/{n}.sh', 'w').write(t)

def stable():
    o = f'{S}/res.json'
    b = sh(f'bash {S}/build.sh')
    if b.returncode: return 'build: ' + b.stdout[-1500:]
    sh(f'bash {S}/test.sh {o}')
    base = json.load(open('/opt/vp/BASELINE.json'))
    res = json.load(open(o))
    pick = lambda d: set(d.get('passed') or d.get('stable') or [k for k, v in d.get('tests', {}).items() if v in ('pass', 'passed')])
    miss = pick(base) - pick(res)
    return '' if not miss else 'tests fail: ' + ', '.join(sorted(miss)[:6])

def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    prep()
    for s in seeds:
        if want and s['id'] not in want: continue
        d = f'{OUT}/{s["id"]}'
        h = hashlib.sha1(json.dumps({k: v for k, v in s.items()}, sort_keys=True, default=str).encode()).hexdigest()
        if not want and os.path.exists(d + '/meta.json') and json.load(open(d + '/meta.json')).get('h') == h: continue
        sh(f'git -C {R} checkout -q -- .')
        tmp = f'{S}/d-{s["id"]}'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        if s.get('demo'):
            open(tmp + '/main.rs', 'w').write(s['demo'])
            open(tmp + '/demo.sh', 'w').write(SH.replace('@F@', ', '.join(f'"{f}"' for f in s.get('features', []))).replace('@P@', s.get('profile', '')))
        else:
            open(tmp + '/demo.sh', 'w').write(s['sh'])
        for f, t in (s.get('files') or {}).items(): open(tmp + '/' + f, 'w').write(t)
        env = dict(os.environ, REPO=R)
        r0 = sh(f'bash {tmp}/demo.sh', env=env, cwd=R)
        if r0.returncode: print(s['id'], 'REJECT: demo fails on the clean tree', r0.stdout[-1500:]); continue
        bad = None
        for f, old, new in s['edits']:
            p = f'{R}/{f}'
            t = open(p).read()
            if t.count(old) < 1: bad = f'{f}: text not found: {old[:60]}'; break
            if t.count(old) > 1 and not s.get('first'): bad = f'{f}: text not unique: {old[:60]}'; break
            open(p, 'w').write(t.replace(old, new, 1))
        if bad: print(s['id'], 'REJECT', bad); continue
        diff = sh(f'git -C {R} diff').stdout
        e = stable()
        if e: print(s['id'], 'REJECT', e); sh(f'git -C {R} checkout -q -- .'); continue
        r1 = sh(f'bash {tmp}/demo.sh', env=env, cwd=R)
        sh(f'git -C {R} checkout -q -- .')
        if r1.returncode == 0: print(s['id'], 'REJECT: demo passes with the change'); continue
        if r1.returncode == 3: print(s['id'], 'REJECT: demo does not build', r1.stdout[-800:]); continue
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(tmp): shutil.copy(f'{tmp}/{f}', f'{d}/{f}')
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks'], h=h), open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok', (r1.stdout.strip().splitlines() or [''])[-1][:150])

main()
