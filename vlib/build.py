"""Obtain the LLVM IR of /repo's current tree (Rust crate, reference
implementation, C files) and normalise it for the abstract interpreter.
Everything is rebuilt in a private scratch directory of this process."""
import os, re, subprocess, tempfile, shutil, atexit, glob, hashlib, json

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='bkv-')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def run(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(f'{" ".join(cmd)[:300]}\n{p.stdout.decode(errors="replace")[-3000:]}')
    return p.stdout.decode(errors='replace')


_sys = None
def sysroot():
    global _sys
    if _sys is None:
        _sys = run(['rustc', '+nightly', '--print', 'sysroot']).strip()
    return _sys


def tool(n):
    p = os.path.join(sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin', n)
    if not os.path.exists(p): raise BuildError(f'missing {p}')
    return p


RUSTFLAGS = ('--emit=llvm-ir,link -C opt-level=1 -C no-prepopulate-passes -C debuginfo=2 '
             '-C symbol-mangling-version=v0 -C overflow-checks=off -C debug-assertions=off -C panic=abort -Z share-generics=no')


def rust_ll(features=()):
    """{crate: path of unoptimised .ll}"""
    d = os.path.join(scratch(), 'rust-' + '-'.join(features))
    if not os.path.isdir(d):
        h = os.path.join(scratch(), 'harness')
        if not os.path.isdir(h):
            shutil.copytree(os.path.join(VERIF, 'harness'), h, ignore=shutil.ignore_patterns('target'))
            if REPO != '/repo':
                p = os.path.join(h, 'Cargo.toml')
                t = open(p).read().replace('"/repo', f'"{REPO}')
                open(p, 'w').write(t)
        cmd = ['cargo', '+nightly', 'build', '--release', '--offline']
        if features: cmd += ['--features', ','.join(features)]
        run(cmd, env=dict(CARGO_TARGET_DIR=d, RUSTFLAGS=RUSTFLAGS, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', RUSTC_WORKSPACE_WRAPPER=''), cwd=h)
    out = {}
    for p in glob.glob(d + '/release/**/*.ll', recursive=True):
        n = os.path.basename(p).split('-')[0].split('.')[0]
        if n in ('baokeshed', 'vharness', 'constant_time_eq', 'reference_impl', 'arrayvec', 'arrayref', 'bitflags'): out[n] = p
    for n in ('baokeshed', 'vharness', 'reference_impl'):
        if n not in out: raise BuildError(f'no IR for crate {n}')
    return out


def bin_ll():
    """path of the unoptimised .ll of the command-line tool"""
    d = os.path.join(scratch(), 'bin')
    if not os.path.isdir(d):
        run(['cargo', '+nightly', 'rustc', '--release', '--offline', '--', '--emit=llvm-ir', '-C', 'opt-level=1', '-C', 'no-prepopulate-passes', '-C', 'debuginfo=2', '-C', 'codegen-units=1'],
            env=dict(CARGO_TARGET_DIR=d, RUSTFLAGS=RUSTFLAGS.split('link ', 1)[1], CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', RUSTC_WORKSPACE_WRAPPER=''), cwd=os.path.join(REPO, 'baokeshed_bin'))
    r = glob.glob(d + '/release/build/baokeshed_bin/*/out/baokeshed*.ll') or glob.glob(d + '/release/deps/baokeshed*.ll')
    if len(r) != 1: raise BuildError('no IR for the command-line tool')
    return r[0]


def link(paths, name):
    out = os.path.join(scratch(), name + '.ll')
    run([tool('llvm-link'), '-S', '--suppress-warnings', *paths, '-o', out])
    return out


PASSES = 'always-inline,function(sroa,early-cse,instsimplify,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,dce,loop-simplify)'


def normalise(path, keep, name, passes=PASSES, stub=None, roots=None):
    """inline everything but the functions matching `keep` and clean up; functions matching `stub` lose
    their bodies (they are covered by contract); only what `roots` reach is kept"""
    s = open(path).read()
    if stub:
        sp = re.compile(stub)

        def cut(m):
            q = re.search(r'@("[^"]+"|[\w.$-]+)\(', m.group(1)).group(1).strip('"')
            return m.group(1) + '\nstart:\n  unreachable\n}' if sp.search(q) else m.group(0)
        s = re.sub(r'^(define .*)\n(?:.*\n)*?\}$', cut, s, flags=re.M)
    def at(m):
        l = re.sub(r'"(target-features|target-cpu|tune-cpu|probe-stack|no-builtins|stack-protector-buffer-size|min-legal-vector-width|frame-pointer)"(="[^"]*")?', '', m.group(0))
        return re.sub(r'\b(noinline|optnone|inlinehint|alwaysinline)\b', '', l)
    s = re.sub(r'^attributes #.*$', at, s, flags=re.M)
    kp = re.compile(keep)

    def f(m):
        l = m.group(0)
        q = re.search(r'@("[^"]+"|[\w.$-]+)\(', l).group(1).strip('"')
        if roots and re.search(roots, q): l = re.sub(r'^define (internal|private) ', 'define ', l)
        a = ' noinline' if kp.search(q) else ' alwaysinline'
        k = l.rfind('{')
        for x in (' #', ' comdat', ' align ', ' personality', ' !'):
            # attributes come after the parameter list
            pass
        # find the closing parenthesis of the parameter list
        i = l.index('@' + ('"' + q + '"' if '@"' in l and ('@"' + q + '"') in l else q) + '(')
        dep = 0
        j = l.index('(', i)
        while True:
            if l[j] == '(': dep += 1
            elif l[j] == ')':
                dep -= 1
                if dep == 0: break
            j += 1
        r = l[j + 1:]
        m2 = re.match(r'\s*(local_)?unnamed_addr', r)
        if m2:
            return l[:j + 1] + m2.group(0) + a + r[m2.end():]
        return l[:j + 1] + a + r
    s = re.sub(r'^define .*$', f, s, flags=re.M)
    inp = os.path.join(scratch(), name + '.in.ll')
    open(inp, 'w').write(s)
    if roots:
        names = [q.strip('"') for q in re.findall(r'^define .*?@("[^"]+"|[\w.$-]+)\(', s, flags=re.M)]
        rp = re.compile(roots)
        api = [n for n in names if rp.search(n)]
        passes = 'internalize,globaldce,' + passes
        extra = ['--internalize-public-api-list=' + ','.join(api)]
    else: extra = []
    out = os.path.join(scratch(), name + '.opt.ll')
    run([tool('opt'), '-S', '-mattr=+avx2,+sse4.1,+avx512f,+avx512vl' if 'x86_64' in s[:100000] else '-mattr=+neon', *extra, '-passes=' + passes, inp, '-o', out])
    return out


CFLAGS = ['-std=c11', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-S', '-g', '-fno-discard-value-names',
          '-DNDEBUG']
CFILES = {
    'portable': ([], ['c/baokeshed_portable.c', 'c64/baokeshed64_portable.c']),
    'sse41': (['-msse4.1'], ['c/baokeshed_sse41.c', 'c64/baokeshed64_sse41.c']),
    'avx2': (['-mavx2'], ['c/baokeshed_avx2.c', 'c64/baokeshed64_avx2.c']),
    'avx512': (['-mavx512f', '-mavx512vl'], ['c/baokeshed_avx512.c', 'c64/baokeshed64_avx512.c']),
    'neon': (['--target=aarch64-linux-gnu', '-nostdlibinc', '-I', os.path.join(VERIF, 'vlib/stubs')],
             ['c/baokeshed_neon.c', 'c64/baokeshed64_neon.c']),
}
MAINCFG = {
    'portable': [],
    'sse41': ['-DBAOKESHED_USE_SSE41=1'],
    'avx2': ['-DBAOKESHED_USE_SSE41=1', '-DBAOKESHED_USE_AVX2=1'],
    'avx512': ['-DBAOKESHED_USE_SSE41=1', '-DBAOKESHED_USE_AVX2=1', '-DBAOKESHED_USE_AVX512=1'],
    'neon': ['-DBAOKESHED_USE_NEON=1'],
}


def c_ll(src, flags, name, extra=()):
    out = os.path.join(scratch(), name + '.ll')
    if not os.path.exists(out):
        run(['clang', *CFLAGS, *extra, *flags, os.path.join(REPO, src), '-o', out])
    return out


def c_kernel_ll(kind, extra=(), tag='', neon=False):
    fl, files = CFILES[kind]
    if neon and kind != 'neon': fl = fl + CFILES['neon'][0]
    return {os.path.basename(f): c_ll(f, fl, f'c-{tag}-' + os.path.basename(f)[:-2], extra) for f in files}


def c_main_ll(cfg, extra=(), tag=''):
    fl = list(MAINCFG[cfg])
    if cfg == 'neon': fl += CFILES['neon'][0]
    return c_ll('c/baokeshed.c', fl, f'c-main-{cfg}{tag}', extra)


def sources():
    """every source file of the analysed tree with a digest (reported in evidence)"""
    r = {}
    for pat in ('src/*.rs', 'c/*.[ch]', 'c64/*.[ch]', 'reference_impl/*.rs', 'baokeshed_bin/src/*.rs', 'python/baokeshed.py', 'Cargo.toml', 'build.rs'):
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            r[os.path.relpath(p, REPO)] = hashlib.sha256(open(p, 'rb').read()).hexdigest()[:12]
    return r
