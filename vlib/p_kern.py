"""C01-C03: compression routines and batched kernels."""
import re
from . import ai, kern, run, terms as T, pyeval
from .kern import F32, F64, RS_HASHN, C_HASHN, RS_MANY, C_MANY
from .llir import PTR

ENC = re.escape


def need(names, what, least):
    if len(names) < least: raise run.Fatal(f'{what}: found {len(names)}, expected at least {least}')
    return names


def t_compress(mk, name, fam, xof, **kw):
    def go(o):
        E = ai.Engine(run.module(mk))
        try: kern.check_compress(E, name, fam, xof, **kw)
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def rs_args(E, st, a):
    delta = T.sym(64, 'delta')
    return ([a['inputs'], a['blocks'], a['key'], a['offset'], delta, a['flags'], a['fs'], a['fe'], a['out']],
            lambda i: T.add(a['offset'], T.scale(delta, i)))


def c_args(E, st, a):
    d = T.base('deltas')
    kern.new_obj(st, d, 'deltas')
    w = [E.quiet_read(st, T.add(d, T.const(64, 8 * i)), 8) for i in range(17)]
    return ([a['inputs'], a['blocks'], a['key'], a['offset'], d, a['flags'], a['fs'], a['fe'], a['out']],
            lambda i: T.add(a['offset'], w[i]))


def t_hashn(mk, name, fam, lanes, rust):
    def go(o):
        E = ai.Engine(run.module(mk))
        try: kern.check_hashn(E, name, fam, lanes, rs_args if rust else c_args)
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def t_many(mk, name, fam, rust, blocks, prims, selfarg=False):
    def go(o):
        E = ai.Engine(run.module(mk))
        try: kern.check_many(E, name, fam, RS_MANY if rust else C_MANY, None if blocks is None else T.const(64, blocks), prims, selfarg=selfarg)
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def lanes_of(name):
    m = re.search(r'hash(\d+)(?:_\w+)?$', name)
    return int(m.group(1)) if m and int(m.group(1)) in (2, 4, 8, 16) else None


def callees(mod, name, seen=None):
    """functions of the module reachable through kept calls"""
    seen = set() if seen is None else seen
    f = mod.fn(name)
    for bb in f.blocks.values():
        for ins in bb:
            if ins.op in ('call', 'invoke'):
                c = getattr(ins, 'x', None)
                for t in re.findall(r'@("[^"]+"|[\w.$]+)\(', ins.text):
                    t = t.strip('"')
                    if t in mod.fns and t not in seen:
                        seen.add(t)
                        callees(mod, t, seen)
    return seen


def many_family(mk, roots, fam, rust, blocks_of, selfarg=()):
    """tasks for hash_many functions and the lane kernels below them"""
    mod = run.module(mk)
    tasks, kern_done, prims = [], {}, []
    manysig = RS_MANY if rust else C_MANY
    cands = set()
    for r in roots: cands |= callees(mod, r)
    npar = len(RS_HASHN)
    for c in sorted(cands):
        if len(mod.fn(c).params) == npar and lanes_of(c):
            kern_done[c] = lanes_of(c)
    for c, n in kern_done.items(): tasks.append(t_hashn(mk, c, fam, n, rust))
    base = [('^' + ENC(c) + '$', n, RS_HASHN if rust else C_HASHN) for c, n in kern_done.items()]
    for r in roots:
        inner = [x for x in roots if x != r and x not in selfarg and x in callees(mod, r) and r not in callees(mod, x)]
        ks = base + [('^' + ENC(x) + '$', None, manysig) for x in inner]
        tasks.append(t_many(mk, r, fam, rust, blocks_of(r), ks, selfarg=r in selfarg))
    return tasks, len(kern_done)


def c01(tier):
    run.load(['rs', 'c32x', 'c32n'])
    m = run.module('rs')
    L = []
    for p in ('8portable', '5sse41'):
        L.append(t_compress('rs', run.find(m, r'9baokeshed' + p + r'8compress$', p[1:] + '::compress'), F32, False))
        L.append(t_compress('rs', run.find(m, r'9baokeshed' + p + r'12compress_xof$', p[1:] + '::compress_xof'), F32, True))
    L.append(t_compress('rs', run.find(m, r'8Platform8compress$', 'Platform::compress'), F32, False, selfarg=True))
    L.append(t_compress('rs', run.find(m, r'8Platform12compress_xof$', 'Platform::compress_xof'), F32, True, selfarg=True))
    L.append(t_compress('rs', run.find(m, r'14reference_impl8compress$', 'reference_impl::compress'), F32, True, ref=True))
    for mk in ('c32x', 'c32n'):
        c = need(run.find(run.module(mk), r'^compress_(portable|sse41|avx512)$', many=True), 'C compression routines', 3 if mk == 'c32x' else 1)
        L += [t_compress(mk, n, F32, False) for n in c]
    L.append(pyeval.task_compress())
    return L


def _rs_many(pat, n):
    m = run.module('rs')
    return need(run.find(m, pat, many=True), 'Rust hash_many instances', n)


def blk(unit):
    def f(name):
        m = re.search(r'9hash_manyAhj([0-9a-f]+)_', name)
        if not m: raise run.Fatal(f'cannot tell the input length of {name}')
        n = int(m.group(1), 16)
        if n % unit: raise run.Fatal(f'{name}: input length {n} is not a whole number of blocks')
        return n // unit
    return f


def c02(tier):
    run.load(['rs', 'c32x', 'c32n'])
    roots = _rs_many(r'9baokeshed(8portable|5sse41|4avx2)9hash_manyAhj', 6)
    V = 'vharness'
    # every instance, in whichever crate it was instantiated
    plat = _rs_many(r'8Platform9hash_manyAhj', 2)
    L, k = many_family('rs', roots + plat, F32, True, blk(64), selfarg=plat)
    if k < 2: raise run.Fatal('Rust lane kernels not found')
    for mk, n, kn in (('c32x', 4, 5), ('c32n', 2, 1)):
        c = need(run.find(run.module(mk), r'^hash_many_(portable|sse41|avx2|avx512|neon)$', many=True), 'C hash_many routines', n)
        l, k = many_family(mk, c, F32, False, lambda r: None)
        if k < kn: raise run.Fatal(f'C lane kernels not found ({k} of {kn})')
        L += l
    return L


def c03(tier):
    run.load(['rs', 'c64x', 'c64n'])
    m = run.module('rs')
    L = [t_compress('rs', run.find(m, r'10portable648compress$', 'portable64::compress'), F64, False),
         t_compress('rs', run.find(m, r'10portable6412compress_xof$', 'portable64::compress_xof'), F64, True)]
    roots = _rs_many(r'9baokeshed10portable649hash_manyAhj', 2)
    l, k = many_family('rs', roots, F64, True, blk(128))
    L += l
    for mk, nc, n, kn in (('c64x', 3, 4, 5), ('c64n', 1, 2, 1)):
        mod = run.module(mk)
        c = need(run.find(mod, r'^baokeshed64_compress_(portable|avx2|avx512)$', many=True), 'C 64-bit compression routines', nc)
        L += [t_compress(mk, x, F64, False) for x in c]
        x = run.find(mod, r'^baokeshed64_compress_xof\w*$', many=True)
        L += [t_compress(mk, y, F64, True) for y in x]
        c = need(run.find(mod, r'^baokeshed64_hash_many_(portable|sse41|avx2|avx512|neon)$', many=True), 'C 64-bit hash_many routines', n)
        l, k = many_family(mk, c, F64, False, lambda r: None)
        if k < kn: raise run.Fatal(f'C 64-bit lane kernels not found ({k} of {kn})')
        L += l
    return L
