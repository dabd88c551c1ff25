"""Semantics of the vector intrinsics the kernels use, over lane terms."""
from . import terms as T
from .llir import bits_of


def _vec(x):
    from .ai import Vec
    return Vec(x)


def _imm(e, st, x):
    v = e.const_of(st, x)
    if v is None:
        from .ai import Unsupported
        raise Unsupported('shift by a variable amount')
    return v


def intrinsic(e, st, name, ins, args):
    from .ai import Unsupported
    b = name.split('.')
    arch, ops = b[1], b[2:]
    s = '.'.join(ops)
    if arch == 'x86':
        op = ops[1] + ('.' + '.'.join(ops[2:]) if len(ops) > 2 else '')
        if op.startswith(('pslli', 'psrli')):
            k = _imm(e, st, args[1])
            w = T.N[args[0][0]][1]
            f = T.shl if op.startswith('pslli') else T.lshr
            return _vec([f(x, k) if k < w else T.const(w, 0) for x in args[0]])
        if op.startswith(('psll.', 'psrl.')):
            k = _imm(e, st, T.cat(list(args[1])[:64 // T.N[args[1][0]][1]]))
            w = T.N[args[0][0]][1]
            f = T.shl if op.startswith('psll') else T.lshr
            return _vec([f(x, k) if k < w else T.const(w, 0) for x in args[0]])
        if op.startswith('pshuf.b'):
            v, m = args
            out = []
            for i in range(len(v)):
                k = T.cval(m[i])
                if k is None: raise Unsupported('variable byte shuffle')
                out.append(T.const(8, 0) if k & 0x80 else v[(i & ~15) + (k & 15)])
            return _vec(out)
        if op.startswith('vpermi2var'):
            a, idx, c = args
            n = len(a)
            out = []
            for i in range(n):
                k = T.cval(idx[i])
                if k is None: raise Unsupported('variable permutation')
                k &= 2 * n - 1
                out.append(a[k] if k < n else c[k - n])
            return _vec(out)
        if op.startswith(('prorv', 'pror.', 'prol.', 'prolv')):
            right = op.startswith('pror')
            r = []
            for i, x in enumerate(args[0]):
                k = _imm(e, st, args[1][i] if isinstance(args[1], tuple) else args[1])
                w = T.N[x][1]
                k %= w
                r.append(T.rotr(x, k if right else (w - k) % w))
            return _vec(r)
        if op.startswith('pblend') or op.startswith('blend'):
            a, c, k = args
            k = _imm(e, st, k)
            return _vec([c[i] if k >> (i % 8) & 1 else a[i] for i in range(len(a))])
    if arch == 'aarch64':
        if s.startswith('neon.tbl1'):
            v, m = args
            out = []
            for i in range(len(m)):
                k = T.cval(m[i])
                if k is None: raise Unsupported('variable byte shuffle')
                out.append(v[k] if k < 16 else T.const(8, 0))
            return _vec(out)
        if s.startswith('neon.ushl'):
            out = []
            for x, k in zip(*args):
                k = _imm(e, st, k)
                w = T.N[x][1]
                if k >> (w - 1): k -= 1 << w
                out.append(T.shl(x, k) if k >= 0 else T.lshr(x, -k))
            return _vec(out)
        if s.startswith('neon.vsli') or s.startswith('neon.vsri'):
            a, c, k = args
            k = _imm(e, st, k)
            out = []
            for x, y in zip(a, c):
                w = T.N[x][1]
                if 'vsli' in s: out.append(T.cat([T.ext(x, 0, k), T.ext(y, 0, w - k)]) if 0 < k < w else y)
                else: out.append(T.cat([T.ext(y, k, w - k), T.ext(x, w - k, k)]) if 0 < k < w else x)
            return _vec(out)
    raise Unsupported('intrinsic ' + name)
