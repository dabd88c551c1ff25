"""Hash-consed bit-vector terms in a normal form (Herbrand / GVN domain).

A term is an int id.  Node table: N[id] = (kind, width, payload...).

kinds
  ('c', w, v)                     constant
  ('sym', w, name)                free symbol
  ('m', 8, base, off, gen)        initial byte of memory object `base` at Lin offset term `off`
  ('lin', w, const, ((id,coef)..))  linear combination modulo 2^w (never a bare atom)
  ('xor'|'and'|'or', w, const, (ids..))  AC bitwise operators, sorted operands
  ('ext', w, x, lo)               w bits of x starting at bit lo
  ('cat', w, (ids low->high))     concatenation
  ('icmp', 1, pred, a, b)
  ('ite', w, c, a, b)
  ('fn', w, name, args)           opaque operator applied to terms
Pointers are 64-bit terms: base symbol ('base', 64, name) plus offset.
"""
import sys
sys.setrecursionlimit(100000)

N = []
_tab = {}

def mk(node):
    i = _tab.get(node)
    if i is None:
        i = len(N)
        N.append(node)
        _tab[node] = i
    return i

def const(w, v):
    return mk(('c', w, v & ((1 << w) - 1)))

def width(t):
    return N[t][1]

def is_const(t):
    return N[t][0] == 'c'

def cval(t):
    n = N[t]
    return n[2] if n[0] == 'c' else None

def sval(t):
    n = N[t]
    if n[0] != 'c':
        return None
    v = n[2]
    return v - (1 << n[1]) if v >> (n[1] - 1) else v

def sym(w, name):
    return mk(('sym', w, name))

def base(name):
    return mk(('base', 64, name))

# ---------------------------------------------------------------- linear
def lin_parts(t):
    """(const, {atom: coef}) with coefs in [0, 2^w)"""
    n = N[t]
    if n[0] == 'c':
        return n[2], {}
    if n[0] == 'lin':
        return n[2], dict(n[3])
    return 0, {t: 1}

def mk_lin(w, c, d):
    m = (1 << w) - 1
    c &= m
    it = tuple(sorted((a, k & m) for a, k in d.items() if k & m))
    if not it:
        return const(w, c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    if len(it) == 1 and it[0][1] == 1 and c >> (w - 1):
        # subtracting within the known low bits borrows nothing from the rest
        n = N[it[0][0]]
        if n[0] == 'cat':
            p = N[n[2][0]]
            if p[0] == 'c' and p[2] >= (m + 1) - c: return cat((const(p[1], p[2] + c - (m + 1)),) + n[2][1:])
    return mk(('lin', w, c, it))

def add(*ts):
    w = N[ts[0]][1]
    c = 0
    d = {}
    for t in ts:
        n = N[t]
        k = n[0]
        if k == 'c':
            c += n[2]
        elif k == 'lin':
            c += n[2]
            for a, q in n[3]:
                d[a] = d.get(a, 0) + q
        else:
            d[t] = d.get(t, 0) + 1
    return mk_lin(w, c, d)

def scale(t, k):
    w = N[t][1]
    c, d = lin_parts(t)
    return mk_lin(w, c * k, {a: q * k for a, q in d.items()})

def sub(a, b):
    return add(a, scale(b, -1))

def neg(a):
    return scale(a, -1)

def mul(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    x, y = sorted((a, b))
    # distribute over sums when one factor is linear: keep products of atoms
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    w = N[a][1]
    if len(d1) <= 4 and len(d2) <= 4 and (N[a][0] == 'lin' or N[b][0] == 'lin'):
        r = const(w, c1 * c2)
        for p, q in d1.items():
            r = add(r, scale(p, q * c2))
        for p, q in d2.items():
            r = add(r, scale(p, q * c1))
        for p, q in d1.items():
            for p2, q2 in d2.items():
                u, v = sorted((p, p2))
                r = add(r, scale(mk(('fn', w, 'mul', (u, v))), q * q2))
        return r
    return mk(('fn', w, 'mul', (x, y)))

# ---------------------------------------------------------------- bits
def ext(t, lo, w):
    n = N[t]
    W = n[1]
    if lo == 0 and w == W:
        return t
    assert 0 <= lo and lo + w <= W and w > 0, (lo, w, n)
    k = n[0]
    if k == 'c':
        return const(w, n[2] >> lo)
    if k == 'ext':
        return ext(n[2], n[3] + lo, w)
    if k == 'lin' and lo == 0 and all(N[a][0] == 'cat' and len(N[a][2]) == 2 and N[N[a][2][1]][0] == 'c' and N[N[a][2][1]][2] == 0
                                      and N[N[a][2][0]][1] <= w for a, q in n[3]):
        # a sum of widened narrow values, narrowed again
        r = const(w, n[2] & ((1 << w) - 1))
        for a, q in n[3]: r = add(r, scale(ext(a, 0, w), q & ((1 << w) - 1)))
        return r
    if k == 'cat':
        parts = []
        pos = 0
        for p in n[2]:
            pw = N[p][1]
            s, e = max(lo, pos), min(lo + w, pos + pw)
            if s < e:
                parts.append(ext(p, s - pos, e - s))
            pos += pw
        return cat(parts)
    if k == 'lin' and n[2] == 0 and len(n[3]) == 1:
        a, q = n[3][0]
        if q & (q - 1) == 0:
            sh = q.bit_length() - 1
            if sh:
                if lo >= sh:
                    return ext(a, lo - sh, w)
                if lo + w <= sh:
                    return const(w, 0)
                return cat([const(sh - lo, 0), ext(a, 0, w - (sh - lo))])
    if k == 'ite' and (is_const(n[3]) or is_const(n[4])):
        return ite(n[2], ext(n[3], lo, w), ext(n[4], lo, w))
    if k in ('xor', 'and', 'or') and any(N[x][0] == 'cat' and any(N[p][0] == 'c' for p in N[x][2]) for x in n[3]):
        parts = [ext(x, lo, w) for x in n[3]]
        r = parts[0]
        for p in parts[1:]:
            r = bitop(k, r, p)
        if n[2] is not None:
            r = bitop(k, r, const(w, n[2] >> lo))
        return r
    return mk(('ext', w, t, lo))

def cat(parts):
    """low -> high, merging adjacent extracts and constants"""
    out = []
    for p in parts:
        n = N[p]
        if n[0] == 'cat':
            q = list(n[2])
        else:
            q = [p]
        for x in q:
            if out:
                a, b = N[out[-1]], N[x]
                if a[0] == 'c' and b[0] == 'c':
                    out[-1] = const(a[1] + b[1], a[2] | (b[2] << a[1]))
                    continue
                # merge ext(x,lo,w1), ext(x,lo+w1,w2)
                if b[0] == 'ext':
                    if a[0] == 'ext' and a[2] == b[2] and a[3] + a[1] == b[3]:
                        out[-1] = ext(b[2], a[3], a[1] + b[1])
                        continue
            out.append(x)
    if len(out) == 1:
        return out[0]
    w = sum(N[p][1] for p in out)
    return mk(('cat', w, tuple(out)))

def zext(t, w):
    W = N[t][1]
    if w == W:
        return t
    if w < W:
        return ext(t, 0, w)
    return cat([t, const(w - W, 0)])

def sext(t, w):
    W = N[t][1]
    if w == W:
        return t
    n = N[t]
    if n[0] == 'c':
        return const(w, sval(t))
    if n[0] == 'cat' and N[n[2][-1]][0] == 'c':
        v = N[n[2][-1]]
        if not (v[2] >> (v[1] - 1)):
            return zext(t, w)
    return mk(('fn', w, 'sext', (t,)))

def bitsof(t):
    """segments low->high as list of terms (cat view), used by bitwise ops"""
    n = N[t]
    if n[0] == 'cat':
        return list(n[2])
    if n[0] == 'lin' and n[2] == 0 and len(n[3]) == 1:
        a, q = n[3][0]
        if q & (q - 1) == 0 and q > 1:
            sh = q.bit_length() - 1
            r = [const(sh, 0)]
            x = ext(a, 0, n[1] - sh)
            return r + (list(N[x][2]) if N[x][0] == 'cat' else [x])
    return [t]

def disjoint(a, b):
    """no bit can be set in both words, as their constant-zero parts show (then a + b is a | b)"""
    if N[a][0] == 'c' or N[b][0] == 'c' or (N[a][0] != 'cat' and N[b][0] != 'cat'): return False
    pa, pb = bitsof(a), bitsof(b)
    if len(pa) < 2 or len(pb) < 2: return False
    busy = []
    for ps in (pa, pb):
        m = pos = 0
        for x in ps:
            n = N[x]
            m |= (n[2] if n[0] == 'c' else (1 << n[1]) - 1) << pos
            pos += n[1]
        busy.append(m)
    return not busy[0] & busy[1]

def split_const_runs(t):
    """a constant as runs of equal bits (for masks)"""
    w, v = N[t][1], N[t][2]
    runs = []
    i = 0
    while i < w:
        b = (v >> i) & 1
        j = i
        while j < w and ((v >> j) & 1) == b:
            j += 1
        runs.append((i, j - i, b))
        i = j
    return runs

def _cuts(parts):
    r = []
    pos = 0
    for p in parts:
        pos += N[p][1]
        r.append(pos)
    return r

def bitop(op, a, b):
    w = N[a][1]
    assert w == N[b][1], (op, N[a], N[b])
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(w, {'xor': ca ^ cb, 'and': ca & cb, 'or': ca | cb}[op])
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    full = (1 << w) - 1
    if cb is not None:
        if op in ('xor', 'or') and cb == 0:
            return a
        if op == 'and' and cb == full:
            return a
        if op == 'and' and cb == 0:
            return b
        if op == 'or' and cb == full:
            return b
        if op == 'and' and w > 1:
            runs = split_const_runs(b)
            if len(runs) <= 5:
                return cat([ext(a, lo, n) if bit else const(n, 0) for lo, n, bit in runs])
        if op == 'or' and w > 1:
            runs = split_const_runs(b)
            if len(runs) <= 1:
                return b
    else:
        if a == b:
            return const(w, 0) if op == 'xor' else a
    # segment-wise when constant-zero padding is present on a side
    pa, pb = bitsof(a), bitsof(b)
    if w > 1 and (len(pa) > 1 or len(pb) > 1):
        ha = any(N[p][0] == 'c' for p in pa) and len(pa) > 1
        hb = any(N[p][0] == 'c' for p in pb) and len(pb) > 1
        if ha or hb:
            cuts = sorted(set(_cuts(pa)) | set(_cuts(pb)))
            # only worthwhile if pieces line up with a constant segment on one side
            out = []
            pos = 0
            ta, tb = cat(pa), cat(pb)
            for c in cuts:
                out.append(bitop(op, ext(ta, pos, c - pos), ext(tb, pos, c - pos)))
                pos = c
            return cat(out)
        common = set(_cuts(pa)) & set(_cuts(pb)) - {w}
        if w >= 64:
            # vector lanes: a boundary at a multiple of 32 on either side splits both
            common |= {c for c in _cuts(pa) + _cuts(pb) if c % 32 == 0 and c < w}
        if common:
            out = []
            pos = 0
            for c in sorted(common | {w}):
                out.append(bitop(op, ext(a, pos, c - pos), ext(b, pos, c - pos)))
                pos = c
            return cat(out)
    # AC flatten
    cc = None
    ids = []
    for t in (a, b):
        n = N[t]
        if n[0] == op:
            ids += n[3]
            if n[2] is not None:
                cc = n[2] if cc is None else {'xor': cc ^ n[2], 'and': cc & n[2], 'or': cc | n[2]}[op]
        elif n[0] == 'c':
            cc = n[2] if cc is None else {'xor': cc ^ n[2], 'and': cc & n[2], 'or': cc | n[2]}[op]
        else:
            ids.append(t)
    if op == 'xor':
        s = {}
        for i in ids:
            s[i] = s.get(i, 0) ^ 1
        ids = sorted(i for i, v in s.items() if v)
        if cc == 0:
            cc = None
    else:
        ids = sorted(set(ids))
        if w == 1:
            for i in ids:
                if not_(i) in ids:
                    return const(1, 0 if op == 'and' else 1)
    if not ids:
        return const(w, cc or 0)
    if len(ids) == 1 and cc is None:
        return ids[0]
    if op == 'or' and cc == full:
        return const(w, full)
    if op == 'and' and cc == 0:
        return const(w, 0)
    if op == 'or' and cc == 0:
        cc = None
        if len(ids) == 1:
            return ids[0]
    return mk((op, w, cc, tuple(ids)))

def xor(a, b):
    if N[a][1] == 1:
        if N[a][0] == 'c': a, b = b, a
        if N[a][0] == 'icmp' and b == const(1, 1): return not_(a)
    return bitop('xor', a, b)
def and_(a, b): return bitop('and', a, b)
def or_(a, b): return bitop('or', a, b)

def not_(c):
    n = N[c]
    if n[1] == 1:
        if n[0] == 'c':
            return const(1, 1 - n[2])
        if n[0] == 'icmp':
            inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
                   'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
            return icmp(inv[n[2]], n[3], n[4])
        if n[0] == 'xor' and n[2] == 1:
            if len(n[3]) == 1:
                return n[3][0]
    return xor(c, const(n[1], (1 << n[1]) - 1))

def shl(t, k):
    w = N[t][1]
    if k >= w:
        return const(w, 0)
    return scale(t, 1 << k)

def lshr(t, k):
    w = N[t][1]
    if k >= w:
        return const(w, 0)
    if k == 0:
        return t
    return cat([ext(t, k, w - k), const(k, 0)])

def rotr(t, k):
    w = N[t][1]
    k %= w
    if k == 0:
        return t
    return cat([ext(t, k, w - k), ext(t, 0, k)])

def fsh(hi, lo, k, right):
    """funnel shift with constant amount"""
    w = N[hi][1]
    k %= w
    if right:
        c = cat([lo, hi])
        return ext(c, k, w)
    c = cat([lo, hi])
    return ext(c, w - k, w) if k else hi

SIGNED = {'slt', 'sle', 'sgt', 'sge'}
SWAP = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne'}

def icmp(p, a, b):
    if a == b:
        return const(1, 1 if p in ('eq', 'ule', 'uge', 'sle', 'sge') else 0)
    na, nb = N[a], N[b]
    if na[0] == 'c' and nb[0] == 'c':
        x, y = (sval(a), sval(b)) if p in SIGNED else (na[2], nb[2])
        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
             'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
        return const(1, int(r))
    if p in ('eq', 'ne'):
        d = sub(a, b)
        if is_const(d):
            return const(1, int((cval(d) == 0) == (p == 'eq')))
        if na[1] == 1 and nb[0] == 'c':
            x = a if (nb[2] == 1) == (p == 'eq') else not_(a)
            return x
        if na[1] == 1 and na[0] == 'c':
            return icmp(p, b, a)
        # ite(c,k1,k2) ==/!= const
        for x, y in ((a, b), (b, a)):
            nx, ny = N[x], N[y]
            if nx[0] == 'ite' and ny[0] == 'c' and is_const(nx[3]) and is_const(nx[4]):
                r1, r2 = icmp(p, nx[3], y), icmp(p, nx[4], y)
                return ite(nx[2], r1, r2)
        # strip common zero padding
        if na[0] == 'cat' and nb[0] == 'c':
            parts = na[2]
            if N[parts[-1]][0] == 'c':
                wl = na[1] - N[parts[-1]][1]
                hi = nb[2] >> wl
                if hi == N[parts[-1]][2]:
                    return icmp(p, ext(a, 0, wl), const(wl, nb[2]))
                return const(1, int(p == 'ne'))
        if na[0] == 'c' and nb[0] == 'cat':
            return icmp(p, b, a)
    if a > b:
        a, b, p = b, a, SWAP[p]
    return mk(('icmp', 1, p, a, b))

def ite(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a == b:
        return a
    if N[a][1] == 1 and is_const(a) and is_const(b):
        return c if cval(a) else not_(c)
    return mk(('ite', N[a][1], c, a, b))

def fn(w, name, *args):
    return mk(('fn', w, name, tuple(args)))

def udiv(a, b):
    cb = cval(b)
    w = N[a][1]
    if cb:
        if is_const(a):
            return const(w, cval(a) // cb)
        if cb & (cb - 1) == 0:
            return lshr(a, cb.bit_length() - 1)
    return fn(w, 'udiv', a, b)

def urem(a, b):
    cb = cval(b)
    w = N[a][1]
    if cb:
        if is_const(a):
            return const(w, cval(a) % cb)
        if cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            if k == 0:
                return const(w, 0)
            return cat([ext(a, 0, k), const(w - k, 0)])
    return fn(w, 'urem', a, b)

def byte(t, i):
    return ext(t, 8 * i, 8)

def subst(t, m, memo=None):
    """substitute terms by map m (ids->ids), rebuilding the normal form"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    n = N[t]
    k = n[0]
    s = lambda x: subst(x, m, memo)
    if k in ('c', 'sym', 'base'):
        r = t
    elif k == 'm':
        r = mk(('m', 8, s(n[2]), s(n[3])) + n[4:])
    elif k == 'lin':
        r = add(const(n[1], n[2]), *[scale(s(a), q) for a, q in n[3]])
    elif k in ('xor', 'and', 'or'):
        ids = [s(x) for x in n[3]]
        r = ids[0]
        for x in ids[1:]:
            r = bitop(k, r, x)
        if n[2] is not None:
            r = bitop(k, r, const(n[1], n[2]))
    elif k == 'ext':
        r = ext(s(n[2]), n[3], n[1])
    elif k == 'cat':
        r = cat([s(x) for x in n[2]])
    elif k == 'icmp':
        r = icmp(n[2], s(n[3]), s(n[4]))
    elif k == 'ite':
        r = ite(s(n[2]), s(n[3]), s(n[4]))
    elif k == 'fn':
        r = mk(('fn', n[1], n[2], tuple(s(x) for x in n[3])))
    else:
        raise AssertionError(k)
    memo[t] = r
    return r

def atoms(t, acc=None, seen=None):
    """all leaf atoms (sym, m, base) below t"""
    if acc is None: acc = set()
    if seen is None: seen = set()
    if t in seen:
        return acc
    seen.add(t)
    n = N[t]
    k = n[0]
    if k in ('sym', 'base'):
        acc.add(t)
    elif k == 'm':
        acc.add(t)
        atoms(n[2], acc, seen)
        atoms(n[3], acc, seen)
    elif k == 'lin':
        for a, _ in n[3]:
            atoms(a, acc, seen)
    elif k in ('xor', 'and', 'or'):
        for a in n[3]:
            atoms(a, acc, seen)
    elif k == 'ext':
        atoms(n[2], acc, seen)
    elif k == 'cat':
        for a in n[2]:
            atoms(a, acc, seen)
    elif k in ('icmp',):
        atoms(n[3], acc, seen)
        atoms(n[4], acc, seen)
    elif k == 'ite':
        for a in n[2:5]:
            atoms(a, acc, seen)
    elif k == 'fn':
        for a in n[3]:
            atoms(a, acc, seen)
    return acc

def show(t, depth=4):
    n = N[t]
    k = n[0]
    if k == 'c':
        return hex(n[2]) if n[2] > 9 else str(n[2])
    if k == 'sym':
        return n[2]
    if k == 'base':
        return '&' + n[2]
    if depth <= 0:
        return f'#{t}'
    d = depth - 1
    if k == 'm':
        return f'[{show(n[2], d)}+{show(n[3], d)}]'
    if k == 'lin':
        w = n[1]
        s = []
        for a, q in n[3]:
            if q >> (w - 1):
                q -= 1 << w
            s.append((f'{q}*' if q != 1 else '') + show(a, d))
        if n[2]:
            c = n[2] - (1 << w) if n[2] >> (w - 1) and w > 8 else n[2]
            s.append(hex(c))
        return '(' + ' + '.join(s) + ')'
    if k in ('xor', 'and', 'or'):
        o = {'xor': '^', 'and': '&', 'or': '|'}[k]
        return '(' + f' {o} '.join([show(x, d) for x in n[3]] + ([hex(n[2])] if n[2] is not None else [])) + ')'
    if k == 'ext':
        return f'{show(n[2], d)}[{n[3]}:{n[3] + n[1]}]'
    if k == 'cat':
        p = n[2]
        if len(p) == 2 and N[p[1]][0] == 'c' and N[p[1]][2] == 0:
            return f'zx{n[1]}({show(p[0], d)})'
        if len(p) == 2 and N[p[0]][0] == 'ext' and N[p[1]][0] == 'ext' and N[p[0]][2] == N[p[1]][2]:
            return f'rotr({show(N[p[0]][2], d)},{N[p[0]][3]})'
        ms = [N[x] for x in p]
        if all(m[0] == 'm' for m in ms):
            return f'ld{len(p)}[{show(ms[0][2], d)}+{show(ms[0][3], d)}]'
        return 'cat(' + ','.join(show(x, d) for x in p) + ')'
    if k == 'icmp':
        return f'({show(n[3], d)} {n[2]} {show(n[4], d)})'
    if k == 'ite':
        return f'({show(n[2], d)} ? {show(n[3], d)} : {show(n[4], d)})'
    if k == 'fn':
        return f'{n[2]}(' + ','.join(show(x, d) for x in n[3]) + ')'
    return str(n)
