"""Abstract interpreter over LLVM IR.

Domain: per state a memory of objects holding normal-form terms (terms.py), an
exact polyhedron over the integer-valued terms (poly.py), decided boolean
facts, and ghost variables owned by a rule.  States are kept apart at joins
(disjunctive) except at loop heads, where the first iteration is peeled and
all later ones are joined (affine hull + octagon-shaped bounds) to a fixpoint.
Nothing is executed and no path is handed to a solver.
"""
import re
from collections import namedtuple
from fractions import Fraction
from . import terms as T
from .terms import N
from .poly import Poly, e_const, e_var, e_add, e_scale, e_key
from .llir import size_of, field_off, bits_of


class Unsupported(Exception):
    pass


Sz = namedtuple('Sz', 't')      # a symbolic size (terms are plain ints)


def mksz(t):
    v = T.cval(t)
    return v if v is not None else Sz(t)


class Vec(tuple):
    __slots__ = ()


class Agg(tuple):
    __slots__ = ()


_fresh = [0]

def fresh(w, hint):
    _fresh[0] += 1
    return T.sym(w, f'{hint}~{_fresh[0]}')


ptr_atoms = set()
WATCH = False       # record what conditions and addresses depend on (C13)


class Obj:
    """memory object: constant-offset cells plus symbolic-offset writes"""
    __slots__ = ('name', 'size', 'cells', 'symw', 'ver', 'gen', 'kind', 'data')

    def __init__(s, name, size=None, kind='ext', data=None):
        s.name, s.size, s.kind, s.data = name, size, kind, data
        s.cells = {}
        s.symw = ()
        s.ver = 0
        s.gen = 0

    def copy(s):
        o = Obj(s.name, s.size, s.kind, s.data)
        o.cells = dict(s.cells)
        o.symw = s.symw
        o.ver = s.ver
        o.gen = s.gen
        return o


class SymW:
    __slots__ = ('off', 'size', 'cells', 'lo', 'hi', 'ver', 'tag')

    def __init__(s, off, size, cells, lo, hi, ver, tag=None):
        s.off, s.size, s.cells, s.lo, s.hi, s.ver, s.tag = off, size, cells, lo, hi, ver, tag


class State:
    __slots__ = ('regs', 'mem', 'poly', 'facts', 'g', 'tag', 'diseq', '_own', 'split')

    def __init__(s):
        s.split = ()        # undecided conditions this state was split by (only kept where split states are joined again)
        s.regs = {}
        s.mem = {}
        s._own = set()
        s.poly = Poly()
        s.facts = {}
        s.g = {}
        s.tag = {}
        s.diseq = ()

    def copy(s):
        o = State()
        o.regs = dict(s.regs)
        o.mem = dict(s.mem)
        o._own = set()
        s._own = set()
        o.poly = s.poly.copy()
        o.facts = dict(s.facts)
        o.g = dict(s.g)
        o.tag = dict(s.tag)
        o.diseq = s.diseq
        o.split = s.split
        return o

    def obj(s, b):
        """writable object for base term b"""
        o = s.mem.get(b)
        if o is None:
            o = s.mem[b] = Obj(T.show(b))
            s._own.add(b)
        elif b not in s._own:
            o = s.mem[b] = o.copy()
            s._own.add(b)
        return o


def split_ptr(p):
    """(base atom, offset term)"""
    c, d = T.lin_parts(p)
    cand = [a for a, q in d.items() if q == 1 and N[a][0] == 'base']
    if not cand:
        cand = [a for a, q in d.items() if q == 1 and a in ptr_atoms]
    if len(cand) != 1:
        return None, p
    b = cand[0]
    del d[b]
    return b, T.mk_lin(64, c, d)


class Engine:
    MAXUNROLL = 300
    MAXSPLIT = 40
    MAXFILL = 20

    def __init__(s, mod, prims=None, monitor=None, dbg=None):
        s.ownsyms = {}
        s.mod = mod
        s.prims = prims or {}
        s.mon = monitor
        s.dbg = dbg
        s.viol = []
        s.oblig = {}
        s.depth = 0
        s.stats = dict(instructions=0, loops=0, fixpoint_passes=0, states=0, functions=set())
        s.cur = []
        s.globbase = {}
        s.uninit_ok = False
        s.seen, s.flow = {}, {}     # with WATCH: conditions and addresses used, values joined into a symbol
        s.force = None     # optional callback deciding a condition (partition of the entry states)

    # ------------------------------------------------------------ reporting
    ptrarrays = frozenset()
    frames = ()

    def where(s, ins=None):
        fn = s.cur[-1] if s.cur else '?'
        loc = ''
        if ins is not None and s.dbg:
            loc = s.dbg(ins)
        return f'{fn}{" at " + loc if loc else ""}'

    def watch(s, kind, t, ins):
        for x in t if isinstance(t, (list, tuple, Vec)) else (t,):
            if isinstance(x, int) and N[x][0] not in ('c', 'base') and (kind, x) not in s.seen: s.seen[kind, x] = s.where(ins)

    def report(s, rule, msg, ins=None):
        key = (rule, msg, s.cur[-1] if s.cur else '?')
        for v in s.viol:
            if v['key'] == key: return
        s.viol.append(dict(key=key, rule=rule, msg=msg, where=s.where(ins)))

    def ok(s, rule, n=1):
        s.oblig[rule] = s.oblig.get(rule, 0) + n

    def require(s, cond, rule, msg, ins=None):
        s.ok(rule)
        if not cond: s.report(rule, msg, ins)
        return cond

    # ------------------------------------------------------------ numerics
    def toint(s, st, t, depth=0):
        """exact integer expression of term t in state st"""
        n = N[t]
        k = n[0]
        w = n[1]
        if k == 'c': return e_const(n[2])
        if k == 'lin':
            e = s.signed_lin(st, t, depth)
            if st.poly.entails_ge(e) and st.poly.entails_ge(e_add(e_const((1 << w) - 1), e, -1)):
                return e
            # the two's complement alternative: plain unsigned coefficients
            return e_var(t)
        if k == 'cat':
            parts = n[2]
            if any(N[p][0] == 'c' for p in parts):
                e = e_const(0)
                pos = 0
                for p in parts:
                    e = e_add(e, s.toint(st, p, depth + 1), 1 << pos)
                    pos += N[p][1]
                return e
            return e_var(t)
        if k == 'ext':
            x, lo = n[2], n[3]
            W = N[x][1]
            if N[x][0] in ('m', 'xor', 'cat') or depth > 6: return e_var(t)
            X = s.toint(st, x, depth + 1)
            if lo == 0 and st.poly.entails_ge(e_add(e_const((1 << w) - 1), X, -1)):
                return X
            if lo == 0:
                a, b = st.poly.minval(X), st.poly.maxval(X)
                if isinstance(a, int) and isinstance(b, int) and a >= 0 and a >> w == b >> w: return e_add(X, e_const(-(a >> w << w)))
                for v in list(st.poly.eqs):
                    m = N[v]
                    if m[0] == 'ext' and m[2] == x and m[3] == 0 and m[1] > w and v != t:
                        r = st.poly.reduce(e_var(v))
                        if st.poly.entails_ge(e_add(e_const((1 << w) - 1), r, -1)): return r
                h = T.ext(x, w, W - w)
                st.poly.add_eq(e_add(e_add(X, e_var(t), -1), e_var(h), -(1 << w)))
            elif lo + w == W:
                X = st.poly.reduce(X)
                if X[0] % (1 << lo) == 0 and all(q % (1 << lo) == 0 for q in X[1].values()):
                    return (X[0] >> lo, {v: q >> lo for v, q in X[1].items()})
                l = T.ext(x, 0, lo)
                st.poly.add_eq(e_add(e_add(X, e_var(l), -1), e_var(t), -(1 << lo)))
            return st.poly.reduce(e_var(t))
        if k == 'ite' and N[t][1] > 1:
            d = s.decide(st, n[2])
            if d is not None: return s.toint(st, n[3] if d else n[4], depth + 1)
        if k == 'fn' and n[2] == 'ctpop':
            st.poly.add_ge(e_add(e_const(N[n[3][0]][1]), e_var(t), -1))
        if k == 'fn' and n[2] == 'ctlz':
            X = s.toint(st, n[3][0], depth + 1)
            a, b = st.poly.minval(X), st.poly.maxval(X)
            if isinstance(a, int) and isinstance(b, int) and a >= 0 and a.bit_length() == b.bit_length():
                return e_const(N[n[3][0]][1] - a.bit_length())
        return e_var(t)

    def sext(s, st, t, w):
        """sign extension; exact as a sum where the narrow sum does not wrap"""
        n = N[t]
        if n[0] in ('lin', 'sym') and n[1] < w:
            e = s.signed_lin(st, t)
            h = 1 << n[1] - 1
            if st.poly.entails_ge(e_add(e_const(h - 1), e, -1)):
                if st.poly.entails_ge(e): return T.zext(t, w)
                if n[0] == 'lin' and st.poly.entails_ge(e_add(e, e_const(h))):
                    r = T.const(w, e[0] % (1 << w))
                    for v in sorted(e[1]):
                        if N[v][1] > w: return T.sext(t, w)
                        r = T.add(r, T.scale(T.zext(v, w), e[1][v] % (1 << w)))
                    return r
        return T.sext(t, w)

    def signed_lin(s, st, t, depth=0):
        n = N[t]
        w = n[1]
        if n[0] == 'c':
            v = n[2]
            return e_const(v - (1 << w) if v >> (w - 1) else v)
        if n[0] != 'lin': return s.toint(st, t, depth)
        c = n[2]
        if c >> (w - 1): c -= 1 << w
        e = e_const(c)
        for a, q in n[3]:
            if q >> (w - 1): q -= 1 << w
            e = e_add(e, s.toint(st, a, depth + 1), q)
        return e

    def ints(s, st, a, b):
        """exact integer expressions for a and b comparable with each other, or None.
        Pointers into the same object compare by offset."""
        ba, bb = None, None
        if N[a][1] == 64:
            ba, oa = split_ptr(a)
            bb, ob = split_ptr(b)
            if ba is not None or bb is not None:
                if ba != bb: return None
                a, b = oa, ob
        return s.toint(st, a), s.toint(st, b)

    def bounds(s, st, t):
        e = s.toint(st, t)
        return st.poly.minval(e), st.poly.maxval(e)

    def const_of(s, st, t):
        """the constant value of term t if the state determines it"""
        v = T.cval(t)
        if v is not None: return v
        a, b = s.bounds(st, t)
        if isinstance(a, int) and a == b: return a
        return None

    def eq(s, st, a, b):
        """proved equal?"""
        if a == b: return True
        if N[a][1] != N[b][1]: return False
        d = T.sub(a, b)
        if T.is_const(d): return T.cval(d) == 0
        if s.decide_icmp(st, 'eq', a, b) is True: return True
        e = s.signed_lin(st, d)
        e = st.poly.reduce(e)
        return not e[1] and e[0] % (1 << N[a][1]) == 0

    def le(s, st, a, b):
        r = s.ints(st, a, b)
        if r is None: return False
        return st.poly.entails_ge(e_add(r[1], r[0], -1))

    def decide_icmp(s, st, p, a, b):
        na, nb = N[a], N[b]
        if p in ('eq', 'ne'):
            # null tests of pointers
            for x, y in ((a, b), (b, a)):
                if N[y][0] == 'c' and N[x][1] == 64:
                    bs, off = split_ptr(x)
                    if bs is not None and N[y][2] < 4096: return p == 'ne'
            ba = split_ptr(a)[0] if na[1] == 64 else None
            bb = split_ptr(b)[0] if nb[1] == 64 else None
            if ba is not None and bb is not None and ba != bb:
                return p == 'ne' if (N[ba][0] == 'base' and N[bb][0] == 'base') else None
            d = T.sub(a, b)
            if T.is_const(d): return (T.cval(d) == 0) == (p == 'eq')
            e = st.poly.reduce(s.signed_lin(st, d))
            w = na[1]
            lo, hi = st.poly.minval(e), st.poly.maxval(e)
            if lo == 'inf': return None
            if lo is not None and hi is not None:
                if lo == hi and lo % (1 << w) == 0: return p == 'eq'
                if lo > 0 and hi < (1 << w): return p == 'ne'
                if hi < 0 and lo > -(1 << w): return p == 'ne'
                if lo > -(1 << w) and hi < (1 << w):
                    k = e_key(e)
                    if k in st.diseq or e_key(e_scale(e, -1)) in st.diseq: return p == 'ne'
                    # congruence: gcd of coefs does not divide constant
                    from math import gcd
                    g = 0
                    for q in e[1].values(): g = gcd(g, q)
                    if g and e[0] % g: return p == 'ne'
            return None
        if p in T.SIGNED:
            w = na[1]
            half = (1 << (w - 1)) - 1
            ea, eb = s.toint(st, a), s.toint(st, b)
            def sgn(e):
                lo, hi = st.poly.minval(e), st.poly.maxval(e)
                if isinstance(lo, int) and isinstance(hi, int):
                    if hi <= half: return e
                    if lo > half: return e_add(e, e_const(1 << w), -1)
                return None
            ea, eb = sgn(ea), sgn(eb)
            if ea is None or eb is None: return None
        else:
            r = s.ints(st, a, b)
            if r is None: return None
            ea, eb = r
        q = p[1:]
        P = st.poly
        if q in ('gt', 'ge'): ea, eb, q = eb, ea, {'gt': 'lt', 'ge': 'le'}[q]
        d = e_add(eb, ea, -1)          # b - a
        if q == 'lt': d = e_add(d, e_const(-1))
        lo = P.minval(d)
        if lo == 'inf': return None
        if lo is not None and lo >= 0: return True
        hi = P.maxval(d)
        if hi is not None and hi < 0: return False
        return None

    def decide(s, st, c):
        n = N[c]
        if n[0] == 'c': return bool(n[2])
        if c in st.facts: return st.facts[c]
        nc = T.not_(c)
        if nc in st.facts: return not st.facts[nc]
        if n[0] == 'icmp':
            d = s.decide_icmp(st, n[2], n[3], n[4])
            return d if d is not None or not (s.mon and s.mon.ifconv) else s.mon.tabulate(s, st, c)
        if n[0] in ('and', 'or') and n[1] == 1:
            unk = False
            for x in n[3]:
                d = s.decide(st, x)
                if d is None: unk = True
                elif d == (n[0] == 'or'): return d
            return None if unk else (n[0] == 'and')
        if n[0] == 'xor' and n[1] == 1:
            r = bool(n[2] or 0)
            for x in n[3]:
                d = s.decide(st, x)
                if d is None: return None
                r ^= d
            return r
        if n[0] == 'ite':
            d = s.decide(st, n[2])
            if d is not None: return s.decide(st, n[3] if d else n[4])
        return s.mon.tabulate(s, st, c) if s.mon and s.mon.ifconv else None

    def assume(s, st, c, val):
        """states refining st in which condition c has value val (st is consumed)"""
        d = s.decide(st, c)
        if d is not None: return [st] if d == val else []
        n = N[c]
        if n[0] in ('and', 'or') and n[1] == 1 and n[2] is None:
            conj = (n[0] == 'and') == val
            if conj:
                cur = [st]
                for x in n[3]:
                    cur = [y for z in cur for y in s.assume(z, x, val)]
                for y in cur: y.facts[c] = val
                return cur
            out = []
            cur = [st]
            for x in n[3]:
                nxt = []
                for z in cur:
                    out += s.assume(z.copy(), x, val)
                    nxt += s.assume(z, x, not val)
                cur = nxt
            for y in out: y.facts[c] = val
            return out
        if n[0] == 'ite' and n[1] == 1:
            out = []
            for b in (True, False):
                for z in s.assume(st.copy(), n[2], b):
                    out += s.assume(z, n[3] if b else n[4], val)
            return out
        st.facts[c] = val
        if n[0] == 'icmp':
            p = n[2]
            if not val:
                p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
                     'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}[p]
            s.assume_icmp(st, p, n[3], n[4])
            if not st.poly.feasible(): return []
        return [st]

    def assume_icmp(s, st, p, a, b):
        P = st.poly
        w = N[a][1]
        if p in ('eq', 'ne'):
            if w == 64:
                ba, bb = split_ptr(a)[0], split_ptr(b)[0]
                if (ba is None) != (bb is None) or ba != bb: return
            e = P.reduce(s.signed_lin(st, T.sub(a, b)))
            lo, hi = P.minval(e), P.maxval(e)
            if lo == 'inf' or lo is None or hi is None: return
            if lo > -(1 << w) and hi < (1 << w):
                if p == 'eq': P.add_eq(e)
                elif lo >= 0: P.add_ge(e_add(e, e_const(-1)))
                elif hi <= 0: P.add_ge(e_add(e_scale(e, -1), e_const(-1)))
                else: st.diseq = st.diseq + (e_key(e),)
            return
        if p in T.SIGNED:
            half = (1 << (w - 1)) - 1
            ea, eb = s.toint(st, a), s.toint(st, b)
            for e in (ea, eb):
                hi = P.maxval(e)
                if not (isinstance(hi, int) and hi <= half): return
        else:
            r = s.ints(st, a, b)
            if r is None: return
            ea, eb = r
        q = p[1:]
        if q in ('gt', 'ge'): ea, eb, q = eb, ea, {'gt': 'lt', 'ge': 'le'}[q]
        d = e_add(eb, ea, -1)
        if q == 'lt': d = e_add(d, e_const(-1))
        P.add_ge(d)
        # sharpen recorded disequalities at an end of the range
        for k in list(st.diseq):
            e = P.reduce((k[0], dict(k[1])))
            lo, hi = P.minval(e), P.maxval(e)
            if lo == 0: P.add_ge(e_add(e, e_const(-1)))
            elif hi == 0: P.add_ge(e_add(e_scale(e, -1), e_const(-1)))

    def canon(s, st, off):
        """offset term rewritten by the equalities of the state"""
        if N[off][0] == 'c': return off
        if not st.poly.eqs and N[off][0] == 'lin' and all(N[a][0] == 'sym' for a, _ in N[off][3]): return off
        e = st.poly.reduce(s.signed_lin(st, off))
        w = N[off][1]
        t = T.const(w, e[0] % (1 << w))
        for v in sorted(e[1]):
            if N[v][1] > w: return off
            t = T.add(t, T.scale(T.zext(v, w), e[1][v] % (1 << w)))
        return t

    def same(s, st, a, b):
        """equal terms, up to rewriting load addresses by the equalities of the state"""
        if a == b: return True
        if N[a][1] != N[b][1]: return False
        at = set()
        T.atoms(a, at)
        T.atoms(b, at)
        m = {}
        for x in at:
            n = N[x]
            if n[0] == 'm':
                o = s.canon(st, n[3])
                if o != n[3]: m[x] = T.mk(('m', n[1], n[2], o, n[4]))
            elif n[0] == 'sym' and x in st.poly.eqs:
                o = s.canon(st, x)
                if o != x: m[x] = o
        if m and T.subst(a, m) == T.subst(b, m): return True
        return s.eq(st, a, b)

    # ------------------------------------------------------------ memory
    def range_of(s, st, off, size):
        """[lo, hi) integer interval of byte offsets touched (None = unknown)"""
        v = T.cval(off)
        if v is not None:
            lo = hi = v if v < 1 << 63 else v - (1 << 64)
        else:
            e = s.toint(st, off)
            lo, hi = st.poly.minval(e), st.poly.maxval(e)
        if isinstance(size, int): sz = size
        else:
            # bound off+size jointly
            e = e_add(s.toint(st, off), s.szexpr(st, size))
            h2 = st.poly.maxval(e)
            return (lo if isinstance(lo, int) else None, h2 if isinstance(h2, int) else None)
        return (lo if isinstance(lo, int) else None, hi + sz if isinstance(hi, int) else None)

    def szexpr(s, st, n):
        return e_const(n) if isinstance(n, int) else s.toint(st, n.t)

    def write(s, st, ptr, cells, size, ins=None, tag=None):
        """write [(rel, term, nbytes)] at ptr; size = int or term"""
        b, off = split_ptr(ptr)
        if b is None:
            raise Unsupported(f'store through unknown pointer {T.show(ptr)} in {s.where(ins)}')
        if WATCH:
            s.watch('store address', off, ins)
            if not isinstance(size, int): s.watch('store length', [x for x in (size.t if hasattr(size, 't') else size,) if isinstance(x, int)], ins)
        off = s.canon(st, off)
        if s.mon:
            if s.mon.vwrite(s, st, b, off, size, cells, tag, ins): return
            s.mon.on_write(s, st, b, off, size, cells, ins)
        o = st.obj(b)
        o.ver += 1
        v = T.cval(off)
        if v is None:
            c = None
            e = s.toint(st, off)
            lo, hi = st.poly.minval(e), st.poly.maxval(e)
            if isinstance(lo, int) and lo == hi: v = lo
        if v is not None and isinstance(size, int) and cells is not None:
            for rel, t, nb in cells:
                s.put(o, v + rel, t, nb)
            return
        lo, hi = s.range_of(st, off, size)
        lost = {}
        for a in list(o.cells):
            t, nb, ver = o.cells[a]
            if (lo is None or a + nb > lo) and (hi is None or a < hi): lost[a] = o.cells.pop(a)
        if isinstance(tag, tuple): tag = tag + (lost,)
        o.symw = o.symw + (SymW(off, size, tuple(cells) if cells is not None else None, lo, hi, o.ver, tag),)

    def put(s, o, off, t, nb):
        cells = o.cells
        old = cells.get(off)
        if old is None or old[1] != nb:
            for d in range(-63, nb):
                a = off + d
                c = cells.get(a)
                if c is not None and a + c[1] > off and a < off + nb:
                    del cells[a]
                    # keep the parts sticking out
                    if a < off: cells[a] = (T.ext(c[0], 0, 8 * (off - a)), off - a, c[2])
                    e = a + c[1]
                    if e > off + nb: cells[off + nb] = (T.ext(c[0], 8 * (off + nb - a), 8 * (e - off - nb)), e - off - nb, c[2])
        cells[off] = (t, nb, o.ver)

    def init_bytes(s, o, b, off, n):
        """initial content of n bytes"""
        v = T.cval(off)
        if o.kind == 'const' and v is not None and o.data is not None:
            r = s.const_read(o, v, n)
            if r is not None: return r
        if o.kind == 'alloca' and not s.uninit_ok:
            pass
        return T.cat([T.mk(('m', 8, b, T.add(off, T.const(64, i)), o.gen)) for i in range(n)])

    def const_read(s, o, v, n):
        data, relocs = o.data
        if v in relocs and n == 8: return relocs[v]
        for r in relocs:
            if r < v + n and v < r + 8: return None
        if v < 0 or v + n > len(data): return None
        return T.const(8 * n, int.from_bytes(data[v:v + n], 'little'))

    def read(s, st, ptr, n, ins=None):
        """n bytes at ptr as a term of width 8n"""
        b, off = split_ptr(ptr)
        if b is None:
            raise Unsupported(f'load through unknown pointer {T.show(ptr)} in {s.where(ins)}')
        if WATCH: s.watch('load address', off, ins)
        off = s.canon(st, off)
        if s.mon:
            r = s.mon.vread(s, st, b, off, n, ins)
            if r is not None: return r
            s.mon.on_read(s, st, b, off, n, ins)
        o = st.mem.get(b)
        if o is None:
            o = st.obj(b)
        v = T.cval(off)
        if v is None and o.cells:
            e = s.toint(st, off)
            lo, hi = st.poly.minval(e), st.poly.maxval(e)
            if isinstance(lo, int) and lo == hi:
                v = lo
                off = T.const(64, v)
        if v is not None:
            if v >> 63: v -= 1 << 64
            c = o.cells.get(v)
            if c is not None and c[1] == n: return c[0]
            if not o.symw and o.kind == 'const':
                return s.init_bytes(o, b, off, n)
            parts = []
            p = v
            while p < v + n:
                hit = None
                for a in range(p, p - 64, -1):
                    c = o.cells.get(a)
                    if c is not None:
                        if a + c[1] > p: hit = (a, c)
                        break
                if hit:
                    a, c = hit
                    e = min(a + c[1], v + n)
                    parts.append(T.ext(c[0], 8 * (p - a), 8 * (e - p)))
                    p = e
                    continue
                # how far until the next cell
                q = p + 1
                while q < v + n and q not in o.cells: q += 1
                parts.append(s.read_sym(st, o, b, T.const(64, p), q - p, (p, q)))
                p = q
            return T.cat(parts)
        # symbolic offset
        lo, hi = s.range_of(st, off, n)
        if len(o.cells):
            for a, c in o.cells.items():
                if (hi is None or a < hi) and (lo is None or a + c[1] > lo):
                    # a cell that may overlap: only fine if a later symbolic write covers the read exactly
                    last = s.match_symw(st, o, off, n)
                    if last is not None and all(c2[2] < last[0].ver for a2, c2 in o.cells.items()
                                                if (hi is None or a2 < hi) and (lo is None or a2 + c2[1] > lo)):
                        return last[1]
                    return s.unk(st, o, b, off, n)
        return s.read_sym(st, o, b, off, n, (lo, hi))

    def unk(s, st, o, b, off, n):
        return fresh(8 * n, f'unk:{o.name}')

    def match_symw(s, st, o, off, n):
        for w in reversed(o.symw):
            d = T.sub(off, w.off)
            dv = T.cval(d)
            if dv is None and w.cells is not None:
                x = s.signed_lin(st, d)
                x = st.poly.reduce(x)
                if not x[1]: dv = x[0] % (1 << 64)
            if dv is not None and isinstance(w.size, int) and w.cells is not None and dv + n <= w.size:
                tmp = Obj('tmp')
                for rel, t, nb in w.cells: tmp.cells[rel] = (t, nb, 0)
                parts = []
                p = dv
                ok = True
                while p < dv + n:
                    for a in range(p, p - 64, -1):
                        c = tmp.cells.get(a)
                        if c is not None and a + c[1] > p: break
                    else:
                        ok = False; break
                    e = min(a + c[1], dv + n)
                    parts.append(T.ext(c[0], 8 * (p - a), 8 * (e - p)))
                    p = e
                if ok: return w, T.cat(parts)
                return None
            if not s.disjoint(st, off, n, w.off, w.size): return None
        return None

    def disjoint(s, st, o1, n1, o2, n2):
        a, b = s.toint(st, o1), s.toint(st, o2)
        l1, l2 = s.szexpr(st, n1), s.szexpr(st, n2)
        P = st.poly
        return P.entails_ge(e_add(e_add(b, a, -1), l1, -1)) or P.entails_ge(e_add(e_add(a, b, -1), l2, -1))

    def read_sym(s, st, o, b, off, n, rng):
        lo, hi = rng
        for w in reversed(o.symw):
            if lo is not None and hi is not None and w.lo is not None and w.hi is not None and (w.lo >= hi or w.hi <= lo):
                continue
            m = s.match_symw1(st, w, off, n)
            if m is not None: return m
            if s.disjoint(st, off, n, w.off, w.size): continue
            m = s.match_copy(st, o, b, w, off, n)
            if m is not None: return m
            return s.unk(st, o, b, off, n)
        r = s.init_bytes(o, b, off, n)
        if n == 1 and o.kind == 'const' and o.data is not None and T.cval(off) is None and N[r][0] == 'm':
            # a table: the value is one of the entries the index can reach
            e = s.toint(st, off)
            a, c = st.poly.minval(e), st.poly.maxval(e)
            d = o.data[0]
            if isinstance(a, int) and isinstance(c, int) and 0 <= a <= c < len(d):
                st.poly.add_ge(e_add(s.toint(st, r), e_const(-min(d[a:c + 1]))))
                st.poly.add_ge(e_add(e_const(max(d[a:c + 1])), s.toint(st, r), -1))
        return r

    def match_copy(s, st, o, b, w, off, n):
        """bytes read where a copy or fill of symbolic length may have written: byte by byte conditional values"""
        if not isinstance(w.tag, tuple) or n > 64 or not isinstance(w.size, Sz) or T.cval(off) is None or T.cval(w.off) is None: return None
        rest = Obj(o.name, o.size, o.kind, o.data)
        rest.gen = o.gen
        rest.symw = tuple(x for x in o.symw if x.ver < w.ver)
        rest.cells = {a: c for a, c in w.tag[-1].items()} if isinstance(w.tag[-1], dict) else {}
        if w.tag[0] == 'copy':
            sb = split_ptr(w.tag[1])[0]
            so = st.mem.get(sb)
            if (so.ver if so is not None else 0) != w.tag[2]: return None
        parts = []
        tmp = st.copy()
        tmp.mem[b] = rest
        tmp._own.add(b)
        for i in range(n):
            p = T.cval(off) + i
            old = s.quiet_read(tmp, T.add(b, T.const(64, p)), 1)
            rel = p - T.cval(w.off)
            if rel < 0:
                parts.append(old); continue
            c = T.icmp('ult', T.const(64, rel), T.zext(w.size.t, 64))
            new = w.tag[1] if w.tag[0] == 'set' else s.quiet_read(st, T.add(w.tag[1], T.const(64, rel)), 1)
            d = s.decide(st, c)
            parts.append(new if d is True else old if d is False else T.ite(c, new, old))
        return T.cat(parts)

    def match_symw1(s, st, w, off, n):
        d = T.sub(off, w.off)
        dv = T.cval(d)
        if dv is None:
            x = st.poly.reduce(s.signed_lin(st, d))
            if not x[1]: dv = x[0] % (1 << 64)
        if dv is None or not isinstance(w.size, int) or w.cells is None or dv + n > w.size: return None
        cm = {rel: (t, nb) for rel, t, nb in w.cells}
        parts = []
        p = dv
        while p < dv + n:
            for a in range(p, p - 64, -1):
                c = cm.get(a)
                if c is not None and a + c[1] > p: break
            else: return None
            e = min(a + c[1], dv + n)
            parts.append(T.ext(c[0], 8 * (p - a), 8 * (e - p)))
            p = e
        return T.cat(parts)

    def read_cells(s, st, ptr, n, ins=None):
        """n bytes at ptr as a list of cells (rel, term, nbytes) keeping the stored granularity"""
        b, off = split_ptr(ptr)
        if b is None: raise Unsupported(f'copy from unknown pointer {T.show(ptr)} in {s.where(ins)}')
        o = st.mem.get(b)
        v = T.cval(off)
        out = []
        p = 0
        while p < n:
            step = min(8, n - p)
            if o is not None and v is not None:
                c = o.cells.get(v + p)
                if c is not None and c[1] <= n - p: step = c[1]
                else:
                    for q in range(1, step):
                        if v + p + q in o.cells: step = q; break
            elif o is not None:
                # symbolic: mirror matching symbolic write granularity
                pass
            t = s.read(st, T.add(ptr, T.const(64, p)), step, ins)
            out.append((p, t, step))
            p += step
        return out

    def havoc(s, st, b, lo=None, hi=None, hint='havoc'):
        """forget the contents of object b (whole, or byte range)"""
        o = st.obj(b)
        o.ver += 1
        if lo is None:
            o.cells = {}
            o.symw = ()
            _fresh[0] += 1
            o.gen = _fresh[0]
        else:
            for a in list(o.cells):
                c = o.cells[a]
                if a + c[1] > lo and a < hi: del o.cells[a]
            for p in range(lo, hi, 4):
                nb = min(4, hi - p)
                s.put(o, p, fresh(8 * nb, f'{hint}+{p - lo}'), nb)

    # ------------------------------------------------------------ constants
    def global_base(s, name, st):
        b = T.base('@' + name)
        if b not in st.mem:
            gi = s.mod.glob_init(name)
            o = Obj('@' + name, None, 'global')
            if gi is not None and gi[2]:
                o.kind = 'const'
                size = size_of(gi[0])
                data = bytearray(size)
                rel = {}
                s.fill_const(data, rel, 0, gi[0], gi[1], st)
                o.data = (bytes(data), rel)
                o.size = size
            st.mem[b] = o
        return b

    def fill_const(s, data, rel, off, ty, v, st):
        k = v[0]
        if k == 'const':
            n = size_of(ty)
            data[off:off + n] = (v[1] & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
        elif k == 'bytes':
            data[off:off + len(v[1])] = v[1]
        elif k == 'agg':
            if ty.k == 'arr':
                es = size_of(ty.el)
                for i, (et, x) in enumerate(v[1]): s.fill_const(data, rel, off + i * es, et, x, st)
            else:
                for i, (et, x) in enumerate(v[1]): s.fill_const(data, rel, off + field_off(ty, i), et, x, st)
        elif k == 'vec':
            es = bits_of(ty.el) // 8
            for i, x in enumerate(v[1]): s.fill_const(data, rel, off + i * es, ty.el, x, st)
        elif k in ('zero', 'undef', 'fconst'):
            pass
        elif k == 'glob':
            rel[off] = T.base('@' + v[1])
        elif k in ('gep', 'cast', 'bin'):
            rel[off] = s.cval(v, ty, st)
        else:
            raise Unsupported('const ' + k)

    def cval(s, v, ty, st):
        k = v[0]
        if k == 'gep':
            et, ops = v[1], v[2]
            return s.gep(et, [(t, s.cval(x, t, st)) for t, x in ops])
        if k == 'cast':
            _, op, ft, x, tt = v
            a = s.cval(x, ft, st)
            if op in ('inttoptr', 'ptrtoint', 'bitcast'): return a
            return T.zext(a, bits_of(tt))
        if k == 'bin':
            _, op, ft, a, b = v
            a, b = s.cval(a, ft, st), s.cval(b, ft, st)
            return T.add(a, b) if op == 'add' else T.sub(a, b)
        if k == 'glob': return s.global_base(v[1], st)
        return s.val(v, ty, st)

    def val(s, v, ty, st):
        k = v[0]
        if k == 'reg':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise Unsupported(f'undefined register %{v[1]} in {s.cur[-1]}')
        if k == 'const': return T.const(bits_of(ty), v[1])
        if k == 'zero' or k == 'undef':
            u = k == 'undef'
            if ty.k == 'vec':
                return Vec([T.const(bits_of(ty.el), 0) if not u else s.undef(bits_of(ty.el)) for _ in range(ty.n)])
            if ty.k == 'struct': return Agg([s.val(v, e, st) for e in ty.el])
            if ty.k == 'arr': return Agg([s.val(v, ty.el, st) for _ in range(ty.n)])
            if ty.k == 'metadata': return None
            return T.const(bits_of(ty), 0) if not u else s.undef(bits_of(ty))
        if k == 'vec': return Vec([s.val(x, ty.el, st) for x in v[1]])
        if k == 'agg': return Agg([s.val(x, t, st) for t, x in v[1]])
        if k in ('glob', 'gep', 'cast', 'bin'): return s.cval(v, ty, st)
        if k == 'fconst': return fresh(64, 'float')
        if k == 'asm': raise Unsupported(f'inline assembly in {s.cur[-1]}')
        raise Unsupported(f'value {v}')

    def undef(s, w):
        return fresh(w, 'undef')

    def gep(s, et, ops):
        p = ops[0][1]
        ty = et
        for i, (t, ix) in enumerate(ops[1:]):
            if i == 0: p = T.add(p, T.scale(T.sext(ix, 64), size_of(ty)))
            elif ty.k == 'struct':
                f = T.cval(ix)
                p = T.add(p, T.const(64, field_off(ty, f)))
                ty = ty.el[f]
            else:
                es = size_of(ty.el) if ty.k == 'arr' else bits_of(ty.el) // 8
                p = T.add(p, T.scale(T.sext(ix, 64), es))
                ty = ty.el
        return p

    # ------------------------------------------------------------ typed load/store
    def load(s, st, ptr, ty, ins=None):
        k = ty.k
        if k == 'vec':
            es = bits_of(ty.el) // 8
            if es * 8 != bits_of(ty.el): raise Unsupported('vec bits')
            return Vec([s.load(st, T.add(ptr, T.const(64, i * es)), ty.el, ins) for i in range(ty.n)])
        if k == 'struct':
            return Agg([s.load(st, T.add(ptr, T.const(64, field_off(ty, i))), e, ins) for i, e in enumerate(ty.el)])
        if k == 'arr':
            es = size_of(ty.el)
            return Agg([s.load(st, T.add(ptr, T.const(64, i * es)), ty.el, ins) for i in range(ty.n)])
        n = size_of(ty)
        if k == 'int' and ty.w > 64 and ty.w % 8 == 0: n = ty.w // 8
        t = s.read(st, ptr, n, ins)
        if k == 'ptr':
            if N[t][0] not in ('base', 'lin', 'c'): ptr_atoms.add(t)
            elif N[t][0] == 'lin' and split_ptr(t)[0] is None and len(N[t][3]) == 1: ptr_atoms.add(N[t][3][0][0])
        if k == 'int' and 8 * n != ty.w: t = T.ext(t, 0, ty.w)
        return t

    def store(s, st, ptr, ty, v, ins=None):
        cells = []
        s.to_cells(ty, v, 0, cells)
        s.write(st, ptr, cells, max(r + n for r, _, n in cells) if cells else 0, ins)

    def to_cells(s, ty, v, off, out):
        k = ty.k
        if k == 'vec':
            es = bits_of(ty.el) // 8
            for i, x in enumerate(v): s.to_cells(ty.el, x, off + i * es, out)
        elif k == 'struct':
            for i, x in enumerate(v): s.to_cells(ty.el[i], x, off + field_off(ty, i), out)
        elif k == 'arr':
            for i, x in enumerate(v): s.to_cells(ty.el, x, off + i * size_of(ty.el), out)
        else:
            n = size_of(ty)
            if k == 'int' and ty.w > 64 and ty.w % 8 == 0: n = ty.w // 8
            out.append((off, T.zext(v, 8 * n), n))

    # ------------------------------------------------------------ control
    def call(s, name, args, st):
        """interpret function `name` -> list of (state, ret)"""
        f = s.mod.fn(name)
        s.stats['functions'].add(name)
        if name in s.cur:
            raise Unsupported(f'recursive call of {name} not covered by a rule')
        saved = st.regs
        st.regs = {}
        if len(args) != len(f.params):
            raise Unsupported(f'arity of {name}')
        for (ty, nm, at), a in zip(f.params, args): st.regs[nm] = a
        s.cur.append(name)
        live = set(st.mem)
        s.frames = s.frames + ([v for x in saved.values() for v in s.flat(x) if isinstance(v, int)],)
        try:
            r = s.region(f, set(f.rpo), [(f.entry, None, st)], None)
        finally:
            s.cur.pop()
            s.frames = s.frames[:-1]
        if len(r.rets) > 1 and s.mon and s.mon.ifconv: r = r._replace(rets=s.dedupe(r.rets, True))
        if len(r.rets) > 400: raise Unsupported(f'state explosion in {name}: {len(r.rets)}')
        for z, _ in r.rets:
            z.regs = dict(saved)
            # the callee's stack objects end here
            for b in [b for b, o in z.mem.items() if o.kind == 'alloca' and b not in live]:
                del z.mem[b]
                z._own.discard(b)
        return r.rets

    Res = namedtuple('Res', 'exits backs rets undecided')

    def region(s, f, blocks, entry, header):
        """run the (sub)graph `blocks` from entry [(block, prev, state)] where
        states have had their phis set.  header = loop head this region belongs to."""
        pend = {}
        for b, p, st in entry: pend.setdefault(b, []).append((p, st))
        exits, backs, rets = [], [], []
        und = [False]
        while pend:
            b = min(pend, key=lambda x: f.idx[x])
            items = pend.pop(b)
            items = s.dedupe(items)
            for prev, st in items:
                if b in f.loops and b != header:
                    ex, rt = s.loop(f, b, prev, st)
                    rets += rt
                    nxt = ex
                else:
                    nxt = s.block(f, b, st, rets, header and f.loops[header], und)
                for tb, pb, ns in nxt:
                    if tb == header: backs.append((pb, ns))
                    elif tb not in blocks: exits.append((tb, pb, ns))
                    else: pend.setdefault(tb, []).append((pb, ns))
        return Engine.Res(exits, backs, rets, und[0])

    def both(s, z, z2, c):
        """the states after an undecided condition, (true, false)"""
        if not (s.mon and s.mon.ifconv): return s.assume(z, c, True), s.assume(z2, c, False)
        _fresh[0] += 1
        pre = (_fresh[0], z.poly.copy(), dict(z.facts), z.diseq, c)
        a, b = s.assume(z, c, True), s.assume(z2, c, False)
        if len(a) == len(b) == 1:
            for y, v in ((a[0], True), (b[0], False)): y.split = y.split + ((pre, v),)
        return a, b

    def rejoin(s, a, b, va=None, vb=None):
        """one state for the two sides of a condition, their values joined by it; None where they differ in more than values"""
        if not a.split or len(a.split) != len(b.split) or a.split[-1][0] is not b.split[-1][0] or a.split[-1][1] == b.split[-1][1]: return None
        if a.g != b.g or a.tag != b.tag: return None
        if not a.split[-1][1]: a, b, va, vb = b, a, vb, va
        c = a.split[-1][0][4]
        def one(x, y):
            if x == y: return x
            if isinstance(x, int) and isinstance(y, int) and N[x][1] == N[y][1] and split_ptr(x)[0] is None and split_ptr(y)[0] is None: return T.ite(c, x, y)
            return None
        z = a.copy()
        if va != vb:
            va = one(va, vb)
            if va is None: return None
        z.regs = {}
        for k in a.regs.keys() & b.regs.keys():
            v = one(a.regs[k], b.regs[k])
            if v is not None: z.regs[k] = v
        for k, o in a.mem.items():
            q = b.mem.get(k)
            if q is o: continue
            if q is None or len(q.symw) != len(o.symw) or any(x is not y for x, y in zip(q.symw, o.symw)) or q.gen != o.gen: return None
            n = {}
            for off, x in o.cells.items():
                y = q.cells.get(off)
                if y is None or y[1] != x[1]: return None
                v = one(x[0], y[0])
                if v is None: return None
                n[off] = (v, x[1], max(x[2], y[2]))
            if len(q.cells) != len(o.cells): return None
            w = z.obj(k)
            w.cells = n
            w.ver = max(o.ver, q.ver)
        if b.mem.keys() - a.mem.keys(): return None
        _, poly, facts, diseq, _ = a.split[-1][0]
        z.poly, z.facts, z.diseq, z.split = poly.copy(), dict(facts), diseq, a.split[:-1]
        return z, va

    def dedupe(s, items, ret=False):
        if len(items) < 2 or not (s.mon and s.mon.ifconv): return items
        again = True
        while again:
            again = False
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    (x, y), (x2, y2) = items[i], items[j]
                    r = s.rejoin(x, x2, y, y2) if ret else s.rejoin(y, y2)
                    if r is None: continue
                    items = [it for k, it in enumerate(items) if k not in (i, j)] + [r if ret else (x, r[0])]
                    again = True
                    break
                if again: break
        return items

    def edge(s, f, b, tb, st):
        """set phis of tb for edge b->tb"""
        ph = []
        for ins in f.blocks[tb]:
            if ins.op != 'phi': break
            for v, l in ins.a:
                if l == b:
                    ph.append((ins.name, s.val(v, ins.ty, st)))
                    break
            else: raise Unsupported('phi')
        for n, v in ph: st.regs[n] = v
        return (tb, b, st)

    def block(s, f, b, st, rets, loopblocks, und):
        states = [st]
        body = f.blocks[b]
        for ins in body:
            if ins.op == 'phi': continue
            if ins.op in ('br', 'switch', 'ret', 'unreachable', 'invoke'): break
            nxt = []
            for z in states:
                s.stats['instructions'] += 1
                r = s.step(f, ins, z)
                if r is None: nxt.append(z)
                else: nxt += r
            states = nxt
            if not states: return []
        term = body[-1]
        out = []
        for z in states:
            op = term.op
            if op == 'ret':
                rets.append((z, s.val(term.a[0], term.ty, z) if term.a else None))
            elif op == 'unreachable':
                if s.mon: s.mon.on_unreachable(s, z, term)
            elif op == 'br':
                tg = term.x['targets']
                if len(tg) == 1:
                    out.append(s.edge(f, b, tg[0], z)); continue
                c = s.val(term.a[0], None, z)
                if WATCH: s.watch('branch', c, term)
                if s.mon: s.mon.on_branch(s, z, c, term)
                d = s.decide(z, c)
                if d is not None:
                    out.append(s.edge(f, b, tg[0 if d else 1], z))
                else:
                    if loopblocks is not None and any(t not in loopblocks for t in tg):
                        if not all(s.aborts(f, t) for t in tg if t not in loopblocks): und[0] = True
                    else:
                        und[0] = und[0] or False
                    z2 = z.copy()
                    ya, yb = s.both(z, z2, c)
                    for y in ya: out.append(s.edge(f, b, tg[0], y))
                    for y in yb: out.append(s.edge(f, b, tg[1], y))
            elif op == 'switch':
                v = s.val(term.a[0], term.ty, z)
                if WATCH: s.watch('branch', v, term)
                if s.mon: s.mon.on_branch(s, z, v, term)
                w = N[v][1]
                rest = [z]
                for cv, l in term.x['cases']:
                    c = T.icmp('eq', v, T.const(w, cv))
                    nr = []
                    for y in rest:
                        d = s.decide(y, c)
                        if d is True: out.append(s.edge(f, b, l, y))
                        elif d is False: nr.append(y)
                        else:
                            if loopblocks is not None: und[0] = True
                            y2 = y.copy()
                            ya, yb = s.both(y, y2, c)
                            for q in ya: out.append(s.edge(f, b, l, q))
                            nr += yb
                    rest = nr
                for y in rest: out.append(s.edge(f, b, term.x['default'], y))
            elif op == 'invoke':
                r = s.do_call(f, term, z)
                for y in r: out.append(s.edge(f, b, term.x['normal'], y))
        s.stats['states'] += len(out)
        return out

    def aborts(s, f, b, depth=0):
        """block surely ends in unreachable (panic path)"""
        memo = f.__dict__.setdefault('_ab', {})
        if b in memo: return memo[b]
        memo[b] = False
        t = f.blocks[b][-1]
        if t.op == 'unreachable': r = True
        elif t.op in ('br', 'switch', 'invoke') and depth < 50: r = all(s.aborts(f, x, depth + 1) for x in f.succ[b])
        else: r = False
        memo[b] = r
        return r

    # ------------------------------------------------------------ loops
    def loop(s, f, h, prev, st):
        s.stats['loops'] += 1
        body = f.loops[h]
        exits, rets = [], []
        if s.mon is not None and s.mon.keep() is not None:
            la = s.live_atoms(f, h, [st], False)
            vs = set(st.poly.eqs).union(*[e[1] for e in st.poly.eqs.values()], *[e[1] for e in st.poly.ineqs])
            dead = {v for v in vs if v not in la and not T.atoms(v) & la}
            if dead:
                st.poly = st.poly.copy()
                st.poly.forget(dead)
                st.poly.tidy()
                s.redefine(st)
        cur = [(prev, st)]
        stamp = len(N)
        entry = st.copy()
        n = 0
        fill = None
        filled = {}
        while True:
            R = []
            und = False
            for p, z in cur:
                zs = s.header(f, h, z.copy())
                if not zs: continue
                r = None
                if len(zs) > 1:
                    # a counted loop needs no case split
                    nv, ob = len(s.viol), dict(s.oblig)
                    r = s.backs(f, h, s.region(f, body, [(h, p, z.copy())], h))
                    if r.undecided or len(r.backs) + len(r.rets) + sum(not s.aborts(f, x[0]) for x in r.exits) > 1:
                        r = None
                        del s.viol[nv:]
                        s.oblig = ob
                    else: zs = zs[:1]
                if r is None:
                    r = s.region(f, body, [(h, p, y) for y in zs], h)
                    r = s.backs(f, h, r)
                if len(zs) > 1 or (r.backs and any(not s.aborts(f, x[0]) for x in r.exits)): und = True
                und = und or r.undecided
                exits += r.exits
                rets += r.rets
                R += [s.strip_loop_regs(f, h, entry, b) for b in r.backs]
            if not R: return s.merged(f, h, entry, exits, stamp, fill is not None), rets
            n += 1
            # a definite count is followed step by step, unless each step is itself settled by induction
            if not und and n < s.MAXUNROLL and len(R) <= s.MAXSPLIT:
                cur = R
                continue
            if s.mon and n <= s.MAXFILL and len(R) <= s.MAXSPLIT and s.mon.fills(s, f, h):
                # a loop that fills an array of pointers: its iterations stay apart, one state per count
                now = [s.ptr_writes(cur[0][1] if len(cur) == 1 else entry, z) for p, z in R]
                if all(now) and (fill is None or all(x != y for x in now for y in fill)):
                    for x in set().union(*now): filled[x] = filled.get(x, 0) + 1
                    s.ptrarrays |= {b for b, a in filled if sum(1 for x, c in filled.items() if x[0] == b and c == 1) > 2}
                    if fill is None: probe = (list(cur), list(R), list(exits), list(rets))
                    fill = now
                    cur = R
                    continue
                if fill is not None and not (all(now) and all(x != y for x in now for y in fill)) and len(fill) == 1 and n == 2:
                    # the same cell again: no array, back to induction from the first iteration
                    cur, R, exits, rets = probe
                    n = 1
            backs = R
            break
        # induction over the remaining iterations, partitioned by ghost tags
        I = {}
        def key(z): return tuple(sorted(z.tag.items()))
        groups = {}
        for p, z in backs: groups.setdefault(key(z), []).append(z)
        _fresh[0] += 1
        lid = f'{f.name}:{h}:{n}:{_fresh[0]}'
        info = {}
        for k, zs in groups.items():
            I[k], info[k] = s.join(f, h, entry, zs, lid, stamp, None)
        for rnd in range(40):
            s.stats['fixpoint_passes'] += 1
            nv = len(s.viol)
            ob = dict(s.oblig)
            ex2, rt2, newb = [], [], {}
            for k, z in list(I.items()):
                r = s.region(f, body, [(h, None, y) for y in s.header(f, h, z.copy())], h)
                r = s.backs(f, h, r)
                ex2 += r.exits
                rt2 += r.rets
                for p, y in r.backs:
                    p, y = s.strip_loop_regs(f, h, entry, (p, y))
                    newb.setdefault(key(y), []).append(y)
            stable = True
            for k, zs in newb.items():
                old = I.get(k)
                J, inf = s.join(f, h, entry, ([old] if old is not None else []) + zs, lid, stamp, info.get(k), widen=rnd >= 2)
                if old is None or inf != info[k]:
                    stable = False
                I[k] = J
                info[k] = inf
            if stable:
                return s.merged(f, h, entry, exits + ex2, stamp), rets + rt2
            del s.viol[nv:]
            s.oblig = ob
        raise Unsupported(f'no fixpoint for loop {h} in {f.name}')

    def redefine(s, st):
        """parts of words keep the equation that defines them"""
        P = st.poly
        vs = set(P.eqs).union(*[e[1] for e in P.eqs.values()], *[e[1] for e in P.ineqs])
        for v in sorted(vs):
            if N[v][0] == 'ext' and N[N[v][2]][0] == 'lin': s.toint(st, v)

    def ptr_writes(s, z0, z1):
        """addresses of local cells given a pointer value between states z0 and z1"""
        out = set()
        for b, o in z1.mem.items():
            if o.kind != 'alloca': continue
            o0 = z0.mem.get(b)
            if o0 is o: continue
            for a, c in o.cells.items():
                if c[1] != 8 or split_ptr(c[0])[0] is None: continue
                if o0 is not None and a in o0.cells and o0.cells[a] is c: continue
                out.add((b, a))
        return frozenset(out)

    def merged(s, f, h, entry, exits, stamp, fill=False):
        """join the states leaving a loop towards the same block"""
        if s.mon is None or not s.mon.merge_exits(f, h): return exits
        groups = {}
        for tb, pb, z in exits: groups.setdefault((tb, pb if fill else None, tuple(sorted(z.tag.items())), s.mon.exit_key(s, z, {k: z.regs.get(k) for k in s.live_in(f)[tb]})), []).append((pb, z))
        out = []
        for (tb, *_), items in groups.items():
            if len(items) == 1 or s.aborts(f, tb):
                out += [(tb, pb, z) for pb, z in items]
                continue
            live = s.live_in(f)[tb]
            zs = []
            for pb, z in items:
                z.regs = {k: v for k, v in z.regs.items() if k in live}
                zs.append(z)
            known = set().union(*[set(z.poly.eqs) | {v for e in z.poly.ineqs for v in e[1]} for z in zs])
            def inner(v):
                # the same count in every state, about which the loop has established something
                return isinstance(v, int) and N[v][1] in (8, 16, 64) and numeric_shape(v) and any(x >= stamp and x in known for x in T.atoms(v))
            names = [k for k in sorted(zs[0].regs, key=str) if any(z.regs.get(k) != zs[0].regs[k] for z in zs[1:]) or inner(zs[0].regs[k])]
            if any(set(z.regs) != set(zs[0].regs) for z in zs): raise Unsupported('registers at a loop exit')
            e2 = entry.copy()
            e2.regs = dict(zs[0].regs)
            _fresh[0] += 1
            J, _i = s.join(f, h, e2, zs, f'{f.name}:{h}>{tb}:{_fresh[0]}', stamp, None, names=names)
            out.append((tb, items[0][0], J))
        return out

    def live_in(s, f):
        """registers live at the start of each block, its own phis included"""
        if hasattr(f, '_live'): return f._live
        use, dfn, phiuse = {}, {}, {}
        def regs(v, acc):
            if isinstance(v, tuple):
                if len(v) >= 2 and v[0] == 'reg': acc.add(v[1])
                else:
                    for x in v: regs(x, acc)
            elif isinstance(v, (list,)):
                for x in v: regs(x, acc)
            elif isinstance(v, dict):
                for x in v.values(): regs(x, acc)
        for b, body in f.blocks.items():
            u, d = set(), set()
            for ins in body:
                if ins.op == 'phi':
                    for v, l in ins.a:
                        acc = set(); regs(v, acc)
                        phiuse.setdefault(l, set()).update(acc)
                    d.add(ins.name)
                    continue
                acc = set()
                regs(ins.a, acc); regs(ins.x, acc)
                u |= acc - d
                if ins.name is not None: d.add(ins.name)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                out = set(phiuse.get(b, ()))
                for t in f.succ[b]: out |= live[t] - {i.name for i in f.blocks[t] if i.op == 'phi'}
                n = use[b] | (out - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        for b in f.blocks: live[b] = live[b] | {i.name for i in f.blocks[b] if i.op == 'phi'}
        f._live = live
        return live

    def header(s, f, h, z):
        if s.mon is None: return [z]
        return s.mon.on_header(s, f, h, z)

    def backs(s, f, h, r):
        if s.mon is None: return r
        out = []
        for p, y in r.backs:
            for q in s.mon.on_back(s, f, h, y): out.append((p, q))
        return r._replace(backs=out)

    def strip_loop_regs(s, f, h, entry, item):
        p, z = item
        keep = dict(entry.regs)
        for ins in f.blocks[h]:
            if ins.op != 'phi': break
            keep[ins.name] = z.regs[ins.name]
        z.regs = keep
        return (p, z)

    def flat(s, v):
        if isinstance(v, (Vec, Agg)):
            r = []
            for x in v: r += s.flat(x)
            return r
        return [v]

    def unflat(s, v, it):
        if isinstance(v, Vec): return Vec([s.unflat(x, it) for x in v])
        if isinstance(v, Agg): return Agg([s.unflat(x, it) for x in v])
        return next(it)

    def join(s, f, h, entry, states, lid, stamp, previnfo, widen=False, names=None):
        """join of states at loop head h -> (state, info) ; info is a canonical description"""
        Z = states[0]
        # ---- collect cells
        cells = []          # (key, numeric?, [values])
        phis = names if names is not None else [ins.name for ins in f.blocks[h] if ins.op == 'phi']
        for nm in phis:
            fl = [s.flat(z.regs[nm]) for z in states]
            vec = isinstance(Z.regs[nm], (Vec,))
            for i in range(len(fl[0])):
                cells.append((('phi', nm, i), not vec, [x[i] for x in fl]))
        gk = set().union(*[set(z.g) for z in states])
        for k in sorted(gk):
            cells.append((('g', k), s.mon is None or s.mon.ghost_number(k), [z.g[k] for z in states]))
        bases = set()
        for z in states: bases |= set(z.mem)
        memdrop = {}
        # values that mention symbols of this very join change their meaning with it: never taken over unchanged
        own = s.ownsyms.setdefault(lid, set())
        omemo = {}
        def mentions(v):
            r = omemo.get(v)
            if r is None:
                at = T.atoms(v)
                r = bool(at & own) or (s.mon is not None and any(T.atoms(x) & own for a in at for x in s.mon.deps(a)))
                omemo[v] = r
            return r
        def moved(v, num):
            return mentions(v) or (num and numeric_shape(v) and any(x >= stamp for x in T.atoms(v)))
        for b in sorted(bases):
            objs = [z.mem.get(b) for z in states]
            if all(o is objs[0] for o in objs):
                o, eo = objs[0], entry.mem.get(b)
                if o is None or o is eo or (len(o.symw) == len(eo.symw if eo else ()) and not any(moved(c[0], c[1] in (1, 2, 8)) for c in o.cells.values())): continue
            objs = [o if o is not None else Obj(T.show(b)) for o in objs]
            gens = {o.gen for o in objs}
            if len(gens) > 1:
                memdrop[b] = 'all'
                continue
            offs = {}
            for o in objs:
                for a, c in o.cells.items(): offs.setdefault(a, set()).add(c[1])
            # symbolic writes
            sw = [tuple((w.off, w.size, w.cells, w.lo, w.hi) for w in o.symw) for o in objs]
            common = 0
            es = entry.mem[b].symw if b in entry.mem else ()
            es = [(w.off, w.size, w.cells, w.lo, w.hi) for w in es]
            sw.append(es)
            while all(len(x) > common for x in sw) and len({x[common] for x in sw}) == 1: common += 1
            clob = []
            for o in objs:
                for w in o.symw[common:]: clob.append((w.lo, w.hi))
            if clob:
                lo = None if any(x[0] is None for x in clob) else min(x[0] for x in clob)
                hi = None if any(x[1] is None for x in clob) else max(x[1] for x in clob)
                if widen and previnfo is not None:
                    was = dict(previnfo[6]).get(b)
                    if was is not None:
                        if was[0] != lo: lo = None
                        if was[1] != hi: hi = None
                clob = [(lo, hi)]
            memdrop[b] = (common, clob)
            for a in sorted(offs):
                if any((lo is None or a + max(offs[a]) > lo) and (hi is None or a < hi) for lo, hi in clob): continue
                if len(offs[a]) == 1 and all(a in o.cells for o in objs):
                    nb = next(iter(offs[a]))
                    vals = [o.cells[a][0] for o in objs]
                    if len(set(vals)) > 1 or moved(vals[0], nb in (1, 2, 8)): cells.append((('m', b, a, nb), nb in (1, 2, 8), vals))
                else:
                    nb = min(offs[a])
                    later = [x for x in offs if a < x < a + nb]
                    if later: nb = min(later) - a
                    vals = []
                    for z in states:
                        t = s.quiet_read(z, T.add(b, T.const(64, a)), nb)
                        vals.append(t)
                    mx = max(offs[a])
                    cells.append((('m', b, a, nb), nb in (1, 2, 8), vals))
                    if mx > nb and not later:
                        for q in range(a + nb, a + mx):
                            if q in offs: break
                            cells.append((('m', b, q, 1), True, [s.quiet_read(z, T.add(b, T.const(64, q)), 1) for z in states]))
        # bytes that make up one machine word in every state are joined as that word
        byad = {(c[0][1], c[0][2]): c for c in cells if c[0][0] == 'm' and len(c[0]) == 4 and c[0][3] == 1}
        glue = {}
        for (b, a), c in sorted(byad.items()):
            q = [byad.get((b, a + i)) for i in range(4)]
            if not all(q) or id(c) in glue or all(N[v][0] != 'ext' for v in c[2]): continue
            ws = [T.cat([x[2][i] for x in q]) for i in range(len(c[2]))]
            if any(N[v][0] == 'cat' for v in ws): continue
            for i, x in enumerate(q): glue[id(x)] = (('m4', b, a), 8 * i, x[0])
            cells.append((('m4', b, a), False, ws))
        cells = [c for c in cells if id(c) not in glue]
        # values made of machine words in every state are joined word by word
        splits = {}
        pieces = []
        for key, num, vals in cells:
            w = N[vals[0]][1]
            if w < 64 or len(set(vals)) == 1 or split_ptr(vals[0])[0] is not None:
                pieces.append((key, num, vals)); continue
            cuts = None
            for v in set(vals):
                c = {x for x in T._cuts(T.bitsof(v)) if x % 32 == 0} if N[v][0] == 'cat' else {w}
                cuts = c if cuts is None else cuts & c
            cuts = sorted(cuts | {w})
            if len(cuts) == 1 or all(N[v][0] != 'cat' or N[N[v][2][-1]][0] == 'c' for v in vals):
                pieces.append((key, num, vals)); continue
            pos = 0
            pk = []
            for c in cuts:
                k2 = key + ('p', pos)
                pieces.append((k2, False, [T.ext(v, pos, c - pos) for v in vals]))
                pk.append(k2)
                pos = c
            splits[key] = pk
        cells = pieces
        def fixed(c):
            v = c[2][0]
            return len(set(c[2])) == 1 and not moved(v, c[1])
        var = [c for c in cells if not fixed(c)]
        const_cells = [c for c in cells if fixed(c)]
        # group duplicates: cells holding equal values in every state
        groups = {}
        for key, num, vals in var:
            groups.setdefault(tuple(vals), [False, []])
            g = groups[tuple(vals)]
            g[0] = g[0] or num
            g[1].append(key)
        groups = {(v[0], k): v[1] for k, v in groups.items()}
        # ---- numeric hull
        numc = []
        for (num, vals), keys in groups.items():
            w = N[vals[0]][1]
            if not num or w == 1 or not all(numeric_shape(v) for v in vals): continue
            if all(k[0] == 'm' and k[1] in s.ptrarrays for k in keys) and w == 64 and all(split_ptr(v)[0] is not None for v in vals): continue
            bs = [split_ptr(v) if w == 64 else (None, v) for v in vals]
            if len({x[0] for x in bs}) > 1: continue
            base = bs[0][0]
            exprs = []
            for z, (bb, o) in zip(states, bs): exprs.append(z.poly.reduce(s.toint(z, o)))
            numc.append((keys, base, exprs, w))
        # relevant outer atoms
        def outer(v):
            n = N[v]
            return all(x < stamp for x in T.atoms(v))
        oat = set()
        polys = [z.poly for z in states]
        for keys, base, exprs, w in numc:
            for e in exprs:
                oat |= {v for v in e[1] if outer(v)}
        for P in polys:
            for v, e in P.eqs.items():
                if outer(v): oat.add(v)
                oat |= {x for x in e[1] if outer(x)}
            for e in P.ineqs:
                oat |= {x for x in e[1] if outer(x)}
        if s.mon is not None and s.mon.keep() is not None:
            la = s.live_atoms(f, h, states, names is not None)
            oat = {v for v in oat if v in la or T.atoms(v) & la}
        oat = sorted(oat)
        red = [[P.reduce(e_var(a)) for a in oat] for P in polys]
        # unknown vector: coefficients for cells, outer atoms, const
        ncell = len(numc)
        rows = {}
        for si, P in enumerate(polys):
            for ci in range(ncell):
                e = numc[ci][2][si]
                for v, q in e[1].items(): rows.setdefault((si, v), {})[ci] = q
                if e[0]: rows.setdefault((si, None), {})[ci] = e[0]
            for ai, e in enumerate(red[si]):
                for v, q in e[1].items(): rows.setdefault((si, v), {})[ncell + ai] = q
                if e[0]: rows.setdefault((si, None), {})[ncell + ai] = e[0]
            rows.setdefault((si, None), {})[ncell + len(oat)] = 1
        rels = nullspace(list(rows.values()), ncell + len(oat) + 1, ncell)
        # ---- build joined state
        J = entry.copy()
        J.regs = dict(entry.regs)
        J.mem = dict(Z.mem)
        J._own = set()
        J.g = dict(Z.g)
        J.tag = dict(Z.tag)
        J.diseq = ()
        for i, z in enumerate(states):
            J.diseq = z.diseq if i == 0 else tuple(x for x in J.diseq if x in z.diseq)
        J.diseq = tuple(d for d in J.diseq if all(outer(v) for v, _ in d[1]))
        J.facts = {c: v for c, v in Z.facts.items() if all(z.facts.get(c) == v for z in states[1:]) and all(x < stamp for x in T.atoms(c))}
        assign = {}
        sig = {}
        gid = 0
        numidx = {id(c[0]): i for i, c in enumerate(numc)}
        def based(keys): return id(keys) in numidx and numc[numidx[id(keys)]][1] is not None
        cellsym = {}
        split = []
        for (num, vals), keys in sorted(groups.items(), key=lambda kv: (based(kv[1]), str(kv[1][0]))):
            # pointers last: an equality then eliminates the pointer, and bounds are kept on plain counts
            w = N[vals[0]][1]
            nm = f'{lid}#{key_str(keys[0])}'
            base = None
            ni = numidx.get(id(keys))
            if ni is not None: base = numc[ni][1]
            sg = T.sym(w, nm)
            own.add(sg)
            if WATCH: s.flow.setdefault(sg, set()).update(vals)
            if ni is not None: cellsym[ni] = sg
            v = T.add(base, sg) if base is not None else sg
            if names is not None and ni is None and len(set(vals)) == 2: split.append((keys, vals))
            if base is None and w == 64 and all(split_ptr(x)[0] is not None for x in vals): ptr_atoms.add(sg)
            for k in keys: assign[k] = v
        for keys, vals in split:
            # the entries of an array filled up to a counter: conditional on the counter
            if not all(k[0] == 'm' and k[1] in s.ptrarrays for k in keys): continue
            for ci, (_, cb, ex, w) in enumerate(numc):
                if cb is not None or any(e[1] for e in ex): continue
                a = [e[0] for e, v in zip(ex, vals) if v == vals[0]]
                b = [e[0] for e, v in zip(ex, vals) if v != vals[0]]
                lo, hi = (a, b) if max(a) < min(b) else (b, a)
                if max(lo) >= min(hi): continue
                vlo = next(v for e, v in zip(ex, vals) if e[0] == lo[0])
                vhi = next(v for e, v in zip(ex, vals) if e[0] == hi[0])
                for k in keys: assign[k] = T.ite(T.icmp('ult', cellsym[ci], T.const(w, min(hi))), vlo, vhi)
                break
        for key, num, vals in const_cells: assign[key] = vals[0]
        for key, pk in splits.items(): assign[key] = T.cat([assign[x] for x in pk])
        for k4, sh, key in glue.values(): assign[key] = T.ext(assign[k4], sh, 8)
        for nm in phis:
            n = len(s.flat(Z.regs[nm]))
            J.regs[nm] = s.unflat(Z.regs[nm], iter([assign[('phi', nm, i)] for i in range(n)]))
        for k in gk: J.g[k] = assign[('g', k)]
        for b, d in memdrop.items():
            if d == 'all':
                o = Obj(T.show(b))
                z0 = Z.mem[b]
                o.size, o.kind, o.data = z0.size, z0.kind, z0.data
                o.gen = -(abs(hash((lid, b))) % (1 << 40)) - 1
                J.mem[b] = o
                continue
            z0 = next(z.mem[b] for z in states if b in z.mem)
            o = Obj(z0.name, z0.size, z0.kind, z0.data)
            o.gen = z0.gen
            o.ver = max(z.mem[b].ver for z in states if b in z.mem) + 1
            common, clob = d
            o.symw = z0.symw[:common]
            J.mem[b] = o
            kept = {}
            if all(b in z.mem for z in states):
                for a, c in z0.cells.items():
                    if all(z.mem[b].cells.get(a, (None, None))[:2] == c[:2] for z in states[1:]):
                        if not any((lo is None or a + c[1] > lo) and (hi is None or a < hi) for lo, hi in clob): kept[a] = c
            o.cells = kept
            if clob:
                lo = None if any(x[0] is None for x in clob) else min(x[0] for x in clob)
                hi = None if any(x[1] is None for x in clob) else max(x[1] for x in clob)
                big = T.sym(64, f'{lid}#clob{b}')
                o.symw = o.symw + (SymW(big, Sz(T.sym(64, f'{lid}#clobn{b}')), None, lo, hi, o.ver),)
        for key, v in assign.items():
            if key[0] == 'm' and len(key) == 4:
                _, b, a, nb = key
                o = J.obj(b)
                o.cells[a] = (v, nb, o.ver)
        # ---- constraints
        def cellexpr(ci):
            return e_var(cellsym[ci])
        J.poly = entry.poly.copy()
        relset = []
        for r in rels:
            e = (r.get(ncell + len(oat), 0), {})
            for i, q in r.items():
                if i < ncell: e = e_add(e, cellexpr(i), q)
                elif i < ncell + len(oat): e = e_add(e, e_var(oat[i - ncell]), q)
            relset.append(e_key(e))
            J.poly.add_eq(e)
        # constraints on outer atoms that hold in every state
        kept_out = []
        if len(states) > 0:
            P0 = polys[0]
            cs = [e for e in P0.ineqs if all(outer(v) for v in e[1])]
            for v, e in P0.eqs.items():
                if outer(v) and all(outer(x) for x in e[1]):
                    d = e_add(e_var(v), e, -1)
                    cs += [d, e_scale(d, -1)]
            for e in cs:
                k = e_key(e)
                if k in entry.poly.keys: continue
                if all(P.entails_ge(e) for P in polys[1:]):
                    kept_out.append(k)
                    J.poly.add_ge(e)
        s.redefine(J)
        # inequality templates on free cells and outer atoms
        free = [ci for ci in range(ncell) if cellsym[ci] not in J.poly.eqs]
        temps = {}
        items = [('c', ci) for ci in free]
        # multiples of a free cell (a byte offset that is 64 times a block count) are compared with outer terms
        multi = []
        for ci in range(ncell):
            e = J.poly.eqs.get(cellsym[ci])
            if e is not None and len(e[1]) == 1 and all(abs(q) > 1 and v in {cellsym[c] for c in free} for v, q in e[1].items()): multi.append(('c', ci))
            elif e is not None and len(e[1]) == 2 and any(k[0] == 'phi' for k in numc[ci][0]) and any(v in {cellsym[c] for c in free} for v in e[1]): multi.append(('c', ci))
        near = set()
        for keys, base, exprs, w in numc:
            for e in exprs: near |= {v for v in e[1] if v in set(oat)}
        for P in polys:
            for e in P.ineqs:
                if len(e[1]) <= 3: near |= {v for v in e[1] if v in set(oat)}
        outs = [('o', ai) for ai, a in enumerate(oat) if a in near and a not in entry.poly.eqs][:14]
        # landmarks: outer expressions the loop compares with (kept even when an equality eliminates them)
        marks = {}
        def mark(e):
            e = entry.poly.reduce(e)
            if len(e[1]) < 2 or not all(outer(v) and abs(q) < 1 << 63 for v, q in e[1].items()): return
            k = tuple(sorted(e[1].items()))
            if len(marks) < 10: marks.setdefault(k, (0, e[1]))
        if items:
            new = [sorted(c for c in set(z.facts) - set(entry.facts) if N[c][0] == 'icmp') for z in states]
            for c in sorted(set().union(*map(set, new))):
                n = N[c]
                for x in (n[3], n[4]):
                    if N[x][0] == 'cat' and N[N[x][2][-1]][0] == 'c' and T.cval(N[x][2][-1]) == 0: x = N[x][2][0]
                    if N[x][0] == 'lin' and not outer(x):
                        # a distance to a moving position: the fixed end of it
                        o = [(a, q) for a, q in N[x][3] if a < stamp]
                        i = [(a, q) for a, q in N[x][3] if a >= stamp]
                        if not o or len(i) != 1 or i[0][1] != (1 << N[x][1]) - 1: continue
                        x = T.add(T.const(N[x][1], N[x][2]), *[T.scale(a, q) for a, q in o])
                    if N[x][0] == 'c' or not outer(x) or split_ptr(x)[0] is not None: continue
                    mark(s.toint(J, x))
            # distances seen in an iteration kept apart: distance plus position is where the position is heading
            for keys, base, exprs, w in numc:
                if base is None or w != 64 or not any(k[0] == 'phi' for k in keys): continue
                for si, z in enumerate(states):
                    for c in new[si]:
                        for x in N[c][3:5]:
                            if N[x][0] == 'lin' and N[x][1] == 64 and outer(x) and split_ptr(x)[0] is None: mark(e_add(s.toint(z, x), exprs[si]))
            outs = outs + [('t', k) for k in marks]
        mval = {(k, si): states[si].poly.reduce(e) for k, e in marks.items() for si in range(len(states))}
        def ev(it, si):
            return numc[it[1]][2][si] if it[0] == 'c' else mval[it[1], si] if it[0] == 't' else red[si][it[1]]
        def sy(it):
            return J.poly.reduce(e_var(cellsym[it[1]])) if it[0] == 'c' else J.poly.reduce(marks[it[1]]) if it[0] == 't' else e_var(oat[it[1]])
        cand = []
        for x in items:
            cand.append((x, None, 1)); cand.append((x, None, -1))
            for y in items:
                if x != y: cand.append((x, y, 1))
            for y in outs:
                cand.append((x, y, 1)); cand.append((x, y, -1))
        for ci in range(ncell):
            if cellsym[ci] in J.poly.eqs:
                # an equality eliminates the cell: its own bounds matter all the same
                if J.poly.eqs[cellsym[ci]][1]: cand.append((('c', ci), None, 1)); cand.append((('c', ci), None, -1))
        if marks:
            for ci in range(ncell):
                if ci not in free and ('c', ci) not in multi and any(k[0] == 'phi' for k in numc[ci][0]):
                    for x in marks: cand.append((('c', ci), ('t', x), 1)); cand.append((('c', ci), ('t', x), -1))
        for x in multi:
            for y in outs: cand.append((x, y, 1)); cand.append((x, y, -1))
        prevb = previnfo[1] if previnfo else None
        cand.sort(key=lambda c: c[1] is not None)
        bc = {}
        Jp = J.poly.copy()
        def bnd(it, hi):
            if (it, hi) in bc: return bc[it, hi]
            if it[0] == 'c':
                tk = (tkey(it, numc, oat), None, -1 if hi else 1)
                v = temps.get(tk)
                if v is None: v = ((1 << N[cellsym[it[1]]][1]) - 1) if hi else 0
                elif hi: v = -v
            else:
                e = J.poly.reduce(e_var(oat[it[1]])) if it[0] == 'o' else sy(it)
                v = Jp.maxval(e) if hi else Jp.minval(e)
                if not isinstance(v, int): v = None
            bc[it, hi] = v
            return v
        for x, y, sg in cand:
            tk = (tkey(x, numc, oat), tkey(y, numc, oat) if y else None, sg)
            if previnfo is not None and tk not in prevb and widen: continue
            best = None
            ok = True
            for si, P in enumerate(polys):
                # template: sg*(x - y) >= c     minimise
                e = e_scale(e_add(ev(x, si), ev(y, si) if y else e_const(0), -1), sg)
                m = P.minval(e)
                if m == 'inf': continue
                if m is None: ok = False; break
                best = m if best is None else min(best, m)
            if not ok or best is None: continue
            if previnfo is not None and tk in prevb and best < prevb[tk] and widen:
                th = [sg * x for x in (s.mon.thresholds() if s.mon is not None and y is None else ()) if sg * x <= best]
                if not th: continue
                best = max(th)
            if y is None and sg == 1 and best == 0 and cellsym[x[1]] not in J.poly.eqs: continue
            if y is not None and abs(best) >= 1 << 44: continue
            if y is None and sg == -1 and best <= -((1 << N[cellsym[x[1]]][1]) - 1): continue
            temps[tk] = best
            if y is not None:
                # nothing beyond the two intervals
                xl, yh = bnd(x, 0), bnd(y, 1)
                if sg < 0: xl, yh = bnd(y, 0), bnd(x, 1)
                if xl is not None and yh is not None and xl - yh >= best: continue
            J.poly.add_ge(e_add(e_scale(e_add(sy(x), sy(y) if y else e_const(0), -1), sg), e_const(-best)))
        gsig = tuple(sorted((tuple(map(key_str, keys))) for keys in groups.values()))
        csig = tuple(sorted((key_str(k), v[0]) for k, nmm, v in const_cells))
        info = (gsig, temps, tuple(sorted(map(str, relset))), tuple(sorted(J.facts)), csig, tuple(sorted(kept_out)),
                tuple(sorted(((b, d if d == 'all' else d[1][0]) for b, d in memdrop.items() if d == 'all' or d[1]), key=str)))
        return J, info

    def live_atoms(s, f, h, states, every):
        """atoms that registers live at block h, memory, ghosts or the monitor still refer to"""
        acc, seen = set(), set()
        live = s.live_in(f)[h]
        for z in states:
            for fr in list(z.regs.items()):
                if fr[0] in live or every:
                    for v in s.flat(fr[1]):
                        if isinstance(v, int): T.atoms(v, acc, seen)
            for v in z.g.values(): T.atoms(v, acc, seen)
            for o in z.mem.values():
                for c in o.cells.values(): T.atoms(c[0], acc, seen)
                for w in o.symw:
                    T.atoms(w.off, acc, seen)
        if s.mon is not None:
            for v in s.mon.keep(): T.atoms(v, acc, seen)
        for fr in s.frames:
            for v in fr: T.atoms(v, acc, seen)
        return acc

    def quiet_read(s, z, p, n):
        m, s.mon = s.mon, None
        try:
            return s.read(z, p, n)
        finally:
            s.mon = m

    # ------------------------------------------------------------ instructions
    def step(s, f, ins, st):
        op = ins.op
        R = st.regs
        ty = ins.ty
        if op in BINOPS:
            a, b = s.val(ins.a[0], ty, st), s.val(ins.a[1], ty, st)
            if ty.k == 'vec':
                R[ins.name] = Vec([s.bin(op, x, y, st) for x, y in zip(a, b)])
            else:
                R[ins.name] = s.bin(op, a, b, st)
            return None
        if op == 'load':
            p = s.val(ins.a[0], None, st)
            R[ins.name] = s.load(st, p, ty, ins)
            m = re.search(r'!range !(\d+)', ins.text)
            return None
        if op == 'store':
            v, p = s.val(ins.a[0], ty, st), s.val(ins.a[1], None, st)
            s.store(st, p, ty, v, ins)
            return None
        if op == 'gep':
            if ins.ty.k == 'vec': raise Unsupported('vector gep')
            R[ins.name] = s.gep(ins.x, [(t, s.val(v, t, st)) for t, v in ins.a])
            return None
        if op == 'alloca':
            aty, cnt = ins.x
            _fresh[0] += 1
            b = T.base(f'{f.name}/{ins.name}#{_fresh[0]}')
            n = 1
            if cnt is not None and cnt[0] == 'const': n = cnt[1]
            st.mem[b] = Obj(f'{ins.name}', size_of(aty) * n, 'alloca')
            st._own.add(b)
            R[ins.name] = b
            return None
        if op == 'icmp':
            a, b = s.val(ins.a[0], ty, st), s.val(ins.a[1], ty, st)
            if ty.k == 'vec': R[ins.name] = Vec([T.icmp(ins.x, x, y) for x, y in zip(a, b)])
            else: R[ins.name] = T.icmp(ins.x, a, b)
            return None
        if op == 'select':
            c = s.val(ins.a[0], ins.x, st)
            a, b = s.val(ins.a[1], ty, st), s.val(ins.a[2], ty, st)
            if isinstance(c, Vec):
                R[ins.name] = Vec([T.ite(k, x, y) for k, x, y in zip(c, a, b)])
                return None
            if ty.k == 'int' and ty.w == 1:
                R[ins.name] = T.or_(T.and_(c, a), T.and_(T.not_(c), b))
                return None
            if WATCH: s.watch('select', c, ins)
            if s.mon: s.mon.on_select(s, st, c, ins)
            d = s.decide(st, c)
            if d is not None:
                R[ins.name] = a if d else b
                return None
            if a == b:
                R[ins.name] = a
                return None
            if s.mon and s.mon.ifconv and ty.k == 'int':
                R[ins.name] = T.ite(c, a, b)
                return None
            st2 = st.copy()
            o = []
            for y in s.assume(st, c, True):
                y.regs[ins.name] = a; o.append(y)
            for y in s.assume(st2, c, False):
                y.regs[ins.name] = b; o.append(y)
            return o
        if op in ('zext', 'sext', 'trunc'):
            v = s.val(ins.a[0], ins.x, st)
            if ty.k == 'vec':
                w = ty.el.w
                R[ins.name] = Vec([T.zext(x, w) if op != 'sext' else T.sext(x, w) for x in v])
            else:
                R[ins.name] = T.zext(v, ty.w) if op != 'sext' else s.sext(st, v, ty.w)
            return None
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            v = s.val(ins.a[0], ins.x, st)
            R[ins.name] = T.zext(v, 64) if op == 'inttoptr' else (T.ext(v, 0, ty.w) if ty.k == 'int' and ty.w < 64 else v)
            return None
        if op == 'bitcast':
            R[ins.name] = s.bitcast(s.val(ins.a[0], ins.x, st), ins.x, ty)
            return None
        if op == 'call': return s.do_call(f, ins, st)
        if op == 'extractvalue':
            v = s.val(ins.a[0], ty, st)
            for i in ins.x: v = v[i]
            R[ins.name] = v
            return None
        if op == 'insertvalue':
            v = s.val(ins.a[0], ty, st)
            idx, t2 = ins.x
            w = s.val(ins.a[1], t2, st)
            R[ins.name] = ins_val(v, idx, w)
            return None
        if op == 'extractelement':
            v = s.val(ins.a[0], ty, st)
            i = ins.a[1]
            i = s.val(i, _I64, st) if i[0] != 'const' else T.const(64, i[1])
            if not T.is_const(i): raise Unsupported('variable extractelement')
            R[ins.name] = v[T.cval(i)]
            return None
        if op == 'insertelement':
            v = s.val(ins.a[0], ty, st)
            e = s.val(ins.a[1], ty.el, st)
            i = ins.a[2]
            i = s.val(i, _I64, st) if i[0] != 'const' else T.const(64, i[1])
            if not T.is_const(i): raise Unsupported('variable insertelement')
            v = list(v)
            v[T.cval(i)] = e
            R[ins.name] = Vec(v)
            return None
        if op == 'shufflevector':
            vt, mask = ins.x
            a, b = s.val(ins.a[0], vt, st), s.val(ins.a[1], vt, st)
            n = vt.n
            R[ins.name] = Vec([(a[m] if m < n else b[m - n]) if m is not None else s.undef(bits_of(vt.el)) for m in mask])
            return None
        if op == 'freeze':
            R[ins.name] = s.val(ins.a[0], ty, st)
            return None
        if op == 'undefval':
            return None
        raise Unsupported(f'instruction {op} in {f.name}: {ins.text[:100]}')

    def bitcast(s, v, ft, tt):
        if ft.k != 'vec' and tt.k != 'vec': return v
        if ft.k == 'vec' and tt.k == 'vec' and ft.n == tt.n: return v
        whole_parts = list(v) if ft.k == 'vec' else [v]
        fw = bits_of(ft.el) if ft.k == 'vec' else bits_of(ft)
        if tt.k != 'vec': return T.cat(whole_parts)
        tw = bits_of(tt.el)
        out = []
        if tw > fw:
            k = tw // fw
            for i in range(0, len(whole_parts), k): out.append(T.cat(whole_parts[i:i + k]))
        else:
            k = fw // tw
            for x in whole_parts:
                for j in range(k): out.append(T.ext(x, j * tw, tw))
        return Vec(out)

    def bin(s, op, a, b, st):
        if op == 'add': return T.or_(a, b) if T.disjoint(a, b) else T.add(a, b)
        if op == 'sub': return T.sub(a, b)
        if op == 'mul': return T.mul(a, b)
        if op == 'xor': return T.xor(a, b)
        if op == 'and':
            if N[a][1] > 8 and T.is_const(b) and T.cval(b) in (63, 31): # shift amount masks
                ea = s.toint(st, a)
                if st.poly.entails_ge(e_add(e_const(T.cval(b)), ea, -1)): return a
            return T.and_(a, b)
        if op == 'or': return T.or_(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            k = T.cval(b)
            if k is None:
                k = s.const_of(st, b)
            if k is None:
                return T.fn(N[a][1], op, a, b)
            if op == 'shl':
                if T.is_const(a) or True: return T.shl(a, k)
            if op == 'lshr': return T.lshr(a, k)
            if T.is_const(a): return T.const(N[a][1], T.sval(a) >> k)
            e = s.toint(st, a)
            if st.poly.entails_ge(e_add(e_const((1 << (N[a][1] - 1)) - 1), e, -1)): return T.lshr(a, k)
            return T.fn(N[a][1], 'ashr', a, b)
        if op == 'udiv': return T.udiv(a, b)
        if op == 'urem': return T.urem(a, b)
        return T.fn(N[a][1], op, a, b)

    # ------------------------------------------------------------ calls
    def do_call(s, f, ins, st):
        cal = ins.x['callee']
        if cal[0] == 'glob':
            name = cal[1]
            name = s.mod.aliases.get(name, name)
        elif cal[0] == 'reg':
            t = st.regs.get(cal[1])
            n = N[t] if isinstance(t, int) else None
            if n and n[0] == 'base' and n[2].startswith('@'): name = n[2][1:]
            else:
                name = None
        elif cal[0] == 'asm':
            return s.asm(f, ins, st)
        else: name = None
        if name is None:
            if s.mon:
                r = s.mon.on_indirect(s, st, ins)
                if r is not None: return r
            raise Unsupported(f'indirect call in {f.name}: {ins.text[:120]}')
        if name.startswith('llvm.'):
            r = s.intrinsic(f, name, ins, st)
            return r
        args = None
        for pat, h in s.prims.items():
            if pat.search(name):
                args = [s.val(v, t, st) if t.k != 'metadata' else None for t, v in ins.a]
                out = h(s, st, ins, args, name)
                if out is None: continue
                res = []
                for z, rv in out:
                    if ins.name is not None: z.regs[ins.name] = rv
                    res.append(z)
                return res
        if WATCH and name in ('memcmp', 'bcmp') and name not in s.mod.fns:
            s.report('ct', f'{name} runs until the first difference between its operands', ins)
            if ins.name is not None: st.regs[ins.name] = fresh(32, 'comparison')
            return None
        if name in s.mod.fns and name not in s.mod.noret:
            args = [s.val(v, t, st) for t, v in ins.a]
            out = []
            for z, rv in s.call(name, args, st):
                if ins.name is not None: z.regs[ins.name] = rv
                out.append(z)
            return out
        if 'noreturn' in ins.x['rest'] or name in s.mod.noret:
            if s.mon: s.mon.on_panic(s, st, name, ins)
            return []
        raise Unsupported(f'call of unknown function {name} in {f.name}')

    def asm(s, f, ins, st):
        raise Unsupported(f'inline assembly in {f.name}')

    def intrinsic(s, f, name, ins, st):
        R = st.regs
        V = lambda i: s.val(ins.a[i][1], ins.a[i][0], st)
        b = name.split('.')
        k = b[1]
        if k == 'lifetime':
            # the contents are undefined outside the lifetime
            b, off = split_ptr(V(len(ins.a) - 1))
            o = st.mem.get(b)
            if o is not None and o.kind == 'alloca' and (o.cells or o.symw):
                o = st.obj(b)
                o.ver += 1
                o.cells, o.symw = {}, ()
            return None
        if k in ('dbg', 'experimental', 'donothing', 'prefetch', 'assume', 'invariant', 'var', 'stackrestore', 'stacksave', 'sideeffect'):
            if k == 'assume':
                c = V(0)
                if isinstance(c, int): return s.assume(st, c, True)
            return None
        if k in ('trap', 'ubsantrap'): return []
        if k == 'expect':
            R[ins.name] = V(0); return None
        if k in ('memcpy', 'memmove'):
            d, sr, n = V(0), V(1), V(2)
            return s.memcpy(st, d, sr, n, ins)
        if k == 'memset':
            d, v, n = V(0), V(1), V(2)
            nv = s.const_of(st, n)
            if nv is not None:
                if nv: s.write(st, d, [(i, T.cat([v] * min(8, nv - i)), min(8, nv - i)) for i in range(0, nv, 8)], nv, ins)
            else:
                s.write(st, d, None, mksz(n), ins, tag=('set', v))
            return None
        if k in ('fshl', 'fshr'):
            a, c, sh = V(0), V(1), V(2)
            def one(x, y, z):
                kk = s.const_of(st, z)
                if kk is None: return T.fn(N[x][1], k, x, y, z)
                return T.fsh(x, y, kk, k == 'fshr')
            R[ins.name] = Vec([one(*q) for q in zip(a, c, sh)]) if isinstance(a, Vec) else one(a, c, sh)
            return None
        if k in ('umin', 'umax', 'smin', 'smax'):
            a, c = V(0), V(1)
            if isinstance(a, Vec): raise Unsupported(name)
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
            cond = T.icmp(p, a, c)
            d = s.decide(st, cond)
            if d is not None:
                R[ins.name] = a if d else c
                return None
            st2 = st.copy()
            o = []
            for y in s.assume(st, cond, True): y.regs[ins.name] = a; o.append(y)
            for y in s.assume(st2, cond, False): y.regs[ins.name] = c; o.append(y)
            return o
        if k == 'usub' and b[2] == 'sat':
            a, c = V(0), V(1)
            cond = T.icmp('ult', a, c)
            d = s.decide(st, cond)
            st2 = st.copy()
            o = []
            for y in s.assume(st, cond, True): y.regs[ins.name] = T.const(N[a][1], 0); o.append(y)
            for y in s.assume(st2, cond, False): y.regs[ins.name] = T.sub(a, c); o.append(y)
            return o
        if k == 'uadd' and b[2] == 'sat':
            a, c = V(0), V(1)
            if isinstance(a, Vec): raise Unsupported(name)
            w = N[a][1]
            cond = T.icmp('ugt', a, T.const(w, (1 << w) - 1 - T.cval(c))) if T.cval(c) is not None else T.icmp('ult', T.sub(T.const(w, (1 << w) - 1), a), c)
            st2 = st.copy()
            o = []
            for y in s.assume(st, cond, True): y.regs[ins.name] = T.const(w, (1 << w) - 1); o.append(y)
            for y in s.assume(st2, cond, False): y.regs[ins.name] = T.add(a, c); o.append(y)
            return o
        if k in ('uadd', 'usub', 'umul') and b[2] == 'with':
            a, c = V(0), V(1)
            r = {'uadd': T.add, 'usub': T.sub, 'umul': T.mul}[k](a, c)
            if k == 'usub': ov = T.icmp('ult', a, c)
            elif k == 'uadd':
                ea, ec = s.toint(st, a), s.toint(st, c)
                mx = st.poly.maxval(e_add(ea, ec))
                ov = T.const(1, 0) if isinstance(mx, int) and mx < 1 << N[a][1] else T.icmp('ult', r, a)
            else:
                ov = None
                if T.is_const(a) or T.is_const(c):
                    kk, x = (T.cval(a), c) if T.is_const(a) else (T.cval(c), a)
                    mx = st.poly.maxval(e_scale(s.toint(st, x), kk))
                    if isinstance(mx, int) and mx < 1 << N[a][1]: ov = T.const(1, 0)
                if ov is None: ov = T.fn(1, 'mulov', a, c)
            R[ins.name] = Agg([r, ov])
            return None
        if k == 'ctpop':
            a = V(0)
            r = s.mon.on_ctpop(s, st, a) if s.mon and not T.is_const(a) else None
            R[ins.name] = r if r is not None else T.const(N[a][1], bin(T.cval(a)).count('1')) if T.is_const(a) else T.fn(N[a][1], 'ctpop', a)
            return None
        if k in ('ctlz', 'cttz'):
            a = V(0)
            t = T.fn(N[a][1], k, a)
            if T.is_const(a):
                v = T.cval(a); w = N[a][1]
                t = T.const(w, w - v.bit_length() if k == 'ctlz' else ((v & -v).bit_length() - 1 if v else w))
            else:
                e = s.toint(st, t)
                if not e[1]: t = T.const(N[a][1], e[0])
            R[ins.name] = t
            return None
        if k == 'bswap':
            a = V(0)
            nb = N[a][1] // 8
            R[ins.name] = T.cat([T.byte(a, nb - 1 - i) for i in range(nb)])
            return None
        if k in ('is', 'objectsize'):
            R[ins.name] = T.const(bits_of(ins.ty), 0); return None
        if k in ('ptrmask', 'threadlocal'): raise Unsupported(name)
        if k in ('x86', 'aarch64', 'arm', 'vector'):
            from . import simd
            r = simd.intrinsic(s, st, name, ins, [s.val(v, t, st) for t, v in ins.a])
            R[ins.name] = r
            return None
        if k == 'bitreverse' or k == 'abs': raise Unsupported(name)
        raise Unsupported(f'intrinsic {name} in {f.name}')

    def memcpy(s, st, d, sr, n, ins):
        if WATCH:
            s.watch('copy length', n, ins)
            for x in (d, sr): s.watch('copy address', split_ptr(x)[1] if split_ptr(x)[0] is not None else x, ins)
        nv = s.const_of(st, n)
        if nv == 0: return None
        if nv is not None and nv <= 4096:
            if s.mon: s.mon.on_copy(s, st, d, sr, n, nv, ins)
            cells = s.read_cells(st, sr, nv, ins)
            s.write(st, d, cells, nv, ins)
            return None
        if s.mon: s.mon.on_copy(s, st, d, sr, n, None, ins)
        sb = split_ptr(sr)[0]
        so = st.mem.get(sb)
        s.write(st, d, None, mksz(n), ins, tag=('copy', sr, so.ver if so is not None else 0))
        return None


class Monitor:
    """base class of rule monitors"""
    def on_write(s, E, st, b, off, size, cells, ins): pass
    def on_read(s, E, st, b, off, n, ins): pass
    def on_copy(s, E, st, d, sr, n, nv, ins): pass
    def on_branch(s, E, st, c, ins): pass
    def on_select(s, E, st, c, ins): pass
    def on_header(s, E, f, h, st): return [st]
    def on_back(s, E, f, h, st): return [st]
    def on_panic(s, E, st, name, ins): pass
    def on_unreachable(s, E, st, ins): pass
    def on_indirect(s, E, st, ins): return None
    def vwrite(s, E, st, b, off, size, cells, tag, ins): return False   # region kept by the monitor: True = handled
    def vread(s, E, st, b, off, n, ins): return None
    def on_ctpop(s, E, st, a): return None
    ifconv = False      # join the sides of a condition again where they meet, values becoming conditional
    def tabulate(s, E, st, c): return None
    def merge_exits(s, f, h): return False
    def ghost_number(s, k): return True
    def keep(s): return None
    def exit_key(s, E, st, regs): return None
    def thresholds(s): return ()        # upper bounds worth trying before one is given up
    def fills(s, E, f, h): return False
    def deps(s, a): return ()           # terms the meaning of an atom depends on


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
from .llir import ity
_I64 = ity(64)


def numeric_shape(v):
    n = N[v]
    if n[0] in ('c', 'sym', 'base'): return True
    if n[0] == 'ext': return N[n[2]][1] <= 64
    if n[0] == 'fn': return n[2] in ('ctpop', 'ctlz', 'udiv', 'urem')
    if n[0] == 'cat': return N[n[2][-1]][0] == 'c' or all(N[x][0] == 'm' for x in n[2])
    if n[0] == 'lin': return len(n[3]) <= 12 and all(N[a][0] != 'lin' and numeric_shape(a) for a, _ in n[3])
    return False


def ins_val(v, idx, w):
    v = list(v)
    if len(idx) == 1: v[idx[0]] = w
    else: v[idx[0]] = ins_val(v[idx[0]], idx[1:], w)
    return Agg(v)


def key_str(k):
    return '/'.join(str(x) if not (isinstance(x, int) and i == 1 and k[0] == 'm') else T.show(x) for i, x in enumerate(k))


def tkey(it, numc, oat):
    return ('c',) + tuple(map(key_str, numc[it[1]][0])) if it[0] == 'c' else it if it[0] == 't' else ('o', oat[it[1]])


def nullspace(rows, n, ncell):
    """integer basis of {x : rows.x = 0}; prefers vectors that solve one cell with unit coefficient
    in terms of later columns.  Vectors without any cell component are dropped."""
    F = Fraction
    # order columns so that pivots fall on ... we compute RREF with columns ordered normally; free columns generate basis
    mat = [{c: F(v) for c, v in r.items() if v} for r in rows]
    piv = {}
    for r in mat:
        r = dict(r)
        for c in sorted(r):
            if c in r and r[c] and c in piv:
                q = r[c]
                for c2, v2 in piv[c].items():
                    r[c2] = r.get(c2, F(0)) - q * v2
                    if r[c2] == 0: del r[c2]
        if not r: continue
        # after one sweep some pivots may remain; loop until clean
        while True:
            hit = [c for c in r if c in piv]
            if not hit: break
            c = hit[0]
            q = r[c]
            for c2, v2 in piv[c].items():
                r[c2] = r.get(c2, F(0)) - q * v2
                if r[c2] == 0: del r[c2]
        if not r: continue
        c0 = min(r)
        q = r[c0]
        r = {c: v / q for c, v in r.items()}
        for c in list(piv):
            if c0 in piv[c]:
                q = piv[c][c0]
                for c2, v2 in r.items():
                    piv[c][c2] = piv[c].get(c2, F(0)) - q * v2
                    if piv[c][c2] == 0: del piv[c][c2]
        piv[c0] = r
    out = []
    basis = []
    for fcol in range(n):
        if fcol in piv: continue
        v = {fcol: F(1)}
        for c, r in piv.items():
            if fcol in r: v[c] = -r[fcol]
        basis.append(v)
    # reduce basis so that each vector is pivoted on a distinct cell (last cells first)
    B = basis
    done = []
    used = set()
    for col in range(ncell - 1, -1, -1):
        p = next((b for b in B if col in b), None)
        if p is None: continue
        B.remove(p)
        q = p[col]
        p = {c: v / q for c, v in p.items()}
        for lst in (B, done):
            for i, b in enumerate(lst):
                if col in b:
                    k = b[col]
                    nb = dict(b)
                    for c, v in p.items():
                        nb[c] = nb.get(c, F(0)) - k * v
                        if nb[c] == 0: del nb[c]
                    lst[i] = nb
        done.append(p)
    for b in done:
        den = 1
        for v in b.values():
            d = v.denominator
            from math import gcd
            den = den * d // gcd(den, d)
        out.append({c: int(v * den) for c, v in b.items()})
    return out
