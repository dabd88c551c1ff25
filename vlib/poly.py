"""Integer linear expressions and a small exact polyhedra domain.

An expression is (const, {var: coef}); variables are term ids standing for
non-negative mathematical integers below 2^width(term).
Constraints are kept as solved equalities (var -> expr, unit pivots) plus a
list of inequalities e >= 0, tightened over the integers.
"""
from fractions import Fraction
from math import gcd
from . import terms as T
from . import lp


def e_const(c): return (c, {})
def e_var(v): return (0, {v: 1})

def e_add(a, b, k=1):
    d = dict(a[1])
    for v, c in b[1].items():
        x = d.get(v, 0) + k * c
        if x: d[v] = x
        else: d.pop(v, None)
    return (a[0] + k * b[0], d)

def e_scale(a, k):
    if k == 0: return (0, {})
    return (a[0] * k, {v: c * k for v, c in a[1].items()})

def e_key(a): return (a[0], tuple(sorted(a[1].items())))


def simplex_min(obj, rows, force_python=False):
    """min obj.x  s.t. rows (c + a.x >= 0), x >= 0, by the simplex method with exact
    integer pivoting (one common denominator).  Returns (value, solution),
    (None, None) if unbounded, ('inf', None) if infeasible."""
    vs = sorted({v for r in rows for v in r[1]} | set(obj[1]))
    n = len(vs)
    ix = {v: i for i, v in enumerate(vs)}
    if lp.lp_min is not None and not force_python:
        r = lp.solve(obj, rows, vs, ix)
        if r is not None:
            if r[0] == 'ok': return Fraction(r[1], r[2]), {v: Fraction(x, r[2]) for v, x in r[3].items()}
            return ('inf', None) if r[0] == 'inf' else (None, None)
    A = []                          # D * basic_i = A[i][-1] + sum A[i][j] * nonbasic_j
    for c, d in rows:
        r = [0] * (n + 1)
        for v, k in d.items(): r[ix[v]] = k
        r[n] = c
        A.append(r)
    m = len(A)
    main = [0] * (n + 1)
    for v, k in obj[1].items(): main[ix[v]] = -k
    main[n] = -obj[0]
    nb = list(range(n))
    bs = list(range(n, n + m))
    st = [1]

    def pivot(r, s, objs):
        D = st[0]
        Ar = A[r]
        p = Ar[s]
        sg = 1 if p > 0 else -1
        W = len(Ar)
        nz = [j for j in range(W) if Ar[j] and j != s]
        same = p * sg == D
        for R in [A[i] for i in range(m) if i != r] + objs:
            f = R[s]
            if same:
                if f:
                    # (p*R - f*Ar)/D with p = sg*D
                    g = f if sg > 0 else -f
                    # new = sg*((p R_j - f Ar_j)/D) = R_j - sg*f*Ar_j/D
                    for j in nz:
                        R[j] = (R[j] * D - g * Ar[j]) // D
                    R[s] = f * sg
            else:
                if f:
                    for j in range(W):
                        if j != s:
                            x = R[j] * p - f * Ar[j]
                            R[j] = sg * (x // D) if x else 0
                    R[s] = f * sg
                else:
                    for j in range(W):
                        x = R[j]
                        if x: R[j] = sg * (x * p // D)
        for j in nz: Ar[j] = -sg * Ar[j]
        Ar[s] = sg * D
        st[0] = p * sg
        nb[s], bs[r] = bs[r], nb[s]

    def optimise(o, objs):
        it = 0
        while True:
            it += 1
            if it > 5000: raise RuntimeError('simplex loop')
            k = len(nb)
            s = None
            if it < 60:
                best = 0
                for j in range(k):
                    if o[j] > best: best = o[j]; s = j
            else:
                for j in range(k):
                    if o[j] > 0 and (s is None or nb[j] < nb[s]): s = j
            if s is None: return True
            r = None; bn = bd = None
            for i in range(m):
                a = A[i][s]
                if a < 0:
                    q = A[i][-1]
                    if r is None or q * bd < bn * -a or (q * bd == bn * -a and bs[i] < bs[r]):
                        bn, bd, r = q, -a, i
            if r is None: return False
            pivot(r, s, objs)

    if m and min(r[-1] for r in A) < 0:
        x0 = n + m
        for r in A: r.insert(n, 1)
        nb.append(x0)
        main.insert(n, 0)
        aux = [0] * (n + 2)
        aux[n] = -1
        r = min(range(m), key=lambda i: A[i][-1])
        pivot(r, n, [main, aux])
        optimise(aux, [main, aux])
        if aux[-1] < 0: return 'inf', None
        if x0 in bs:
            r = bs.index(x0)
            s = next((j for j in range(len(nb)) if A[r][j] != 0), None)
            if s is not None: pivot(r, s, [main, aux])
        if x0 in nb:
            j = nb.index(x0)
            for r in A: r.pop(j)
            main.pop(j)
            nb.pop(j)
    if not optimise(main, [main]): return None, None
    D = st[0]
    sol = {}
    for i in range(m):
        if bs[i] < n: sol[vs[bs[i]]] = Fraction(A[i][-1], D)
    return Fraction(-main[-1], D), sol


def bounded_min(obj, rows, vs):
    """as simplex_min, with every variable at most 2^width - 1; the bounds are added when they matter"""
    have = set()
    while True:
        ext = [((1 << T.width(v)) - 1, {v: -1}) for v in have]
        r, sol = simplex_min(obj, rows + ext)
        if r == 'inf': return r
        if r is None:
            new = set(vs) - have
            neg = {v for v, q in obj[1].items() if q < 0} - have
            if not new: return None
            have |= new
            continue
        bad = {v for v, x in sol.items() if x > (1 << T.width(v)) - 1} - have
        if not bad: return r
        have |= bad


class Poly:
    __slots__ = ('eqs', 'ineqs', 'bot', 'cache', 'keys')

    def __init__(s):
        s.eqs = {}
        s.ineqs = []
        s.keys = set()
        s.bot = False
        s.cache = {}

    def copy(s):
        p = Poly()
        p.eqs = dict(s.eqs)
        p.ineqs = list(s.ineqs)
        p.keys = set(s.keys)
        p.bot = s.bot
        p.cache = s.cache      # shared until modified
        return p

    def reduce(s, e):
        c, d = e
        if not any(v in s.eqs for v in d): return e
        r = (c, {})
        for v, k in d.items():
            q = s.eqs.get(v)
            r = e_add(r, q if q is not None else (0, {v: 1}), k)
        return r

    def add_ge(s, e):
        """e >= 0"""
        e = s.reduce(e)
        c, d = e
        if not d:
            if c < 0: s.bot = True
            return
        g = 0
        for k in d.values(): g = gcd(g, k)
        if g > 1: e = (c // g, {v: k // g for v, k in d.items()})
        # trivial by bounds?
        k = e_key(e)
        if k in s.keys: return
        if len(e[1]) == 1:
            (v, q), = e[1].items()
            if q > 0 and e[0] >= 0: return
            if q < 0 and e[0] + q * ((1 << T.width(v)) - 1) >= 0: return
        if any(abs(q) == 1 for q in e[1].values()) and e_key(e_scale(e, -1)) in s.keys:
            return s.add_eq(e)
        s.keys.add(k)
        s.ineqs = s.ineqs + [e]
        s.cache = {}

    def add_eq(s, e):
        e = s.reduce(e)
        c, d = e
        if not d:
            if c != 0: s.bot = True
            return
        g = 0
        for k in d.values(): g = gcd(g, k)
        if c % g: s.bot = True; return
        if g > 1: c, d = c // g, {v: k // g for v, k in d.items()}
        piv = None
        for v in sorted(d, reverse=True):
            if abs(d[v]) == 1: piv = v; break
        if piv is None:
            s.add_ge((c, dict(d))); s.add_ge((-c, {v: -k for v, k in d.items()}))
            return
        k = d[piv]
        rhs = e_scale((c, {v: q for v, q in d.items() if v != piv}), -k)  # piv = -k*(rest) as k=±1
        s._set_eq(piv, rhs)

    def _set_eq(s, piv, rhs):
        s.cache = {}
        for v in list(s.eqs):
            e = s.eqs[v]
            if piv in e[1]:
                q = e[1][piv]
                s.eqs[v] = e_add((e[0], {x: y for x, y in e[1].items() if x != piv}), rhs, q)
        s.eqs[piv] = rhs
        old = s.ineqs
        s.ineqs = []
        s.keys = set()
        for e in old: s.add_ge(e)
        # pivot's own range
        s.add_ge(rhs)
        s.add_ge(e_add(e_const((1 << T.width(piv)) - 1), rhs, -1))

    def forget(s, dead):
        """project out variables nothing refers to any more (Fourier-Motzkin, where that stays small)"""
        for v in [v for v in s.eqs if v in dead]: del s.eqs[v]
        used = set()
        for e in s.eqs.values(): used |= set(e[1])
        todo = {v for e in s.ineqs for v in e[1] if v in dead and v not in used}
        while todo:
            cost = {}
            for v in todo:
                lo = sum(1 for e in s.ineqs if e[1].get(v, 0) > 0)
                hi = sum(1 for e in s.ineqs if e[1].get(v, 0) < 0)
                cost[v] = ((lo + 1) * hi - lo - hi, lo, hi)
            v = min(todo, key=lambda x: (cost[x], x))
            todo.discard(v)
            lo = [e for e in s.ineqs if e[1].get(v, 0) > 0]
            hi = [e for e in s.ineqs if e[1].get(v, 0) < 0]
            if cost[v][0] > (8 if len(s.ineqs) < 60 else 40): continue
            new = []
            for b in hi:
                for a in lo + [(0, {v: 1})]:
                    new.append(e_add(e_scale(a, -b[1][v]), b, a[1][v]))
            s.ineqs = [e for e in s.ineqs if v not in e[1]]
            s.keys = {e_key(e) for e in s.ineqs}
            for e in new: s.add_ge(e)
        s.cache = {}

    def tidy(s):
        """drop inequalities the others imply"""
        i = 0
        while i < len(s.ineqs):
            e = s.ineqs[i]
            if len(e[1]) > 1:
                rest = Poly()
                rest.ineqs = s.ineqs[:i] + s.ineqs[i + 1:]
                rows, vs = rest.component(e)
                # over the rationals: what only rounding implies is worth keeping
                r = bounded_min(e, rows, vs) if rows else None
                if r is not None and (r == 'inf' or r >= 0):
                    s.ineqs = rest.ineqs
                    s.keys.discard(e_key(e))
                    continue
            i += 1
        s.cache = {}

    def component(s, e):
        """inequalities connected with the variables of e, and all their variables"""
        comp = s.cache.get('comp')
        if comp is None:
            parent = {}
            def find(x):
                while parent[x] != x:
                    parent[x] = parent[parent[x]]
                    x = parent[x]
                return x
            for r in s.ineqs:
                it = iter(r[1])
                a = next(it)
                parent.setdefault(a, a)
                a = find(a)
                for b in it:
                    parent.setdefault(b, b)
                    b = find(b)
                    if a != b: parent[b] = a
            groups = {}
            for v in parent: groups.setdefault(find(v), ([], set()))[1].add(v)
            for r in s.ineqs: groups[find(next(iter(r[1])))][0].append(r)
            comp = s.cache['comp'] = {v: groups[find(v)] for v in parent}
        rows, vs, seen = [], set(e[1]), set()
        for v in e[1]:
            g = comp.get(v)
            if g is None or id(g) in seen: continue
            seen.add(id(g))
            rows += g[0]
            vs |= g[1]
        return rows, vs

    def minval(s, e):
        """greatest integer lower bound found for e, or None if unbounded; 'inf' if infeasible"""
        if s.bot: return 'inf'
        e = s.reduce(e)
        if not e[1]: return e[0]
        if e[0]:
            m = s.minval((0, e[1]))
            return m + e[0] if isinstance(m, int) else m
        k = tuple(sorted(e[1].items()))
        if k in s.cache: return s.cache[k]
        # quick interval bound
        lo = e[0]
        for v, q in e[1].items():
            if q < 0: lo += q * ((1 << T.width(v)) - 1)
        rows, vs = s.component(e)
        if not rows:
            s.cache[k] = lo
            return lo
        r = bounded_min(e, rows, vs)
        if r == 'inf': pass
        elif r is None: r = None
        else:
            import math
            r = math.ceil(r)
        s.cache[k] = r
        return r

    def maxval(s, e):
        m = s.minval(e_scale(e, -1))
        return m if m in (None, 'inf') else -m

    def entails_ge(s, e):
        m = s.minval(e)
        return m == 'inf' or (m is not None and m >= 0)

    def entails_eq(s, e):
        e = s.reduce(e)
        if not e[1]: return e[0] == 0 or s.bot
        return s.entails_ge(e) and s.entails_ge(e_scale(e, -1))

    def feasible(s):
        if s.bot: return False
        # check each component
        seen = set()
        for r in s.ineqs:
            if any(v in seen for v in r[1]): continue
            m = s.minval(r)
            seen.update(s.component(r)[1])
            if m == 'inf': s.bot = True; return False
        return True
