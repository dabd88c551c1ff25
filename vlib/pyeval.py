"""Abstract evaluation of the Python port's compression function over its
syntax tree: integers are normal-form terms with a bound on their bit length,
so Python's unbounded arithmetic is modelled exactly."""
import ast, os
from . import build, terms as T, spec
from .ai import Unsupported

W = 256


class S:
    """the natural number zext(t); b bounds its bit length"""
    __slots__ = ('t', 'b')

    def __init__(s, t, b):
        if b > W: raise Unsupported('Python integer may exceed the modelled width')
        s.t, s.b = t, b


def sym(w, n): return S(T.sym(w, n), w)


def lift(x):
    if isinstance(x, S): return x
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int) and x >= 0: return S(T.const(max(x.bit_length(), 1), x), x.bit_length())
    raise Unsupported(f'value {type(x).__name__} in arithmetic')


def trunc(t, k):
    """low k bits; a sum is truncated summand by summand"""
    w = T.width(t)
    if k >= w: return T.zext(t, k)
    c, d = T.lin_parts(t)
    if len(d) + (c != 0) > 1 or any(m != 1 for m in d.values()):
        return T.add(T.const(k, c & ((1 << k) - 1)), *[T.scale(trunc(x, k), m & ((1 << k) - 1)) for x, m in d.items()])
    return T.ext(t, 0, k)


def at(s, w): return T.zext(s.t, w) if T.width(s.t) <= w else trunc(s.t, w)


def simp(s):
    v = T.cval(s.t)
    return v if v is not None else s


def binop(op, a, b):
    if isinstance(a, int) and isinstance(b, int) or isinstance(a, (list, bytes, str, tuple)) or isinstance(b, (list, bytes, str, tuple)):
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b,
                ast.BitXor: lambda: a ^ b, ast.Pow: lambda: a ** b}[op]()
    if op in (ast.LShift, ast.RShift):
        if not isinstance(b, int): raise Unsupported('symbolic shift')
        if b < 0: raise Unsupported('negative shift')
        a = lift(a)
        if b == 0: return a
        if op is ast.LShift:
            if a.b + b > W: raise Unsupported('Python integer may exceed the modelled width')
            return simp(S(T.cat([T.const(b, 0), at(a, a.b)]), a.b + b))
        if b >= a.b: return 0
        return simp(S(T.ext(at(a, a.b), b, a.b - b), a.b - b))
    if op in (ast.Mod, ast.FloorDiv) and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        return binop(ast.BitAnd, a, b - 1) if op is ast.Mod else binop(ast.RShift, a, b.bit_length() - 1)
    if op is ast.Mult:
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int) and b >= 0: return simp(S(T.scale(at(a, W), b), a.b + b.bit_length()))
        raise Unsupported('symbolic product')
    if op is ast.BitAnd:
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and y >= 0 and y & (y + 1) == 0:      # x mod 2^k
                k = y.bit_length()
                if k == 0: return 0
                x = lift(x)
                return x if x.b <= k else simp(S(trunc(x.t, k), k))
    a, b = lift(a), lift(b)
    if op is ast.Add: return simp(S(T.add(at(a, W), at(b, W)), max(a.b, b.b) + 1))
    w = max(a.b, b.b, 1)
    if op is ast.BitXor: return simp(S(T.xor(at(a, w), at(b, w)), w))
    if op is ast.BitOr: return simp(S(T.or_(at(a, w), at(b, w)), w))
    if op is ast.BitAnd: return simp(S(T.and_(at(a, w), at(b, w)), min(a.b, b.b)))
    raise Unsupported(f'operator {op.__name__}')


class Ret(Exception):
    def __init__(s, v): s.v = v


class Brk(Exception): pass
class Cont(Exception): pass


class Ev:
    def __init__(s, tree):
        s.glob = {}
        s.fns = {}
        s.steps = 0
        s.calls = set()
        for n in tree.body:
            if isinstance(n, ast.FunctionDef): s.fns[n.name] = n
        for n in tree.body:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                try: s.stmt(n, s.glob)
                except Unsupported: pass

    def call(s, name, args, kw=None):
        f = s.fns[name]
        s.calls.add(name)
        env = {}
        ps = [a.arg for a in f.args.args]
        if f.args.vararg or f.args.kwarg or f.args.kwonlyargs: raise Unsupported('argument forms')
        for p, d in zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults): env[p] = s.ex(d, s.glob)
        for p, a in zip(ps, args): env[p] = a
        env.update(kw or {})
        if set(ps) - set(env): raise Unsupported(f'missing argument of {name}')
        try:
            for st in f.body: s.stmt(st, env)
        except Ret as r:
            return r.v
        return None

    def truth(s, v):
        if isinstance(v, S): raise Unsupported('branch on symbolic data')
        return bool(v)

    def assign(s, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            if len(v) != len(t.elts): raise Unsupported('unpacking')
            for a, b in zip(t.elts, v): s.assign(a, b, env)
        elif isinstance(t, ast.Subscript):
            o = s.ex(t.value, env)
            if not isinstance(o, list): raise Unsupported('item assignment')
            if isinstance(t.slice, ast.Slice):
                o[s.slice(t.slice, env)] = list(v)
            else:
                i = s.ex(t.slice, env)
                if not isinstance(i, int): raise Unsupported('symbolic index')
                if not -len(o) <= i < len(o): raise Unsupported('index out of range')
                o[i] = v
        else: raise Unsupported(f'assignment to {type(t).__name__}')

    def slice(s, n, env):
        g = lambda x: None if x is None else s.ex(x, env)
        r = [g(n.lower), g(n.upper), g(n.step)]
        if any(isinstance(x, S) for x in r): raise Unsupported('symbolic slice')
        return slice(*r)

    def stmt(s, n, env):
        s.steps += 1
        if s.steps > 500000: raise Unsupported('too many steps')
        k = type(n)
        if k is ast.Expr: s.ex(n.value, env)
        elif k is ast.Assign:
            v = s.ex(n.value, env)
            for t in n.targets: s.assign(t, v, env)
        elif k is ast.AnnAssign:
            if n.value is not None: s.assign(n.target, s.ex(n.value, env), env)
        elif k is ast.AugAssign:
            ld = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n)
            v = s.ex(ld, env)
            r = s.ex(n.value, env)
            if isinstance(v, list) and type(n.op) is ast.Add: v.extend(r); return
            s.assign(n.target, binop(type(n.op), v, r), env)
        elif k is ast.Return: raise Ret(s.ex(n.value, env) if n.value else None)
        elif k is ast.If:
            for st in (n.body if s.truth(s.ex(n.test, env)) else n.orelse): s.stmt(st, env)
        elif k is ast.For:
            it = s.ex(n.iter, env)
            if isinstance(it, S): raise Unsupported('iteration over symbol')
            for x in list(it):
                s.assign(n.target, x, env)
                try:
                    for st in n.body: s.stmt(st, env)
                except Brk: break
                except Cont: continue
            else:
                for st in n.orelse: s.stmt(st, env)
        elif k is ast.While:
            while s.truth(s.ex(n.test, env)):
                try:
                    for st in n.body: s.stmt(st, env)
                except Brk: break
                except Cont: continue
        elif k is ast.Pass: pass
        elif k is ast.Break: raise Brk()
        elif k is ast.Continue: raise Cont()
        elif k is ast.Assert:
            if not s.truth(s.ex(n.test, env)): raise Unsupported('assertion fails')
        elif k is ast.Global: raise Unsupported('global statement')
        else: raise Unsupported(f'statement {k.__name__}')

    def ex(s, n, env):
        k = type(n)
        if k is ast.Constant: return n.value
        if k is ast.Name:
            if n.id in env: return env[n.id]
            if n.id in s.glob: return s.glob[n.id]
            raise Unsupported(f'name {n.id}')
        if k is ast.BinOp: return binop(type(n.op), s.ex(n.left, env), s.ex(n.right, env))
        if k is ast.UnaryOp:
            v = s.ex(n.operand, env)
            if isinstance(v, S): raise Unsupported('unary operator on symbol')
            return {ast.USub: lambda: -v, ast.Not: lambda: not v, ast.Invert: lambda: ~v, ast.UAdd: lambda: v}[type(n.op)]()
        if k in (ast.List, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred): out += list(s.ex(e.value, env))
                else: out.append(s.ex(e, env))
            return out
        if k is ast.ListComp or k is ast.GeneratorExp:
            out = []
            def go(i, env):
                if i == len(n.generators): out.append(s.ex(n.elt, env)); return
                g = n.generators[i]
                for x in list(s.ex(g.iter, env)):
                    e2 = dict(env)
                    s.assign(g.target, x, e2)
                    if all(s.truth(s.ex(c, e2)) for c in g.ifs): go(i + 1, e2)
            go(0, env)
            return out
        if k is ast.Subscript:
            o = s.ex(n.value, env)
            if isinstance(o, S): raise Unsupported('subscript of symbol')
            if isinstance(n.slice, ast.Slice): return list(o[s.slice(n.slice, env)])
            i = s.ex(n.slice, env)
            if not isinstance(i, int): raise Unsupported('symbolic index')
            if not -len(o) <= i < len(o): raise Unsupported('index out of range')
            return o[i]
        if k is ast.Compare:
            l = s.ex(n.left, env)
            for op, c in zip(n.ops, n.comparators):
                r = s.ex(c, env)
                if isinstance(l, S) or isinstance(r, S): raise Unsupported('comparison of symbolic data')
                if not {ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r, ast.Eq: lambda: l == r,
                        ast.NotEq: lambda: l != r, ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r, ast.In: lambda: l in r}[type(op)](): return False
                l = r
            return True
        if k is ast.BoolOp:
            for e in n.values:
                v = s.ex(e, env)
                if s.truth(v) != isinstance(n.op, ast.And): return v
            return v
        if k is ast.IfExp: return s.ex(n.body if s.truth(s.ex(n.test, env)) else n.orelse, env)
        if k is ast.Call: return s.fcall(n, env)
        raise Unsupported(f'expression {k.__name__}')

    def fcall(s, n, env):
        a = []
        for x in n.args:
            if isinstance(x, ast.Starred): a += list(s.ex(x.value, env))
            else: a.append(s.ex(x, env))
        kw = {x.arg: s.ex(x.value, env) for x in n.keywords}
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in s.fns: return s.call(f.id, a, kw)
            if f.id in ('range', 'len', 'min', 'max', 'zip', 'enumerate', 'sum', 'reversed', 'divmod'):
                if any(isinstance(x, S) for x in a): raise Unsupported(f'{f.id} of symbol')
                if f.id == 'sum': raise Unsupported('sum')
                r = {'range': range, 'len': len, 'min': min, 'max': max, 'zip': zip, 'enumerate': enumerate, 'reversed': lambda x: list(x)[::-1], 'divmod': divmod}[f.id](*a)
                return [list(x) if isinstance(x, tuple) else x for x in r] if f.id in ('zip', 'enumerate') else r
            if f.id in ('bytearray', 'bytes', 'list', 'tuple'):
                if not a: return []
                if isinstance(a[0], int): return [0] * a[0]
                return list(a[0])
            raise Unsupported(f'call of {f.id}')
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'int' and f.attr == 'from_bytes':
                bs = list(a[0])
                od = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
                if kw.get('signed'): raise Unsupported('signed')
                if od == 'big': bs = bs[::-1]
                ts = []
                for b in bs:
                    b = lift(b)
                    if b.b > 8: raise Unsupported('byte')
                    ts.append(at(b, 8))
                if not ts: return 0
                return simp(S(T.cat(ts), 8 * len(ts)))
            o = s.ex(f.value, env)
            if f.attr == 'to_bytes':
                nb = a[0] if a else kw.get('length', 1)
                od = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
                o = lift(o)
                if o.b > 8 * nb: raise Unsupported('to_bytes may overflow')
                r = [simp(S(T.ext(at(o, 8 * nb), 8 * i, 8), 8)) for i in range(nb)]
                return r[::-1] if od == 'big' else r
            if isinstance(o, list):
                if f.attr == 'append': o.append(a[0]); return None
                if f.attr == 'extend': o.extend(a[0]); return None
                if f.attr == 'copy': return list(o)
            raise Unsupported(f'method {f.attr}')
        raise Unsupported('call')


def task_compress():
    def go(o):
        p = os.path.join(build.REPO, 'python/baokeshed.py')
        ev = Ev(ast.parse(open(p).read(), p))
        if 'compress' not in ev.fns: raise Unsupported('python/baokeshed.py: no compress function')
        cv = [sym(32, f'cv{i}') for i in range(8)]
        blk = [sym(8, f'b{i}') for i in range(64)]
        ln, off, fl = sym(8, 'block_len'), sym(64, 'offset'), sym(8, 'flags')
        got = ev.call('compress', [list(cv), list(blk), ln, off, fl])
        low = at
        m = [T.cat([low(b, 8) for b in blk[4 * i:4 * i + 4]]) for i in range(16)]
        ex = spec.compress32([low(x, 32) for x in cv], m, low(ln, 8), low(off, 64), low(fl, 8))
        if not isinstance(got, list) or len(got) != 16:
            o.bad('compress', 'python compress does not return sixteen words'); return
        bad = []
        for i in range(16):
            g = lift(got[i])
            o.ok('compress')
            if g.b > 32 or at(g, 32) != ex[i]: bad.append(i)
        if bad: o.bad('compress', f'python compress: output word(s) {bad} differ from the specified compression', 'python/baokeshed.py')
        o.stats['functions'] = ['python:' + c for c in sorted(ev.calls)]
    return ('python compress', go)
