"""C12: the multithreaded build. The two halves of a join are shown independent, and the two builds to be one program apart from the join."""
import re
from . import ai, run, build, p_tree, p_all, p_eff, terms as T
from .p_tree import OneShot

JOIN = r'^_RI?NvNtC\w+_10rayon_core4join(4join|12join_context)'
CLOSURE = r'^_RNCI?N\w*9baokeshed'
FOREIGN = re.compile(r'^<?(rayon|rayon_core|crossbeam\w*|std)::')


def ray_path():
    p = build.rust_ll(('ray',))
    return build.link([p['baokeshed'], p['vharness'], p['reference_impl']], 'ray')


def build_ray():
    raw = ray_path()
    keep = p_tree.KEEP + '|^(' + '|'.join(map(re.escape, p_tree.anchors(raw))) + ')$|' + CLOSURE
    return build.normalise(raw, keep + '|' + JOIN, 'n-ray', stub=p_tree.STUB + '|' + JOIN, roots=keep)


run.MODS['ray'] = build_ray


def generics(d):
    """the type arguments of a demangled instance, split at the top level"""
    dep, j = 0, len(d) - 1
    while j >= 0:
        if d[j] == '>' and d[j - 1] != '-': dep += 1
        elif d[j] == '<':
            dep -= 1
            if dep == 0: break
        j -= 1
    out, dep, cur = [], 0, ''
    for k, ch in enumerate(d[j + 1:-1]):
        if ch in '<([{': dep += 1
        elif ch in ')]}' or ch == '>' and cur[-1:] != '-': dep -= 1
        if ch == ',' and dep == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out + [cur.strip()]


class RayShot(OneShot):
    """one-shot hashing where the two operands of a join may run in any order or at once"""
    side = None
    names = {}

    def more(s): return {re.compile(JOIN): s.join}

    def log(s, E, st, b, off, n, w, ins):
        if s.side is None: return
        s.acc[s.side].append((b, off, n, w))
        if s.side == 'b':
            for b2, off2, n2, w2 in s.acc['a']:
                if not (w or w2): continue
                ok = b != b2
                if not ok:
                    f = lambda p, q, m: st.poly.entails_ge(ai.e_add(ai.e_add(E.toint(st, q), E.toint(st, p), -1), E.szexpr(st, m), -1))
                    ok = f(off2, off, n2) or f(off, off2, n)
                E.require(ok, 'disjoint', f'one half of a join {"writes" if w else "reads"} memory at {T.show(off)} of {E_name(st, b)} that the other half {"writes" if w2 else "reads"}', ins)

    def on_write(s, E, st, b, off, size, cells, ins):
        s.log(E, st, b, off, size, True, ins)
        return super().on_write(E, st, b, off, size, cells, ins)

    def on_read(s, E, st, b, off, n, ins):
        s.log(E, st, b, off, n, False, ins)
        return super().on_read(E, st, b, off, n, ins)

    def on_copy(s, E, st, d, sr, n, nv, ins):
        for p, w in ((d, True), (sr, False)):
            b, off = ai.split_ptr(p)
            if b is not None: s.log(E, st, b, off, ai.mksz(n) if nv is None else nv, w, ins)
        return super().on_copy(E, st, d, sr, n, nv, ins)

    def recurse(s, E, st, ins, args, name):
        if s.side:
            g = dict(zip(s.roles, args))
            for a, n, w in ((g['input'], g['n'], False), (g['key'], T.const(64, 32), False), (g['out'], g['outlen'], True)):
                b, off = ai.split_ptr(a)
                s.log(E, st, b, off, ai.mksz(n), w, ins)
        return super().recurse(E, st, ins, args, name)

    def join(s, E, st, ins, args, name):
        if s.side is not None: raise ai.Unsupported('a join inside a half of a join')
        if len(args) != 2: raise ai.Unsupported('the join does not take two closures by reference and return two numbers')
        d = p_eff.demangle([name])[name]
        g = generics(d)
        if len(g) != 4 or g[2:] != ['usize', 'usize']: raise ai.Unsupported(f'a join of {d}')
        s.acc = {'a': [], 'b': []}
        fa, fb = s.fn(E, g[0]), s.fn(E, g[1])
        out = []
        try:
            s.side = 'a'
            # a context says whether the closure was stolen: either way
            ctx = lambda f: [T.sym(1, 'stolen')] * (len(E.mod.fn(f).params) - 1) if 'join_context' in d else []
            first = E.call(fa, [args[0]] + ctx(fa), st)
            for z, ra in first:
                s.side = 'b'
                s.acc['b'] = []
                for y, rb in E.call(fb, [args[1]] + ctx(fb), z): out.append((y, ai.Agg((ra, rb))))
        finally: s.side = None
        E.require(any(w for *_, w in s.acc['a']), 'disjoint', 'the first half of a join writes nothing', ins)
        return out

    def fn(s, E, d):
        m = id(E.mod)
        if m not in s.names:
            s.names[m] = {plain(v): k for k, v in p_eff.demangle(E.mod.fns).items()}
        d = plain(d)
        if d not in s.names[m]: raise ai.Unsupported(f'no function {d} for a half of a join')
        return s.names[m][d]


def E_name(st, b):
    o = st.mem.get(b)
    return getattr(o, 'name', None) or T.show(b)


# ---------------------------------------------------------------- the two builds
def t_same():
    def go(o):
        A, B = (p_eff.Graph(open(build.rust_ll(f)['baokeshed']).read()) for f in ((), ('ray',)))
        ua, ub = Unit(A), Unit(B)
        dm = p_eff.demangle(set(A.fn) | set(B.fn))
        o.check(any(re.search(JOIN, x) for n in B.fn if OWN.search(dm[n]) for x in B.refs(n)), 'anchors', 'the build with the rayon feature calls no rayon join')
        # functions between the interpreted ones and the join: interpreted in both builds, inlined
        core = {n for n in B.fn if n in p_all.shared('ray')}
        o.check(len(core) == 2, 'anchors', 'the recursion over the input is not found')
        own = {n for n in B.fn if OWN.search(dm[n])}
        fork = {n for n in own if any(re.search(JOIN, x) for x in B.refs(n))}
        while True:
            more = {n for n in own - fork - core if B.refs(n) & (fork - core)}
            if not more: break
            fork |= more
        for n in fork - core:
            users = {x for x in own if n in B.refs(x)}
            for x in users: o.check(x in fork | core, 'same-code', f'{dm[x]} starts threads outside the recursion over the input', dm[x])
        ex = {dm[n] for n in fork | core}
        inside = lambda d: any(d == x or d.startswith(plain(x) + '::{closure') or plain(d).startswith(plain(x) + '::{closure') for x in ex)
        n = 0
        one = {}
        for k in sorted(set(ua.key) | set(ub.key)):
            x, y = ua.key.get(k), ub.key.get(k)
            d = dm[x or y]
            # instances of library code are the same in both builds if the code calling them is
            if not OWN.search(d) or inside(d): continue
            if x is None or y is None: one[k] = (A, x) if x else (B, y); continue
            n += 1
            o.check(ua.text(x) == ub.text(y), 'same-code', f'{d} is not the same code in the builds with and without threads', d)
        for k, (g, x) in one.items():
            users = [dm[u] for u in g.fn if x in g.refs(u)]
            o.check(users and all(inside(d) or not OWN.search(d) for d in users), 'same-code', f'{dm[x]} exists only in the build with{"" if g is B else "out"} threads', dm[x])
        o.note.append(f'{n} functions compared between the builds with and without threads')
    return ('the builds with and without threads', go)


OWN = re.compile(r'^<?&?(mut )?baokeshed|^<[^>]* as .*baokeshed|^<baokeshed')
def plain(d): return d.replace('::<', '<')


class Unit:
    def __init__(s, g):
        s.g = g
        s.key = {s.nm(n): n for n in g.fn}
        s.memo = {}

    def nm(s, x): return re.sub(r'Cs[0-9A-Za-z]+_(?=9baokeshed|7vharness|14reference_impl)', 'C', x)

    def const(s, n):
        """contents of a nameless constant"""
        if n not in s.memo:
            s.memo[n] = n
            s.memo[n] = s.body(s.g.glob[n])
        return s.memo[n]

    def body(s, t):
        t = '\n'.join(l for l in t.split('\n') if '#dbg_' not in l and not l.startswith(';'))
        t = re.sub(r'(, )?![\w.]+ !\d+', '', t)
        t = re.sub(r' #\d+', '', t)

        def r(m):
            n = m.group(1).strip('"')
            if n in s.g.glob and re.match(r'(alloc_|anon\.|vtable\.|switch\.table|\.L|str\.)', n): return '{' + s.const(n) + '}'
            return '@' + s.nm(n)
        return re.sub(p_eff.SYM, r, t)

    def text(s, n): return s.body(s.g.fn[n])


def t_effects():
    def go(o):
        g = p_eff.rust_graph_from(build.rust_ll(('ray',)), 'ray')
        for n, d in p_eff.demangle(g.fn).items():
            if FOREIGN.search(d): g.decl.add(n); del g.fn[n]
        dm = p_eff.demangle(g.fn)
        roots = [n for n, d in dm.items() if (re.search(p_eff.API, d) and not p_eff.NOTAPI.search(d)) or (OWN.search(d) and '{closure' in d and not p_eff.NOTAPI.search(d))]
        have = {dm[n] for n in roots}
        for x in p_eff.MUST: o.check(x in have, 'anchors', f'entry point {x} not found')
        p_eff.effects(o, g, roots, 'Rust API with threads', extra_ok=re.compile(r'^rayon_core::join::join(_context)?::<'), allow_glob=p_eff.DETECT_GLOB, allow_code=p_eff.DETECT)
    return ('effects of the Rust API with threads', go)


def c12(tier):
    build.rust_ll(('ray',))
    run.load(['tree', 'ray'])
    return [t_same(), t_effects()] + p_all.r_oneshot('ray', RayShot) + p_all.r_oneshot()
