"""Tree-logic tasks: entry states, exit obligations (see tree.py for the protocol)."""
import re, os
from . import ai, kern, run, build, spec, terms as T, tree
from .ai import fresh, e_add, e_const, e_var, e_scale, split_ptr
from .terms import N
from .tree import Tree, C64, CHUNK, START, END, PARENT, ROOT, pairing
from .kern import new_obj

STUB = r'(8Platform\w*(8compress|12compress_xof|9hash_many|6detect)[A-Z_]?)'
API = (r'(baokeshed\w*6Hasher\w*(6update|12finalize_xof|8finalize|3new|9new_keyed|14new_derive_key)$'
       r'|6Output\w*(4read|7to_hash)$'
       r'|9baokeshed(4hash|10keyed_hash|10derive_key|8hash_xof|14keyed_hash_xof|14derive_key_xof)$)')
KEEP = STUB + '|' + API
ONESHOT = r'9baokeshed(4hash|10keyed_hash|10derive_key|8hash_xof|14keyed_hash_xof|14derive_key_xof)$'


_anch = {}
def anchors(path):
    """The recursive function of one-shot hashing and the function that starts it, in a module before inlining: the first is the
    only entry of the cycle of the call graph below the one-shot functions, the second is what all of these call to reach it."""
    if path in _anch: return _anch[path]
    refs = {}
    for m in re.finditer(r'^define .*?@("[^"]+"|[\w.$-]+)\((.*)\n((?:.*\n)*?)\}$', open(path).read(), re.M):
        refs[m.group(1).strip('"')] = {x.strip('"') for x in re.findall(r'@("[^"]+"|[\w.$-]+)', m.group(3))}
    refs = {n: {x for x in r if x in refs} for n, r in refs.items()}

    def below(n):
        seen, todo = set(), list(refs[n])
        while todo:
            x = todo.pop()
            if x not in seen: seen.add(x); todo += refs[x]
        return seen
    own = lambda n: re.match(r'_RNv\w*9baokeshed', n)
    ones = [n for n in refs if re.search(ONESHOT, n)]
    if len(ones) != 6: raise run.Fatal(f'{len(ones)} one-shot functions found')
    reach = {n: below(n) for n in set().union(*[below(n) for n in ones])}
    cyc = {n for n in reach if n in reach[n]}
    entry = [n for n in cyc if own(n) and any(n in refs[c] and (c in ones or (c in reach and c not in reach[n])) for c in refs)]
    if len(entry) != 1: raise run.Fatal('one-shot hashing does not have one recursive function: ' + ', '.join(sorted(entry) or ['none']))
    rec = entry[0]
    xofs = [n for n in ones if n.endswith('_xof')]
    com = set.intersection(*[{x for x in below(n) if own(x) and x not in ones and x != rec and rec in reach[x]} for n in xofs])
    first = [x for x in com if x not in cyc and not any(x in reach[y] for y in com if y != x)]
    if len(first) != 1: raise run.Fatal('the one-shot functions do not share one function that hashes')
    _anch[path] = rec, first[0]
    return _anch[path]


ROLES = {'&[u8]': ('input', 'n'), '&[u32; 8]': ('key',), 'u64': ('offset',), 'Flags': ('flags',), 'Platform': ('platform',), '&mut [u8]': ('out', 'outlen')}
def roles(mk, name):
    """what each parameter of a function of one-shot hashing is, by its source type"""
    L = Layout(run.module_text(mk))
    m = re.search(r'!DISubprogram\(name: "[^"]*", linkageName: "%s".*? type: !(\d+)' % re.escape(name), run.module_text(mk))
    q = m and re.search(r'^!%s = !DISubroutineType\(.*types: !(\d+)' % m.group(1), run.module_text(mk), re.M)
    q = q and re.search(r'^!%s = !\{(.*)\}' % q.group(1), run.module_text(mk), re.M)
    if not q: raise run.Fatal(f'{name}: no debug information')
    ty = [L.attr(L.node[x.strip()[1:]], 'name') for x in q.group(1).split(',')[1:]]
    out = []
    for t in ty:
        if t not in ROLES: raise run.Fatal(f'{name}: a parameter of type {t}')
        out += ROLES[t]
    if len(set(out)) != len(out): raise run.Fatal(f'{name}: parameters of the same type: {", ".join(ty)}')
    return out


def build_tree():
    p = build.rust_ll(())
    raw = build.link([p['baokeshed'], p['vharness'], p['reference_impl']], 'tree')
    keep = KEEP + '|^(' + '|'.join(map(re.escape, anchors(raw))) + ')$'
    return build.normalise(raw, keep, 'n-tree', stub=STUB, roots=keep)


C_STUB = r'^(compress_(portable|sse41|avx2|avx512|neon)|hash_many_(portable|sse41|avx2|avx512|neon))$'
C_API = r'^hasher_(init|update|finalize)$'


def build_ctree(cfg, popcnt):
    """the C hasher with its assertions active; popcnt: with the popcount instruction instead of the loop"""
    def go():
        x = ['-UNDEBUG'] + (['-mpopcnt'] if popcnt else [])
        tag = cfg + ('p' if popcnt else '')
        p = build.c_main_ll(cfg, x, tag)
        return build.normalise(p, C_STUB + '|' + C_API + '|^popcnt$', 'n-ctree-' + tag, passes=build.PASSES.replace('sroa', 'mem2reg'), stub=C_STUB, roots=C_API)
    return go


plat_ok = tree.plat_ok


# ---------------------------------------------------------------- layouts from debug info
class Layout:
    """byte offsets of structure fields, from the debug information of a module"""
    def __init__(s, text):
        s.node = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?(!\{.*\}|!DI(?:CompositeType|DerivedType|BasicType|Namespace)\(.*\))$', text, re.M):
            s.node[m.group(1)] = m.group(2)
        s.structs = {}
        for k, v in s.node.items():
            m = re.match(r'!DICompositeType\(tag: DW_TAG_structure_type, name: "([^"]+)"', v)
            if m: s.structs.setdefault(m.group(1), []).append(k)
            # C: typedef of an anonymous structure
            m = re.match(r'!DIDerivedType\(tag: DW_TAG_typedef, name: "([^"]+)".*baseType: !(\d+)', v)
            if m: s.structs.setdefault(m.group(1), []).append(m.group(2))

    def attr(s, v, a):
        m = re.search(r'[(, ]%s: (!?[\w]+|"[^"]*")' % a, v)
        return m.group(1).strip('"') if m else None

    def fields(s, k):
        v = s.node[k]
        el = s.attr(v, 'elements')
        out = {}
        for x in re.findall(r'!(\d+)', s.node.get(el[1:], '') if el else ''):
            d = s.node.get(x, '')
            if 'DW_TAG_member' not in d: continue
            ty = s.attr(d, 'baseType')[1:]
            out[s.attr(d, 'name')] = (int(s.attr(d, 'offset') or 0) // 8, int(s.attr(d, 'size') or 0) // 8, ty)
        return out

    def strip(s, ty):
        """through typedefs and qualifiers"""
        while 'DIDerivedType' in s.node.get(ty, '') and re.search('DW_TAG_(typedef|const_type|volatile_type)', s.node[ty]):
            ty = s.attr(s.node[ty], 'baseType')[1:]
        return ty

    def size(s, k): return int(s.attr(s.node[k], 'size')) // 8

    def find(s, name, has):
        all_ = [k for k in map(s.strip, s.structs.get(name, [])) if 'DICompositeType' in s.node.get(k, '')]
        for k in all_:
            if all(x in s.fields(k) for x in has): return k
        # private fields under other names: the structure of that name of the crate itself
        own = {k for k in all_ if 'name: "baokeshed"' in s.node.get((s.attr(s.node[k], 'scope') or '!')[1:], '') or 'scope:' not in s.node[k]}
        own = {k for k in own if s.fields(k)}
        if len(own) == 1: return own.pop()
        raise run.Fatal(f'no structure {name} with fields {", ".join(has)} in the debug information')

    def shape(s, f):
        """what identifies a field apart from its name: size and type"""
        k = s.strip(f[2])
        v = s.node.get(k, '')
        n = s.attr(s.node.get(f[2], ''), 'name') or s.attr(v, 'name') or 'array'
        return f[1] or (s.size(k) if 'size:' in v else 0), re.sub(r'<.*', '', n)

    def named(s, k, want):
        """the fields wanted, {name: shape}: by name; those under other names by their shape, if only one field can be meant"""
        f = s.fields(k)
        out = {x: f[x] for x in want if x in f}
        left = [x for x in f if x not in out]
        for x in want:
            if x in out: continue
            ok = lambda sh: want[x](*sh) if callable(want[x]) else sh == want[x]
            c = [y for y in left if ok(s.shape(f[y]))]
            rivals = [y for y in want if y not in f and y != x and want[y] == want[x]]
            if len(c) != 1 or rivals: raise run.Fatal(f'no field {x} among {", ".join(f)}')
            out[x] = f[c[0]]
        if len({v[0] for v in out.values()}) != len(out): raise run.Fatal('fields ' + ', '.join(want) + ' are not told apart')
        return out


STACK = lambda n, t: t == 'ArrayVec'
CHUNKF = dict(cv=(32, 'array'), key=(32, 'array'), offset=(8, 'u64'), count=(2, 'u16'), buf=(64, 'array'), buf_len=(1, 'u8'), flags=(1, 'Flags'), platform=(1, 'Platform'))
OUTF = dict(cv=(32, 'array'), block=(64, 'array'), block_len=(1, 'u8'), offset=(8, 'u64'), flags=(1, 'Flags'), platform=(1, 'Platform'))
CCHUNKF = dict(state=(32, 'array'), key=(32, 'array'), offset=lambda n, t: n == 8, count=lambda n, t: n == 2, buf=(64, 'array'), buf_len=lambda n, t: n == 1, flags=lambda n, t: n == 1)


def lay_rust(text):
    L = Layout(text)
    m = re.search(r'DIEnumerator\(name: "Portable", value: (\d+)', text)
    if m: tree.PORTABLE = int(m.group(1))
    h = L.find('Hasher', ['subtree_hashes', 'chunk'])
    hf = L.named(h, dict(subtree_hashes=STACK, chunk=lambda n, t: t != 'ArrayVec'))
    c = L.named(hf['chunk'][2], CHUNKF)
    o = L.find('Output', list(OUTF))
    sf = L.fields(hf['subtree_hashes'][2])
    if not all(x in sf for x in ('xs', 'len')): raise run.Fatal('the subtree stack is not an ArrayVec')
    co, so = hf['chunk'][0], hf['subtree_hashes'][0]
    H = {k: (co + c[k][0], c[k][1]) for k in CHUNKF}
    H['stack'] = (so + sf['xs'][0], sf['xs'][1])
    H['len'] = (so + sf['len'][0], sf['len'][1])
    H['size'] = L.size(h)
    O = {k: v[:2] for k, v in L.named(o, OUTF).items()}
    O['size'] = L.size(o)
    return H, O


def lay_c(text):
    L = Layout(text)
    h = L.find('hasher', ['chunk', 'subtree_hashes_len', 'subtree_hashes'])
    hf = L.named(h, dict(chunk=lambda n, t: n > 100 and t != 'array', subtree_hashes_len=lambda n, t: n == 1, subtree_hashes=lambda n, t: t == 'array'))
    c = L.named(L.strip(hf['chunk'][2]), CCHUNKF)
    co = hf['chunk'][0]
    names = dict(cv='state', key='key', offset='offset', count='count', buf='buf', buf_len='buf_len', flags='flags')
    H = {k: (co + c[v][0], c[v][1]) for k, v in names.items()}
    H['stack'], H['len'] = hf['subtree_hashes'][:2], hf['subtree_hashes_len'][:2]
    H['size'] = L.size(h)
    return H


_lay = {}
def layout(mk):
    if mk not in _lay:
        t = run.module_text(mk)
        _lay[mk] = lay_rust(t) if mk in ('tree', 'ray') else (lay_c(t), None)
    return _lay[mk]


# ---------------------------------------------------------------- common set-up
def keyobj(st, mon, words, name='key'):
    b = T.base(name)
    o = new_obj(st, b, name)
    for i, w in enumerate(words): o.cells[4 * i] = (w, 4, 0)
    mon.sizes[b] = 32
    return b


def setup(mk, mode, fl=None, key=None, plat=True):
    E = ai.Engine(run.module(mk))
    st = ai.State()
    pl = T.sym(8, 'platform_kind') if plat else None
    if plat: st.poly.add_ge((2, {pl: -1}))
    mon = Tree(fl if fl is not None else T.sym(8, 'mode'), key or [T.sym(32, f'key{i}') for i in range(8)], pl, mode)
    E.mon = mon
    st.mem[mon.M] = ai.Obj('message')
    st._own.add(mon.M)
    return E, st, mon


def prims(E, mon, rust):
    P = {}
    if rust:
        P[re.compile(r'8Platform8compress$')] = mon.compress
        def hm(E, st, ins, args, name):
            m = re.search(r'9hash_many\w*?Ahj([0-9a-f]+)_', name)
            return mon.hash_many(E, st, ins, args, name, item=int(m.group(1), 16) if m else 0)
        P[re.compile(r'8Platform9hash_many')] = hm
        P[re.compile(r'8Platform6detect$')] = lambda E, st, ins, args, name: [(st, mon.plat)]
    else:
        P[re.compile(r'^compress_(portable|sse41|avx512)$')] = mon.compress
        P[re.compile(r'^hash_many_\w+$')] = mon.hash_many

        def pc(E, st, ins, args, name):
            r = mon.on_ctpop(E, st, args[0])
            return [(st, T.ext(T.fn(64, 'ctpop', args[0]) if r is None else r, 0, 8))]
        P[re.compile(r'^popcnt$')] = pc
    E.prims = P


def ge(st, E, t, c=0): st.poly.add_ge(e_add(E.toint(st, t), e_const(-c)))
def le(st, E, a, b): st.poly.add_ge(e_add(E.toint(st, b), E.toint(st, a), -1))
def lec(st, E, t, c): st.poly.add_ge(e_add(e_const(c), E.toint(st, t), -1))


CASES = ('virgin', 'boundary', 'buffering', 'midchunk', 'buffering its first chunk', 'midway in its first chunk')


def hasher_state(E, st, mon, H, case, self_name='self'):
    """an arbitrary hasher satisfying the invariant, in one of its four shapes"""
    b = T.base(self_name)
    o = new_obj(st, b, 'self', H['size'])
    mon.sizes[b] = H['size']
    z = C64(0)
    K, L, P, nb, bl = (T.sym(64, x) for x in ('K', 'L', 'P', 'blocks_in', 'buffered'))
    first = case.endswith('first chunk')
    if first: case = 'buffering' if case.startswith('buffering') else 'midchunk'
    if first: K = P = z
    if case == 'virgin': K = L = P = nb = bl = z
    elif case == 'boundary':
        nb = bl = z
        ge(st, E, K, 1); ge(st, E, P, 1); ge(st, E, L, 2); le(st, E, P, L)
    else:
        L = P
        ge(st, E, bl, 1); lec(st, E, bl, 64)
        if not first: ge(st, E, K, 1); ge(st, E, P, 1)
        st.poly.add_ge(e_add(e_scale(E.toint(st, P), 1 << 53), E.toint(st, K), -1))
        if case == 'buffering': nb = z
        else: ge(st, E, nb, 1); lec(st, E, nb, 31)
    if case != 'virgin' and not first:
        lec(st, E, K, (1 << 53) - 1)
        le(st, E, P, K)
        lec(st, E, P, 53); lec(st, E, L, 53)
    co = T.scale(K, CHUNK)
    mon.start(E, st, co=co, nb=nb, bl=bl, K=K, L=L, P=P)
    cv = [T.sym(32, f'cv{i}') for i in range(8)] if case == 'midchunk' else mon.key
    for i in range(8): st.g[f'cv{i}'] = cv[i]

    def put(f, t):
        off, n = H[f]
        o.cells[off] = (t, n, 0)

    def small(f, t, hint):
        w = 8 * H[f][1]
        v = T.cval(t)
        if v is not None: return put(f, T.const(w, v))
        if w == 64: return put(f, t)
        x = T.sym(w, hint)
        st.poly.add_eq(e_add(e_var(x), E.toint(st, t), -1))
        put(f, x)
    for i in range(8):
        o.cells[H['cv'][0] + 4 * i] = (cv[i], 4, 0)
        o.cells[H['key'][0] + 4 * i] = (mon.key[i], 4, 0)
    put('offset', co)
    small('count', T.scale(nb, 64), 'count')
    small('buf_len', bl, 'buf_len')
    small('len', L, 'stack_len')
    put('flags', mon.fl)
    if 'platform' in H: put('platform', mon.plat)
    mon.vbuf = (b, H['buf'][0], 64)
    mon.vstack = (b, H['stack'][0], H['stack'][1])
    return b


def field(E, z, b, H, f):
    off, n = H[f]
    m, E.mon = E.mon, None
    try: return E.read(z, T.add(b, C64(off)), n)
    finally: E.mon = m


def words_at(E, z, b, off):
    return [E.quiet_read(z, T.add(b, C64(off + 4 * i)), 4) for i in range(8)]


# ---------------------------------------------------------------- incremental hasher
def t_update(mk, name, case, rust):
    def go(o):
        H, _ = layout(mk)
        E, st, mon = setup(mk, 'hasher', plat=rust)
        prims(E, mon, rust)
        b = hasher_state(E, st, mon, H, case)
        mon.outs[b] = None
        n = T.sym(64, 'n')
        lec(st, E, n, (1 << 63) - 1)
        tot0 = T.add(mon.pos(st), st.g['bl'])
        e = E.toint(st, T.scale(st.g['K'], CHUNK))
        e = e_add(e_add(e, E.toint(st, T.scale(st.g['nb'], 64))), E.toint(st, st.g['bl']))
        st.poly.add_ge(e_add(e_const((1 << 64) - 1), e_add(e, E.toint(st, n)), -1))
        mon.lo, mon.hi = tot0, T.add(tot0, n)
        try:
            rets = E.call(name, [b, T.add(mon.M, tot0), n], st)
            E.require(bool(rets), 'unproved', f'{name} never returns')
            for z, rv in rets: update_exit(E, mon, z, b, H, mon.hi, o)
        finally: o.take(E)
    return (f'{kern.short(name)} from a hasher {case} [{mk}]', go)


def update_exit(E, mon, z, b, H, total, o):
    g = z.g
    R = lambda ok, rule, m: E.require(ok, rule, 'after update: ' + m)
    zx = lambda t: T.zext(t, 64)
    F = lambda f: field(E, z, b, H, f)
    mon.pop_facts(E, z)
    pos = mon.pos(z)
    R(E.eq(z, T.add(pos, g['bl']), total), 'absorb', 'the bytes absorbed are not exactly the bytes given so far')
    R(E.eq(z, g['co'], T.scale(g['K'], CHUNK)), 'tree', 'the current chunk does not start where the chunks on the stack end')
    R(E.eq(z, F('offset'), g['co']), 'offset', 'the offset kept is not the position of the current chunk')
    R(E.eq(z, zx(F('count')), T.scale(g['nb'], 64)), 'absorb', 'the count of compressed bytes of the chunk is wrong')
    R(E.eq(z, zx(F('buf_len')), g['bl']), 'absorb', 'the count of buffered bytes is wrong')
    R(E.eq(z, zx(F('len')), g['L']), 'tree', 'the stack length is wrong')
    R(E.le(z, g['L'], C64(H['stack'][1] // 32)), 'stack', 'more subtrees than slots')
    R(E.eq(z, g['z'], C64(1)) or E.eq(z, g['bl'], C64(64)), 'framing', 'the unused bytes of the block buffer are not zero')
    R(all(E.same(z, x, y) for x, y in zip(words_at(E, z, b, H['key'][0]), mon.key)), 'mode', 'the key changed')
    R(E.same(z, F('flags'), mon.fl), 'mode', 'the mode flags changed')
    if 'platform' in H: R(plat_ok(E, z, F('platform'), mon.plat), 'platform', 'the platform kept is neither the one created by detection nor the portable one')
    R(all(E.same(z, x, y) for x, y in zip(words_at(E, z, b, H['cv'][0]), mon.cvg(z))), 'absorb', 'the chaining value kept is not that of the current chunk')
    empty = E.eq(z, g['nb'], C64(0)) and E.eq(z, g['bl'], C64(0))
    if empty:
        R(E.eq(z, g['K'], C64(0)) and E.eq(z, g['L'], C64(0)) or E.le(z, C64(2), g['L']), 'root', 'the root would already be merged into the stack, without the root flag')
        R(E.le(z, g['P'], g['L']), 'tree', 'subtrees are missing from the stack')
    else:
        R(E.le(z, C64(1), g['bl']), 'absorb', 'the last block of a chunk was compressed before it was known to be the last')
        R(E.eq(z, g['L'], g['P']), 'tree', 'the stack is not fully merged although another chunk follows')
        R(E.le(z, T.add(T.scale(g['nb'], 64), g['bl']), C64(CHUNK)), 'tree', 'the current chunk is longer than one chunk length')


def t_finalize(mk, name, case, rust):
    def go(o):
        H, O = layout(mk)
        E, st, mon = setup(mk, 'finalize', plat=rust)
        prims(E, mon, rust)
        b = hasher_state(E, st, mon, H, case)
        mon.ro.add(b)
        out = T.base('out')
        new_obj(st, out, 'out')
        n = O['size'] if rust else 32
        mon.outs[out] = None
        mon.sizes[out] = n
        mon.total = T.add(mon.pos(st), st.g['bl'])
        mon.lo = mon.hi = mon.total
        start_words = mon.cvg(st)
        try:
            rets = E.call(name, [out, b] if rust else [b, out], st)
            E.require(bool(rets), 'unproved', f'{name} never returns')
            for z, rv in rets:
                if rust: output_exit(E, mon, z, out, O, 'finalizing')
                else:
                    c = mon.child(E, z, E.quiet_read(z, out, 32))
                    ok = mon.tok[c[1]]['root'] if c and c[0] == 'tok' else bool(c and c[0] == 'work' and E.eq(z, z.g['rt'], C64(1)))
                    E.require(ok, 'root', 'the hash written is not that of a node compressed with the root flag')
        finally: o.take(E)
    return (f'{kern.short(name)} of a hasher {case} [{mk}]', go)


def output_exit(E, mon, z, out, O, what):
    """the Output returned describes the root node of the whole message"""
    g = z.g
    R = lambda ok, rule, m: E.require(ok, rule, f'{what}: {m}')
    F = lambda f: E.quiet_read(z, T.add(out, C64(O[f][0])), O[f][1])
    cv = words_at(E, z, out, O['cv'][0])
    R(mon.plat is None or plat_ok(E, z, F('platform'), mon.plat), 'platform', 'the output carries a platform that is neither the detected one nor the portable one')
    for y, fl in mon.split_ites(E, z, F('flags')):
        c = mon.flagset(fl)
        if not R(c is not None, 'mode', 'the flags of the root are not the mode flag with framing flags'): continue
        R(bool(c & ROOT), 'root', 'the output returned lacks the root flag')
        R(E.eq(y, F('offset'), C64(0)), 'offset', 'the output position does not start at zero')
        k = c & ~ROOT
        blk = E.quiet_read(y, T.add(out, C64(O['block'][0])), 64)
        if k == PARENT:
            R(all(E.same(y, p, q) for p, q in zip(cv, mon.key)), 'mode', 'the root parent does not start from the key')
            R(E.eq(y, F('block_len'), T.const(8, 64)), 'framing', 'the root parent is not one full block')
            l, r = mon.child(E, y, T.ext(blk, 0, 256)), mon.child(E, y, T.ext(blk, 256, 256))
            p = mon.token('parent', left=l, right=r, root=True)
            if mon.mode == 'finalize':
                mon.fold(E, y, p, None)
                mon.root_seen(E, y, p, None)
            else: mon.root_parent(E, y, l, r)
        elif not k & PARENT and k & END:
            tmp = T.base('root-block')
            new_obj(y, tmp, 'root block')
            mon.outs[tmp] = None
            E.write(y, tmp, [(i, T.byte(blk, i), 1) for i in range(64)], 64)
            mode, tot = mon.mode, mon.total
            mon.one(E, y, None, cv, tmp, F('block_len'), T.const(64, 0) if mon.mode != 'finalize' else y.g['co'], fl)
            if mon.mode == 'finalize': pass
        else: R(False, 'framing', f'flag combination {c} on the root')


# ---------------------------------------------------------------- one-shot recursion
class OneShot(Tree):
    """hash_recurse and hash_internal"""
    def merge_exits(s, f, h): return False
    def more(s): return {}

    def setroles(s, mk, name):
        s.roles = roles(mk, name)
        miss = {'input', 'n', 'key', 'offset', 'flags', 'platform', 'out', 'outlen'} - set(s.roles)
        if miss: raise run.Fatal(f'{kern.short(name)} has no parameter for ' + ', '.join(sorted(miss)))

    def full(s, k, D):
        """number of children a complete subtree of 2^k chunks leaves"""
        return 2 ** k if 2 ** k <= D else max(D, 2)

    def degree(s, E, st):
        v = E.const_of(st, s.plat)
        if v is None: return None
        return s.degrees[v]

    def recurse(s, E, st, ins, args, name):
        inp, n, key, off, fl, plat, out, outlen = (dict(zip(s.roles, args))[x] for x in ('input', 'n', 'key', 'offset', 'flags', 'platform', 'out', 'outlen'))
        R = lambda ok, rule, m: E.require(ok, rule, f'recursive call: {m}', ins)
        b, p = split_ptr(inp)
        R(b == s.M and E.eq(st, p, off), 'offset', 'the offset passed is not the position of the input passed')
        R(E.le(st, C64(1), n), 'tree', 'a subtree without input')
        s.bound(E, st, b, p, ai.mksz(n), ins, 'subtree')
        R(all(E.same(st, x, y) for x, y in zip(s.words(E, st, key), s.key)), 'mode', 'another key')
        R(fl == s.fl, 'mode', 'other flags')
        if not R(E.same(st, plat, s.plat), 'platform', 'another platform than the detected one'): raise ai.Unsupported('a recursive call for another platform')
        D = s.degree(E, st)
        if D is None: raise ai.Unsupported('SIMD degree unknown at a recursive call')
        lo, hi = E.bounds(st, n)
        out_ = []
        top = max(D, 2)
        cases = []          # (low, high, counts)
        for j in range(1, D + 1): cases.append((CHUNK * (j - 1) + 1, CHUNK * j, [j]))
        if (hi - 1) // CHUNK + 1 > D:
            kf = None
            m = hi // CHUNK
            if hi % CHUNK == 0 and m & (m - 1) == 0: kf = m.bit_length() - 1
            a = CHUNK * D + 1
            if kf is not None:
                cases.append((a, hi - 1, range(2, top + 1)))
                cases.append((hi, hi, [s.full(kf, D)]))
            else: cases.append((a, hi, range(2, top + 1)))
        for a, c, counts in cases:
            a, c = max(a, lo), min(c, hi)
            if a > c: continue
            for r in counts:
                z = st.copy()
                ge(z, E, n, a); lec(z, E, n, c)
                if not z.poly.feasible(): continue
                R(E.le(z, C64(32 * r), outlen), 'bounds', f'room for {r} children needed')
                lid = len(s.lists)
                s.lists[lid] = (p, n, r, E.const_of(z, n))
                cells = []
                for i in range(r):
                    t = s.token('frontier', list=lid, i=i, root=False)
                    for w in range(8): cells.append((32 * i + 4 * w, t['words'][w], 4))
                E.write(z, out, cells, 32 * r, ins)
                z.tag['lists'] = z.tag.get('lists', ()) + (lid,)
                out_.append((z, C64(r)))
        return out_

    def root_seen(s, E, st, t, ins):
        R = lambda ok, m: E.require(ok, 'root', m, ins)
        if t['kind'] == 'parent' or s.entry != 'internal': return R(False, 'an interior node is compressed with the root flag')
        R(E.eq(st, t['co'], C64(0)) and E.eq(st, t['end'], s.total), 'the root flag is set on a chunk that is not the whole input')

    def root_parent(s, E, st, l, r):
        got = [s.show(l), s.show(r)]
        ls = st.tag.get('lists', ())
        R = lambda ok, m: E.require(ok, 'tree', m)
        if not R(len(ls) == 1, 'the root is not built from one pass over the input'): return
        p, n, cnt, _ = s.lists[ls[0]]
        R(E.eq(st, p, C64(0)) and E.eq(st, n, s.total), 'the subtrees below the root do not cover the whole input')
        want = [('f', ls[0], i) for i in range(cnt)]
        while len(want) > 2: want = pairing(want)
        R(got == want, 'the root does not combine the children pairwise, left to right')

    def fold(s, E, st, p, ins): pass


def degrees(mk):
    """SIMD degree per platform value"""
    t = run.module_text(mk)
    r = {}
    for name, d in (('Portable', 1), ('SSE41', 4), ('AVX2', 8)):
        m = re.search(r'DIEnumerator\(name: "%s", value: (\d+)' % name, t)
        if not m: raise run.Fatal(f'no platform {name} in the debug information')
        r[int(m.group(1))] = d
    return r


def t_recurse(mk, name, kind, D, k=None, cls=OneShot):
    def go(o):
        E = ai.Engine(run.module(mk))
        st = ai.State()
        deg = degrees(mk)
        pv = next(v for v in deg if deg[v] == D)
        mon = cls(T.sym(8, 'mode'), [T.sym(32, f'key{i}') for i in range(8)], T.const(8, pv), 'oneshot')
        mon.degrees, mon.entry = deg, 'recurse'
        mon.setroles(mk, name)
        E.mon = mon
        st.mem[mon.M] = ai.Obj('message'); st._own.add(mon.M)
        prims(E, mon, True)
        E.prims = {re.compile(re.escape(name) + '$'): mon.recurse, **mon.more(), **E.prims}
        mon.start(E, st)
        off, n, outlen = T.sym(64, 'off'), T.sym(64, 'n'), T.sym(64, 'outlen')
        if kind == 'leaf': lo, hi = 1, CHUNK * D
        else: lo, hi = max(CHUNK * 2 ** k, CHUNK * D) + 1, min(CHUNK * 2 ** (k + 1), (1 << 63) - 1)
        ge(st, E, n, lo); lec(st, E, n, hi)
        st.poly.add_ge(e_add(e_const((1 << 64) - 1), e_add(E.toint(st, off), E.toint(st, n)), -1))
        mon.lo, mon.hi = off, T.add(off, n)
        key = keyobj(st, mon, mon.key)
        out = T.base('out')
        new_obj(st, out, 'out')
        mon.outs[out] = None
        mon.sizes[out] = e_var(outlen)
        room = min(-(-hi // CHUNK), max(D, 2))
        ge(st, E, outlen, 32 * room); lec(st, E, outlen, 1 << 20)
        try:
            # the outermost activation is interpreted, calls inside it follow the contract
            f = E.prims
            E.prims = {a: c for a, c in f.items() if c is not mon.recurse}
            args = dict(input=T.add(mon.M, off), n=n, key=key, offset=off, flags=mon.fl, platform=mon.plat, out=out, outlen=outlen)
            args = [args[x] for x in mon.roles]
            fn = E.mod.fn(name)
            if len(fn.params) != len(args): raise run.Fatal(f'{name}: {len(fn.params)} parameters')
            E.prims = f
            rets = E.call(name, args, st)
            E.require(bool(rets), 'unproved', f'{name} never returns')
            for z, rv in rets: recurse_exit(E, mon, z, rv, out, off, n, kind, D, k, hi)
        finally: o.take(E)
    return (f'{kern.short(name)} degree {D} {kind}{"" if k is None else " 2^%d chunks" % k} [{mk}]', go)


def recurse_exit(E, mon, z, rv, out, off, n, kind, D, k, hi):
    R = lambda ok, rule, m: E.require(ok, rule, f'hash_recurse: {m}')
    r = E.const_of(z, rv)
    if not R(r is not None and 1 <= r <= 64, 'tree', 'the number of children returned is not known'): return
    vals = mon.values(E, z, out, r)
    if kind == 'leaf':
        R(E.le(z, n, C64(CHUNK * r)) and E.le(z, C64(CHUNK * (r - 1) + 1), n), 'tree', 'the number of chunks hashed is not the number of chunks of the input')
        for i, c in enumerate(vals):
            t = mon.tok[c[1]] if c and c[0] == 'tok' else None
            if not R(t is not None and t['kind'] == 'chunk', 'tree', f'child {i} is not the chaining value of a chunk'): continue
            R(E.eq(z, t['co'], T.add(off, C64(CHUNK * i))), 'tree', f'child {i} is not chunk {i}')
            e = t['end']
            if i < r - 1: R(E.eq(z, e, T.add(t['co'], C64(CHUNK))), 'tree', f'chunk {i} is not whole')
            else: R(E.eq(z, e, T.add(off, n)), 'absorb', 'the last chunk does not end at the end of the input')
        return
    ls = z.tag.get('lists', ())
    if not R(len(ls) == 2, 'tree', 'the input is not split in two'): return
    A, B = sorted(ls, key=lambda i: 0 if E.eq(z, mon.lists[i][0], off) else 1)
    (pa, na, ca, _), (pb, nb, cb, _) = mon.lists[A], mon.lists[B]
    ok = E.eq(z, pa, off) and E.eq(z, na, C64(CHUNK * 2 ** k))
    R(ok, 'tree', f'the left subtree is not the first {2 ** k} chunks (the largest power of two that leaves input for the right)')
    R(E.eq(z, pb, T.add(off, C64(CHUNK * 2 ** k))) and E.eq(z, T.add(pb, nb), T.add(off, n)), 'tree', 'the right subtree is not the rest of the input')
    if not ok: return
    want = [('f', A, i) for i in range(ca)] + [('f', B, i) for i in range(cb)]
    got = [mon.show(c) for c in vals]
    good = [want]
    if len(want) > 2: good.append(pairing(want))
    R(got in good, 'tree', 'the children returned are not the children of the left then of the right subtree (or their parents)')
    top = max(D, 2)
    R(2 <= r <= top, 'tree', f'{r} children returned, {top} is the most a caller has room for')
    if E.const_of(z, n) == CHUNK * 2 ** (k + 1):
        R(r == mon.full(k + 1, D), 'tree', 'a complete subtree does not return a power of two of children')


def internal_roles(mk, name):
    r = roles(mk, name)
    if set(r) != {'input', 'n', 'key', 'flags'}: raise run.Fatal(f'{kern.short(name)}: parameters ' + ', '.join(r))
    return r


def t_internal(mk, name, rname, case, cls=OneShot):
    def go(o):
        _, O = layout(mk)
        E = ai.Engine(run.module(mk))
        st = ai.State()
        pl = T.sym(8, 'platform_kind')
        st.poly.add_ge((2, {pl: -1}))
        mon = cls(T.sym(8, 'mode'), [T.sym(32, f'key{i}') for i in range(8)], pl, 'oneshot')
        mon.degrees, mon.entry = degrees(mk), 'internal'
        mon.setroles(mk, rname)
        E.mon = mon
        st.mem[mon.M] = ai.Obj('message'); st._own.add(mon.M)
        prims(E, mon, True)
        E.prims = {re.compile(re.escape(rname) + '$'): mon.fork_degree(E), **mon.more(), **E.prims}
        mon.start(E, st)
        n = T.sym(64, 'n')
        if case == 'short': lec(st, E, n, CHUNK)
        else: ge(st, E, n, CHUNK + 1)
        lec(st, E, n, (1 << 63) - 1)
        mon.total = n
        mon.lo, mon.hi = C64(0), n
        key = keyobj(st, mon, mon.key)
        out = T.base('out')
        new_obj(st, out, 'out')
        mon.outs[out] = None
        mon.sizes[out] = O['size']
        try:
            args = dict(input=mon.M, n=n, key=key, flags=mon.fl)
            rets = E.call(name, [out] + [args.get(x) for x in internal_roles(mk, name)], st)
            E.require(bool(rets), 'unproved', f'{name} never returns')
            for z, _ in rets: output_exit(E, mon, z, out, O, 'one-shot hashing')
        finally: o.take(E)
    return (f'{kern.short(name)} {case} inputs [{mk}]', go)


def _fork_degree(self, E):
    def h(E, st, ins, args, name):
        out = []
        for v in self.degrees:
            z = st.copy()
            for y in E.assume(z, T.icmp('eq', self.plat, T.const(8, v)), True):
                out += self.recurse(E, y, ins, args, name)
        return out
    return h
OneShot.fork_degree = _fork_degree
