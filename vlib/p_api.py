"""The public entry points around the tree: which key, mode flags and input reach
the one-shot recursion, what a new hasher holds, how outputs are produced from
an Output, and what clones carry."""
import re
from . import ai, kern, run, spec, terms as T, p_tree
from .ai import fresh, e_add, e_const, Unsupported
from .terms import N
from .kern import Frame, new_obj

C64 = lambda v: T.const(64, v)
MODES = {None: 0, 'keyed': 16, 'derive': 32}


class Api(Frame):
    def __init__(s):
        super().__init__()
        s.calls = []

    def on_panic(s, E, st, name, ins): E.report('panic', f'a panic is reachable ({name[-60:]})', ins)


def begin(mk='tree'):
    E = ai.Engine(run.module(mk))
    st = ai.State()
    mon = E.mon = Api()
    return E, st, mon


def words(E, st, p, n=8): return [E.quiet_read(st, T.add(p, C64(4 * i)), 4) for i in range(n)]
def same(E, st, a, b): return len(a) == len(b) and all(E.same(st, x, y) for x, y in zip(a, b))


def le_words(E, st, kb): return [E.quiet_read(st, T.add(kb, C64(4 * i)), 4) for i in range(8)]


def keyarg(E, st, mon, mode):
    if mode is None: return None, [T.const(32, v) for v in spec.IV32]
    b = T.base('key')
    new_obj(st, b, 'key', 32)
    mon.sizes[b] = 32
    return b, le_words(E, st, b)


def fresh_output(E, st, p, O, zero_offset=True):
    """an arbitrary Output value -> its fields"""
    f = {}
    cells = []
    f['cv'] = [fresh(32, 'cv') for _ in range(8)]
    for i, w in enumerate(f['cv']): cells.append((O['cv'][0] + 4 * i, w, 4))
    f['block'] = [fresh(8, 'block') for _ in range(64)]
    for i, w in enumerate(f['block']): cells.append((O['block'][0] + i, w, 1))
    for k, n in (('block_len', 1), ('offset', 8), ('flags', 1), ('platform', 1)):
        f[k] = C64(0) if k == 'offset' and zero_offset else fresh(8 * n, k)
        cells.append((O[k][0], f[k], n))
    b, off = ai.split_ptr(p)
    o = st.mem.get(b)
    E.write(st, p, cells, O['size'])
    return f


def is_output(E, st, p, O, f):
    rd = lambda k, i, n: E.quiet_read(st, T.add(p, C64(O[k][0] + i)), n)
    return (all(E.same(st, rd('cv', 4 * i, 4), w) for i, w in enumerate(f['cv'])) and all(E.same(st, rd('block', i, 1), w) for i, w in enumerate(f['block']))
            and all(E.same(st, rd(k, 0, O[k][1]), f[k]) for k in ('block_len', 'offset', 'flags'))
            and p_tree.plat_ok(E, st, rd('platform', 0, 1), f['platform']))


def root_compress(f, done, O, what):
    """model of Platform::compress: must be given exactly the fields of f"""
    def h(E, st, ins, args, name):
        plat, cvp, blk, blen, off, fl = args
        R = lambda ok, rule, m: E.require(ok, rule, f'{what}: {m}', ins)
        g = f()
        if not R(g is not None, 'xof', 'a compression before there is a root'): return []
        R(p_tree.plat_ok(E, st, p_tree.tree.plat_arg(E, st, plat), g['platform']), 'platform', 'the platform is neither the detected one nor the portable one')
        R(same(E, st, words(E, st, cvp), g['cv']), 'xof', 'the output is not computed from the chaining value of the root')
        R(all(E.same(st, E.quiet_read(st, T.add(blk, C64(i)), 1), g['block'][i]) for i in range(64)), 'xof', 'the output is not computed from the block of the root')
        R(E.same(st, blen, g['block_len']), 'xof', 'the output uses another block length than the root')
        R(E.same(st, off, g['offset']), 'xof', 'the output is not taken at the position of the stream')
        R(E.same(st, fl, g['flags']), 'xof', 'the output uses other flags than the root')
        ws = [fresh(32, 'hash') for _ in range(8)]
        done.append(ws)
        E.write(st, cvp, [(4 * i, w, 4) for i, w in enumerate(ws)], 32, ins)
        return [(st, None)]
    return h


def hash_bytes(ws): return [T.byte(ws[i // 4], i % 4) for i in range(32)]


def t_oneshot(mk, name, mode, xof, iname):
    """hash, keyed_hash, derive_key and their extensible forms"""
    def go(o):
        _, O = p_tree.layout(mk)
        E, st, mon = begin(mk)
        kb, kw = keyarg(E, st, mon, mode)
        inp = T.base('input')
        new_obj(st, inp, 'input')
        n = T.sym(64, 'n')
        mon.sizes[inp] = ai.e_var(n)
        st.poly.add_ge(e_add(e_const((1 << 63) - 1), ai.e_var(n), -1))
        out = T.base('out')
        new_obj(st, out, 'out')
        mon.outs[out] = None
        mon.sizes[out] = O['size'] if xof else 32
        root, done = [], []
        what = kern.short(name)
        order = p_tree.internal_roles(mk, iname)

        def internal(E, st, ins, args, nm):
            sret = args[0]
            ip, ln, kp, fl = (dict(zip(order, args[1:]))[x] for x in ('input', 'n', 'key', 'flags'))
            R = lambda ok, rule, m: E.require(ok, rule, f'{what}: {m}', ins)
            R(not root, 'xof', 'the input is hashed twice')
            R(ip == inp, 'absorb', 'the input hashed does not start at the first byte given')
            R(E.eq(st, ln, n), 'absorb', 'the input hashed is not the whole input given')
            R(same(E, st, words(E, st, kp), kw), 'mode', 'the key words are not those of the mode' + (' (the initial constants)' if mode is None else ' (the key bytes as little-endian words)'))
            R(E.eq(st, fl, T.const(8, MODES[mode])), 'mode', 'the mode flags are not those of the mode')
            root.append(fresh_output(E, st, sret, O))
            return [(st, None)]
        E.prims = {re.compile(re.escape(iname) + '$'): internal,
                   re.compile(r'8Platform8compress$'): root_compress(lambda: root[0] if root else None, done, O, what)}
        try:
            rets = E.call(name, [out] + ([kb] if kb is not None else []) + [inp, n], st)
            E.require(bool(rets), 'unproved', f'{what} never returns')
            for z, _ in rets:
                if not E.require(len(root) == 1, 'xof', f'{what} does not hash its input exactly once'): continue
                if xof: E.require(is_output(E, z, out, O, root[0]), 'xof', f'{what}: the output returned is not the root of the input')
                else:
                    ok = len(done) == 1 and [E.quiet_read(z, T.add(out, C64(i)), 1) for i in range(32)] == hash_bytes(done[0])
                    E.require(ok, 'xof', f'{what}: the hash returned is not the root compression of the input, as little-endian bytes')
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def t_finalize_hash(mk, name, xname):
    """Hasher::finalize is the first 32 bytes of Hasher::finalize_xof"""
    def go(o):
        H, O = p_tree.layout(mk)
        E, st, mon = begin(mk)
        me, out = T.base('self'), T.base('out')
        new_obj(st, me, 'self', H['size'])
        new_obj(st, out, 'out')
        mon.sizes[me], mon.sizes[out] = H['size'], 32
        mon.outs[out] = None
        root, done = [], []
        what = kern.short(name)

        def fin(E, st, ins, args, nm):
            E.require(args[1] == me, 'xof', f'{what}: another hasher is finalized', ins)
            root.append(fresh_output(E, st, args[0], O))
            return [(st, None)]
        E.prims = {re.compile(re.escape(xname) + '$'): fin,
                   re.compile(r'8Platform8compress$'): root_compress(lambda: root[0] if root else None, done, O, what)}
        try:
            rets = E.call(name, [out, me], st)
            E.require(bool(rets), 'unproved', f'{what} never returns')
            for z, _ in rets:
                ok = len(root) == 1 and len(done) == 1 and [E.quiet_read(z, T.add(out, C64(i)), 1) for i in range(32)] == hash_bytes(done[0])
                E.require(ok, 'xof', f'{what}: the hash returned is not the first 32 bytes of the extensible output')
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def t_output(mk, name, kind):
    """Output::read and Output::to_hash"""
    def go(o):
        _, O = p_tree.layout(mk)
        E, st, mon = begin(mk)
        me, out = T.base('self'), T.base('out')
        new_obj(st, me, 'self', O['size'])
        new_obj(st, out, 'out')
        mon.sizes[me], mon.sizes[out] = O['size'], 64 if kind == 'read' else 32
        mon.outs[out] = None
        mon.outs[me] = None
        f = fresh_output(E, st, me, O, zero_offset=False)
        what = kern.short(name)
        done = []

        def xofp(E, st, ins, args, nm):
            sret, plat, cvp, blk, blen, off, fl = args
            R = lambda ok, m: E.require(ok, 'xof', f'{what}: {m}', ins)
            E.require(p_tree.plat_ok(E, st, p_tree.tree.plat_arg(E, st, plat), f['platform']), 'platform', f'{what}: the platform is neither the detected one nor the portable one', ins)
            R(same(E, st, words(E, st, cvp), f['cv']), 'the stream is not computed from the chaining value of the root')
            R(all(E.same(st, E.quiet_read(st, T.add(blk, C64(i)), 1), f['block'][i]) for i in range(64)), 'the stream is not computed from the block of the root')
            R(E.same(st, blen, f['block_len']), 'the stream uses another block length than the root')
            R(E.same(st, off, f['offset']), 'a read is not taken at the current position')
            R(E.same(st, fl, f['flags']), 'the stream uses other flags than the root')
            bs = [fresh(8, 'stream') for _ in range(64)]
            done.append(bs)
            E.write(st, sret, [(i, b, 1) for i, b in enumerate(bs)], 64, ins)
            return [(st, None)]
        E.prims = {re.compile(r'8Platform12compress_xof$'): xofp,
                   re.compile(r'8Platform8compress$'): root_compress(lambda: f, done, O, what)}
        try:
            rets = E.call(name, [out, me], st)
            E.require(bool(rets), 'unproved', f'{what} never returns')
            for z, _ in rets:
                if not E.require(len(done) == 1, 'xof', f'{what}: not exactly one compression'): continue
                if kind == 'read':
                    E.require([E.quiet_read(z, T.add(out, C64(i)), 1) for i in range(64)] == done[0], 'xof', f'{what}: the bytes returned are not the 64 bytes of the stream at the position')
                    g = dict(f, offset=T.add(f['offset'], C64(64)))
                    E.require(is_output(E, z, me, O, g), 'xof', f'{what}: a read changes more than the position, or does not advance it by 64')
                else:
                    E.require([E.quiet_read(z, T.add(out, C64(i)), 1) for i in range(32)] == hash_bytes(done[0]), 'xof', f'{what}: the hash is not the first 32 bytes of the stream')
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def t_new(mk, name, mode, rust=True):
    """a new hasher is the virgin state of its mode"""
    def go(o):
        H, _ = p_tree.layout(mk)
        E, st, mon = begin(mk)
        out = T.base('self')
        new_obj(st, out, 'self')
        mon.outs[out] = None
        mon.sizes[out] = H['size']
        plat = T.sym(8, 'platform')
        E.prims = {re.compile(r'8Platform6detect$'): lambda E, st, ins, args, nm: [(st, plat)]}
        if rust:
            kb, kw = keyarg(E, st, mon, mode)
            args, fl = [out] + ([kb] if kb is not None else []), T.const(8, MODES[mode])
        else:
            kb, kw = keyarg(E, st, mon, 'keyed')
            fl = T.sym(8, 'mode')
            args = [out, kb, fl]
        what = kern.short(name)
        try:
            rets = E.call(name, args, st)
            E.require(bool(rets), 'unproved', f'{what} never returns')
            for z, _ in rets:
                F = lambda f: E.quiet_read(z, T.add(out, C64(H[f][0])), H[f][1])
                R = lambda ok, rule, m: E.require(ok, rule, f'{what}: {m}')
                R(same(E, z, words(E, z, T.add(out, C64(H['key'][0]))), kw), 'mode', 'the key kept is not that of the mode')
                R(same(E, z, words(E, z, T.add(out, C64(H['cv'][0]))), kw), 'mode', 'the first chunk does not start from the key')
                R(E.same(z, F('flags'), fl), 'mode', 'the mode flags kept are not those of the mode')
                if rust: R(p_tree.plat_ok(E, z, F('platform'), plat), 'platform', 'the platform kept is neither the detected one nor the portable one')
                R(T.cval(F('offset')) == 0, 'offset', 'a new hasher does not start at position zero')
                R(T.cval(F('count')) == 0 and T.cval(F('buf_len')) == 0, 'absorb', 'a new hasher is not empty')
                R(all(T.cval(E.quiet_read(z, T.add(out, C64(H['buf'][0] + i)), 1)) == 0 for i in range(64)), 'framing', 'the block buffer of a new hasher is not zero')
                R(T.cval(F('len')) == 0, 'tree', 'the subtree stack of a new hasher is not empty')
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


def t_write(mk, name, uname):
    """io::Write::write passes the whole slice to update and reports its length"""
    def go(o):
        H, _ = p_tree.layout(mk)
        E, st, mon = begin(mk)
        me, inp = T.base('self'), T.base('input')
        new_obj(st, me, 'self', H['size'])
        new_obj(st, inp, 'input')
        n = T.sym(64, 'n')
        mon.sizes[inp] = ai.e_var(n)
        calls = []
        what = kern.short(name)

        def upd(E, st, ins, args, nm):
            E.require(args[0] == me and args[1] == inp and E.eq(st, args[2], n), 'write', f'{what}: not the whole slice is absorbed', ins)
            calls.append(1)
            return [(st, args[0])]
        E.prims = {re.compile(re.escape(uname) + '$'): upd}
        try:
            rets = E.call(name, [me, inp, n], st)
            E.require(bool(rets), 'unproved', f'{what} never returns')
            E.require(len(calls) == 1, 'write', f'{what}: the slice is not absorbed exactly once')
            for z, rv in rets:
                v = E.flat(rv)
                E.require(len(v) == 2 and T.cval(v[0]) == 0, 'write', f'{what}: does not return Ok')
                E.require(len(v) == 2 and E.eq(z, v[1], n), 'write', f'{what}: the count returned is not the length of the slice')
        finally: o.take(E)
    return (f'{kern.short(name)} [{mk}]', go)


class Count(Api):
    """a counting loop by induction: counter + number of bits still to be counted never changes"""
    def __init__(s, x0):
        super().__init__()
        s.x0, s.regs, s.sum = x0, None, None

    def fail(s): raise Unsupported('counting loop of unknown shape')

    def bits(s, t): return T.add(T.const(8, 0), *[T.zext(T.ext(t, i, 1), 8) for i in range(64)])

    def on_header(s, E, f, h, st):
        ph = [i.name for i in f.blocks[h] if i.op == 'phi']
        if len(f.loops) != 1 or len(ph) != 2: s.fail()
        xs = [r for r in ph if st.regs[r] == s.x0]
        cs = [r for r in ph if T.cval(st.regs[r]) == 0]
        if len(xs) != 1 or len(cs) != 1 or s.regs: s.fail()
        s.regs = x, c = xs[0], cs[0]
        w = N[st.regs[c]][1]
        s.c0 = T.sym(w, 'count')
        out = []
        for low in range(65):
            z = st.copy()
            parts = [T.const(low, 0)] if low else []
            if low < 64: parts.append(T.const(1, 1))
            if low < 63: parts += [T.sym(1, f'b{i}') for i in range(low + 1, 64)]
            z.regs[x], z.regs[c] = T.cat(parts), s.c0
            z.tag['low'] = low
            out.append(z)
        return out

    def on_back(s, E, f, h, st):
        if 'low' not in st.tag: return [st]
        x, c = s.regs
        low = st.tag['low']
        before = T.add(T.ext(s.c0, 0, 8), T.const(8, int(low < 64)), *[T.zext(T.sym(1, f'b{i}'), 8) for i in range(low + 1, 64)])
        nx, nc = st.regs[x], st.regs[c]
        if N[nx][1] != 64: s.fail()
        E.require(low < 64 and E.same(st, T.add(T.ext(nc, 0, 8), s.bits(nx)), before), 'popcount', f'{f.name}: a step of the counting loop does not count the bits it removes (lowest bit {low})')
        return []


def t_popcnt(mk, name):
    """the counting loop of the C code counts bits, for every value: by induction over the loop (one case per position of the
    lowest bit), or else by following it for each position of the top bit"""
    def steps(o):
        for top in range(65):
            E, st, mon = begin(mk)
            bits = [T.sym(1, f'b{i}') for i in range(max(top - 1, 0))]
            x = T.cat(bits + ([T.const(1, 1)] if top else []) + ([T.const(64 - top, 0)] if top < 64 else []))
            count = T.const(8, 1 if top else 0)
            for b in bits: count = T.add(count, T.zext(b, 8))
            # the counting instruction applied to this very value is its number of bits
            mon.on_ctpop = lambda E, st, v: T.zext(count, 64) if v == x else None
            rets = E.call(name, [x], st)
            E.require(bool(rets), 'unproved', f'{name} never returns')
            for z, rv in rets: E.require(E.same(z, rv, count), 'popcount', f'{name} does not count the bits of values with {top} significant bits')
            o.take(E)

    def induction(o):
        E, st, _ = begin(mk)
        x0 = T.sym(64, 'x')
        mon = E.mon = Count(x0)
        rets = E.call(name, [x0], st)
        if mon.regs is None: mon.fail()
        E.require(bool(rets), 'popcount', f'{name} never returns')
        for z, rv in rets:
            # every bit counted: nothing may be left when the loop ends
            E.require(z.tag.get('low') == 64 and E.same(z, T.ext(rv, 0, 8), T.ext(mon.c0, 0, 8)), 'popcount', f'{name} stops before all bits are counted')
        o.take(E)

    def go(o):
        a = run.Out(o.label)
        try:
            steps(a)
            if not a.viol: return o.merge(a)
        except Unsupported: pass
        b = run.Out(o.label)
        try: induction(b)
        except Unsupported: b = a if a.viol else None
        if b is None: raise Unsupported('counting loop of unknown shape')
        o.merge(b)
    return (f'{name} [{mk}]', go)


