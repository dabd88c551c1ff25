"""Rules for the compression functions and the batched kernels (C01-C04, C07, C16)."""
import re
from . import ai, spec, terms as T
from .terms import N
from .llir import PTR


class Fam:
    """a word-size family"""
    def __init__(s, W):
        s.W = W
        s.wb = W // 8
        s.nw = 8 if W == 32 else 4
        s.block = 16 * s.wb
        s.compress = spec.compress32 if W == 32 else spec.compress64

    def words(s, E, st, ptr, n):
        return [E.quiet_read(st, T.add(ptr, T.const(64, s.wb * i)), s.wb) for i in range(n)]


F32, F64 = Fam(32), Fam(64)


def new_obj(st, b, name, size=None):
    o = ai.Obj(name, size)
    st.mem[b] = o
    st._own.add(b)
    return o


class Frame(ai.Monitor):
    """writes only to the declared outputs, reads/writes inside the declared sizes"""
    def __init__(s):
        s.outs = {}      # base -> size term or int or None
        s.sizes = {}

    def bound(s, E, st, b, off, size, ins, what):
        o = st.mem.get(b)
        lim = s.sizes.get(b)
        if lim is None and o is not None and o.kind in ('alloca', 'const', 'global'): lim = o.size
        if lim is None: return
        if isinstance(lim, int) and isinstance(size, int) and N[off][0] == 'c':
            E.require(T.cval(off) + size <= lim, 'bounds', f'{what} of {T.show(b)} at offset {T.cval(off)} outside its {lim} bytes', ins)
            return
        e = E.toint(st, off)
        n = E.szexpr(st, size)
        L = lim if isinstance(lim, tuple) else E.toint(st, lim) if not isinstance(lim, int) else (lim, {})
        hi = st.poly.entails_ge(ai.e_add(ai.e_add(L, e, -1), n, -1))
        # toint is unsigned: a negative offset shows up as a huge value and fails the bound
        E.require(hi, 'bounds', f'{what} of {T.show(b)} at offset {T.show(off)} not proved inside its {lim} bytes', ins)

    def on_write(s, E, st, b, off, size, cells, ins):
        o = st.mem.get(b)
        if not (o is not None and o.kind == 'alloca'):
            E.require(b in s.outs, 'frame', f'write to memory other than the declared outputs: {T.show(b)}', ins)
        s.bound(E, st, b, off, size, ins, 'write')

    def on_read(s, E, st, b, off, n, ins):
        s.bound(E, st, b, off, n, ins, 'read')

    def on_copy(s, E, st, d, sr, n, nv, ins):
        if nv is not None: return           # read cell by cell
        b, off = ai.split_ptr(sr)
        if b is None: raise ai.Unsupported(f'copy from unknown pointer in {E.where(ins)}')
        s.bound(E, st, b, off, ai.Sz(n), ins, 'copy')

    def on_panic(s, E, st, name, ins):
        E.report('panic', f'a panic is reachable ({name[-60:]})', ins)

    def on_unreachable(s, E, st, ins): pass


def platform_arg(E, st, mon):
    """&Platform with an arbitrary valid discriminant"""
    p = T.base('platform')
    o = new_obj(st, p, 'platform')
    d = T.sym(8, 'platform_kind')
    o.cells[0] = (d, 1, 0)
    st.poly.add_ge((2, {d: -1}))
    mon.sizes[p] = 1
    return p


def check_compress(E, fname, fam, xof, selfarg=False, ref=False):
    """the function equals the specified compression on every input"""
    st = ai.State()
    cv, blk = T.base('cv'), T.base('block')
    ln, off, fl = T.sym(8, 'block_len'), T.sym(64, 'offset'), T.sym(8, 'flags')
    E.mon = mon = Frame()
    new_obj(st, cv, 'cv'); new_obj(st, blk, 'block')
    mon.sizes = {cv: fam.nw * fam.wb, blk: fam.block}
    cvw, mw = fam.words(E, st, cv, fam.nw), fam.words(E, st, blk, 16)
    a = [cv, blk, ln, off, fl]
    if ref:                                        # stand-alone reference: 32-bit length and flags
        ln, fl = T.sym(32, 'block_len'), T.sym(32, 'flags')
        a = [cv, blk, off, ln, fl]
    dst, n = cv, fam.nw
    if selfarg: a = [platform_arg(E, st, mon)] + a
    if xof:
        dst, n = T.base('out'), 16
        new_obj(st, dst, 'out')
        mon.sizes[dst] = 16 * fam.wb
        a = [dst] + a
    mon.outs = {dst: None}
    ex = fam.compress(cvw, mw, ln, off, fl)
    rets = E.call(fname, a, st)
    E.require(bool(rets), 'compress', f'{fname} never returns')
    for z, _ in rets:
        got = fam.words(E, z, dst, n)
        bad = [i for i in range(n) if not E.same(z, got[i], ex[i])]
        E.ok('compress', n)
        if bad: E.report('compress', f'{fname}: output word(s) {bad} differ from the specified compression')


class Chain(Frame):
    """ghost chaining values of `lanes` inputs hashed block by block"""
    def __init__(s, fam, blocks, key, lanes, offs, fl, fs, fe):
        super().__init__()
        s.fam, s.blocks, s.key, s.lanes, s.offs = fam, blocks, key, lanes, offs
        s.fl, s.fs, s.fe = fl, fs, fe

    def start(s, E, st):
        st.g['k'] = T.const(64, 0)
        for i in range(len(s.lanes)):
            for w in range(s.fam.nw): st.g[f'cv{i:02}.{w}'] = s.key[w]

    def lane(s, E, st, i):
        return s.lanes[i], s.offs[i]

    def step(s, E, st, i):
        k = st.g['k']
        first = E.decide(st, T.icmp('eq', k, T.const(64, 0)))
        last = E.decide(st, T.icmp('eq', T.add(k, T.const(64, 1)), s.blocks))
        if first is None or last is None: return None
        ptr, off = s.lane(E, st, i)
        m = s.fam.words(E, st, T.add(ptr, T.scale(k, s.fam.block)), 16)
        f = s.fl
        if first: f = T.or_(f, s.fs)
        if last: f = T.or_(f, s.fe)
        cv = [st.g[f'cv{i:02}.{w}'] for w in range(s.fam.nw)]
        return s.fam.compress(cv, m, T.const(8, s.fam.block), off, f)[:s.fam.nw]

    def advance(s, E, st):
        for i in range(len(s.lanes)):
            n = s.step(E, st, i)
            for w in range(s.fam.nw): st.g[f'cv{i:02}.{w}#'] = n[w]
        for i in range(len(s.lanes)):
            for w in range(s.fam.nw): st.g[f'cv{i:02}.{w}'] = st.g.pop(f'cv{i:02}.{w}#')
        st.g['k'] = T.add(st.g['k'], T.const(64, 1))
        E.ok('chain-step')

    def live(s, E, f, h, st):
        vals = set()
        def put(t):
            vals.add(t)
            w = N[t][1]
            if w > s.fam.W and w % s.fam.W == 0:
                for p in range(0, w, s.fam.W): vals.add(T.ext(t, p, s.fam.W))
        for ins in f.blocks[h]:
            if ins.op != 'phi': break
            for t in E.flat(st.regs[ins.name]): put(t)
        for b, o in st.mem.items():
            if o.kind in ('alloca',) or b in s.outs:
                for t, nb, v in o.cells.values(): put(t)
        return vals

    def sync(s, E, f, h, st):
        for _ in range(4):
            n = s.step(E, st, 0)
            if n is None: return
            v = s.live(E, f, h, st)
            if n[0] not in v: return
            s.advance(E, st)

    def on_header(s, E, f, h, st):
        k1 = T.add(st.g['k'], T.const(64, 1))
        c = T.icmp('eq', k1, s.blocks)
        if E.decide(st, c) is not None: return [st]
        if not E.le(st, k1, s.blocks): return [st]
        return E.assume(st.copy(), c, True) + E.assume(st, c, False)

    def on_back(s, E, f, h, st):
        s.sync(E, f, h, st)
        return [st]


def tell(E, fam, st, got, ex):
    return [i for i in range(len(ex)) if not E.same(st, got[i], ex[i])]


def check_hashn(E, fname, fam, nlanes, build_args, consts=None):
    """hash4/hash8/...: each lane of the output is the single-input chain of its input"""
    st = ai.State()
    inp, key, out = T.base('inputs'), T.base('key'), T.base('out')
    blocks = T.sym(64, 'blocks')
    off, fl, fs, fe = T.sym(64, 'offset'), T.sym(8, 'flags'), T.sym(8, 'flags_start'), T.sym(8, 'flags_end')
    for b, n in ((inp, 'inputs'), (key, 'key'), (out, 'out')): new_obj(st, b, n)
    st.poly.add_ge((-1, {blocks: 1}))
    st.poly.add_ge((1 << 56, {blocks: -1}))
    args, delta = build_args(E, st, dict(inputs=inp, blocks=blocks, key=key, offset=off, flags=fl, fs=fs, fe=fe, out=out))
    lanes = [E.load(st, T.add(inp, T.const(64, 8 * i)), PTR) for i in range(nlanes)]
    kw = fam.words(E, st, key, fam.nw)
    mon = Chain(fam, blocks, kw, lanes, [delta(i) for i in range(nlanes)], fl, fs, fe)
    mon.outs = {out: None}
    mon.sizes = {inp: 8 * nlanes, key: fam.nw * fam.wb, out: 32 * nlanes}
    for l in lanes:
        mon.sizes[l] = (0, {blocks: fam.block})
    E.mon = mon
    mon.start(E, st)
    rets = E.call(fname, args, st)
    E.require(bool(rets), 'hashn', f'{fname} never returns')
    for z, _ in rets:
        E.ok('hashn', nlanes * fam.nw)
        got = [fam.words(E, z, T.add(out, T.const(64, 32 * i)), fam.nw) for i in range(nlanes)]
        for _ in range(3):
            if E.eq(z, z.g['k'], blocks): break
            if mon.step(E, z, 0) is None: break
            mon.advance(E, z)
        if not E.eq(z, z.g['k'], blocks):
            E.report('hashn', f'{fname}: the number of blocks absorbed is not the number of blocks of the inputs')
            continue
        for i in range(nlanes):
            bad = tell(E, fam, z, got[i], [z.g[f'cv{i:02}.{w}'] for w in range(fam.nw)])
            if bad: E.report('hashn', f'{fname}: lane {i} word(s) {bad} differ from hashing that input alone')


class Dispatch(Chain):
    """hash_many: every input's chaining value is written to its own 32 bytes, in order, exactly once"""
    def __init__(s, fam, blocks, key, inputs, out, off0, delta, fl, fs, fe):
        super().__init__(fam, blocks, key, [None], [None], fl, fs, fe)
        s.inputs, s.out, s.off0, s.delta = inputs, out, off0, delta

    def start(s, E, st):
        super().start(E, st)
        st.g['done'] = T.const(64, 0)
        st.g['off'] = s.off0
        st.tag['mask'] = 0

    def lane(s, E, st, i):
        m, E.mon = E.mon, None
        try:
            p = E.load(st, T.add(s.inputs, T.scale(st.g['done'], 8)), PTR)
        finally:
            E.mon = m
        return p, st.g['off']

    def idle(s, E, st, ins):
        return E.require(E.eq(st, st.g['k'], T.const(64, 0)) and st.tag['mask'] == 0, 'dispatch',
                         'a batch kernel is called while another input is half done', ins)

    def lap(s, E, st, n):
        st.g['done'] = T.add(st.g['done'], T.const(64, n))
        st.g['off'] = T.add(st.g['off'], T.scale(s.delta, n))
        st.g['k'] = T.const(64, 0)
        st.tag['mask'] = 0
        for w in range(s.fam.nw): st.g[f'cv00.{w}'] = s.key[w]

    def on_write(s, E, st, b, off, size, cells, ins):
        if b != s.out:
            return super().on_write(E, st, b, off, size, cells, ins)
        s.bound(E, st, b, off, size, ins, 'write')
        d = E.canon(st, T.sub(off, T.scale(st.g['done'], 32)))
        r = T.cval(d)
        E.ok('dispatch')
        if r is None or cells is None or not isinstance(size, int) or r + size > 32:
            E.report('dispatch', 'output bytes are written somewhere else than at the slot of the current input', ins)
            return
        for attempt in range(3):
            if E.eq(st, st.g['k'], s.blocks): break
            if s.step(E, st, 0) is None: break
            s.advance(E, st)
        if not E.eq(st, st.g['k'], s.blocks):
            E.report('dispatch', 'a chaining value is written before all blocks of the input are absorbed', ins)
            return
        whole = T.cat([st.g[f'cv00.{w}'] for w in range(s.fam.nw)])
        mask = st.tag['mask']
        for rel, t, nb in cells:
            p = r + rel
            if not E.same(st, t, T.ext(whole, 8 * p, 8 * nb)):
                E.report('dispatch', 'the bytes written for an input differ from hashing that input alone', ins)
                return
            mask |= ((1 << nb) - 1) << p
        st.tag['mask'] = mask

    def settle(s, E, st):
        if st.tag['mask'] == (1 << 32) - 1: s.lap(E, st, 1)

    def on_back(s, E, f, h, st):
        if st.tag['mask'] == (1 << 32) - 1: s.lap(E, st, 1)
        else: s.sync(E, f, h, st)
        return [st]

    def kernel(s, n, names):
        """primitive for a kernel hashing n inputs; names: argument order"""
        def h(E, st, ins, args, name):
            if len(args) != len(names): return None
            a = dict(zip(names, args))
            s.settle(E, st)
            if not s.idle(E, st, ins): return [(st, None)]
            done, off = st.g['done'], st.g['off']
            R = lambda c, m: E.require(c, 'dispatch', f'{short(name)} is called with {m}', ins)
            cnt = n if n is not None else a['num']
            ncnt = T.const(64, n) if n is not None else a['num']
            R(E.eq(st, a['inputs'], T.add(s.inputs, T.scale(done, 8))), 'inputs that are not the next ones')
            if 'blocks' in a: R(E.eq(st, a['blocks'], s.blocks), 'the wrong number of blocks')
            kw = s.fam.words(E, st, a['key'], s.fam.nw)
            R(all(E.same(st, x, y) for x, y in zip(kw, s.key)), 'a different key')
            R(E.eq(st, a['offset'], off), 'the wrong offset')
            if 'delta' in a: R(E.eq(st, a['delta'], s.delta), 'the wrong offset delta')
            else:
                for i in range((n or s.maxdeg) + 1 if n is None else n):
                    R(E.eq(st, E.quiet_read(st, T.add(a['deltas'], T.const(64, 8 * i)), 8), T.scale(s.delta, i)), 'the wrong offset deltas')
            R(E.same(st, a['flags'], s.fl), 'the wrong flags')
            R(E.same(st, a['fs'], s.fs), 'the wrong start flags')
            R(E.same(st, a['fe'], s.fe), 'the wrong end flags')
            R(E.eq(st, a['out'], T.add(s.out, T.scale(done, 32))), 'an output pointer that is not the next slot')
            s.bound(E, st, s.out, T.scale(done, 32), ai.mksz(T.scale(ncnt, 32)), ins, f'output of {short(name)}')
            s.bound(E, st, s.inputs, T.scale(done, 8), ai.mksz(T.scale(ncnt, 8)), ins, f'inputs of {short(name)}')
            if 'outlen' in a:
                R(E.le(st, T.scale(ncnt, 32), a['outlen']), 'too short an output slice')
            if n is not None:
                s.lap(E, st, n)
            else:
                st.g['done'] = T.add(done, ncnt)
                st.g['off'] = ai.fresh(64, 'off')   # only valid if nothing follows
            m, E.mon = E.mon, None
            E.write(st, T.add(s.out, T.scale(done, 32)), None, ai.mksz(T.scale(ncnt, 32)), ins, tag='kernel')
            E.mon = m
            return [(st, None)]
        return h


def short(n):
    import subprocess
    if n.startswith('_R'):
        try:
            d = subprocess.run(['c++filt', '-s', 'rust', n], capture_output=True, text=True, timeout=10).stdout.strip()
            return re.sub(r'\[[0-9a-f]{8,}\]', '', d)
        except Exception:
            pass
    return n


RS_HASHN = ['inputs', 'blocks', 'key', 'offset', 'delta', 'flags', 'fs', 'fe', 'out']
C_HASHN = ['inputs', 'blocks', 'key', 'offset', 'deltas', 'flags', 'fs', 'fe', 'out']
RS_MANY = ['inputs', 'num', 'key', 'offset', 'delta', 'flags', 'fs', 'fe', 'out', 'outlen']
C_MANY = ['inputs', 'num', 'blocks', 'key', 'offset', 'deltas', 'flags', 'fs', 'fe', 'out']


def check_many(E, fname, fam, sig, blocks=None, kernels=(), maxdeg=16, selfarg=False):
    """hash_many: kernels = [(regex, lanes or None, argument names)] treated by contract"""
    st = ai.State()
    inp, key, out = T.base('inputs'), T.base('key'), T.base('out')
    for b, n in ((inp, 'inputs'), (key, 'key'), (out, 'out')): new_obj(st, b, n)
    num, outlen = T.sym(64, 'num_inputs'), T.sym(64, 'out_len')
    off, fl, fs, fe = T.sym(64, 'offset'), T.sym(8, 'flags'), T.sym(8, 'flags_start'), T.sym(8, 'flags_end')
    delta = T.sym(64, 'delta')
    P = st.poly
    P.add_ge((1 << 50, {num: -1}))
    P.add_ge((0, {outlen: 1, num: -32}))          # precondition: room for every chaining value
    P.add_ge(((1 << 63) - 1, {outlen: -1}))
    if blocks is None:
        blocks = T.sym(64, 'blocks')
        P.add_ge((-1, {blocks: 1}))
        P.add_ge((1 << 56, {blocks: -1}))
    a = dict(inputs=inp, num=num, blocks=blocks, key=key, offset=off, delta=delta, flags=fl, fs=fs, fe=fe, out=out, outlen=outlen)
    mon = Dispatch(fam, blocks, fam.words(E, st, key, fam.nw), inp, out, off, delta, fl, fs, fe)
    mon.maxdeg = maxdeg
    if 'deltas' in sig:
        d = T.base('deltas')
        o = new_obj(st, d, 'deltas')
        for i in range(maxdeg + 1): o.cells[8 * i] = (T.scale(delta, i), 8, 0)
        a['deltas'] = d
        mon.sizes[d] = 8 * (maxdeg + 1)
    mon.outs = {out: None}
    mon.sizes.update({inp: (0, {num: 8}), key: fam.nw * fam.wb, out: (0, {outlen: 1}) if 'outlen' in sig else (0, {num: 32})})
    E.mon = mon
    E.prims = {re.compile(p): mon.kernel(n, names) for p, n, names in kernels}
    mon.start(E, st)
    args = [a[x] for x in sig]
    if selfarg: args = [platform_arg(E, st, mon)] + args
    rets = E.call(fname, args, st)
    E.require(bool(rets), 'dispatch', f'{short(fname)} never returns')
    for z, _ in rets:
        mon.settle(E, z)
        E.ok('dispatch')
        if z.tag['mask'] or not E.eq(z, z.g['done'], num):
            E.report('dispatch', f'{short(fname)}: not every input has been hashed on return')
