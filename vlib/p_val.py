"""Values and adapters around the hasher: Hash conversions and comparison (C23),
debug printing (C14), clones (C10), copying from readers and io::Write (C17)."""
import re
from . import ai, kern, run, build, spec, terms as T, p_tree
from .ai import fresh, e_add, e_const, split_ptr, Unsupported
from .terms import N
from .kern import Frame, new_obj
from .p_api import Api, C64
from .run import find

STUB = r'(8Platform\w*(8compress|12compress_xof|9hash_many|6detect)[A-Z_]?|baokeshed\w*6Hasher\w*6update$|io5errorNtB\w_5Error(4kind|14is_interrupted)$|3ptr9drop_glue|Error\w*4kind$)'
ROOTS = r'(8vharness\d+(hash_\w+|clone_\w+|write_\w+|flush_\w+|hasher_debug|output_debug|copy_wide_dyn|cal_\w+)$|9baokeshed\w*4Hash6to_hex$)'
KEEP = STUB + '|' + ROOTS + r'|arrayvec\w*5Clone5clone|Display3fmt'


def build_val():
    p = build.rust_ll(())
    return build.normalise(build.link([p[k] for k in ('baokeshed', 'vharness', 'reference_impl', 'constant_time_eq') if k in p], 'val'), KEEP, 'n-val', stub=STUB, roots=KEEP)


run.MODS['val'] = build_val


# ---------------------------------------------------------------- calibration
def slot(cal):
    """offset in the vtable that the harness function `cal` calls through"""
    m = run.module('val')
    f = m.fn(find(m, r'8vharness\d+' + cal + '$'))
    E = ai.Engine(m)
    st = ai.State()
    mon = E.mon = Api()
    hit = []

    def ind(E, st, ins):
        n = N[st.regs[ins.x['callee'][1]]]
        hit.append(T.cval(n[3]) if n[0] == 'm' or n[0] == 'm8' else None)
        raise Unsupported('stop')
    mon.on_indirect = ind
    args = [T.base('obj'), T.base('vt')] + [T.base('buf'), T.sym(64, 'n')][:len(f.params) - 2]
    v = args[1]
    new_obj(st, v, 'vt')
    st.mem[v].cells.update({8 * i: (T.base(f'slot{8 * i}'), 8, 0) for i in range(16)})
    def ind2(E, st, ins):
        hit.append(int(N[st.regs[ins.x['callee'][1]]][2][4:]))
        raise Unsupported('stop')
    mon.on_indirect = ind2
    try: E.call(f.name, args, st)
    except Unsupported: pass
    if len(hit) != 1: raise run.Fatal(f'no single trait-object call in {cal}')
    return hit[0]


def const_fn(cal):
    m = run.module('val')
    E = ai.Engine(m)
    E.mon = Api()
    r = E.call(find(m, r'8vharness\d+' + cal + '$'), [], ai.State())
    v = T.cval(r[0][1]) if len(r) == 1 else None
    if v is None: raise run.Fatal(f'{cal} is not a constant')
    return v


def vt(st, name, slots):
    """a trait object: data pointer and a table whose slots are named primitives"""
    d, v = T.base(name + '-data'), T.base(name + '-table')
    new_obj(st, d, name)
    o = new_obj(st, v, name + '-table')
    for k, f in slots.items(): o.cells[k] = (T.base('@' + f), 8, 0)
    return d, v


def H(name): return find(run.module('val'), r'8vharness\d+' + name + '$')


# ---------------------------------------------------------------- copying
class Copy(Api):
    """state: tag io = idle | data | again | err | werr | eof"""
    def __init__(s):
        super().__init__()
        s.seen = set()

    def on_write(s, E, st, b, off, size, cells, ins):
        if st.tag.get('io') == 'data' and b == s.cur(st):
            E.require(False, 'copy', 'the buffer is written between the read and the write of its bytes', ins)
        return super().on_write(E, st, b, off, size, cells, ins)

    def cur(s, st): return split_ptr(st.g['buf'])[0]
    def keep(s): return []


def t_copy(mk, name):
    def go(o):
        E = ai.Engine(run.module(mk))
        st = ai.State()
        mon = E.mon = Copy()
        rd, rv = vt(st, 'reader', {slot('cal_read'): 'io.read'})
        wd, wv = vt(st, 'writer', {slot('cal_write'): 'io.write', slot('cal_write_all'): 'io.write_all', slot('cal_flush'): 'io.flush'})
        INT = const_fn('cal_interrupted')
        z = C64(0)
        st.g.update(buf=T.base('nothing'), n=z, total=z, err=z, kind=T.const(8, 0))
        st.tag['io'] = 'idle'
        R = lambda ok, m, ins=None: E.require(ok, 'copy', f'copy_wide: {m}', ins)

        def read(E, st, ins, args, nm):
            d, buf, ln = args
            mon.seen.add('read')
            R(d == rd, 'reads from something else than the reader', ins)
            R(st.tag['io'] != 'data', 'the bytes of the previous read are not written before the next read', ins)
            R(st.tag['io'] in ('idle', 'again', 'data'), 'goes on reading after ' + {'err': 'an error that is no interruption', 'werr': 'a write error', 'eof': 'the end of the input', 'unknown': 'an error it did not examine'}.get(st.tag['io'], ''), ins)
            b, off = split_ptr(buf)
            mon.bound(E, st, b, off, ai.mksz(ln), ins, 'read into')
            R(E.le(st, C64(1), ln), 'reads into an empty buffer, which looks like the end of the input', ins)
            out = []
            # end of input
            y = st.copy(); y.tag['io'] = 'eof'
            out.append((y, ai.Agg([z, z])))
            # n bytes
            y = st.copy(); n = fresh(64, 'read')
            y.poly.add_ge(e_add(E.toint(y, n), e_const(-1)))
            y.poly.add_ge(e_add(E.toint(y, ln), E.toint(y, n), -1))
            y.tag['io'] = 'data'
            y.g.update(buf=buf, n=n)
            m, E.mon = E.mon, None
            try: E.write(y, buf, None, ai.mksz(ln), ins, tag=('read',))
            finally: E.mon = m
            out.append((y, ai.Agg([z, n])))
            # an error
            y = st.copy(); e = fresh(64, 'error')
            y.poly.add_ge(e_add(E.toint(y, e), e_const(-1)))
            y.tag['io'] = 'unknown'
            y.g['err'] = e
            out.append((y, ai.Agg([C64(1), e])))
            return out

        def kind(E, st, ins, args, nm):
            e = E.read(st, args[0], 8, ins)
            if e != st.g['err']: raise Unsupported('the kind of an unknown error is examined')
            isint = 'interrupted' in nm
            if st.tag['io'] != 'unknown':
                k = st.tag['io'] == 'again'
                return [(st, T.const(1, int(k)) if isint else T.const(8, INT) if k else st.g['kind'])]
            y, w = st.copy(), st.copy()
            y.tag['io'], w.tag['io'] = 'again', 'err'
            k = fresh(8, 'kind')
            w.g['kind'] = k
            y.g['kind'] = T.const(8, INT)
            L = [(y, T.const(1, 1) if isint else T.const(8, INT))]
            if isint: L.append((w, T.const(1, 0)))
            else:
                for v in E.assume(w, T.icmp('eq', k, T.const(8, INT)), False): L.append((v, k))
            return L

        def write_all(E, st, ins, args, nm):
            d, buf, ln = args
            mon.seen.add('write')
            R(d == wd, 'writes to something else than the writer', ins)
            if R(st.tag['io'] == 'data', 'writes when no bytes are pending', ins):
                R(E.same(st, buf, st.g['buf']), 'does not write from the first byte read', ins)
                R(E.eq(st, ln, st.g['n']), 'does not write exactly the bytes read', ins)
            y, w = st.copy(), st.copy()
            y.tag['io'] = 'idle'
            y.g['total'] = T.add(y.g['total'], y.g['n'])
            y.g['n'] = z
            e = fresh(64, 'write-error')
            w.poly.add_ge(e_add(E.toint(w, e), e_const(-1)))
            w.tag['io'] = 'werr'
            w.g['err'] = e
            return [(y, z), (w, e)]

        def drop(E, st, ins, args, nm): return [(st, None)]
        E.prims = {re.compile(r'^io\.read$'): read, re.compile(r'^io\.write_all$'): write_all,
                   re.compile(r'5Error(4kind|14is_interrupted)$'): kind, re.compile(r'3ptr9drop_glue'): drop,
                   re.compile(r'^io\.flush$'): lambda E, st, ins, a, nm: [(st, z)]}
        try:
            rets = E.call(name, [rd, rv, wd, wv], st)
            E.require(len(rets) >= 2, 'unproved', 'copy_wide never returns')
            R(mon.seen == {'read', 'write'}, 'does not read from the reader and write to the writer')
            for y, rv_ in rets:
                v = E.flat(rv_)
                io = y.tag['io']
                if E.eq(y, T.ext(v[0], 0, 1), T.const(1, 0)):
                    R(io == 'eof', 'returns success before the end of the input' + {'err': ', after a read error', 'werr': ', after a write error', 'data': ', without writing the last bytes'}.get(io, ''))
                    R(E.eq(y, v[1], y.g['total']), 'the total returned is not the number of bytes written')
                else:
                    R(io in ('err', 'werr'), 'returns an error although ' + ('the read was only interrupted' if io in ('again', 'unknown') else 'nothing failed'))
                    R(E.same(y, v[1], y.g['err']), 'returns another error than the one that occurred')
        finally: o.take(E)
    return (f'copy_wide [{mk}]', go)


def t_write(mk, kind):
    """io::Write for Hasher: write and write_all absorb the whole slice once, flush does nothing"""
    def go(o):
        E = ai.Engine(run.module(mk))
        st = ai.State()
        mon = E.mon = Api()
        me, inp = T.base('self'), T.base('input')
        new_obj(st, me, 'self')
        new_obj(st, inp, 'input')
        n = T.sym(64, 'n')
        mon.sizes[inp] = ai.e_var(n)
        st.g['done'] = C64(0)
        what = f'Write::{kind} of a hasher'
        R = lambda ok, m, ins=None: E.require(ok, 'write', f'{what}: {m}', ins)

        def upd(E, st, ins, args, nm):
            R(args[0] == me, 'another hasher is updated', ins)
            b, off = split_ptr(args[1])
            R(b == inp and E.eq(st, off, st.g['done']), 'the bytes absorbed are not the next bytes of the slice', ins)
            mon.bound(E, st, b, off, ai.mksz(args[2]), ins, 'update')
            st.g['done'] = T.add(st.g['done'], args[2])
            return [(st, args[0])]
        E.prims = {re.compile(r'baokeshed\w*6Hasher6update$'): upd, re.compile(r'3ptr9drop_glue'): lambda E, st, ins, a, nm: [(st, None)]}
        try:
            rets = E.call(H({'write': 'write_hasher', 'write_all': 'write_all_hasher', 'flush': 'flush_hasher'}[kind]), [me] + ([inp, n] if kind != 'flush' else []), st)
            E.require(bool(rets), 'unproved', f'{what} never returns')
            for z, rv in rets:
                v = E.flat(rv)
                if kind == 'flush':
                    R(T.cval(v[0]) == 0, 'does not return success')
                    R(T.cval(z.g['done']) == 0, 'absorbs something')
                    continue
                if kind == 'write':
                    ok = R(len(v) == 2 and T.cval(T.ext(v[0], 0, 1)) == 0, 'does not return success')
                    if ok: R(E.eq(z, v[1], n), 'the count returned is not the length of the slice')
                else: R(T.cval(v[0]) == 0 or E.eq(z, v[0], C64(0)), 'does not return success')
                R(E.eq(z, z.g['done'], n), 'the slice is not absorbed exactly once, as a whole')
        finally: o.take(E)
    return (f'Write::{kind} [{mk}]', go)


# ---------------------------------------------------------------- debug printing
class Fmt(Api):
    """no byte of `secret` is read and no pointer to it is handed to the formatting code"""
    def __init__(s):
        super().__init__()
        s.secret = None
        s.events = 0

    def on_read(s, E, st, b, off, n, ins):
        if b == s.secret: E.require(False, 'debug', f'debug printing reads the contents of the {s.what}', ins)
        super().on_read(E, st, b, off, n, ins)

    def on_copy(s, E, st, d, sr, n, nv, ins):
        if split_ptr(sr)[0] == s.secret: E.require(False, 'debug', f'debug printing copies the contents of the {s.what}', ins)
        super().on_copy(E, st, d, sr, n, nv, ins)

    def leaks(s, E, st, t, seen):
        """does t, or memory of this activation reachable from it, hold a pointer to the secret"""
        if not isinstance(t, int): return any(s.leaks(E, st, x, seen) for x in t)
        at = T.atoms(t)
        if s.secret in at or split_ptr(t)[0] == s.secret: return True
        b = split_ptr(t)[0]
        if b is None or b in seen: return False
        seen.add(b)
        ob = st.mem.get(b)
        if ob is None: return False
        return any(s.leaks(E, st, c[0], seen) for c in ob.cells.values())


def t_debug(mk, fn, what):
    def go(o):
        m = run.module(mk)
        E = ai.Engine(m)
        st = ai.State()
        mon = E.mon = Fmt()
        mon.what = what
        me, f = T.base('self'), T.base('formatter')
        new_obj(st, me, 'self')
        mon.secret = me
        fo = new_obj(st, f, 'formatter', 24)
        mon.outs[f] = None
        wd, wv = vt(st, 'sink', {slot('cal_write_str'): 'fmt.write_str'})
        fo.cells[0], fo.cells[8] = (wd, 8, 0), (wv, 8, 0)

        def ext(E, st, ins, args, nm):
            if nm in m.fns: return None
            if nm in m.noret or 'noreturn' in ins.x['rest']: return None
            mon.events += 1
            E.require(not any(mon.leaks(E, st, a, set()) for a in args if a is not None), 'debug', f'debug printing hands a pointer into the {what} to {kern.short(nm)}', ins)
            # whatever it writes through its first argument is unknown
            b = split_ptr(args[0])[0] if args and isinstance(args[0], int) else None
            ob = st.mem.get(b)
            if ob is not None and ob.kind == 'alloca': E.havoc(st, b)
            rv = None
            if ins.name is not None:
                from .llir import bits_of
                rv = ai.Agg([fresh(64, 'r'), fresh(64, 'r')]) if ins.ty.k == 'struct' else fresh(bits_of(ins.ty), 'r')
            return [(st, rv)]
        E.prims = {re.compile(r'^(?!llvm)'): ext}
        try:
            rets = E.call(H(fn), [me, f], st)
            E.require(bool(rets), 'unproved', f'formatting the {what} never returns')
            E.require(mon.events > 0, 'debug', f'formatting the {what} prints nothing at all')
        finally: o.take(E)
    return (f'Debug of {what} [{mk}]', go)


def c14(tier):
    run.load(['val'])
    return [t_debug('val', 'hasher_debug', 'hasher'), t_debug('val', 'output_debug', 'output')]


def c17(tier):
    run.load(['val'])
    return [t_copy('val', H('copy_wide_dyn'))] + [t_write('val', k) for k in ('write', 'write_all', 'flush')]


# ---------------------------------------------------------------- clones
def t_clone(mk, fn, what):
    def go(o):
        Hl, Ol = p_tree.lay_rust(run.module_text(mk))
        lay = Hl if what == 'hasher' else Ol
        E = ai.Engine(run.module(mk))
        st = ai.State()
        mon = E.mon = Api()
        me, out = T.base('self'), T.base('out')
        new_obj(st, me, 'self', lay['size'])
        new_obj(st, out, 'out')
        mon.sizes[me] = mon.sizes[out] = lay['size']
        mon.outs[out] = None
        fields = {k: v[:2] for k, v in lay.items() if k != 'size'}
        plat = fields['platform'][0]
        # discriminants are valid
        before = {k: [E.quiet_read(st, T.add(me, C64(off + i)), 1) for i in range(n)] for k, (off, n) in fields.items()}
        clones = {}

        def vec(E, st, ins, args, nm):
            dst, src = args
            b, off = split_ptr(src)
            sb = 0 if what != 'hasher' else min(fields['stack'][0], fields['len'][0])
            E.require(b == me and T.cval(off) == sb, 'clone', f'cloning a {what}: the stack cloned is not that of the original', ins)
            n = fields['stack'][1] + fields['len'][1]
            ws = [fresh(8, 'stack') for _ in range(n)]
            clones['stack'] = (sb, ws)
            E.write(st, dst, [(i, w, 1) for i, w in enumerate(ws)], n, ins)
            return [(st, None)]
        E.prims = {re.compile(r'arrayvec\w*5Clone5clone'): vec}
        try:
            rets = E.call(H(fn), [out, me], st)
            E.require(bool(rets), 'unproved', f'cloning a {what} never returns')
            for z, _ in rets:
                for k, (off, n) in fields.items():
                    want = before[k]
                    if clones and k in ('stack', 'len'): want = [clones['stack'][1][off - clones['stack'][0] + i] for i in range(n)]
                    got = [E.quiet_read(z, T.add(out, C64(off + i)), 1) for i in range(n)]
                    E.require(all(E.same(z, x, y) for x, y in zip(got, want)), 'clone', f'the clone of a {what} does not carry the {k} of the original')
        finally: o.take(E)
    return (f'clone of {what} [{mk}]', go)


SHARED = re.compile(r'^(UnsafeCell|Cell|RefCell|Rc|Arc|Box|Mutex|RwLock|NonNull|Atomic\w*)\b')


def t_owned(mk, names):
    """the type of the state contains no pointer, cell or reference: a copy shares nothing"""
    def go(o):
        L = p_tree.Layout(run.module_text(mk))
        for name, has in names:
            seen = set()

            def walk(k, path):
                k = L.strip(k)
                if k in seen: return
                seen.add(k)
                v = L.node.get(k, '')
                tag = re.search(r'tag: (DW_TAG_\w+)', v)
                tag = tag.group(1) if tag else ''
                nm = L.attr(v, 'name') or ''
                ok = 'pointer' not in tag and 'reference' not in tag and not SHARED.match(nm)
                o.check(ok, 'owned', f'{name}: {path} holds a shared or mutable-through-reference part ({nm or tag})')
                if not ok: return
                if 'DICompositeType' in v:
                    if 'array' in tag: walk(L.attr(v, 'baseType')[1:], path + '[]')
                    el = L.attr(v, 'elements')
                    for x in re.findall(r'!(\d+)', L.node.get(el[1:], '') if el else ''):
                        d = L.node.get(x, '')
                        if 'DW_TAG_member' in d: walk(L.attr(d, 'baseType')[1:], path + '.' + str(L.attr(d, 'name')))
                        elif 'DW_TAG_variant_part' in d: walk(x, path)
            walk(L.find(name, has), name)
            o.check(len(seen) > 5, 'owned', f'{name}: the type could not be walked')
    return (f'types of the state [{mk}]', go)


def clones(tier=None):
    run.load(['val'])
    return [t_clone('val', 'clone_hasher', 'hasher'), t_clone('val', 'clone_output', 'output'),
            t_owned('val', [('Hasher', ['subtree_hashes', 'chunk']), ('Output', ['cv', 'block'])])]


# ---------------------------------------------------------------- hash values
def evaluate(E, t, env, memo):
    """value of a term when its variables have the given values"""
    if t in memo: return memo[t]
    n = N[t]
    k = n[0]
    ev = lambda x: evaluate(E, x, env, memo)
    if k == 'c': r = T.cval(t)
    elif t in env: r = env[t]
    elif k in ('m', 'm8') and E is not None:
        b, off = n[2], n[3]
        g = E.consts.get(b)
        if g is None: raise Unsupported(f'value of {T.show(t)}')
        v = E.const_read(g, ev(off), n[1] // 8)
        if v is None: raise Unsupported(f'constant read at {ev(off)}')
        r = T.cval(v)
    else:
        at = {a for a in T.atoms(t) if N[a][0] not in ('c', 'base')}
        if t in at: raise Unsupported(f'value of {T.show(t)}')
        m = {a: T.const(N[a][1], ev(a)) for a in at}
        x = T.subst(t, m)
        if not T.is_const(x): raise Unsupported(f'value of {T.show(t)}')
        r = T.cval(x)
    memo[t] = r
    return r


DIGITS = b'0123456789abcdef'


def hashobj(st, name):
    b = T.base(name)
    new_obj(st, b, name, 32)
    return b


def bytes_of(E, st, b, n=32): return [E.quiet_read(st, T.add(b, C64(i)), 1) for i in range(n)]


def digit_ok(E, z, t, by, high):
    """t is the lowercase hexadecimal digit of one half of byte `by`, decided by tabulation over the 256 values of the byte"""
    if t is None: return False
    at = {a for a in T.atoms(t) if N[a][0] != 'c'}
    for v in range(256):
        w = evaluate(E, T.ext(t, 0, 8), {by: v}, {})
        if w != DIGITS[v >> 4 if high else v & 15]: return False
    return True


def consts(E, st): E.consts = {b: o for b, o in st.mem.items() if o.kind == 'const' and o.data is not None}


class ByBytes(Api):
    """branches on digits: conditions on one byte of the value are settled by the table of its 256 values"""
    ifconv = True
    src = ()

    def tabulate(s, E, st, c):
        at = T.atoms(c) & set(s.src)
        if len(at) != 1: return None
        by = at.pop()
        consts(E, st)
        vals = set()
        cond = [(p[4], v) for p, v in st.split if set(T.atoms(p[4])) & set(s.src) == {by}]
        try:
            for v in range(256):
                memo = {}
                if all(bool(evaluate(E, q, {by: v}, memo)) == w for q, w in cond): vals.add(bool(evaluate(E, c, {by: v}, memo)))
                if len(vals) > 1: return None
        except Unsupported: return None
        return vals.pop() if vals else None


def t_hex(mk):
    def go(o):
        m = run.module(mk)
        E = ai.Engine(m)
        st = ai.State()
        mon = E.mon = ByBytes()
        me, out = hashobj(st, 'hash'), T.base('out')
        new_obj(st, out, 'out')
        mon.outs[out] = None
        mon.sizes.update({me: 32, out: 65})
        src = mon.src = bytes_of(E, st, me)
        L = p_tree.Layout(run.module_text(mk))
        try:
            rets = E.call(find(m, r'9baokeshed\w*4Hash6to_hex$'), [out, me], st)
            E.require(bool(rets), 'unproved', 'to_hex never returns')
            k = [q for nme in L.structs if nme.startswith('ArrayString<[u8; 64') for q in L.structs[nme]]
            if not k: raise run.Fatal('the hexadecimal form is no string of 64 bytes')
            f = L.fields(L.strip(k[0]))
            for z, _ in rets:
                consts(E, z)
                E.require(T.cval(E.quiet_read(z, T.add(out, C64(f['len'][0])), f['len'][1])) == 64, 'hex', 'to_hex: the text is not 64 digits long')
                for i in range(64):
                    t = E.quiet_read(z, T.add(out, C64(f['xs'][0] + i)), 1)
                    E.require(digit_ok(E, z, t, src[i // 2], i % 2 == 0), 'hex', f'to_hex: digit {i} is not the {"low" if i % 2 else "high"} half of byte {i // 2} in lowercase hexadecimal')
        finally: o.take(E)
    return (f'to_hex [{mk}]', go)


def t_conv(mk, fn, sret):
    def go(o):
        E = ai.Engine(run.module(mk))
        st = ai.State()
        mon = E.mon = Api()
        x, out = hashobj(st, 'value'), T.base('out')
        new_obj(st, out, 'out')
        mon.outs[out] = None
        mon.sizes.update({x: 32, out: 32})
        src = bytes_of(E, st, x)
        try:
            rets = E.call(H(fn), [out, x] if sret else [x], st)
            E.require(bool(rets), 'unproved', f'{fn} never returns')
            for z, rv in rets:
                p = out if sret else rv
                E.require([E.quiet_read(z, T.add(p, C64(i)), 1) for i in range(32)] == src, 'convert', f'{fn}: the bytes are not carried over in order')
        finally: o.take(E)
    return (f'{fn} [{mk}]', go)


def flat_or(t, acc):
    """parts of a bytewise disjunction"""
    n = N[t]
    return acc


def t_eq(mk, fn, neg):
    def go(o):
        E = ai.Engine(run.module(mk))
        st = ai.State()
        mon = E.mon = Api()
        x, y = hashobj(st, 'left'), hashobj(st, 'right')
        mon.sizes.update({x: 32, y: 32})
        a, b = bytes_of(E, st, x), bytes_of(E, st, y)

        def cmp(E, st, ins, args, nm):
            p, q, n = args
            ok = {p, q} == {x, y} and T.cval(n) == 32
            E.require(ok, 'equal', f'{fn}: the comparison does not cover the 32 bytes of both', ins)
            E.require(not ai.WATCH, 'ct', f'{fn}: {nm} stops at the first byte that differs', ins)
            d = T.const(8, 0)
            for u, v in zip(a, b): d = T.or_(d, T.xor(u, v))
            return [(st, T.zext(d, 32))]
        E.prims = {re.compile(r'^(bcmp|memcmp)$'): cmp}
        E.asm = lambda f, ins, st: barrier(E, f, ins, st)
        try:
            rets = E.call(H(fn), [x, y], st)
            E.require(bool(rets), 'unproved', f'{fn} never returns')
            d = T.const(8, 0)
            for u, v in zip(a, b): d = T.or_(d, T.xor(u, v))
            for z, rv in rets:
                want = T.icmp('eq', d, T.const(8, 0))
                if neg: want = T.not_(want)
                E.require(T.ext(rv, 0, 1) == want, 'equal', f'{fn}: the result is not whether all 32 bytes are equal')
        finally: o.take(E)
    return (f'{fn} [{mk}]', go)


def barrier(E, f, ins, st):
    """an empty assembly block that only hides a value from the optimiser"""
    raise Unsupported(f'inline assembly in {f.name}')


def t_hashdebug(mk):
    """the debug form of a hash shows its 64 digits in order"""
    def go(o):
        m = run.module(mk)
        E = ai.Engine(m)
        st = ai.State()
        mon = E.mon = ByBytes()
        me, f = hashobj(st, 'hash'), T.base('formatter')
        fo = new_obj(st, f, 'formatter', 24)
        mon.sizes[me] = 32
        mon.outs[f] = None
        src = mon.src = bytes_of(E, st, me)
        wd, wv = vt(st, 'sink', {slot('cal_write_str'): 'fmt.write_str'})
        fo.cells[0], fo.cells[8] = (wd, 8, 0), (wv, 8, 0)
        st.tag['text'] = ()
        R = lambda ok, m, ins=None: E.require(ok, 'show', f'debug form of a hash: {m}', ins)

        def text(E, st, p, n, ins):
            k = E.const_of(st, n)
            if k is None or k > 4096: raise Unsupported('text of unknown length printed')
            st.tag['text'] += tuple(E.quiet_read(st, T.add(p, C64(i)), 1) for i in range(k))

        def write_str(E, st, ins, args, nm):
            text(E, st, args[1], args[2], ins)
            return [(st, T.const(1, 0))]

        def show(E, st, ins, args, nm):
            text(E, st, args[0], args[1], ins)
            return [(st, T.const(1, 0))]

        def fwrite(E, st, ins, args, nm):
            tp, ap = args[2], args[3]
            v = T.cval(ap)
            if v is not None and v & 1:
                text(E, st, tp, C64(v >> 1), ins)
                return [(st, T.const(1, 0))]
            i = arg = 0
            B = lambda: T.cval(E.quiet_read(st, T.add(tp, C64(i)), 1))
            for _ in range(200):
                n = B()
                i += 1
                if n is None: raise Unsupported('unknown format template')
                if n == 0: return [(st, T.const(1, 0))]
                if n < 0x80:
                    text(E, st, T.add(tp, C64(i)), C64(n), ins)
                    i += n
                elif n == 0xc0:
                    ptr, fn = (E.read(st, T.add(ap, C64(16 * arg + 8 * j)), 8, ins) for j in (0, 1))
                    arg += 1
                    nn = N[fn]
                    if nn[0] != 'base' or not nn[2].startswith('@'): raise Unsupported('unknown formatting function')
                    r = E.call(nn[2][1:], [ptr, f], st)
                    if len(r) != 1: raise Unsupported('formatting function with several outcomes')
                    st = r[0][0]
                else: raise Unsupported('format options in the debug form')
            raise Unsupported('unterminated format template')
        E.prims = {re.compile(r'^fmt\.write_str$'): write_str, re.compile(r'4core3fmt5write$'): fwrite, re.compile(r'fmte\w*7Display3fmt|_RNvX\w*_NtCs\w+_4core3fmte\w*3fmt$'): show,
                   re.compile(r'9Formatter(9write_str|3pad)$'): lambda E, st, ins, a, nm: write_str(E, st, ins, a, nm)}
        try:
            rets = E.call(H('hash_debug'), [me, f], st)
            E.require(bool(rets), 'unproved', 'formatting a hash never returns')
            for z, _ in rets:
                consts(E, z)
                tx = list(z.tag['text'])
                var = [i for i, t in enumerate(tx) if T.cval(t) is None]
                if not R(len(var) == 64 and var == list(range(var[0], var[0] + 64)), f'{len(var)} characters depend on the hash, 64 consecutive ones should'): continue
                for i in range(64): R(digit_ok(E, z, tx[var[i]], src[i // 2], i % 2 == 0), f'digit {i} is not the {"low" if i % 2 else "high"} half of byte {i // 2}')
        finally: o.take(E)
    return (f'Debug of hash [{mk}]', go)


def c23(tier):
    run.load(['val'])
    return ([t_hex('val'), t_hashdebug('val')] + [t_conv('val', f, s) for f, s in (('hash_from', True), ('hash_into', True), ('hash_clone', True), ('hash_as_bytes', False))]
            + [t_eq('val', f, n) for f, n in (('hash_eq', False), ('hash_ne', True), ('hash_eq_bytes', False), ('hash_ne_bytes', True))])
