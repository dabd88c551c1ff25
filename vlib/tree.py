"""Rules for the tree logic: chunk chains, parents, the incremental hasher's
stack, the one-shot recursion and the extensible output (C04-C09, C11, C16).

The whole message is one region M; the position of a byte is its offset in M.
Compression, batched hashing and CPU detection are primitives (their own
behaviour is C01-C03 and C15).  Each call of a primitive is a step of a
protocol whose state is kept in ghost variables:

  co, nb   the chunk being absorbed starts at byte co, nb whole blocks are in
  cv0..7   its chaining value
  bl, z    the block buffer holds bl message bytes from co + 64 nb on (z: then zeros)
  K, L, P  chunks pushed on the subtree stack, subtrees on it, popcount(K)
  gen      version of the stack contents
  w0..7, f the finalizer's working value covers subtrees f+1.. and the chunk
"""
import re
from . import ai, kern, terms as T
from .ai import Unsupported, fresh, split_ptr, e_add, e_const, e_scale
from .terms import N
from .kern import Frame, new_obj

C64 = lambda v: T.const(64, v)
START, END, PARENT, ROOT = 1, 2, 4, 8
CHUNK = 2048


def maxpop(m):
    return max(bin(m).count('1'), m.bit_length() - 1) if m > 0 else 0


PORTABLE = 0        # set from the debug information


def plat_arg(E, st, t):
    """a Platform argument: behind a pointer or by value"""
    return t if N[t][1] == 8 else E.read(st, t, 1)


def plat_ok(E, st, v, plat):
    """the platform created by detection, or the portable code, which runs on every machine"""
    return E.same(st, v, plat) or T.cval(v) == PORTABLE or E.const_of(st, v) == PORTABLE


class Tree(Frame):
    def __init__(s, fl, key, plat, mode):
        super().__init__()
        s.fl, s.key, s.plat, s.mode = fl, key, plat, mode
        s.M = T.base('message')
        s.lo = s.hi = None          # readable part of the message: [lo, hi)
        s.total = None              # length of the whole message absorbed so far (finalizing)
        s.tw = {}                   # word atom -> (token, index)
        s.tok = []
        s.slots = {}                # atom -> (index term, gen)
        s.slotmemo = {}
        s.batatom, s.batmemo, s.batch = {}, {}, []
        s.vbuf = s.vstack = None    # (base, offset[, slots])
        s.ro = set()                # bases that must not be written
        s.lists = {}                # recursion results: id -> (start, end, count)

    # ---------------------------------------------------------------- ghost state
    def start(s, E, st, co=None, nb=None, bl=None, K=None, L=None, P=None):
        g = st.g
        z = C64(0)
        g['co'], g['nb'], g['bl'] = co or z, nb or z, bl or z
        g['z'] = C64(1)
        g['K'], g['L'], g['P'] = K or z, L or z, P or z
        g['gen'], g['bgen'] = fresh(64, 'gen'), fresh(64, 'bgen')
        for i in range(8): g[f'cv{i}'] = s.key[i]
        for i in range(8): g[f'w{i}'] = fresh(32, 'no-working-value')
        g['f'] = T.sub(g['L'], C64(1)) if s.mode == 'finalize' else z
        g['rt'] = C64(0)            # the working value was compressed with the root flag
        g['fin'] = C64(0)           # finalizing: 1 once the chunk's chaining value is the working value

    def pos(s, st): return T.add(st.g['co'], T.scale(st.g['nb'], 64))

    def cvg(s, st): return [st.g[f'cv{i}'] for i in range(8)]

    def idle_chain(s, st, at):
        st.g['co'], st.g['nb'] = at, C64(0)
        for i in range(8): st.g[f'cv{i}'] = s.key[i]

    def words(s, E, st, p, n=8):
        return [E.read(st, T.add(p, C64(4 * i)), 4) for i in range(n)]

    def token(s, kind, **kw):
        t = dict(kind=kind, id=len(s.tok), **kw)
        t['words'] = [fresh(32, f'{kind}{t["id"]}') for _ in range(8)]
        s.tok.append(t)
        for i, w in enumerate(t['words']): s.tw[w] = (t['id'], i)
        return t

    def child(s, E, st, t):
        """what a 256-bit value is: ('slot', idx, gen) ('work',) ('tok', id) or None"""
        if t in s.slots: return ('slot',) + s.slots[t]
        if t in s.batatom: return ('bat',) + s.batatom[t]
        ws = [T.ext(t, 32 * i, 32) for i in range(8)]
        if ws == [st.g[f'w{i}'] for i in range(8)]: return ('work',)
        if ws[0] in s.tw and all(s.tw.get(w) == (s.tw[ws[0]][0], i) for i, w in enumerate(ws)): return ('tok', s.tw[ws[0]][0])
        return None

    # ---------------------------------------------------------------- memory
    def bound(s, E, st, b, off, size, ins, what):
        if b == s.M:
            lo, hi = s.lo, s.hi
            ok = E.le(st, lo, off)
            e = e_add(E.toint(st, off), E.szexpr(st, size))
            ok = ok and st.poly.entails_ge(e_add(E.toint(st, hi), e, -1))
            E.require(ok, 'bounds', f'{what} of the input at position {T.show(off)} not proved inside the piece given', ins)
            return
        return super().bound(E, st, b, off, size, ins, what)

    def on_write(s, E, st, b, off, size, cells, ins):
        if b in s.ro:
            E.require(False, 'readonly', 'finalizing writes to the hasher', ins)
            return
        if s.ro: E.ok('readonly')
        return super().on_write(E, st, b, off, size, cells, ins)

    def inside(s, E, st, reg, off, size):
        """True: inside region, False: apart"""
        lo, hi = E.range_of(st, off, size)
        a, n = reg[1], reg[2]
        if lo is not None and hi is not None:
            if hi <= a or lo >= a + n: return False
            if lo >= a and hi <= a + n: return True
        if lo is not None and lo >= a + n: return False
        if hi is not None and hi <= a: return False
        # ranges are per variable; try the relational bounds
        if lo is not None and lo >= a:
            e = e_add(E.toint(st, off), E.szexpr(st, size))
            if st.poly.entails_ge(e_add(e_const(a + n), e, -1)): return True
        raise Unsupported(f'access at offset {T.show(off)} straddles the buffer or the stack')

    def index(s, E, st, rel):
        """rel = 32*idx + r -> (idx, r)"""
        e = st.poly.reduce(E.toint(st, rel))
        if any(q % 32 for q in e[1].values()): raise Unsupported(f'stack offset {T.show(rel)} is no multiple of 32')
        idx = C64((e[0] // 32) % (1 << 64))
        for v in sorted(e[1]):
            if N[v][1] > 64: raise Unsupported('stack offset')
            idx = T.add(idx, T.scale(T.zext(v, 64), (e[1][v] // 32) % (1 << 64)))
        return idx, e[0] % 32

    def vread(s, E, st, b, off, n, ins):
        if s.vbuf and b == s.vbuf[0] and s.inside(E, st, s.vbuf, off, n):
            r = E.const_of(st, off)
            if r is None: raise Unsupported('block buffer read at a variable offset')
            r -= s.vbuf[1]
            E.ok('bounds')
            return T.cat([T.fn(8, 'bufb', C64(r + i), st.g['bgen']) for i in range(n)])
        if s.vstack and b == s.vstack[0] and s.inside(E, st, s.vstack, off, n):
            idx, r = s.index(E, st, T.sub(off, C64(s.vstack[1])))
            parts = []
            while n:
                k = min(n, 32 - r)
                E.require(E.le(st, T.add(idx, C64(1)), st.g['L']), 'stack', f'reads subtree {T.show(idx)} that is not on the stack', ins)
                key = (st.g['gen'], idx)
                a = s.slotmemo.get(key)
                if a is None:
                    a = s.slotmemo[key] = fresh(256, 'slot')
                    s.slots[a] = (idx, st.g['gen'])
                parts.append(T.ext(a, 8 * r, 8 * k))
                n -= k
                r = 0
                idx = T.add(idx, C64(1))
            return T.cat(parts)
        o = st.mem.get(b)
        w = o.symw[-1] if o is not None and o.symw else None
        if w is not None and isinstance(w.tag, tuple) and w.tag[0] == 'batch' and all(c[2] < w.ver for c in o.cells.values()):
            return s.batch_read(E, st, w, off, n)
        return None

    def batch_read(s, E, st, w, off, n):
        i, at, num = w.tag[1], w.off, s.batch[w.tag[1]]['n']
        idx, r = s.index(E, st, T.sub(off, at))
        if r + n > 32 or not E.le(st, T.add(idx, C64(1)), num): return None
        a = s.batmemo.get((i, idx))
        if a is None:
            a = s.batmemo[i, idx] = fresh(256, 'batch')
            s.batatom[a] = (i, idx)
        return T.ext(a, 8 * r, 8 * n)

    def chunk_of(s, E, st, c):
        """the chunk whose chaining value c is"""
        if c and c[0] == 'bat':
            b = s.batch[c[1]]
            co = T.add(b['off'], T.scale(c[2], CHUNK))
            return dict(kind='chunk', co=co, end=T.add(co, C64(CHUNK)), root=False)
        return s.tok[c[1]] if c and c[0] == 'tok' else None

    def vwrite(s, E, st, b, off, size, cells, tag, ins):
        if s.vbuf and b == s.vbuf[0] and s.inside(E, st, s.vbuf, off, size):
            if b in s.ro: E.require(False, 'readonly', 'finalizing writes to the hasher', ins); return True
            s.buf_write(E, st, T.sub(off, C64(s.vbuf[1])), size, cells, tag, ins)
            return True
        if s.vstack and b == s.vstack[0] and s.inside(E, st, s.vstack, off, size):
            if b in s.ro: E.require(False, 'readonly', 'finalizing writes to the hasher', ins); return True
            s.stack_write(E, st, T.sub(off, C64(s.vstack[1])), size, cells, ins)
            return True
        return False

    def buf_write(s, E, st, rel, size, cells, tag, ins):
        g = st.g
        E.ok('bounds')
        nt = C64(size) if isinstance(size, int) else T.zext(size.t, 64)
        zero = (tag and tag[0] == 'set' and T.cval(tag[1]) == 0) or (cells is not None and all(T.cval(t) == 0 for _, t, _ in cells))
        g['bgen'] = fresh(64, 'bgen')
        if zero:
            if not E.eq(st, T.add(rel, nt), C64(64)): raise Unsupported('part of the block buffer is cleared')
            if E.le(st, rel, g['bl']): g['bl'] = rel; g['z'] = C64(1)
            elif not (E.le(st, g['bl'], rel)): raise Unsupported('part of the block buffer is cleared')
            return
        if tag and tag[0] == 'copy':
            sb, p = split_ptr(tag[1])
        else:
            sb, p = s.message_bytes(E, st, cells) if cells is not None else (None, None)
        if not E.require(sb == s.M, 'absorb', 'the block buffer receives bytes that are not input bytes', ins): return
        E.require(E.eq(st, rel, g['bl']), 'absorb', 'input bytes are not placed right behind the bytes already buffered', ins)
        E.require(E.eq(st, p, T.add(s.pos(st), g['bl'])), 'absorb', 'the bytes buffered are not the next bytes of the input', ins)
        g['bl'] = T.add(g['bl'], nt)

    def message_bytes(s, E, st, cells):
        first = None
        for rel, t, nb in sorted(cells):
            for i in range(nb):
                x = T.byte(t, i)
                n = N[x]
                if n[0] != 'm' or n[2] != s.M: return None, None
                if first is None: first = T.sub(n[3], C64(rel + i))
                elif not E.eq(st, n[3], T.add(first, C64(rel + i))): return None, None
        return s.M, first

    def stack_write(s, E, st, rel, size, cells, ins):
        g = st.g
        if size != 32 or cells is None: raise Unsupported(f'a write of {size} bytes to the subtree stack')
        idx, r = s.index(E, st, rel)
        if r: raise Unsupported('a misaligned write to the subtree stack')
        val = T.cat([t for _, t, _ in sorted(cells)])
        c = s.child(E, st, val)
        slots = s.vstack[2] // 32
        E.require(E.le(st, T.add(idx, C64(1)), C64(slots)), 'stack', f'a subtree is written past the {slots} slots of the stack', ins)
        R = lambda ok, rule, m: E.require(ok, rule, m, ins)
        if E.eq(st, idx, g['L']):
            t = s.chunk_of(E, st, c)
            if R(t is not None and t['kind'] == 'chunk' and not t['root'], 'tree', 'a value pushed on the stack is not the chaining value of a chunk'):
                R(E.eq(st, t['co'], T.scale(g['K'], CHUNK)), 'tree', 'the chunk pushed on the stack is not the next chunk of the input')
                R(E.eq(st, t['end'], T.add(t['co'], C64(CHUNK))), 'tree', 'a chunk that does not hold exactly one chunk length is pushed on the stack')
            s.pop_facts(E, st)
            R(E.eq(st, g['L'], g['P']), 'tree', 'a chunk is pushed before all complete subtrees to its left are merged')
            K = T.add(g['K'], C64(1))
            v = T.cval(K)
            P = fresh(64, 'popcount') if v is None else C64(bin(v).count('1'))
            e = E.toint(st, P)
            st.poly.add_ge(e_add(e, e_const(-1)))
            ub = st.poly.maxval(E.toint(st, g['P']))
            if isinstance(ub, int): st.poly.add_ge(e_add(e_const(ub + 1), e, -1))
            st.poly.add_ge(e_add(e_add(E.toint(st, g['P']), e_const(1)), e, -1))
            st.poly.add_ge(e_add(E.toint(st, K), e, -1))
            g['K'], g['P'], g['L'] = K, P, T.add(g['L'], C64(1))
        elif E.eq(st, idx, T.sub(g['L'], C64(2))):
            t = s.tok[c[1]] if c and c[0] == 'tok' else None
            ok = t is not None and t['kind'] == 'parent' and not t['root']
            if R(ok, 'tree', 'a value merged into the stack is not a parent chaining value'):
                l, r_ = t['left'], t['right']
                ok = (l and r_ and l[0] == 'slot' and r_[0] == 'slot' and l[2] == g['gen'] and r_[2] == g['gen']
                      and E.eq(st, l[1], idx) and E.eq(st, r_[1], T.add(idx, C64(1))))
                R(ok, 'tree', 'a merge does not combine the two topmost subtrees, left then right')
            s.pop_facts(E, st)
            R(E.le(st, T.add(g['P'], C64(1)), g['L']), 'tree', 'two subtrees are merged before the right one is complete')
            g['L'] = T.sub(g['L'], C64(1))
        else:
            R(False, 'tree', f'a subtree is written to slot {T.show(idx)}, neither the next free one nor the one below the top')
        g['gen'] = fresh(64, 'gen')

    def pop_facts(s, E, st):
        """P = popcount(K) within the bounds known for K"""
        K, P = E.toint(st, st.g['K']), E.toint(st, st.g['P'])
        # no complete subtree is missing (P <= L): true at the start, kept by every push (made with L = P, adds one to L and at most
        # one to P) and every merge (made with P < L), which are obliged to be so made; a join may have forgotten it
        st.poly.add_ge(e_add(E.toint(st, st.g['L']), P, -1))
        v = E.const_of(st, st.g['K'])
        if v is not None: return st.poly.add_eq(e_add(P, e_const(-bin(v).count('1'))))
        ub = st.poly.maxval(K)
        st.poly.add_ge(P)
        if isinstance(ub, int) and ub >= 0: st.poly.add_ge(e_add(e_const(maxpop(ub)), P, -1))
        lb = st.poly.minval(K)
        if isinstance(lb, int) and lb >= 1: st.poly.add_ge(e_add(P, e_const(-1)))

    def on_ctpop(s, E, st, a):
        if N[a][1] != 64 or not E.eq(st, a, st.g['K']): return None
        s.pop_facts(E, st)
        return st.g['P']

    def merge_exits(s, f, h): return True
    def fills(s, E, f, h): return True
    def keep(s): return [x for x in (s.lo, s.hi, s.total) if x is not None]
    def ghost_number(s, k): return not re.match(r'(cv|w)\d|b?gen', k)

    def fewchunks(s, st):
        v = T.cval(st.g['K'])
        return v if v in (0, 1) else None

    def on_back(s, E, f, h, st):
        # no chunk, one chunk (its value must not stay alone on the stack) and more are kept apart
        if s.mode == 'hasher': st.tag = {**st.tag, 'K': str(s.fewchunks(st))}
        return [st]

    def thresholds(s): return (1, 2, s.vstack[2] // 32 - 1, s.vstack[2] // 32) if s.vstack else ()

    def deps(s, a):
        if a in s.slots: return s.slots[a]
        if a in s.batatom:
            i, x = s.batatom[a]
            return (x, s.batch[i]['off'], s.batch[i]['n'])
        if a in s.tw:
            t = s.tok[s.tw[a][0]]
            if t['kind'] == 'chunk': return (t['co'], t['end'])
            if t['kind'] == 'parent': return s.cdeps(t['left']) + s.cdeps(t['right'])
            if t['kind'] == 'frontier': return tuple(x for x in s.lists[t['list']][:2] if x is not None)
        return ()

    def cdeps(s, c):
        if c is None: return ()
        if c[0] == 'slot': return tuple(c[1:])
        if c[0] == 'bat': return (c[2], s.batch[c[1]]['off'], s.batch[c[1]]['n'])
        if c[0] == 'tok': return s.deps(s.tok[c[1]]['words'][0])
        return ()

    def exit_key(s, E, st, regs):
        small = tuple(sorted((str(k), v) for k, v in regs.items() if isinstance(v, int) and N[v][1] <= 8))
        return (T.cval(st.g['nb']) == 0, E.eq(st, st.g['bl'], C64(64)), s.fewchunks(st), T.cval(st.g['fin']), T.cval(st.g['rt']), small)

    # ---------------------------------------------------------------- compression
    def split_ites(s, E, st, t):
        """states in which t has no conditional parts"""
        c = first_ite(t)
        if c is None: return [(st, t)]
        n = N[c]
        out = []
        for val in (True, False):
            for z in E.assume(st.copy(), n[2], val):
                out += s.split_ites(E, z, T.subst(t, {c: n[3] if val else n[4]}))
        return out

    def flagset(s, t):
        for c in range(16):
            if T.or_(s.fl, T.const(8, c)) == t: return c
        return None

    def compress(s, E, st, ins, args, name):
        a = list(args)
        plat = None
        if len(a) == 6: plat = plat_arg(E, st, a.pop(0))
        elif len(a) != 5: raise Unsupported(f'arguments of {name}')
        cvp, blk, blen, off, flags = a
        if plat is not None: E.require(s.plat is None or plat_ok(E, st, plat, s.plat), 'platform', 'a compression runs for a platform value that is neither the detected one nor the portable one', ins)
        out = []
        for z, f in s.split_ites(E, st, flags):
            t = s.one(E, z, ins, s.words(E, z, cvp), blk, blen, off, f, cvp)
            if t is not None:
                E.write(z, cvp, [(4 * i, w, 4) for i, w in enumerate(t)], 32, ins)
                out.append((z, None))
        return out

    def one(s, E, st, ins, cv, blk, blen, off, flags, cvp=None):
        """a compression step -> new chaining value words"""
        g = st.g
        R = lambda ok, rule, m: E.require(ok, rule, m, ins)
        c = s.flagset(flags)
        if c is None:
            R(False, 'mode', f'flags {T.show(flags)} are not the mode flag with framing flags')
            return [fresh(32, 'bad') for _ in range(8)]
        E.ok('mode')
        root = bool(c & ROOT)
        k = c & ~ROOT
        same = lambda x, y: all(E.same(st, p, q) for p, q in zip(x, y))
        if k == PARENT:
            R(same(cv, s.key), 'mode', 'a parent node does not start from the key')
            R(E.eq(st, off, C64(0)), 'offset', 'a parent node has a nonzero offset')
            R(E.eq(st, blen, T.const(8, 64)), 'framing', 'a parent node is not one full block')
            t = E.read(st, blk, 64)
            l, r = s.child(E, st, T.ext(t, 0, 256)), s.child(E, st, T.ext(t, 256, 256))
            R(l is not None and r is not None, 'tree', 'the block of a parent node is not two child hashes')
            p = s.token('parent', left=l, right=r, root=root)
            s.fold(E, st, p, ins)
            if root: s.root_seen(E, st, p, ins)
            return p['words']
        if k & PARENT or k & ~(START | END):
            R(False, 'framing', f'flag combination {c}')
            return [fresh(32, 'bad') for _ in range(8)]
        # a chunk block
        first = E.eq(st, g['nb'], C64(0))
        notfirst = E.le(st, C64(1), g['nb'])
        if not first and not notfirst: raise Unsupported('first block or not undecided')
        if k & START:
            R(first, 'framing', 'a block that is not the first of its chunk has the start flag')
            R(same(cv, s.key), 'mode', 'a chunk does not start from the key')
            g['co'], g['nb'] = off, C64(0)
        else:
            R(notfirst, 'framing', 'the first block of a chunk lacks the start flag')
            R(same(cv, s.cvg(st)), 'absorb', 'a block is not chained to the previous block of its chunk')
            R(E.eq(st, off, g['co']), 'offset', 'two blocks of one chunk have different offsets')
        n = s.content(E, st, blk, blen, ins)
        if k & END:
            if DBG: dump(E, st, g, n)
            end = T.add(s.pos(st), n)
            if not E.le(st, C64(1), n):
                ok = root and s.total is not None and E.eq(st, g['nb'], C64(0))
                if ok:
                    for y in E.assume(st.copy(), T.icmp('eq', n, C64(0)), True): ok = ok and E.eq(y, s.total, C64(0))
                R(ok, 'framing', 'a chunk ends with an empty block')
            R(E.le(st, T.add(T.scale(g['nb'], 64), n), C64(CHUNK)), 'tree', 'a chunk is longer than one chunk length')
            t = s.token('chunk', co=g['co'], end=end, root=root)
            if root: s.root_seen(E, st, t, ins)
            s.idle_chain(st, end)
            g['bl'], g['z'] = C64(0), C64(0)
            if s.mode == 'finalize' and not root:
                R(E.eq(st, end, s.total), 'absorb', 'the last chunk does not end at the end of the input')
                for i in range(8): g[f'w{i}'] = t['words'][i]
                g['f'], g['fin'] = T.sub(g['L'], C64(1)), C64(1)
            return t['words']
        R(not root, 'root', 'a block that does not end its chunk has the root flag')
        R(E.eq(st, n, C64(64)), 'framing', 'a block inside a chunk is not full')
        g['nb'] = T.add(g['nb'], C64(1))
        R(E.le(st, g['nb'], C64(31)), 'tree', 'a chunk is longer than one chunk length')
        ws = [fresh(32, 'cv') for _ in range(8)]
        for i in range(8): g[f'cv{i}'] = ws[i]
        return ws

    def content(s, E, st, blk, blen, ins):
        """the block is message bytes from the chunk's position on, then zeros; returns the length (64 bit)"""
        g = st.g
        n = T.zext(blen, 64)
        pos = s.pos(st)
        R = lambda ok, m: E.require(ok, 'absorb', m, ins)
        b, off = split_ptr(blk)
        E.require(E.le(st, n, C64(64)), 'framing', 'block length above 64', ins)
        if b == s.M:
            s.bound(E, st, b, off, 64, ins, 'block')
            R(E.eq(st, off, pos), 'the block compressed is not the next block of the chunk')
            E.require(E.eq(st, n, C64(64)), 'framing', 'a full block is compressed with another length', ins)
            return n
        t = E.read(st, blk, 64)
        if all(T.byte(t, i) == T.fn(8, 'bufb', C64(i), g['bgen']) for i in range(64)):
            R(E.eq(st, n, g['bl']), 'the block length is not the number of bytes in the buffer')
            E.require(E.eq(st, g['z'], C64(1)) or E.eq(st, g['bl'], C64(64)), 'framing', 'the unused bytes of the block are not zero', ins)
            if E.eq(st, n, C64(64)): g['bl'], g['z'] = C64(0), C64(0)
            return n
        # byte by byte: message byte below the length, zero above it
        ok = zero = True
        for i in range(64):
            x = T.byte(t, i)
            c = T.icmp('ult', C64(i), n)
            for val in (True, False):
                if E.decide(st, c) is (not val): continue
                for z in E.assume(st.copy(), c, val):
                    for y, v in s.split_ites(E, z, x):
                        if val:
                            m = N[v]
                            ok = ok and m[0] == 'm' and m[2] == s.M and E.eq(y, m[3], T.add(pos, C64(i)))
                        else: zero = zero and T.cval(v) == 0
        R(ok, 'the block compressed is not the next block of the chunk')
        E.require(zero, 'framing', 'the unused bytes of the last block are not zero', ins)
        return n

    def fold(s, E, st, p, ins):
        """finalizing: a parent of subtree i and everything to its right becomes the working value"""
        if s.mode != 'finalize': return
        g = st.g
        l, r = p['left'], p['right']
        R = lambda ok, m: E.require(ok, 'tree', m, ins)
        if not R(l is not None and l[0] == 'slot' and l[2] == g['gen'], 'the left child of a final parent is not a subtree of the stack'): return
        ok = False
        if r is not None and r[0] == 'slot':
            ok = (r[2] == g['gen'] and E.eq(st, g['fin'], C64(0)) and E.eq(st, r[1], T.sub(g['L'], C64(1))) and E.eq(st, l[1], T.sub(g['L'], C64(2)))
                  and E.eq(st, g['nb'], C64(0)) and E.eq(st, g['bl'], C64(0)))
        elif r is not None and (r[0] == 'work' or r[0] == 'tok'):
            ok = [g[f'w{i}'] for i in range(8)] == (s.tok[r[1]]['words'] if r[0] == 'tok' else [g[f'w{i}'] for i in range(8)]) and E.eq(st, l[1], g['f'])
        R(ok, 'a final parent does not combine the next subtree with everything to its right')
        p['last'] = E.eq(st, l[1], C64(0))
        for i in range(8): g[f'w{i}'] = p['words'][i]
        g['f'] = T.sub(l[1], C64(1))
        g['fin'], g['rt'] = C64(1), C64(int(p['root']))

    def root_seen(s, E, st, t, ins):
        R = lambda ok, m: E.require(ok, 'root', m, ins)
        if s.mode == 'finalize':
            if t['kind'] == 'parent': R(t.get('last'), 'the root flag is set on a parent that does not cover the whole input')
            else:
                R(E.eq(st, st.g['L'], C64(0)) and E.eq(st, t['co'], C64(0)) and E.eq(st, t['end'], s.total), 'the root flag is set on a chunk that is not the whole input')
            return
        R(False, 'an interior node is compressed with the root flag')

    # ---------------------------------------------------------------- batches
    def hash_many(s, E, st, ins, args, name, item=None):
        a = list(args)
        rust = item is not None
        if rust:
            plat = plat_arg(E, st, a.pop(0))
            E.require(s.plat is None or plat_ok(E, st, plat, s.plat), 'platform', 'a batch runs for a platform value that is neither the detected one nor the portable one', ins)
            inp, num, key, off, delta, fl, fs, fe, out, outlen = a
        else:
            inp, num, blocks, key, off, deltas, fl, fs, fe, out = a
            nb = E.const_of(st, blocks)
            item = nb * 64 if nb is not None else None
            outlen = None
        R = lambda ok, rule, m: E.require(ok, rule, f'hash_many: {m}', ins)
        n = E.const_of(st, num)
        if s.mode == 'hasher' and item == CHUNK and n != 0: return s.chunk_batch(E, st, ins, inp, num, key, off, delta if rust else None, deltas if not rust else None, fl, fs, fe, out, outlen)
        if n is None or n > 64: raise Unsupported('number of inputs of a batch')
        if item not in (CHUNK, 64): raise Unsupported('input length of a batch')
        if n == 0: return [(st, None)]
        step = CHUNK if item == CHUNK else 0
        if rust: R(E.eq(st, delta, C64(step)) , 'offset', 'the offset step is not one chunk length (or zero for parents)')
        else:
            for i in range(n):
                R(E.eq(st, E.read(st, T.add(deltas, C64(8 * i)), 8), C64(step * i)), 'offset', 'the offset steps are not multiples of one chunk length (or zero for parents)')
        R(all(E.same(st, x, y) for x, y in zip(s.words(E, st, key), s.key)), 'mode', 'the batch does not use the key')
        s.inner(E, st, fl, fs, fe, R)
        want = (0, START, END) if item == CHUNK else (PARENT, 0, 0)
        R(fl == T.or_(s.fl, T.const(8, want[0])), 'mode', 'the flags of the batch are not the mode flag (and parent flag for parents)')
        R(E.eq(st, fs, T.const(8, want[1])) and E.eq(st, fe, T.const(8, want[2])), 'framing', 'the start and end flags of the batch are wrong')
        if outlen is not None: R(E.le(st, C64(32 * n), outlen), 'bounds', 'the output slice is too short')
        cells = []
        if item == CHUNK: R(E.eq(st, st.g['nb'], C64(0)) and E.eq(st, st.g['bl'], C64(0)), 'absorb', 'a batch of chunks starts while a chunk is half absorbed')
        else: R(E.eq(st, off, C64(0)), 'offset', 'parents are hashed at a nonzero offset')
        for i in range(n):
            p = E.load(st, T.add(inp, C64(8 * i)), PTR, ins)
            if item == CHUNK:
                b, o = split_ptr(p)
                if not R(b == s.M, 'absorb', 'a chunk hashed is not input'): return []
                co = T.add(off, C64(CHUNK * i))
                s.bound(E, st, b, o, CHUNK, ins, 'chunk')
                R(E.eq(st, o, co), 'offset', 'the offset given to a chunk is not its position in the input')
                t = s.token('chunk', co=co, end=T.add(co, C64(CHUNK)), root=False)
            else:
                x = E.read(st, p, 64)
                l, r = s.child(E, st, T.ext(x, 0, 256)), s.child(E, st, T.ext(x, 256, 256))
                R(l is not None and r is not None, 'tree', 'a parent hashed is not two child hashes')
                t = s.token('parent', left=l, right=r, root=False)
                if s.mode == 'finalize': raise Unsupported('batch while finalizing')
            for w in range(8): cells.append((32 * i + 4 * w, t['words'][w], 4))
        if item == CHUNK: s.idle_chain(st, T.add(off, C64(CHUNK * n)))
        E.write(st, out, cells, 32 * n, ins)
        return [(st, None)]

    def inner(s, E, st, fl, fs, fe, R):
        for x in (fs, fe): R(E.eq(st, T.ext(x, 3, 1), T.const(1, 0)), 'root', 'the root flag may be set on inner nodes')
        c = s.flagset(fl)
        R(c is not None and not c & ROOT, 'root', 'the root flag may be set on inner nodes')

    def chunk_batch(s, E, st, ins, inp, num, key, off, delta, deltas, fl, fs, fe, out, outlen):
        R = lambda ok, rule, m: E.require(ok, rule, f'hash_many: {m}', ins)
        lo, hi = E.bounds(st, num)
        if not isinstance(hi, int) or hi > 64: raise Unsupported('number of inputs of a batch')
        R(all(E.same(st, x, y) for x, y in zip(s.words(E, st, key), s.key)), 'mode', 'the batch does not use the key')
        s.inner(E, st, fl, fs, fe, R)
        R(fl == s.fl, 'mode', 'the flags of the batch are not the mode flag')
        R(E.eq(st, fs, T.const(8, START)) and E.eq(st, fe, T.const(8, END)), 'framing', 'the start and end flags of the batch are wrong')
        if outlen is not None: R(E.le(st, T.scale(num, 32), outlen), 'bounds', 'the output slice is too short')
        if delta is not None: R(E.eq(st, delta, C64(CHUNK)), 'offset', 'the offset step is not one chunk length')
        R(E.eq(st, st.g['nb'], C64(0)) and E.eq(st, st.g['bl'], C64(0)), 'absorb', 'a batch of chunks starts while a chunk is half absorbed')
        for i in range(hi):
            c = T.icmp('ult', C64(i), num)
            ys = [st.copy()] if i < lo else E.assume(st.copy(), c, True)
            for y in ys:
                if deltas is not None:
                    R(E.eq(y, E.read(y, T.add(deltas, C64(8 * i)), 8), C64(CHUNK * i)), 'offset', 'the offset steps are not multiples of one chunk length')
                for z, p in s.split_ites(E, y, E.load(y, T.add(inp, C64(8 * i)), PTR, ins)):
                    b, o = split_ptr(p)
                    if not R(b == s.M, 'absorb', 'a chunk hashed is not input'): continue
                    s.bound(E, z, b, o, CHUNK, ins, 'chunk')
                    R(E.eq(z, o, T.add(off, C64(CHUNK * i))), 'offset', 'the offset given to a chunk is not its position in the input')
        s.batch.append(dict(off=off, n=num))
        n64 = T.scale(num, 32)
        E.write(st, out, None, ai.mksz(n64), ins, tag=('batch', len(s.batch) - 1))
        s.idle_chain(st, T.add(off, T.scale(num, CHUNK)))
        return [(st, None)]

    # ---------------------------------------------------------------- token trees
    def show(s, c):
        if c is None: return None
        if c[0] == 'tok':
            t = s.tok[c[1]]
            if t['kind'] == 'parent': return ('p', s.show(t['left']), s.show(t['right']))
            if t['kind'] == 'frontier': return ('f', t['list'], t['i'])
            return ('c', c[1])
        return c

    def values(s, E, st, p, n):
        """children stored in n consecutive 32-byte slots"""
        return [s.child(E, st, E.read(st, T.add(p, C64(32 * i)), 32)) for i in range(n)]


from .ai import e_var
from .llir import PTR


import os
DBG = os.environ.get('TREE_DBG')
def dump(E, st, g, n):
    sh = lambda e: ' + '.join([str(e[0])] + [f'{q}*{T.show(v)[-60:]}' for v, q in e[1].items()])
    print('--- nb', T.show(g['nb']), E.bounds(st, g['nb']), 'n', T.show(n), E.bounds(st, n))
    for v, e in st.poly.eqs.items(): print('   ', T.show(v)[-60:], '=', sh(e))
    for e in st.poly.ineqs: print('   ', '0 <=', sh(e))


def first_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen: return None
    seen.add(t)
    n = N[t]
    if n[0] == 'ite': return t
    kids = []
    if n[0] in ('xor', 'and', 'or', 'fn'): kids = n[3]
    elif n[0] == 'cat': kids = n[2]
    elif n[0] == 'ext': kids = (n[2],)
    elif n[0] == 'lin': kids = [a for a, q in n[3]]
    elif n[0] == 'icmp': kids = n[3:5]
    for k in kids:
        r = first_ite(k, seen)
        if r is not None: return r
    return None


def pairing(l):
    return [('p', l[i], l[i + 1]) if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
