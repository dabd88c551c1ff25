"""The command-line tool (C18-C22): `main` is interpreted as a whole, with contracts at the library
boundaries (docopt, hex, memmap, the standard library and the public hashing API)."""
import re
from . import ai, kern, run, build, spec, terms as T, p_tree, p_eff
from .ai import fresh, e_add, e_const, split_ptr, Unsupported
from .terms import N
from .kern import Frame, new_obj
from .p_api import Api, C64
from .run import find
from .llir import bits_of

STUBS = [r'drop_glue::<', r'^<docopt::dopt::Docopt>::', r'^<docopt::dopt::Error>::', r'^hex::', r'copy::copy_wide::<', r'^(alloc|std|core)::io::.*copy', r'anyhow::.* as core::convert::From<', r'anyhow::', r'PathBuf as core::clone::Clone>::clone',
         r'(Path|PathBuf|OsStr|OsString).* as core::cmp::PartialEq.*>::(eq|ne)$', r'^<std::fs::(File|Metadata|OpenOptions|FileType)>::', r'^<memmap::\w+>::', r'^<memmap::.*Deref>::deref', r'Path>::to_string_lossy', r'^<alloc::string::String>::from_utf8_lossy',
         r'^alloc::fmt::format', r'^<(std::io::stdio::|core::io::|std::io::|alloc::io::).*', r'^std::', r'Display>::fmt$', r'Debug>::fmt$', r'^<alloc::string::String as core::clone::Clone>::clone', r'^<std::path::Path>::(components|to_path_buf|display|is_\w+|exists)', r'^<dyn .*Read', r'alloc::alloc::',
         r'^<std::fs::File as .*Read>::', r'^<&?std::io::stdio::Stdin\w* as .*Read>::']
INLINE = re.compile(r'^<.* as core::convert::Into<.*>::into$|core::convert::From<core::convert::Infallible>|FromResidual|Try>::branch|::\{closure#\d+\}$|core::option::Option<|core::result::Result<|fmt::rt::Argument|as core::convert::AsRef<|as core::ops::deref::Deref|::as_(path|os_str)$')
SRX = re.compile('|'.join(STUBS))
ROOT = re.compile(r'^baokeshed::main$|^<baokeshed::\w+ as .*io::.*Read>::read$')


def stubbed(d): return bool(SRX.search(d)) and not (INLINE.search(d) and 'drop_glue' not in d)


def build_bin():
    p = build.bin_ll()
    g = p_eff.Graph(open(p).read())
    dm = p_eff.demangle(list(g.fn))
    roots = [n for n in g.fn if ROOT.search(dm[n])]
    stub = [n for n in g.fn if stubbed(dm[n]) and n not in roots]
    alt = lambda l: '^(' + '|'.join(map(re.escape, l)) + ')$'
    return build.normalise(p, alt(stub + roots), 'n-bin', stub=alt(stub), roots=alt(roots))


run.MODS['bin'] = build_bin
_dm = {}


def dem(n):
    if n not in _dm: _dm.update(p_eff.demangle([n]))
    return _dm[n]


# ---------------------------------------------------------------- types
class Types:
    def __init__(s, text):
        s.L = p_tree.Layout(text)

    def struct(s, pred, what):
        """the one structure whose name satisfies pred (all copies agree in size)"""
        r = [(n, k) for n, ks in s.L.structs.items() if pred(n) for k in ks]
        if not r: raise run.Fatal(f'no type {what} in the debug information')
        return r

    def leaves(s, k, off=0, path=''):
        k = s.L.strip(k)
        v = s.L.node.get(k, '')
        if 'DW_TAG_structure_type' in v:
            f = s.L.fields(k)
            if f and not s.variant_part(k):
                out = []
                for n, (o, sz, ty) in f.items(): out += s.leaves(ty, off + o, path + '.' + n)
                return out
        return [(path, off, int(s.L.attr(v, 'size') or 0) // 8, k)]

    def variant_part(s, k):
        el = s.L.attr(s.L.node[k], 'elements')
        for x in re.findall(r'!(\d+)', s.L.node.get(el[1:], '') if el else ''):
            if 'DW_TAG_variant_part' in s.L.node.get(x, ''): return x
        return None

    def enum(s, k):
        """{variant: (value or None, payload offset, payload type or None)}, discriminant (offset, size), size"""
        vp = s.variant_part(k)
        if vp is None: raise run.Fatal('not an enum: ' + s.L.node[k][:120])
        d = s.L.node[s.L.attr(s.L.node[vp], 'discriminator')[1:]]
        disc = (int(s.L.attr(d, 'offset') or 0) // 8, int(s.L.attr(d, 'size')) // 8)
        out = {}
        for x in re.findall(r'!(\d+)', s.L.node[s.L.attr(s.L.node[vp], 'elements')[1:]]):
            m = s.L.node[x]
            e = re.search(r'extraData: i\d+ (-?\d+)', m)
            st = s.L.attr(m, 'baseType')[1:]
            f = s.L.fields(st)
            p = f.get('__0')
            out[s.L.attr(m, 'name')] = (int(e.group(1)) if e else None, p[0] if p else 0, p[2] if p else None)
        return out, disc, s.L.size(k)

    def result(s, start):
        r = s.struct(lambda n: n.startswith(start), start)
        return s.enum(r[0][1])

    def vec(s, k):
        """offsets of pointer, capacity and length in a Vec or String"""
        lv = s.leaves(k)
        one = lambda suf: [o for p, o, z, _ in lv if p.endswith(suf)]
        p, c, n = one('.pointer') or one('.ptr'), one('.cap') or one('.cap.__0'), one('.len')
        if not c: c = [o for p_, o, z, _ in lv if '.cap' in p_]
        if len(p) != 1 or len(n) != 1 or len(c) != 1: raise run.Fatal('unknown vector layout ' + repr([(x[0], x[1]) for x in lv]))
        return p[0], c[0], n[0]


def put_variant(E, st, ptr, en, name, cells, ins):
    """write variant `name` of an enum; cells are relative to the payload"""
    vs, (do, dz), size = en
    val, po, _ = vs[name]
    m = {po + o: (v, n) for o, v, n in cells}
    b, off = split_ptr(ptr)
    out = [(o, v, n) for o, (v, n) in m.items()]
    if val is None:
        used = {v[0] for v in vs.values() if v[0] is not None}
        # the payload keeps its own value there if it has one
        if not any(o <= do < o + n for o, v, n in out):
            k = next(i for i in range(256) if i not in used)
            out.append((do, T.const(8 * dz, k), dz))
    else:
        out = [c for c in out if c[0] + c[2] <= do or c[0] >= do + dz]
        out.append((do, T.const(8 * dz, val % (1 << 8 * dz)), dz))
    E.write(st, ptr, sorted(out), size, ins)


def opaque(size, tok, holes=()):
    """cells of an opaque value: the token everywhere except over the holes"""
    out = []
    for o in range(0, size, 8):
        n = min(8, size - o)
        hs = [h for h in holes if h[0] < o + n and h[0] + h[1] > o]
        if not hs:
            if n == 8: out.append((o, tok, 8))
            else: out += [(o + i, T.ext(tok, 8 * i, 8), 1) for i in range(n)]
        else:
            for i in range(n):
                if not any(h[0] <= o + i < h[0] + h[1] for h in hs): out.append((o + i, T.ext(tok, 8 * i, 8), 1))
    return out


Z = lambda E, t: T.zext(t, 128) if T.width(t) < 128 else t


class Tool(Api):
    """ghosts: next (inputs finished), D (digits printed of the current line)
    tags: phase idle|cur|failed|hashed, bad, soft, dash, key, line, usage, al, once"""
    def __init__(s):
        super().__init__()
        s.info = {}
        s.seen = {}

    def on_write(s, E, st, b, off, size, cells, ins): pass
    def on_read(s, E, st, b, off, n, ins): pass
    def on_copy(s, E, st, d, sr, n, nv, ins): pass

    def on_panic(s, E, st, name, ins): E.report('panic', f'a panic is reachable ({dem(name)[-60:]})', ins)

    def on_back(s, E, f, h, st):
        st.tag['al'] = bool(E.eq(st, st.g['D'], T.mul(T.const(128, 128), st.g['blk'])))
        return [st]

    def vread(s, E, st, b, off, n, ins):
        if T.cval(off) is not None or n != 1: return None
        o = st.mem.get(b)
        if o is None or not any(('digit', c[0]) in s.info for c in o.cells.values()): return None
        v = fresh(8, 'digit')
        st.poly.add_ge(e_add(E.toint(st, v), e_const(-48)))
        st.poly.add_ge(e_add(e_const(102), E.toint(st, v), -1))
        return v


EFFECT = re.compile(r'^<?&?(std::(fs|process|io|env|net|thread|os|sys)\b|(core|alloc)::io(?!::error)|memmap|docopt|hex|baokeshed|duct)|Read>::|Write>::|io::copy')
TRACKED = {'file', 'meta', 'mo', 'map', 'hasher', 'output', 'byte', 'digit'}
MODE = {None: 'plain', 'key': 'keyed', 'derive': 'derive'}
SMAX = (1 << 63) - 1


def t_main(name, mode, length, both=False):
    """one parse result of the command line: mode in None/'key'/'derive', length given or not"""
    def go(o):
        m = run.module('bin')
        Y = Types(run.module_text('bin'))
        E = ai.Engine(m)
        st = ai.State()
        mon = E.mon = Tool()
        info = mon.info
        c64, c128 = C64, lambda v: T.const(128, v)
        what = f'baokeshed {({None: "", "key": "--key", "derive": "--derive-key"}[mode])} {"--length" if length else ""}'.strip()
        R = lambda ok, rule, msg, ins=None: E.require(ok, rule, f'{what}: {msg}', ins)
        INP, DEC = T.base('inputs'), T.base('decoded-key')
        for b in (INP, DEC): new_obj(st, b, T.show(b))
        n = T.sym(64, 'ninputs')
        L = T.sym(64, 'length') if length else c64(32)
        L2 = T.add(T.zext(L, 128), T.zext(L, 128))
        klen = T.sym(64, 'keylen')
        st.poly.add_ge(e_add(e_const(SMAX // 24), E.toint(st, n), -1))
        st.g.update(next=c64(0), D=c128(0), blk=c128(0), tok=c64(0))
        st.tag.update(phase='idle', bad=False, soft=False, dash=None, key='none' if mode is None else 'unread', line='', usage=False, al=True, once=False, opened=False)
        ninf = {}

        def new(w, nm, **kw):
            t = fresh(w, nm)
            info[t] = kw
            return t

        def tokof(z, p, size, kind):
            b, off = split_ptr(p)
            ob = z.mem.get(b)
            v = T.cval(off)
            if ob is None or v is None: raise Unsupported(f'{kind} at an unknown place')
            for a, c in sorted(ob.cells.items()):
                if v <= a < v + size and info.get(c[0], {}).get('kind') == kind: return c[0]
            for a in range(0, size - 7):
                t = E.quiet_read(z, T.add(p, c64(a)), 8)
                if info.get(t, {}).get('kind') == kind: return t
            return None

        def err(z, p, en, ins, ptr=True):
            put_variant(E, z, p, en, 'Err', [(0, errval(z), 8)], ins)

        def errval(z):
            e = fresh(64, 'error')
            z.poly.add_ge(e_add(E.toint(z, e), e_const(-1)))
            return e

        def path_at(z, ptr):
            """is this the data pointer of the input to be processed next"""
            return E.same(z, ptr, E.quiet_read(z, T.add(INP, T.add(T.mul(c64(24), z.g['next']), c64(pv[0]))), 8))

        pv = Y.vec(Y.struct(lambda x: x == 'PathBuf', 'PathBuf')[0][1])
        sv = Y.vec(Y.struct(lambda x: x == 'String', 'String')[0][1])
        # ------------------------------------------------ command line
        def docopt_new(z, ins, a, d):
            txt = b''
            k = E.const_of(z, a[2])
            if k is not None: txt = bytes(T.cval(E.quiet_read(z, T.add(a[1], c64(i)), 1)) or 0 for i in range(k))
            u = ' '.join(txt.decode('latin1').split())
            R(re.search(r'\[--key=<\w+> \| --derive-key=<\w+>\]', u) is not None, 'mode', 'the usage does not make --key and --derive-key exclude each other', ins)
            en = Y.result('Result<docopt::dopt::Docopt')
            do, dz = en[1]
            put_variant(E, z, a[0], en, 'Ok', opaque(en[2], new(64, 'docopt', kind='docopt'), [(do, dz)]), ins)
            return [(z, None)]

        def deserialize(z, ins, a, d):
            en = Y.result('Result<baokeshed::Args')
            ak = en[0]['Ok'][2]
            F = Y.L.fields(ak)
            y = z.copy()
            y.tag['usage'] = True
            put_variant(E, y, a[0], en, 'Err', opaque(32, fresh(64, 'usage')), ins)
            cells = []
            need = ['arg_inputs', 'flag_help', 'flag_version', 'flag_key', 'flag_derive_key', 'flag_length']
            if not all(x in F for x in need): raise run.Fatal('the argument structure lacks one of ' + ', '.join(need))
            v = Y.vec(F['arg_inputs'][2])
            off = F['arg_inputs'][0]
            cap = fresh(64, 'cap')
            z.poly.add_ge(e_add(e_const(SMAX // 24), E.toint(z, cap), -1))
            cells += [(off + v[0], INP, 8), (off + v[1], cap, 8), (off + v[2], n, 8)]
            for f in ('flag_help', 'flag_version'): cells.append((F[f][0], T.const(8, 0), 1))
            for f, on in (('flag_key', mode == 'key' or both), ('flag_derive_key', mode == 'derive' or both)):
                en2 = Y.enum(F[f][2])
                o2 = F[f][0]
                val, po, pk = en2[0]['Some' if on else 'None']
                if on:
                    cap, ln = fresh(64, 'cap'), fresh(64, 'strlen')
                    z.poly.add_ge(e_add(e_const(SMAX), E.toint(z, cap), -1))
                    z.poly.add_ge(e_add(e_const(SMAX), E.toint(z, ln), -1))
                    if val is not None: raise run.Fatal('unknown layout of an optional string')
                    kt = T.base('text of ' + f)
                    cells += [(o2 + po + sv[0], kt, 8), (o2 + po + sv[1], cap, 8), (o2 + po + sv[2], ln, 8)]
                    info[kt] = dict(kind='text', flag=f, len=ln)
                else: cells.append((o2 + en2[1][0], T.const(8 * en2[1][1], (val if val is not None else 0) % (1 << 8 * en2[1][1])), en2[1][1]))
            en3 = Y.enum(F['flag_length'][2])
            o3 = F['flag_length'][0]
            if R('name: "Option<u64>"' in Y.L.node[Y.L.strip(F['flag_length'][2])], 'length', 'the length option is not an optional 64-bit number, so valid lengths are rejected, wrapped or truncated', ins):
                val, po, _ = en3[0]['Some' if length else 'None']
                cells.append((o3 + en3[1][0], T.const(8 * en3[1][1], val), en3[1][1]))
                if length: cells.append((o3 + po, L, 8))
            else: raise Unsupported('length of another type')
            for f in F:
                if f not in need: raise Unsupported(f'unknown argument {f}')
            put_variant(E, z, a[0], en, 'Ok', cells, ins)
            return [(z, None), (y, None)]

        def usage_exit(z, ins, a, d): return []
        # ------------------------------------------------ key
        def decode(z, ins, a, d):
            tp, ln = (a[1], a[2]) if len(a) == 3 else (E.quiet_read(z, T.add(a[1], c64(sv[0])), 8), E.quiet_read(z, T.add(a[1], c64(sv[2])), 8))
            i = info.get(tp)
            want = {'key': 'flag_key', 'derive': 'flag_derive_key'}.get(mode)
            R(i is not None and i.get('kind') == 'text' and i['flag'] == want and E.same(z, ln, i['len']), 'key', 'the text decoded as key is not the whole key option', ins)
            en = Y.result('Result<alloc::vec::Vec<u8')
            vv = Y.vec(en[0]['Ok'][2])
            y = z.copy()
            y.tag['key'] = 'bad'
            put_variant(E, y, a[0], en, 'Err', opaque(16, fresh(64, 'hexerror')), ins)
            cap = fresh(64, 'cap')
            z.poly.add_ge(e_add(e_const(SMAX), E.toint(z, cap), -1))
            z.poly.add_ge(e_add(E.toint(z, cap), E.toint(z, klen), -1))
            z.tag['key'] = 'read'
            put_variant(E, z, a[0], en, 'Ok', [(vv[0], DEC, 8), (vv[1], cap, 8), (vv[2], klen, 8)], ins)
            return [(z, None), (y, None)]

        def check_key(z, p, ins):
            R(z.tag['key'] == 'read', 'key', 'an input is hashed with a key although the key was not decoded', ins)
            if R(E.eq(z, klen, c64(32)), 'key', 'an input is hashed although the key may have another length than 32 bytes', ins):
                ok = all(E.same(z, E.quiet_read(z, T.add(p, c64(i)), 1), E.quiet_read(z, T.add(DEC, c64(i)), 1)) for i in range(32))
                R(ok, 'key', 'the key used is not the 32 decoded bytes in order', ins)

        def key_settled(z, ins):
            if mode is None: return
            R(z.tag['key'] == 'read' and E.eq(z, klen, c64(32)), 'key', 'an input is processed before the key is known to be 32 valid bytes', ins)
        # ------------------------------------------------ files
        def path_eq(z, ins, a, d):
            """comparison of a path with a constant"""
            def content(p, ty):
                ty = ty.strip()
                while ty.startswith('&') and ty not in ('&std::path::Path', '&str', '&std::ffi::os_str::OsStr'):
                    p = E.quiet_read(z, p, 8)
                    ty = ty[1:]
                if ty in ('std::path::PathBuf', 'alloc::string::String', 'std::ffi::os_str::OsString'):
                    return E.quiet_read(z, T.add(p, c64(pv[0])), 8), E.quiet_read(z, T.add(p, c64(pv[2])), 8)
                if ty in ('&std::path::Path', '&str', '&std::ffi::os_str::OsStr'):
                    return E.quiet_read(z, p, 8), E.quiet_read(z, T.add(p, c64(8)), 8)
                raise Unsupported(f'comparison of {ty}')
            g = re.match(r'<(.*) as core::cmp::PartialEq(?:<(.*)>)?>::(eq|ne)$', d)
            l, r = g.group(1), g.group(2) or g.group(1)
            def side(i, ty): return ((a[i], a[i + 1]), i + 2) if not ty.startswith('&') and ty in ('std::path::Path', 'str', 'std::ffi::os_str::OsStr') else (content(a[i], ty), i + 1)
            x, i = side(0, l)
            y, i = side(i, r)
            def lit(s):
                k = E.const_of(z, s[1])
                if k is None or k > 64: return None
                bs = [T.cval(E.quiet_read(z, T.add(s[0], c64(i)), 1)) for i in range(k)]
                return None if None in bs else bytes(bs)
            lx, ly = lit(x), lit(y)
            if lx is not None: x, y, lx, ly = y, x, ly, lx
            if ly is None: raise Unsupported('two paths are compared')
            R(path_at(z, x[0]), 'mode', 'the path examined is not that of the input to be processed next', ins)
            if ly != b'-': raise Unsupported('a path is compared with something else than "-"')
            neg = g.group(3) == 'ne'
            if z.tag['dash'] is not None: return [(z, T.const(1, int(z.tag['dash'] != neg)))]
            u, w = z.copy(), z.copy()
            u.tag['dash'], w.tag['dash'] = True, False
            return [(u, T.const(1, int(not neg))), (w, T.const(1, int(neg)))]

        def ppath(z, a, d):
            """path argument from position 1: by value or by reference"""
            ty = re.search(r'::<(.*)>$', d).group(1)
            if len(a) == 3: return a[1]
            p = a[1]
            # &P passed as pointer
            k = len(ty) - len(ty.lstrip('&'))
            base = ty.lstrip('&')
            if base in ('std::path::PathBuf', 'alloc::string::String', 'std::ffi::os_str::OsString'):
                for _ in range(max(0, k - 1)): p = E.quiet_read(z, p, 8)
                return E.quiet_read(z, T.add(p, c64(pv[0])), 8)
            if base in ('std::path::Path', 'str', 'std::ffi::os_str::OsStr'):
                for _ in range(max(0, k - 2)): p = E.quiet_read(z, p, 8)
                return E.quiet_read(z, p, 8)
            raise Unsupported('file opened by ' + ty)

        def fopen(z, ins, a, d):
            p = ppath(z, a, d)
            key_settled(z, ins)
            R(E.le(z, T.add(z.g['next'], c64(1)), n), 'mode', 'a file is opened that is no input', ins)
            R(z.tag['phase'] in ('idle', 'cur'), 'error', 'an input is opened before the previous one is finished', ins)
            R(path_at(z, p), 'mode', 'the file opened is not the input to be processed next: inputs are skipped, repeated or reordered', ins)
            R(z.tag['dash'] is not True, 'mode', 'the input "-" is opened as a file instead of reading standard input', ins)
            R(z.tag['dash'] is False, 'mode', 'an input is opened as a file without checking whether it is "-"', ins)
            en = Y.result('Result<std::fs::File')
            y = z.copy()
            fail(y, True)
            err(y, a[0], en, ins)
            fd = new(32, 'fd', kind='file', next=z.g['next'])
            z.poly.add_ge(e_add(e_const((1 << 31) - 1), E.toint(z, fd), -1))
            z.tag['phase'] = 'cur'
            z.tag['opened'] = True
            put_variant(E, z, a[0], en, 'Ok', [(0, fd, 4)], ins)
            return [(z, None), (y, None)]

        def fail(z, hard):
            if hard: z.tag['phase'], z.tag['bad'] = 'failed', True
            else: z.tag['soft'] = True

        def file_of(z, p, ins):
            fd = E.quiet_read(z, p, 4)
            i = info.get(fd)
            if i is None or i['kind'] != 'file': raise Unsupported('an unknown file is used')
            R(E.same(z, i['next'], z.g['next']), 'mode', 'the file used is that of another input', ins)
            return fd

        def metadata(z, ins, a, d):
            fd = file_of(z, a[1], ins)
            en = Y.result('Result<std::fs::Metadata')
            y = z.copy()
            fail(y, False)
            err(y, a[0], en, ins)
            t = new(64, 'metadata', kind='meta', fd=fd, size=fresh(64, 'filesize'), isfile=fresh(1, 'isfile'))
            info[fd].setdefault('metas', []).append(t)
            put_variant(E, z, a[0], en, 'Ok', opaque(en[2], t, [en[1]]), ins)
            return [(z, None), (y, None)]

        def is_file(z, ins, a, d):
            t = tokof(z, a[0], 176, 'meta')
            if t is None: raise Unsupported('unknown metadata')
            return [(z, info[t]['isfile'])]

        def mlen(z, ins, a, d):
            t = tokof(z, a[0], 176, 'meta')
            if t is None: raise Unsupported('unknown metadata')
            return [(z, info[t]['size'])]

        def mo_new(z, ins, a, d):
            E.write(z, a[0], [(0, c64(0), 8), (8, c64(0), 8), (16, c64(0), 8), (24, new(64, 'mapoptions', kind='mo'), 8)], 32, ins)
            return [(z, None)]

        def mo_len(z, ins, a, d):
            E.write(z, a[0], [(0, a[1], 8), (8, c64(1), 8)], 16, ins)
            return [(z, a[0])]

        def mo_offset(z, ins, a, d):
            E.write(z, a[0], [(16, T.zext(a[1], 64), 8)], 24, ins) if False else E.write(z, T.add(a[0], c64(16)), [(0, a[1], 8)], 8, ins)
            return [(z, a[0])]

        def mo_map(z, ins, a, d):
            rd = lambda k: E.quiet_read(z, T.add(a[1], c64(k)), 8)
            if info.get(rd(24), {}).get('kind') != 'mo': raise Unsupported('unknown map options')
            R(d.endswith('::map'), 'mmap', f'the file is not mapped read-only ({d})', ins)
            fd = file_of(z, a[2], ins)
            sz, isset, off = rd(0), rd(8), rd(16)
            R(E.eq(z, off, c64(0)), 'mmap', 'the map does not start at the beginning of the file', ins)
            metas = [t for t in info[fd].get('metas', [])]
            R(any(E.decide(z, T.icmp('eq', info[t]['isfile'], T.const(1, 1))) is True for t in metas), 'mmap', 'something is mapped that is not known to be a regular file', ins)
            ok = T.cval(isset) == 1
            R(ok, 'mmap', 'the size of the map is not set to the size that was checked', ins)
            if ok:
                R(any(E.same(z, sz, info[t]['size']) for t in metas), 'mmap', 'the map does not cover the whole file', ins)
                R(E.le(z, c64(1), sz), 'mmap', 'an empty file is mapped, which fails', ins)
                R(E.le(z, sz, c64(SMAX)), 'mmap', 'a file is mapped that may not fit the address space', ins)
            en = Y.result('Result<memmap::Mmap')
            y = z.copy()
            fail(y, False)
            err(y, a[0], en, ins)
            b = T.base(f'map of {T.show(fd)}')
            new_obj(z, b, 'map')
            z.poly.add_ge(e_add(E.toint(z, b), e_const(-1)))
            info[b] = dict(kind='map', fd=fd, size=sz)
            put_variant(E, z, a[0], en, 'Ok', [(0, b, 8), (8, sz, 8)], ins)
            return [(z, None), (y, None)]

        def map_deref(z, ins, a, d): return [(z, ai.Agg([E.quiet_read(z, a[0], 8), E.quiet_read(z, T.add(a[0], c64(8)), 8)]))]
        # ------------------------------------------------ hashing
        def src_map(z, p, ln, ins):
            i = info.get(p)
            R(i is not None and i['kind'] == 'map', 'mode', 'the bytes hashed are not the map of the input', ins)
            if i is None or i.get('kind') != 'map': raise Unsupported('unknown bytes hashed')
            R(E.same(z, ln, i['size']), 'mode', 'the bytes hashed are not the whole map', ins)
            R(E.same(z, info[i['fd']]['next'], z.g['next']), 'mode', 'the bytes hashed are those of another input', ins)

        def src_reader(z, p, d, ins):
            """-> description of the stream behind a reader"""
            ty = re.search(r'copy(?:_wide|::copy|)::<(.*?), ', d)
            ty = ty.group(1) if ty else ''
            while ty.startswith('&mut '):
                p = E.quiet_read(z, p, 8)
                ty = ty[5:]
            k = None
            if ty == 'std::fs::File':
                fd = E.quiet_read(z, p, 4)
            elif ty.startswith('std::io::stdio::Stdin'): fd = None
            else:
                r = Y.struct(lambda x: x == ty.split('::')[-1], ty)
                vs, (do, dz), size = Y.enum(r[0][1])
                dv = E.quiet_read(z, T.add(p, c64(do)), dz)
                hit = None
                for nm, (val, po, pk) in vs.items():
                    if val is not None and E.eq(z, dv, T.const(8 * dz, val % (1 << 8 * dz))): hit = nm
                if hit is None: hit = next((nm for nm, v in vs.items() if v[0] is None), None)
                if hit is None: raise Unsupported('unknown input')
                val, po, pk = vs[hit]
                ptype = Y.L.node[Y.L.strip(pk)] if pk else ''
                if 'name: "File"' in ptype: fd = E.quiet_read(z, T.add(p, c64(po)), 4)
                elif pk is None or 'name: "Stdin' in ptype: fd = None
                else: raise Unsupported('input of another kind')
            if fd is None:
                mon.seen['stdin'] = 1
                if E.eq(z, n, c64(0)): R(not z.tag['once'], 'mode', 'standard input is hashed twice', ins)
                else: R(z.tag['dash'] is True, 'mode', 'standard input is hashed although the input is not "-"', ins)
                R(z.tag['phase'] in ('idle', 'cur'), 'error', 'standard input is read before the previous input is finished', ins)
                z.tag['phase'] = 'cur'
                return
            i = info.get(fd)
            R(i is not None and i.get('kind') == 'file' and E.same(z, i['next'], z.g['next']), 'mode', 'the stream hashed is not that of the current input', ins)

        def hasher_new(kind):
            def h(z, ins, a, d):
                t = new(64, 'hasher', kind='hasher', mode=kind)
                key_settled(z, ins)
                R(kind == mode, 'mode', f'the hasher is created for another mode ({ {None: "plain hashing", "key": "keyed hashing", "derive": "key derivation"}[kind]})', ins)
                if kind is not None and mode is not None: check_key(z, a[1], ins)
                E.write(z, a[0], [(0, t, 8), (8, c64(0), 8)], 1848, ins)
                return [(z, None)]
            return h

        def absorb(z, p, ins):
            t, n0 = E.quiet_read(z, p, 8), E.quiet_read(z, T.add(p, c64(8)), 8)
            if info.get(t, {}).get('kind') != 'hasher': raise Unsupported('an unknown hasher is used')
            R(T.cval(n0) == 0, 'mode', 'a hasher absorbs more than its input once', ins)

        def copyw(z, ins, a, d):
            key_settled(z, ins)
            src_reader(z, a[0], d, ins)
            w = re.search(r', (?:&mut )*baokeshed::Hasher>$', d)
            if not w: raise Unsupported('input copied to something else than a hasher')
            hp = a[1]
            for _ in range(d.count('&mut ', d.rfind(', '))): hp = E.quiet_read(z, hp, 8)
            absorb(z, hp, ins)
            mon.seen['copy'] = 1
            y = z.copy()
            fail(y, True)
            E.write(y, T.add(hp, c64(8)), [(0, c64(2), 8)], 8, ins)
            E.write(z, T.add(hp, c64(8)), [(0, c64(1), 8)], 8, ins)
            z.tag['soft'] = False
            return [(z, ai.Agg([c64(0), fresh(64, 'copied')])), (y, ai.Agg([c64(1), errval(y)]))]

        def update(z, ins, a, d):
            key_settled(z, ins)
            src_map(z, a[1], a[2], ins)
            absorb(z, a[0], ins)
            mon.seen['map'] = 1
            E.write(z, T.add(a[0], c64(8)), [(0, c64(1), 8)], 8, ins)
            return [(z, a[0])]

        def output(z, p, ins):
            R(z.tag['phase'] == 'cur', 'error', 'a hash is computed for an input that failed or was already finished', ins)
            t = new(64, 'output', kind='output')
            do = Y.result('Result<baokeshed::Output')[1] if any(x.startswith('Result<baokeshed::Output') for x in Y.L.structs) else None
            cells = [c for c in opaque(112, t, [do] if do else [])]
            cells = [c for c in cells if not 8 <= c[0] < 16] + [(8, c64(0), 8)]
            if do: cells.append((do[0], T.const(8 * do[1], 0), do[1]))
            E.write(z, p, sorted(cells), 112, ins)
            z.tag['phase'] = 'hashed'
            z.tag['soft'] = False
            z.g.update(tok=t, D=c128(0), blk=c128(0))
            z.tag['al'] = True

        def fin(z, ins, a, d):
            t, n0 = E.quiet_read(z, a[1], 8), E.quiet_read(z, T.add(a[1], c64(8)), 8)
            if info.get(t, {}).get('kind') != 'hasher': raise Unsupported('an unknown hasher is finalized')
            v = T.cval(n0)
            R(v != 2, 'error', 'a hash is computed from an input that was not read to its end', ins)
            R(v is not None and v != 0, 'mode', 'a hash is computed of nothing', ins)
            output(z, a[0], ins)
            return [(z, None)]

        def oneshot(kind):
            def h(z, ins, a, d):
                a = list(a)
                key_settled(z, ins)
                R(kind == mode, 'mode', f'the map is hashed in another mode ({ {None: "plain hashing", "key": "keyed hashing", "derive": "key derivation"}[kind]})', ins)
                if kind is not None:
                    kp = a.pop(1)
                    if mode is not None: check_key(z, kp, ins)
                src_map(z, a[1], a[2], ins)
                mon.seen['map'] = 1
                output(z, a[0], ins)
                return [(z, None)]
            return h
        # ------------------------------------------------ printing
        def oread(z, ins, a, d):
            me = a[1]
            R(z.tag['phase'] == 'hashed' and E.same(z, E.quiet_read(z, me, 8), z.g['tok']), 'error', 'output is taken from something else than the hash of the current input', ins)
            pos = E.quiet_read(z, T.add(me, c64(8)), 8)
            R(E.eq(z, T.zext(pos, 128), z.g['blk']), 'length', 'the output is not read from where the previous read ended', ins)
            # fewer than 2^58 blocks are needed for any length
            cells = []
            for i in range(64):
                b = new(8, 'stream', kind='byte', blk=z.g['blk'], i=i)
                cells.append((i, b, 1))
            E.write(z, a[0], cells, 64, ins)
            E.write(z, T.add(me, c64(8)), [(0, T.add(pos, c64(1)), 8)], 8, ins)
            z.g['blk'] = T.add(z.g['blk'], c128(1))
            return [(z, None)]

        def to_hash(z, ins, a, d):
            me = a[1]
            R(z.tag['phase'] == 'hashed' and E.same(z, E.quiet_read(z, me, 8), z.g['tok']), 'error', 'output is taken from something else than the hash of the current input', ins)
            E.write(z, a[0], [(i, new(8, 'stream', kind='byte', blk=c128(0), i=i), 1) for i in range(32)], 32, ins)
            return [(z, None)]

        def to_hex(z, ins, a, d):
            cells = []
            for i in range(32):
                x = info.get(E.quiet_read(z, T.add(a[1], c64(i)), 1))
                for h in range(2):
                    t = fresh(8, 'digit')
                    info[t] = dict(kind='digit', blk=x['blk'], j=2 * x['i'] + h) if x and x.get('kind') == 'byte' else dict(kind='digit', blk=None)
                    info['digit', t] = 1
                    cells.append((2 * i + h, t, 1))
            lv = Y.leaves(Y.struct(lambda x: x.startswith('ArrayString<[u8; 64'), 'ArrayString')[0][1])
            xs = next(o for p, o, s_, _ in lv if s_ == 64)
            lo, ls = next((o, s_) for p, o, s_, _ in lv if p.endswith('.len'))
            E.write(z, a[0], sorted([(xs + o, t, 1) for o, t, _ in cells] + [(lo, T.const(8 * ls, 64), ls)]), None, ins) if False else E.write(z, a[0], sorted([(xs + o, t, 1) for o, t, _ in cells] + [(lo, T.const(8 * ls, 64), ls)]), 64 + ls, ins)
            return [(z, None)]

        def newline(z, ins):
            ph = z.tag['phase']
            if ph == 'cur' and z.tag['soft']: z.tag['bad'], ph = True, 'failed'
            if ph == 'hashed':
                R(E.eq(z, z.g['D'], L2), 'length', 'the line ends before or after two digits for every byte requested', ins)
                mon.seen['line'] = 1
            elif ph == 'failed': mon.seen['report'] = 1
            elif ph == 'cur': R(False, 'error', 'an input is reported although it neither failed nor was hashed', ins)
            if ph in ('hashed', 'failed'):
                if E.eq(z, n, c64(0)): z.tag['once'] = True
                else: z.g['next'] = T.add(z.g['next'], c64(1))
                z.tag.update(phase='idle', dash=None, opened=False)
                z.tag['soft'] = False
            z.g.update(D=c128(0), blk=c128(0), tok=c64(0))
            z.tag.update(line='', al=True)

        def text(z, s, ins):
            """literal text (bytes) or None for text of unknown content without line breaks"""
            parts = [s] if s is None else re.split(b'(\n)', s)
            for p in parts:
                if p == b'': continue
                if p == b'\n':
                    newline(z, ins); continue
                if z.tag['phase'] == 'hashed':
                    R(E.eq(z, z.g['D'], L2), 'length', 'other text is printed before all the digits requested', ins)
                    if p is not None: R(re.search(b'[0-9a-f]$', p) is None and re.match(b'[0-9a-fA-F]', p) is None, 'length', 'literal digits are printed next to the hash', ins)
                z.tag['line'] = 'text'

        def string(z, p, ln, ins):
            """a string at p"""
            b, off = split_ptr(p)
            ob = z.mem.get(b)
            k = E.const_of(z, ln)
            if k == 0: return
            v = T.cval(off)
            c = ob.cells.get(v) if ob is not None and v is not None else None
            if c is not None and ('digit', c[0]) in info: return digits(z, ob, v, ln, ins)
            if k is not None and k <= 4096:
                bs = [T.cval(E.quiet_read(z, T.add(p, c64(i)), 1)) for i in range(k)]
                if None not in bs: return text(z, bytes(bs), ins)
            if ob is not None and any(('digit', c_[0]) in info for c_ in ob.cells.values()): raise Unsupported('digits printed from an unknown place')
            text(z, None, ins)

        def digits(z, ob, v, ln, ins):
            if not R(z.tag['phase'] == 'hashed', 'error', 'a hash is printed for an input that was not hashed', ins): return
            R(z.tag['line'] != 'text', 'length', 'digits follow other text', ins)
            k = 0
            first = info[ob.cells[v][0]]
            if not R(first['blk'] is not None, 'length', 'digits printed are not those of output bytes', ins): return
            while True:
                c = ob.cells.get(v + k)
                if c is None or ('digit', c[0]) not in info: break
                x = info[c[0]]
                if x['blk'] != first['blk'] or x['j'] != first['j'] + k: break
                k += 1
            R(E.le(z, ln, c64(k)), 'length', 'the digits printed are not consecutive digits of the output', ins)
            at = T.add(T.mul(c128(128), first['blk']), c128(first['j']))
            R(E.eq(z, z.g['D'], at) or E.eq(z, ln, c64(0)), 'length', 'the digits printed are not the next ones of the output stream', ins)
            z.g['D'] = T.add(z.g['D'], T.zext(ln, 128))
            z.tag['line'] = 'hash'
            mon.seen['digits'] = 1

        def fprint(z, ins, a, d):
            tp, ap = a[0], a[1]
            if z.tag['usage']: R(False, 'error', 'a wrong command line does not stop the tool', ins)
            v = T.cval(ap)
            if v is not None and v & 1:
                string(z, tp, c64(v >> 1), ins)
                return [(z, None)]
            i = arg = 0
            B = lambda: T.cval(E.quiet_read(z, T.add(tp, c64(i)), 1))
            for _ in range(200):
                k = B()
                i += 1
                if k is None: raise Unsupported('unknown format template')
                if k == 0: return [(z, None)]
                if k < 0x80:
                    string(z, T.add(tp, c64(i)), c64(k), ins)
                    i += k
                elif k == 0xc0:
                    ptr, fn = (E.quiet_read(z, T.add(ap, c64(16 * arg + 8 * j)), 8) for j in (0, 1))
                    arg += 1
                    nn = N[fn]
                    if nn[0] != 'base' or not nn[2].startswith('@'): raise Unsupported('unknown formatting function')
                    show(z, ptr, dem(nn[2][1:]), ins)
                else: raise Unsupported('format options')
            raise Unsupported('unterminated format template')

        def show(z, p, d, ins):
            g = re.match(r'<(.*) as core::fmt::(\w+)>::fmt$', d)
            if not g: raise Unsupported('formatting by ' + d)
            ty = g.group(1)
            while ty.startswith('&') and ty != '&str':
                p = E.quiet_read(z, p, 8)
                ty = ty[1:]
            if ty == '&str': return string(z, E.quiet_read(z, p, 8), E.quiet_read(z, T.add(p, c64(8)), 8), ins)
            if ty.startswith('arrayvec::array_string::ArrayString<[u8; 64'):
                ln = E.quiet_read(z, T.add(p, c64(64)), 1)
                return string(z, p, T.zext(ln, 64), ins)
            if ty == 'alloc::string::String': return string(z, E.quiet_read(z, T.add(p, c64(sv[0])), 8), E.quiet_read(z, T.add(p, c64(sv[2])), 8), ins)
            text(z, None, ins)
        # ------------------------------------------------ the end
        def finish(z, code, ins=None):
            """code: True success, False failure"""
            ph, bad = z.tag['phase'], z.tag['bad'] or z.tag['phase'] == 'failed' or z.tag['soft']
            keyerr = mode is not None and (z.tag['key'] == 'bad' or not E.eq(z, klen, c64(32)))
            none = E.eq(z, n, c64(0))
            if z.tag['usage']: R(not code, 'error', 'a wrong command line ends in success', ins)
            elif code:
                R(not keyerr, 'key', 'a bad key ends in success', ins)
                if keyerr: return
                R(not bad, 'error', 'the tool exits with success although an input failed', ins)
                R(ph == 'idle', 'error', 'the tool exits with success before the line of an input is complete', ins)
                if none: R(z.tag['once'], 'error', 'the tool exits with success without hashing standard input', ins)
                else: R(E.eq(z, z.g['next'], n) or (E.le(z, n, c64(0)) and z.tag['once']), 'error', 'the tool exits with success before every input was hashed', ins)
                mon.seen['ok'] = 1
            else:
                if keyerr:
                    R(E.eq(z, z.g['next'], c64(0)) and not z.tag['once'], 'key', 'a bad key is noticed only after an input was processed', ins)
                    mon.seen['keyerr'] = 1
                    return
                R(bad, 'error', 'the tool fails although nothing failed', ins)
                if not none: R(E.eq(z, z.g['next'], n) or (ph != 'idle' and E.eq(z, T.add(z.g['next'], c64(1)), n)), 'error', 'the tool stops at a failing input without processing the remaining inputs', ins)
                mon.seen['err'] = 1

        def pexit(z, ins, a, d):
            v = E.const_of(z, a[0])
            if v is None: raise Unsupported('exit with an unknown code')
            finish(z, v & 0xff == 0, ins)
            return []

        def clone(z, ins, a, d):
            c = [E.quiet_read(z, T.add(a[1], c64(8 * i)), 8) for i in range(3)]
            cap = fresh(64, 'cap')
            z.poly.add_ge(e_add(e_const(SMAX), E.toint(z, cap), -1))
            cells = [(pv[0], c[pv[0] // 8], 8), (pv[1], cap, 8), (pv[2], c[pv[2] // 8], 8)]
            E.write(z, a[0], sorted(cells), 24, ins)
            return [(z, None)]

        def lossy(z, ins, a, d):
            E.write(z, a[0], opaque(24, fresh(64, 'text')), 24, ins)
            return [(z, None)]
        nop = lambda z, ins, a, d: [(z, None)]
        errp = lambda z, ins, a, d: [(z, errval(z))]
        TABLE = [(r'drop_glue::<', nop), (r'^<docopt::dopt::Docopt>::new::<', docopt_new), (r'^<docopt::dopt::Docopt>::deserialize::<', deserialize), (r'^<docopt::dopt::Error>::exit$', usage_exit),
                 (r'^hex::decode::<', decode), (r'^<&*(std::path::Path|std::path::PathBuf|std::ffi::os_str::OsStr|std::ffi::os_str::OsString|str|alloc::string::String) as core::cmp::PartialEq', path_eq), (r'^<std::fs::File>::open::<', fopen), (r'^<std::fs::File>::metadata$', metadata),
                 (r'^<std::fs::Metadata>::is_file$', is_file), (r'^<std::fs::Metadata>::len$', mlen), (r'^<memmap::MmapOptions>::new$', mo_new), (r'^<memmap::MmapOptions>::len$', mo_len),
                 (r'^<memmap::MmapOptions>::offset$', mo_offset), (r'^<memmap::MmapOptions>::map\w*$', mo_map), (r'^<memmap::Mmap as .*Deref>::deref$', map_deref),
                 (r'^<baokeshed::Hasher>::new$', hasher_new(None)), (r'^<baokeshed::Hasher>::new_keyed$', hasher_new('key')), (r'^<baokeshed::Hasher>::new_derive_key$', hasher_new('derive')),
                 (r'copy::copy_wide::<|io::copy::<|io::copy::copy::<', copyw), (r'^<baokeshed::Hasher>::update$', update), (r'^<baokeshed::Hasher>::finalize_xof$', fin),
                 (r'^baokeshed::hash_xof$', oneshot(None)), (r'^baokeshed::keyed_hash_xof$', oneshot('key')), (r'^baokeshed::derive_key_xof$', oneshot('derive')),
                 (r'^<baokeshed::Output>::read$', oread), (r'^<baokeshed::Output>::to_hash$', to_hash), (r'^<baokeshed::Hash>::to_hex$', to_hex), (r'^std::io::stdio::_e?print$', fprint),
                 (r'^std::process::exit$', pexit), (r'PathBuf as core::clone::Clone>::clone$', clone), (r'to_string_lossy$', lossy), (r'^alloc::fmt::format', lossy),
                 (r'anyhow::Error.* as core::convert::From<|^<anyhow::Error>::(msg|new)', errp)]
        TABLE = [(re.compile(x), y) for x, y in TABLE]

        def ext(E, z, ins, args, nm):
            d = dem(nm)
            for rx, h in TABLE:
                if rx.search(d): return h(z, ins, args, d)
            if nm in m.noret or 'noreturn' in ins.x['rest']: return None
            if nm in m.fns and not stubbed(d): return None
            if EFFECT.search(d): raise Unsupported(f'no contract for {d}')
            return unknown(z, ins, args, d)

        def unknown(z, ins, args, d):
            """a library function without a contract: its results are arbitrary, provided it cannot reach anything tracked"""
            def reach(t, seen):
                b = split_ptr(t)[0] if isinstance(t, int) and T.width(t) == 64 else None
                if info.get(t, {}).get('kind') in TRACKED or info.get(b, {}).get('kind') in TRACKED: return True
                if b is None or b in seen: return False
                seen.add(b)
                ob = z.mem.get(b)
                return ob is not None and ob.kind != 'const' and any(info.get(c[0], {}).get('kind') in TRACKED or ('digit', c[0]) in info or reach(c[0], seen) for c in ob.cells.values())
            if any(a is not None and isinstance(a, int) and reach(a, set()) for a in args): raise Unsupported(f'no contract for {d}')
            for (ty, v), a in zip(ins.a, args):
                b = split_ptr(a)[0] if isinstance(a, int) else None
                ob = z.mem.get(b)
                if ob is not None and ob.kind == 'alloca': E.havoc(z, b)
            if ins.name is None: return [(z, None)]
            def val(ty):
                if ty.k == 'struct': return ai.Agg([val(x) for x in ty.el])
                return fresh(bits_of(ty), 'result')
            return [(z, val(ins.ty))]
        E.prims = {re.compile(r'^(?!llvm)'): ext}
        try:
            rets = E.call(name, [], st)
            for z, rv in rets:
                v = None if rv is None else E.const_of(z, E.flat(rv)[0])
                if rv is not None and v is None: ok = not E.le(z, c64(1), E.flat(rv)[0])
                else: ok = rv is None or v == 0
                finish(z, ok)
            if not both:
                for k, t in (('copy', 'no input is read as a stream'), ('stdin', 'standard input is never hashed'), ('map', 'no file is mapped'), ('line', 'no hash is printed'), ('digits', 'no hash is printed'), ('ok', 'the tool never succeeds'), ('err', 'no failure is ever reported'), ('report', 'no failing input is ever reported')):
                    R(k in mon.seen, 'unproved', t)
                if mode is not None: R('keyerr' in mon.seen, 'key', 'no key is ever rejected')
        finally: o.take(E)
    return (f'main [{MODE[mode]}{", both key options" if both else ""}, length {"given" if length else "default"}]', go)


def t_read(name):
    """a reader defined by the tool: hands the whole buffer to one underlying stream and returns its answer"""
    def go(o):
        m = run.module('bin')
        E = ai.Engine(m)
        st = ai.State()
        mon = E.mon = Tool()
        what = dem(name)
        R = lambda ok, rule, msg, ins=None: E.require(ok, rule, f'{what}: {msg}', ins)
        f = m.fn(name)
        if len(f.params) != 3: raise Unsupported('another signature of ' + what)
        me, buf, ln = T.base('self'), T.base('buffer'), T.sym(64, 'len')
        for b in (me, buf): new_obj(st, b, T.show(b))
        st.tag['reads'] = ()
        hits = []

        def inner(E, z, ins, args, nm):
            d = dem(nm)
            if re.search(r'drop_glue::<', d): return [(z, None)]
            if re.search(r'stdin$|Stdin>::lock$', d):
                if ins.name is None: return [(z, None)]
                val = lambda ty: ai.Agg([val(x) for x in ty.el]) if ty.k == 'struct' else T.base('stdin handle') if bits_of(ty) == 64 else fresh(bits_of(ty), 'lock')
                return [(z, val(ins.ty))]
            if not re.search(r'^<&?(std::fs::File|std::io::stdio::Stdin\w*|std::io::buffered.*) as .*Read>::read$|^<std::fs::File>::read$', d):
                if nm in m.noret or 'noreturn' in ins.x['rest'] or (nm in m.fns and not stubbed(d)): return None
                raise Unsupported('no contract for ' + d)
            sh = args[0] if len(args) == 4 else None
            a = args[-3:]
            R(a[1] == buf and E.eq(z, a[2], ln), 'mode', 'does not read into the whole buffer', ins)
            R(not z.tag['reads'], 'mode', 'reads more than once for one call', ins)
            tg, v = fresh(64, 'readtag'), fresh(64, 'readvalue')
            z.tag['reads'] = (tg, v)
            hits.append('stdin' if 'Stdin' in d else 'file')
            return [(z, ai.Agg([tg, v]))]
        E.prims = {re.compile(r'^(?!llvm)'): inner}
        try:
            for z, rv in E.call(name, [me, buf, ln], st):
                v = E.flat(rv)
                r = z.tag['reads']
                if not R(len(r) == 2, 'mode', 'returns without reading'): continue
                R(len(v) == 2 and E.same(z, v[0], r[0]) and E.same(z, v[1], r[1]), 'error', 'does not return what the stream answered')
            R({'stdin', 'file'} <= set(hits), 'mode', 'one of the streams is never read')
        finally: o.take(E)
    return (f'{dem(name)}', go)


def c_bin(tier):
    run.load(['bin'])
    m = run.module('bin')
    main = [n for n in m.fns if dem(n) == 'baokeshed::main']
    if len(main) != 1: raise run.Fatal('no main function')
    return ([t_main(main[0], md, ln) for md in (None, 'key', 'derive') for ln in (True, False)]
            + [t_read(n) for n in m.fns if re.search(r'^<baokeshed::\w+ as .*Read>::read$', dem(n)) and n not in m.noret])
