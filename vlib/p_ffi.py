"""The foreign interface: the declarations rustc sees (resolved item tree of the crate with every C feature on) against the
signatures and structures clang records for the C definitions (debug information of every C file)."""
import os, re, json, glob, shutil
from . import build, run
from .run import Fatal
from .p_tree import Layout

FEATURES = ['c_portable', 'c_sse41', 'c_avx2', 'c_avx512', 'c_neon', 'c_detect']


def _deps():
    build.rust_ll(('c',))
    ex = []
    for n in ('arrayref', 'arrayvec', 'bitflags', 'constant_time_eq'):
        p = glob.glob(os.path.join(build.scratch(), f'rust-c/release/**/lib{n}-*.rlib'), recursive=True)
        if len(p) != 1: raise Fatal(f'no library for {n}')
        ex += ['--extern', f'{n}={p[0]}', '--extern', f'{n}={p[0][:-4]}rmeta', '-L', 'dependency=' + os.path.dirname(p[0])]
    return ex


_items = []
def rust_items():
    """the crate's items as rustdoc resolves them"""
    if _items: return _items[0]
    out = os.path.join(build.scratch(), 'doc')
    cmd = [os.path.join(build.sysroot(), 'bin/rustdoc'), os.path.join(build.REPO, 'src/lib.rs'), '--crate-name', 'baokeshed', '--edition', '2018', '-Zunstable-options', '--output-format', 'json',
           '--document-private-items', '--document-hidden-items', '--cap-lints', 'allow', '-o', out, *_deps()]
    for f in FEATURES: cmd += ['--cfg', f'feature="{f}"']
    build.run(cmd)
    _items.append(json.load(open(out + '/baokeshed.json')))
    return _items[0]


def rust_consts(exprs):
    """value of constant expressions in the crate's root module, folded by the compiler"""
    d = os.path.join(build.scratch(), 'probe')
    shutil.copytree(os.path.join(build.REPO, 'src'), d)
    with open(d + '/lib.rs', 'a') as f:
        for i, e in enumerate(exprs): f.write(f'\n#[no_mangle] pub extern "C" fn vprobe_{i}() -> u64 {{ ({e}) as u64 }}')
    o = os.path.join(build.scratch(), 'probe.ll')
    build.run(['rustc', '+nightly', '--crate-type', 'lib', '--crate-name', 'baokeshed', '--edition', '2018', '--cap-lints', 'allow', '-O', '-Zmerge-functions=disabled', '-Cpanic=abort', '--emit', 'llvm-ir', d + '/lib.rs', '-o', o, *_deps(),
               *[x for f in FEATURES for x in ('--cfg', f'feature="{f}"')]])
    t = open(o).read()
    r = []
    for i, e in enumerate(exprs):
        m = re.search(r'^define [^\n]*@vprobe_%d\([^\n]*\n(?:[^\n]*:[^\n]*\n)?\s*ret i64 (-?\d+)' % i, t, re.M)
        if not m: raise Fatal(f'{e} is not a constant')
        r.append(int(m.group(1)) & (1 << 64) - 1)
    return r


def c_consts(header, names):
    p = os.path.join(build.scratch(), 'probe-' + os.path.basename(header) + '.c')
    with open(p, 'w') as f:
        f.write(f'#include "{os.path.join(build.REPO, header)}"\n')
        for n in names: f.write(f'unsigned long long vprobe_{n}(void) {{ return {n}; }}\n')
    o = p[:-2] + '.ll'
    build.run(['clang', '-std=c11', '-O1', '-emit-llvm', '-S', p, '-o', o])
    t = open(o).read()
    r = {}
    for n in names:
        m = re.search(r'@vprobe_%s\([^\n]*\n(?:[^\n]*:[^\n]*\n)?\s*ret i64 (-?\d+)' % n, t)
        if not m: raise Fatal(f'{n} is not a constant in {header}')
        r[n] = int(m.group(1)) & (1 << 64) - 1
    return r


# ---------------------------------------------------------------- C side
class Sigs:
    def __init__(s, text):
        s.L = Layout(text)
        s.raw = {m.group(1): m.group(2) for m in re.finditer(r'^!(\d+) = (?:distinct )?(.*)$', text, re.M)}
        s.fns = {}
        args = {}
        for k, v in s.raw.items():
            if v.startswith('!DILocalVariable('):
                n, a, sc = (s.L.attr(v, x) for x in ('name', 'arg', 'scope'))
                if a: args.setdefault(sc, {})[int(a)] = n
        for m in re.finditer(r'^define [^\n]*@([\w.$]+)\([^\n]*!dbg !(\d+)', text, re.M):
            name, sp = m.groups()
            v = s.raw[sp]
            if re.match(r'define internal', m.group(0)): continue
            ty = s.raw[s.L.attr(v, 'type')[1:]]
            ts = s.raw[s.L.attr(ty, 'types')[1:]]
            el = [x.strip() for x in ts[ts.index('{') + 1:ts.rindex('}')].split(',')]
            a = args.get('!' + sp, {})
            s.fns[name] = (s.kind(el[0]), [s.kind(x) for x in el[1:]], [a.get(i + 1) for i in range(len(el) - 1)])

    def kind(s, ref):
        if ref == 'null': return 'void'
        k = ref[1:]
        for _ in range(20):
            v = s.raw[k]
            if 'DW_TAG_pointer_type' in v: return 'ptr'
            m = re.match(r'!DIBasicType\(', v)
            if m: return int(s.L.attr(v, 'size')) // 8
            if 'DIDerivedType' in v: k = s.L.attr(v, 'baseType')[1:]
            elif 'DW_TAG_enumeration_type' in v: return int(s.L.attr(v, 'size')) // 8
            else: break
        raise Fatal(f'C type {v[:80]}')


def c_sigs():
    S = {}
    texts = []
    for k in ('portable', 'sse41', 'avx2', 'avx512', 'neon'):
        for p in build.c_kernel_ll(k, tag='ffi-' + k).values(): texts.append((k, open(p).read()))
    main = {c: open(build.c_main_ll(c, tag='ffi')).read() for c in ('portable', 'avx512', 'neon')}
    texts += list(main.items())
    for tag, t in texts:
        for n, sig in Sigs(t).fns.items():
            if n in S and S[n][:2] != sig[:2]: raise Fatal(f'{n} has two signatures')
            S[n] = sig
    return S, main


# ---------------------------------------------------------------- Rust side
PRIM = dict(u8=1, i8=1, bool=1, u16=2, i16=2, u32=4, i32=4, char=4, f32='f4', u64=8, i64=8, f64='f8', usize=8, isize=8)


class Items:
    def __init__(s, J):
        s.ix, s.paths = J['index'], J['paths']

    def kind(s, t):
        if t is None or t == {'tuple': []}: return 'void'
        (k, v), = t.items()
        if k == 'primitive':
            if v not in PRIM: raise Fatal(f'foreign type {v}')
            return PRIM[v]
        if k in ('raw_pointer', 'borrowed_ref', 'function_pointer'): return 'ptr'
        if k == 'resolved_path':
            it = s.ix.get(str(v['id']))
            if it and 'type_alias' in it['inner']: return s.kind(it['inner']['type_alias']['type'])
            n = v.get('path') or v.get('name')
            if it and 'struct' in it['inner'] and 'transparent' in str(it['attrs']):
                return 'struct ' + n
            if n in ('Option', 'NonNull'):
                a = [x['type'] for x in (v.get('args') or {}).get('angle_bracketed', {}).get('args', []) if 'type' in x]
                if a and s.kind(a[0]) == 'ptr': return 'ptr'
            c = dict(c_uchar=1, c_schar=1, c_char=1, c_ushort=2, c_short=2, c_int=4, c_uint=4, c_long=8, c_ulong=8, c_longlong=8, c_ulonglong=8, size_t=8, ssize_t=8).get(n.split('::')[-1])
            if c: return c
            return 'struct ' + n
        raise Fatal(f'foreign type {k}')

    def foreign(s):
        """{module path: {name: (ret, [kinds], [names])}}"""
        out = {}

        def walk(i, path, extern):
            it = s.ix.get(str(i))
            if it is None: return
            inner = it['inner']
            if 'module' in inner:
                for x in inner['module']['items']: walk(x, path + [it['name']], extern)
            elif 'extern_block' in inner:
                for x in inner['extern_block']['items']: walk(x, path, True)
            elif 'function' in inner and not inner['function'].get('has_body', True):
                f = inner['function']
                sig = f.get('sig') or f.get('decl')
                link = [re.search(r'link_name\s*=\s*"([^"]+)"', str(a)) for a in it['attrs']]
                link = [m.group(1) for m in link if m]
                out[(link or [it['name']])[0]] = ('::'.join(path[1:]), s.kind(sig['output']), [s.kind(t) for _, t in sig['inputs']], [n for n, _ in sig['inputs']])
        root = None
        for k, it in s.ix.items():
            if 'module' in it['inner'] and it['inner']['module'].get('is_crate'): root = k
        walk(root, [], False)
        return out


def task_sigs():
    def go(o):
        R = Items(rust_items()).foreign()
        S, _ = c_sigs()
        if len(R) < 20: raise Fatal(f'{len(R)} foreign functions found')
        for n, (mod, ret, kinds, names) in sorted(R.items()):
            w = f'{mod}::{n}'
            if not o.check(n in S, 'ffi-name', f'{n} is declared for Rust and defined in no C file', w): continue
            cr, ck, cn = S[n]
            o.check(ret == cr, 'ffi-sig', f'{n} returns {ret} in Rust and {cr} in C', w)
            o.check(len(kinds) == len(ck), 'ffi-sig', f'{n} has {len(kinds)} arguments in Rust and {len(ck)} in C', w)
            for i, (a, b) in enumerate(zip(kinds, ck)):
                o.check(a == b, 'ffi-sig', f'argument {i + 1} of {n}: {a} in Rust, {b} in C (width in bytes, or pointer)', w)
            # the same names in another order: an argument has moved
            rn = [x.strip('_') for x in names]
            for i, x in enumerate(rn):
                o.check(x not in cn or len(cn) != len(rn) or cn[i] == x or rn.count(x) > 1, 'ffi-order', f'argument {x} of {n} is number {i + 1} in Rust and number {cn.index(x) + 1 if x in cn else 0} in C', w)
        o.stats['functions'] = sorted(R)
    return ('foreign function declarations', go)


def rust_layouts(text, wanted):
    """layouts of the repr(C) structures of module c, from the Rust debug information, by their shape"""
    L = Layout(text)
    return L


def flat(L, k, base=0, path=''):
    """leaf fields in address order: (offset, element width, count, path)"""
    out = []
    k = L.strip(k)
    v = L.node[k]
    if 'DIBasicType' in v: return [(base, int(L.attr(v, 'size')) // 8, 1, path)]
    if 'DW_TAG_array_type' in v:
        n = int(L.attr(v, 'size')) // 8
        e = flat(L, L.attr(v, 'baseType')[1:], 0, '')
        ew = sum(x[1] * x[2] for x in e)
        if len(e) == 1 and e[0][0] == 0 and n % ew == 0: return [(base, e[0][1], e[0][2] * (n // ew), path)]
        raise Fatal('array of structures in the foreign interface')
    if 'DW_TAG_structure_type' in v:
        f = sorted(L.fields(k).items(), key=lambda x: x[1][0])
        for n, (off, sz, ty) in f: out += flat(L, ty, base + off, path + '.' + n)
        return out
    raise Fatal(f'field type {v[:60]}')


def task_structs():
    def go(o):
        text = open(build.rust_ll(('c',))['baokeshed']).read()
        J = rust_items()
        IT = Items(J)
        # structures handed to C by pointer
        names = set()

        def pointees(t):
            if not t: return
            (k, v), = t.items()
            if k in ('raw_pointer', 'borrowed_ref'): pointees(v['type'])
            elif k == 'resolved_path':
                it = J['index'].get(str(v['id']))
                if it and 'struct' in it['inner']: names.add((it['name'], str(v['id'])))
        for it in J['index'].values():
            f = it['inner'].get('function')
            if f and not f.get('has_body', True):
                for _, t in (f.get('sig') or f.get('decl'))['inputs']: pointees(t)
        if len(names) < 2: raise Fatal('structures shared with C not found')
        L = Layout(text)
        _, main = c_sigs()
        for cfg, ctext in sorted(main.items()):
            C = Layout(ctext)
            S = Sigs(ctext)
            for name, id in sorted(names):
                # which C structure: the one the C definition of a function taking it points to
                cname = dict(Hasher='hasher', ChunkState='chunk_state').get(name)
                if cname is None: cname = re.sub(r'(?<!^)([A-Z])', r'_\1', name).lower()
                if cname not in C.structs:
                    o.bad('ffi-struct', f'no C structure for {name}', cfg); continue
                ck = C.strip(C.structs[cname][0])
                mod = J['paths'].get(id, {}).get('path', [])
                rks = [k for k in L.structs.get(name, []) if scope(text, L, k) == mod[:-1]] if mod else L.structs.get(name, [])
                if not rks: raise Fatal(f'no layout for {name}')
                rk = rks[0]
                attrs = str(J['index'][id]['attrs'])
                o.check(re.search(r'repr\(C|[\'"]c[\'"]|"kind": "c"', attrs.lower().replace('repr(c', 'repr(C')) is not None, 'ffi-struct', f'{name} is not repr(C)', name)
                o.check(L.size(rk) == C.size(ck), 'ffi-struct', f'{name}: {L.size(rk)} bytes in Rust, {C.size(ck)} in C ({cfg})', name)
                a, b = flat(L, rk), flat(C, ck)
                o.check(len(a) == len(b), 'ffi-struct', f'{name}: {len(a)} fields in Rust, {len(b)} in C ({cfg})', name)
                for x, y in zip(a, b):
                    o.check(x[:3] == y[:3], 'ffi-struct', f'{name}{x[3]} is {x[2]}x{x[1]} bytes at offset {x[0]} in Rust; in C {y[3]} is {y[2]}x{y[1]} bytes at {y[0]} ({cfg})', name)
                cn = [y[3] for y in b]
                for i, x in enumerate(a):
                    o.check(len(cn) != len(a) or x[3] not in cn or cn[i] == x[3], 'ffi-struct', f'{name}{x[3]} is field {i + 1} in Rust and another one in C', name)
                al = lambda fl: max(x[1] for x in fl)
                o.check(al(a) == al(b), 'ffi-struct', f'alignment of {name} differs ({cfg})', name)
        o.stats['functions'] = sorted(n for n, _ in names)
    return ('structures shared with C', go)


def scope(text, L, k):
    """module path of a debug-info structure"""
    path = []
    v = L.node[k]
    s = L.attr(v, 'scope')
    while s and s.startswith('!'):
        m = re.search(r'^%s = (?:distinct )?!DINamespace\((.*)\)$' % re.escape(s), text, re.M)
        if not m: break
        n = re.search(r'name: "([^"]+)"', m.group(1))
        path.insert(0, n.group(1) if n else '?')
        p = re.search(r'scope: (!\d+|null)', m.group(1))
        s = p.group(1) if p else None
    return path


CONSTS = [('BLOCK_LEN', 'BLOCK_LEN'), ('CHUNK_LEN', 'CHUNK_LEN'), ('KEY_LEN', 'KEY_LEN'), ('OUT_LEN', 'OUT_LEN'), ('MAX_DEPTH', 'MAX_DEPTH')] + \
         [(f'Flags::{x}.bits()', x) for x in ('CHUNK_START', 'CHUNK_END', 'PARENT', 'ROOT', 'KEYED_HASH', 'DERIVE_KEY')]
CONSTS64 = [('portable64::BLOCK_LEN', 'BLOCK_LEN')]


def task_consts():
    def go(o):
        r = rust_consts([a for a, _ in CONSTS + CONSTS64])
        c = c_consts('c/baokeshed_impl.h', [b for _, b in CONSTS])
        h64 = [os.path.relpath(p, build.REPO) for p in glob.glob(os.path.join(build.REPO, 'c64/*_impl.h'))]
        for (a, b), v in zip(CONSTS, r): o.check(v == c[b], 'ffi-const', f'{a} is {v} in Rust and {c[b]} in C', b)
        if len(h64) != 1: raise Fatal('header of the 64-bit family not found')
        c = c_consts(h64[0], [b for _, b in CONSTS64])
        for (a, b), v in zip(CONSTS64, r[len(CONSTS):]): o.check(v == c[b], 'ffi-const', f'{a} is {v} in Rust and {c[b]} in C', b)
    return ('shared constants', go)


def c24(tier):
    rust_items()
    return [task_sigs(), task_structs(), task_consts()]
