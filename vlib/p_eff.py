"""C25: effects. Which globals, foreign functions and instructions can be reached from the hashing entry points."""
import re, subprocess, os
from . import build, run

SYM = r'@("[^"]*"|[-\w.$]+)'


class Graph:
    """the linked program as a graph of references: functions and globals, each with the text that defines it"""
    def __init__(s, text):
        s.fn, s.glob, s.decl = {}, {}, set()
        for m in re.finditer(r'^define ([^\n]*?)' + SYM + r'\(([^\n]*)\n((?:[^\n]*\n)*?)\}', text, re.M): s.fn[m.group(2).strip('"')] = m.group(3) + '\n' + m.group(4)
        for m in re.finditer(r'^' + SYM + r' = ([^\n]*)$', text, re.M): s.glob[m.group(1).strip('"')] = m.group(2)
        s.decl = {m.group(1).strip('"') for m in re.finditer(r'^declare [^\n]*?' + SYM + r'\(', text, re.M)}
        s._r = {}

    def refs(s, n):
        if n not in s._r:
            b = s.fn.get(n) or s.glob.get(n) or ''
            if n in s.fn: b = '\n'.join(l for l in b.split('\n') if '#dbg_' not in l)
            b = re.sub(r'\bc"[^"]*"', '', b)
            s._r[n] = {x.strip('"') for x in re.findall(SYM, b)} - {n}
        return s._r[n]

    def reach(s, roots):
        via, todo = {r: None for r in roots}, list(roots)
        while todo:
            n = todo.pop()
            for x in s.refs(n):
                if x not in via and (x in s.fn or x in s.glob or x in s.decl): via[x] = n; todo.append(x)
        return via

    def mutable(s, n):
        d = s.glob.get(n)
        if d is None: return False
        d = d.split('{')[0].split('c"')[0]
        return bool(re.search(r'\bglobal\b|thread_local', d))


def demangle(names):
    names = sorted(names)
    r = subprocess.run(['c++filt', '-s', 'rust'], input='\n'.join(names), text=True, stdout=subprocess.PIPE).stdout.split('\n')
    return {n: re.sub(r'\[[0-9a-f]{12,}\]', '', d) for n, d in zip(names, r)}


# foreign code an entry point may reach: the effect-free language libraries and memory functions
OK_RUST = re.compile(r"^<?&?(mut )?(\[?(core|alloc|std_detect|constant_time_eq|arrayvec|arrayref|bitflags)::|(u8|u16|u32|u64|usize|str|bool|char|i32|i64) as core::)|^(<.*> as core::)")
OK_C = re.compile(r'^(mem(cpy|move|set|cmp)|bcmp|strlen|rust_eh_personality|_Unwind_Resume|__assert_fail)$')
BAD_CORE = re.compile(r'core::(arch::.*(rdrand|rdseed|rdtsc)|panic::location)|alloc::(sync|rc)::')
OK_PANIC = re.compile(r'^(std|core)::panicking|^std::rt::|^rust_begin_unwind')
BAD_INTR = re.compile(r'^llvm\.(readcyclecounter|readsteadycounter|returnaddress|frameaddress|addressofreturnaddress|sponentry|thread\.pointer|get\.|read_register|read_volatile_register|x86\.(rd|addcarryx?\.rd)|aarch64\.(rndr|mrs))')
# instructions whose result is not a function of the operands and non-atomic memory
IMPURE = re.compile(r'= load (volatile|atomic)|store (volatile|atomic)|\batomicrmw\b|\bcmpxchg\b|\bva_arg\b')


def effects(o, g, roots, what, extra_ok=None, allow_glob=None, allow_code=None):
    via = g.reach(roots)
    dm = demangle(via)

    def path(n):
        r = []
        while n is not None and len(r) < 6: r.append(dm[n][:70]); n = via[n]
        return ' <- '.join(r)
    nf = 0
    for n in via:
        detector = allow_code and allow_code.search(dm[n])
        if n in g.fn:
            nf += 1
            b = g.fn[n]
            imp = [l.strip() for l in b.split('\n') if IMPURE.search(l)]
            o.check(not imp or detector, 'effect-code', f'{what}: {dm[n]} performs a volatile or atomic access ({re.sub(r", !.*", "", imp[0])[:90] if imp else ""})', path(n))
            for a in re.findall(r'\basm (?:[a-z ]*)"([^"]*)"', b):
                o.check(a.strip() == '' or detector, 'effect-code', f'{what}: {dm[n]} runs inline assembly {a[:60]!r}', path(n))
            if not re.search(r'\basm ', b): o.ok('effect-code')
        elif n in g.glob:
            al = re.search(r'\balias\b', g.glob[n])
            o.check(not g.mutable(n) or al or (allow_glob and allow_glob.search(dm[n])), 'effect-global', f'{what}: reaches the mutable global {dm[n]}', path(n))
        elif n.startswith('llvm.'):
            o.check(not BAD_INTR.search(n) or detector, 'effect-call', f'{what}: uses the intrinsic {n}', path(n))
        else:
            d = dm[n]
            ok = OK_C.search(n) or OK_PANIC.search(d) or (OK_RUST.search(d) and not BAD_CORE.search(d)) or (extra_ok and extra_ok.search(d))
            o.check(ok, 'effect-call', f'{what}: reaches the foreign function {d}', path(n))
    o.stats['functions'] = sorted(set(o.stats.get('functions', [])) | {n for n in via if n in g.fn})
    o.note.append(f'{what}: {len(roots)} entry points, {nf} functions, {len(via) - nf} globals and foreign functions')
    return via, dm


DETECT_GLOB = re.compile(r'^std_detect::detect::cache::CACHE')
DETECT = re.compile(r'std_detect::|^core::core_arch|core::sync::atomic::')
API = r'^(<baokeshed::|baokeshed::|<baokeshed\w* as )'
NOTAPI = re.compile(r'baokeshed::(copy|c|c64|test)::|as core::fmt::')
MUST = ('baokeshed::hash', 'baokeshed::keyed_hash', 'baokeshed::derive_key', 'baokeshed::hash_xof', 'baokeshed::keyed_hash_xof', 'baokeshed::derive_key_xof',
        '<baokeshed::Hasher>::new', '<baokeshed::Hasher>::new_keyed', '<baokeshed::Hasher>::new_derive_key', '<baokeshed::Hasher>::update', '<baokeshed::Hasher>::finalize',
        '<baokeshed::Hasher>::finalize_xof', '<baokeshed::Output>::read', '<baokeshed::Output>::to_hash')


def rust_graph(feats=()): return rust_graph_from(build.rust_ll(feats), '-'.join(feats))


def rust_graph_from(p, name):
    return Graph(open(build.link([p[k] for k in ('baokeshed', 'vharness', 'constant_time_eq', 'arrayvec', 'arrayref', 'bitflags') if k in p], 'eff-' + name)).read())


def t_rust(g):
    def go(o):
        dm = demangle(g.fn)
        roots = [n for n, d in dm.items() if re.search(API, d) and not NOTAPI.search(d)]
        have = {dm[n] for n in roots}
        for x in MUST: o.check(x in have, 'anchors', f'entry point {x} not found')
        effects(o, g, roots, 'Rust API', allow_glob=DETECT_GLOB, allow_code=DETECT)
        # the detection result decides nothing but the platform value
        users = {n for n in g.fn if DETECT_GLOB.search(' '.join(demangle(g.refs(n)).values()) or '') or any(DETECT_GLOB.search(x) for x in demangle(g.refs(n)).values())}
        for n in users:
            o.check(bool(DETECT.search(dm[n])), 'effect-detect', f'{dm[n]} reads the processor features itself, outside the choice of platform', dm[n])
    return ('effects of the Rust API', go)


def t_c(cfg, path):
    def go(o):
        g = Graph(open(path).read())
        roots = [n for n in g.fn if not re.search(r'\bmain$', n)]
        for x in ('hasher_init', 'hasher_update', 'hasher_finalize'): o.check(x in g.fn, 'anchors', f'C entry point {x} not found')
        effects(o, g, roots, f'C hasher ({cfg})')
    return (f'effects of the C hasher [{cfg}]', go)


def c_path(cfg):
    kinds = {'portable': ('portable',), 'sse41': ('portable', 'sse41'), 'avx2': ('portable', 'sse41', 'avx2'), 'avx512': ('portable', 'sse41', 'avx2', 'avx512'), 'neon': ('portable', 'neon')}[cfg]
    files = [build.c_main_ll(cfg, ['-UNDEBUG'], 'eff-' + cfg)]
    for k in kinds: files += build.c_kernel_ll(k, tag='eff' + cfg, neon=cfg == 'neon').values()
    return build.link(files, 'eff-c-' + cfg)


def c25(tier):
    from . import p_all
    from concurrent.futures import ThreadPoolExecutor
    cfgs = p_all.CFGS
    with ThreadPoolExecutor(6) as ex:
        f = ex.submit(rust_graph)
        ps = list(ex.map(c_path, cfgs))
        g = f.result()
    L = [t_rust(g)] + [t_c(c, p) for c, p in zip(cfgs, ps)]
    return p_all.tasks((p_all.r_update, p_all.r_finalize, p_all.r_oneshot, p_all.r_entry, p_all.r_new, p_all.r_out), (p_all.c_update, p_all.c_finalize, p_all.c_new))(tier) + L
