"""C15: instruction-set-specific code runs only where the CPU was found to support it.

Every function of the program carries the CPU features it is compiled for.  A call
from code that needs fewer features to code that needs more is a boundary; the
calling function is interpreted, and every path to the call must have decided a
Platform value (or made the run-time check itself) that guarantees the features.
What a Platform value guarantees is computed from Platform::detect: the features
whose run-time check succeeded on every path returning that value."""
import re
from . import ai, run, build, p_eff, p_tree, kern, terms as T
from .ai import fresh, Unsupported

BASE = {'sse', 'sse2', 'fxsr', 'x87', 'mmx', 'cmov', 'cx8', 'cx16', '64bit', 'crc32'}
IMPLY = {'sse3': {'sse2'}, 'ssse3': {'sse3'}, 'sse4.1': {'ssse3'}, 'sse4.2': {'sse4.1', 'crc32'}, 'avx': {'sse4.2'}, 'avx2': {'avx'},
         'fma': {'avx'}, 'f16c': {'avx'}, 'avx512f': {'avx2', 'fma', 'f16c', 'evex512'}, 'avx512vl': {'avx512f'}, 'avx512bw': {'avx512f'}, 'avx512dq': {'avx512f'}, 'avx512cd': {'avx512f'}}


IMPLY_C = dict(IMPLY, avx=IMPLY['avx'] | {'xsave'}, **{'sse4.2': IMPLY['sse4.2'] | {'popcnt'}})     # as -m flags enable them


def closure(fs, imply=IMPLY):
    r, todo = set(BASE), list(fs)
    while todo:
        f = todo.pop()
        if f not in r or f in fs:
            r.add(f)
            todo += [x for x in imply.get(f, ()) if x not in r]
    return r


def features(text, base=BASE):
    """{function: set of features it is compiled for beyond the base} and attributes resolved"""
    attr = {m.group(1): m.group(2) for m in re.finditer(r'^attributes #(\d+) = \{(.*)\}', text, re.M)}
    r = {}
    for m in re.finditer(r'^define ([^\n]*?)@("[^"]*"|[-\w.$]+)\(([^\n]*)$', text, re.M):
        a = re.search(r' #(\d+)', m.group(3))
        f = re.search(r'"target-features"="([^"]*)"', attr.get(a.group(1), '')) if a else None
        r[m.group(2).strip('"')] = {x[1:] for x in f.group(1).split(',') if x.startswith('+')} - set(base) if f else set()
    return r


def direct(body, callee):
    """is every use of callee in body a direct call?"""
    q = r'@("%s"|%s)' % (re.escape(callee), re.escape(callee))
    uses = re.findall(q + r'(?![-\w.$])', body)
    calls = re.findall(r'\b(?:call|invoke)\b[^\n]*?' + q + r'\(', body)
    return len(uses) == len(calls)


DETECT = re.compile(r'^(?:<.*>|std_detect)::.*__is_feature_detected::(\w+)$|^std_detect::detect::arch::x86::__is_feature_detected::(\w+)$')
FNAME = lambda x: {'sse4_1': 'sse4.1', 'sse4_2': 'sse4.2'}.get(x, x)


class Cpu:
    """the linked program, before any inlining"""
    def __init__(s):
        p = build.rust_ll(())
        s.path = build.link([p['baokeshed'], p['vharness'], p['reference_impl']], 'cpu')
        s.text = open(s.path).read()
        s.g = p_eff.Graph(s.text)
        s.feat = features(s.text)
        s.dm = p_eff.demangle(set(s.g.fn) | s.g.decl)
        s.det = {n: FNAME(m.group(1) or m.group(2)) for n, d in s.dm.items() for m in [DETECT.match(d)] if m}
        s.callers = {}
        for n in list(s.g.fn) + list(s.g.glob):
            for x in s.g.refs(n): s.callers.setdefault(x, set()).add(n)

    def ours(s, n): return bool(re.match(r'<*&?(mut )?(baokeshed)::', s.dm.get(n, ''))) or '<baokeshed::' in s.dm.get(n, '')

    def edges(s):
        """boundary edges (caller, callee) within the code of the library"""
        r = []
        for f in s.g.fn:
            if f in s.det: continue
            have = closure(s.feat[f])
            for x in sorted(s.g.refs(f)):
                if s.feat.get(x, set()) - have:
                    # a core::arch wrapper is entered from the library; its own callers are what counts
                    r.append((f, x))
        # references from data (tables of functions)
        for g in s.g.glob:
            for x in s.g.refs(g):
                if s.feat.get(x): r.append((g, x))
        return r


# ---------------------------------------------------------------- parameters and their source types
class Params:
    def __init__(s, text):
        s.L = p_tree.Layout(text)
        # subprograms by linkage name -> argument types
        s.types = {}
        sub = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DISubprogram\((.*)\)$', text, re.M):
            ln = re.search(r'linkageName: "([^"]+)"', m.group(2)) or re.search(r'name: "([^"]+)"', m.group(2))
            ty = re.search(r'type: !(\d+)', m.group(2))
            if ln and ty: sub[ln.group(1)] = ty.group(1)
        st = {m.group(1): m.group(2) for m in re.finditer(r'^!(\d+) = (?:distinct )?!DISubroutineType\((.*)\)$', text, re.M)}
        tu = {m.group(1): m.group(2) for m in re.finditer(r'^!(\d+) = (?:distinct )?!\{(.*)\}$', text, re.M)}
        for n, k in sub.items():
            a = re.search(r'types: !(\d+)', st.get(k, ''))
            if a: s.types[n] = [x.strip().lstrip('!') for x in tu.get(a.group(1), '').split(',')][1:]
        # plain enumerations named Platform
        s.plat = {}
        for k, v in s.L.node.items():
            if v.startswith('!DICompositeType(tag: DW_TAG_enumeration_type, name: "Platform"'):
                e = s.L.attr(v, 'elements')
                s.plat[k] = e
        s.text = text

    def variants(s):
        r = {}
        for k, e in s.plat.items():
            for x in re.findall(r'!(\d+)', re.search(r'^!%s = !\{(.*)\}$' % e[1:], s.text, re.M).group(1)):
                m = re.search(r'^!%s = !DIEnumerator\(name: "(\w+)", value: (\d+)' % x, s.text, re.M)
                r[m.group(1)] = int(m.group(2))
        if not r: raise run.Fatal('no enumeration Platform in the debug information')
        return r

    def within(s, ty, off=0, depth=0):
        """offsets of Platform values inside a value of this type"""
        ty = s.L.strip(ty)
        if ty in s.plat: return [off]
        v = s.L.node.get(ty, '')
        if 'DW_TAG_structure_type' not in v or depth > 6: return []
        r = []
        for f, (o, z, t) in s.L.fields(ty).items(): r += s.within(t, off + o, depth + 1)
        return r

    def pointee(s, ty):
        v = s.L.node.get(ty, '')
        if 'DW_TAG_pointer_type' in v:
            b = s.L.attr(v, 'baseType')
            return b[1:] if b and b.startswith('!') else None
        return None

    def width(s, ty):
        """IR parameters a source parameter takes: list of 'ptr'/'int'"""
        v = s.L.node.get(s.L.strip(ty), '')
        if 'DW_TAG_structure_type' in v and re.search(r'name: "&', v): return 2
        z = s.L.attr(v, 'size')
        if z is not None and int(z) == 0: return 0
        return 1


def params_of(P, mod, f, sret):
    """[(index of IR parameter, offset of a Platform value behind it or None when it is the value)]"""
    ts = P.types.get(f)
    if ts is None: return None
    i = 1 if sret else 0
    out = []
    for t in ts:
        w = P.width(t)
        if P.L.strip(t) in P.plat: out.append((i, None))
        else:
            pt = P.pointee(P.L.strip(t))
            for o in P.within(pt) if pt else []: out.append((i, o))
            if not pt and w == 1:
                # a structure by value is passed by reference when it is large
                for o in P.within(t): out.append((i, o))
        i += w
    return out, i


# ---------------------------------------------------------------- tasks
def detect_prim(cpu, known):
    """run-time checks: both outcomes; what was found is kept in the state"""
    def h(E, st, ins, args, name):
        f = cpu.det[name]
        y, n = st.copy(), st.copy()
        if f in [x for x in st.tag.get('no', '').split(',') if x]: return [(n, T.const(1, 0))]
        y.tag['det'] = ','.join(sorted(set(x for x in st.tag.get('det', '').split(',') if x) | {f}))
        n.tag['no'] = ','.join(sorted(set(x for x in st.tag.get('no', '').split(',') if x) | {f}))
        if f in [x for x in st.tag.get('det', '').split(',') if x]: return [(y, T.const(1, 1))]
        return [(y, T.const(1, 1)), (n, T.const(1, 0))]
    return h


def found(st): return closure({x for x in st.tag.get('det', '').split(',') if x})


class Mon(ai.Monitor):
    def keep(s): return []


def begin(mk, cpu):
    E = ai.Engine(run.module(mk))
    st = ai.State()
    E.mon = Mon()
    st.tag['det'] = ''
    st.tag['no'] = ''
    return E, st


def detects(cpu, mk, fns):
    """[(function, paths)] for every function returning a Platform by run-time checks"""
    r = []
    for f in fns:
        E, st = begin(mk, cpu)
        for n in cpu.det: E.prims[re.compile('^' + re.escape(n) + '$')] = detect_prim(cpu, None)
        r.append((f, E, E.call(f, [], st)))
    return r


_cpu = None


def setup():
    global _cpu
    cpu = _cpu = Cpu()
    cpu.P = Params(cpu.text)
    cpu.var = cpu.P.variants()
    cpu.dfn = [n for n, d in cpu.dm.items() if n in cpu.g.fn and re.search(r'platform::Platform>?::detect$', d)]
    if len(cpu.dfn) != 1: raise run.Fatal('Platform::detect not found')
    dyn = set(cpu.det)
    cpu.reachdet = {n for n in cpu.g.fn if dyn & set(cpu.g.refs(n))}
    E = [(f, x) for f, x in cpu.edges()]
    # functions of core::arch called inside the library
    tops, lifted = {}, []
    todo = [(f, {x}, ()) for f, x in E]
    seen = set()
    cpu.bad = []
    while todo:
        f, xs, via = todo.pop()
        if f in cpu.g.glob:
            cpu.bad.append((f, xs)); continue
        if not cpu.ours(f) and not cpu.callers.get(f): continue      # unused library code
        if source(cpu, f):
            tops.setdefault(f, set()).update(xs)
            continue
        cs = [c for c in cpu.callers.get(f, ()) if c != f]
        if not cs: cpu.bad.append((f, xs))
        for c in cs:
            if (c, f) in seen: continue
            seen.add((c, f))
            if c in cpu.g.fn and cpu.feat[c] and not (set().union(*[cpu.feat[x] for x in xs]) - closure(cpu.feat[c])): continue
            todo.append((c, xs, via + (f,)))
    cpu.tops = tops
    return cpu


def source(cpu, f):
    """does f hold a Platform value or make a run-time check?"""
    if f in cpu.reachdet or cpu.dfn[0] in cpu.g.refs(f): return True
    r = params_of(cpu.P, None, f, False)
    return bool(r and r[0])


def build_cpu():
    cpu = _cpu
    names = {x for f, xs in cpu.tops.items() for x in xs} | set(cpu.det)
    esc = lambda ns: '|'.join('^' + re.escape(n) + '$' for n in sorted(ns)) or '^$'
    stub = esc({n for n in names if n in cpu.g.fn})
    roots = esc(set(cpu.tops) | set(cpu.dfn))
    return build.normalise(cpu.path, stub + '|' + roots + '|8Platform6detect$', 'n-cpu', stub=stub, roots=roots)


run.MODS['cpu'] = build_cpu


def guarantees(cpu, o=None):
    """{variant value: features guaranteed}"""
    r = {}
    (f, E, paths), = detects(cpu, 'cpu', cpu.dfn)
    names = {v: k for k, v in cpu.var.items()}
    n = 0
    for z, v in paths:
        k = E.const_of(z, v) if v is not None else None
        if k is None: raise Unsupported('Platform::detect returns no constant value on a path')
        r[k] = r.get(k, found(z)) & found(z)
        n += 1
    if o is not None:
        o.take(E)
        o.ok('detect', n)
        o.note += [f'{names.get(k, k)} guarantees {", ".join(sorted(x for x in fs - BASE)) or "nothing beyond the base"}' for k, fs in sorted(r.items())]
    return r


def t_detect(cpu):
    def go(o):
        g = guarantees(cpu, o)
        names = {v: k for k, v in cpu.var.items()}
        o.check(cpu.var.get('Portable') in g, 'detect', 'Platform::detect never chooses the portable code, so machines without SIMD have none')
        for k, fs in g.items(): o.check(k in names, 'detect', f'Platform::detect returns {k}, which is no Platform')
    return ('Platform::detect', go)


def t_boundary(cpu, f, xs):
    what = cpu.dm[f]

    def go(o):
        g = guarantees(cpu)
        mod = run.module('cpu')
        fn = mod.fn(f)
        E, st = begin('cpu', cpu)
        sret = bool(re.search(r'^define [^\n]*@"?%s"?\([^\n]*?\bsret\(' % re.escape(f), mod.text, re.M))
        pr = params_of(cpu.P, mod, f, sret)
        np_ = len(fn.params)
        if pr is None or (pr[1] != np_ and pr[0]): raise Unsupported(f'{what}: the parameters do not match the debug information ({pr and pr[1]} and {np_})')
        args, src = [], []
        for i, p in enumerate(fn.params):
            ty = p[0]
            if ty.k == 'ptr':
                b = T.base(f'a{i}')
                kern.new_obj(st, b, f'a{i}')
                args.append(b)
            elif ty.k == 'int': args.append(T.sym(ty.w, f'a{i}'))
            else: raise Unsupported(f'{what}: a parameter of type {ty}')
        top = max(cpu.var.values())
        for i, off in pr[0] if pr else []:
            if off is None: src.append(args[i]); continue
            v = T.sym(8, f'platform{i}.{off}')
            st.mem[args[i]].cells[off] = (v, 1, 0)
            src.append(v)
        # an enumeration holds one of its values
        starts = [st]
        for v in src: starts = [z for y in starts for z in E.assume(y, T.icmp('ule', v, T.const(v_width(v), top)), True)]
        hits = {}

        def reach(E, st, ins, args, name):
            need = cpu.feat[name]
            have = found(st)
            ok = not (need - have)
            why = ''
            for v in src:
                if ok: break
                poss = [(k, n) for n, k in cpu.var.items() if k in g and feasible(E, st, v, k)]
                lack = [(n, need - g[k]) for k, n in poss if need - g[k]]
                if not lack: ok = True
                else: why = f'the platform may be {lack[0][0]}, which guarantees no {", ".join(sorted(lack[0][1])[:4])}'
            E.require(ok, 'feature', f'{what} reaches {cpu.dm[name]}, which needs {", ".join(sorted(need - have)[:4])}, on a path where the CPU is not known to support it' + (f' ({why})' if why else ''), ins)
            hits[name] = hits.get(name, 0) + 1
            return [(st, ret(E, ins))]
        for n in cpu.det: E.prims[re.compile('^' + re.escape(n) + '$')] = detect_prim(cpu, None)
        for x in xs: E.prims[re.compile('^' + re.escape(x) + '$')] = reach
        if cpu.dfn[0] != f:
            def det(E, st, ins, args, name):
                r = []
                for k, fs in g.items():
                    z = st.copy()
                    z.tag['det'] = ','.join(sorted(set(x for x in z.tag.get('det', '').split(',') if x) | (fs - BASE)))
                    r.append((z, T.const(8, k)))
                return r
            E.prims[re.compile('^' + re.escape(cpu.dfn[0]) + '$')] = det
        try:
            for z in starts: E.call(f, args, z)
        finally:
            E.viol = [v for v in E.viol if v['rule'] in ('feature',)]
            E.oblig = {k: n for k, n in E.oblig.items() if k in ('feature',)}
            o.take(E)
        o.note.append(f'{sum(hits.values())} calls on paths to {", ".join(cpu.dm[x] for x in xs)}')
    return (f'features at {what}', go)


def feasible(E, st, v, k):
    return bool(E.assume(st.copy(), T.icmp('eq', v, T.const(v_width(v), k)), True))


def v_width(v): return T.N[v][1]


def ret(E, ins):
    t = ins.ty
    if t is None or t.k == 'void': return None
    if t.k == 'int': return fresh(t.w, 'result')
    raise Unsupported(f'result of an instruction-set-specific function ({t})')


# ---------------------------------------------------------------- C
C_BASE = BASE
CALLED = re.compile(r'\b(?:call|invoke)\b[^\n]*?@([-\w.$]+)\(')


def t_c():
    def go(o):
        defs, tu = {}, {}
        for k in ('portable', 'sse41', 'avx2', 'avx512'):
            for f, p in build.c_kernel_ll(k, tag='x86').items():
                t = open(p).read()
                for n, fs in features(t).items():
                    lk = re.search(r'^define (internal|private|linkonce_odr)? ?[^\n]*@%s\(' % re.escape(n), t, re.M)
                    if lk and lk.group(1) in ('internal', 'private'): continue
                    defs[n] = (fs, f)
                tu[f] = (t, features(t))
        # kernels calling across files
        for f, (t, ft) in tu.items():
            g = p_eff.Graph(t)
            for n in g.fn:
                for x in g.refs(n):
                    if x in g.fn or x not in defs: continue
                    need = defs[x][0]
                    o.check(not need - closure(ft[n], IMPLY_C), 'feature', f'{f}: {n} needs {", ".join(sorted(ft[n])) or "no extension"} and calls {x} of {defs[x][1]}, which needs {", ".join(sorted(need - closure(ft[n], IMPLY_C)))}')
        EN = {'portable': set(), 'sse41': {'sse4.1'}, 'avx2': {'sse4.1', 'avx2'}, 'avx512': {'sse4.1', 'avx2', 'avx512f', 'avx512vl'}}
        for cfg, en in EN.items():
            t = open(build.c_main_ll(cfg, (), '')).read()
            g = p_eff.Graph(t)
            ft = features(t)
            have = closure(en, IMPLY_C)
            k = 0
            for n in g.fn:
                o.check(not ft[n] - have, 'feature', f'baokeshed.c ({cfg} build): {n} itself is compiled for {", ".join(sorted(ft[n] - have))}')
                for x in g.refs(n):
                    if x in g.fn: continue
                    if x in defs:
                        k += 1
                        need = defs[x][0]
                        o.check(not need - have, 'feature', f'baokeshed.c ({cfg} build): {n} calls {x} of {defs[x][1]}, which needs {", ".join(sorted(need - have))}, which this build does not enable')
                    else: o.check(x in g.glob or x.startswith('llvm.') or re.match(r'^(mem(cpy|move|set|cmp)|bcmp|__assert_fail|strlen)$', x), 'feature', f'baokeshed.c ({cfg} build): {n} calls {x}, which none of the routine files defines')
            o.check(k >= 2, 'feature', f'baokeshed.c ({cfg} build) calls no compression routine')
    return ('C dispatch', go)


def c15(tier):
    from . import p_all
    cpu = setup()
    run.load(['cpu', 'tree'])
    p_tree.lay_rust(run.module_text('tree'))

    def scan(o):
        n = 0
        for f in cpu.g.fn:
            n += 1
        o.ok('scan', n)
        o.stats['functions'] = sorted(x for x in cpu.g.fn if cpu.feat[x])
        for f, xs in cpu.bad:
            for x in xs: o.bad('feature', f'{cpu.dm.get(f, f)} reaches {cpu.dm[x]}, which needs {", ".join(sorted(cpu.feat[x])[-3:])}, without holding a platform value or making a run-time check')
        for f, xs in cpu.tops.items():
            for x in xs: o.check(x not in cpu.g.refs(f) or direct(cpu.g.fn[f], x), 'feature', f'{cpu.dm[f]} takes {cpu.dm[x]} as a value instead of calling it')
    L = [('call graph', scan), t_detect(cpu), t_c()]
    L += [t_boundary(cpu, f, xs) for f, xs in sorted(cpu.tops.items())]
    return L + p_all.tasks((p_all.r_update, p_all.r_finalize, p_all.r_oneshot, p_all.r_entry, p_all.r_new, p_all.r_out))(tier)
