"""Textual LLVM IR parser (the subset rustc/clang emit after opt)."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<gvar>@(?:"[^"]*"|[-\w.$]+))
|(?P<lvar>%(?:"[^"]*"|[-\w.$]+))
|(?P<meta>![\w.]*)
|(?P<attr>\#\d+)
|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|0x[0-9A-Fa-f]+)
|(?P<word>[A-Za-z_][\w.]*)
|(?P<dots>\.\.\.)
|(?P<punct>[(){}\[\]<>,=*:|])
)''', re.X)


class Ty:
    __slots__ = ('k', 'w', 'n', 'el')

    def __init__(s, k, w=0, n=0, el=None):
        s.k, s.w, s.n, s.el = k, w, n, el

    def __repr__(s):
        if s.k == 'int': return f'i{s.w}'
        if s.k in ('vec', 'arr'): return f'{s.k}{s.n}x{s.el}'
        if s.k == 'struct': return '{' + ','.join(map(repr, s.el)) + '}'
        return s.k

I = {}
def ity(w):
    if w not in I: I[w] = Ty('int', w)
    return I[w]
PTR = Ty('ptr', 64)
VOID = Ty('void')


def align_of(t):
    if t.k == 'int':
        b = (t.w + 7) // 8
        a = 1
        while a < b: a *= 2
        return min(a, 16)
    if t.k == 'ptr': return 8
    if t.k == 'float': return t.w // 8
    if t.k == 'arr': return align_of(t.el)
    if t.k == 'vec': return size_of(t)
    if t.k == 'struct': return 1 if t.w == 1 else max([align_of(x) for x in t.el] or [1])
    return 1


def size_of(t):
    if t.k == 'int':
        b = (t.w + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if t.k == 'ptr': return 8
    if t.k == 'float': return t.w // 8
    if t.k == 'arr': return t.n * size_of(t.el)
    if t.k == 'vec': return (t.n * bits_of(t.el) + 7) // 8
    if t.k == 'struct':
        o = 0
        for x in t.el:
            a = 1 if t.w == 1 else align_of(x)
            o = (o + a - 1) // a * a + size_of(x)
        a = align_of(t)
        return (o + a - 1) // a * a
    raise ValueError(t)


def bits_of(t):
    if t.k in ('int', 'float'): return t.w
    if t.k == 'ptr': return 64
    return 8 * size_of(t)


def field_off(t, i):
    o = 0
    for j, x in enumerate(t.el):
        a = 1 if t.w == 1 else align_of(x)
        o = (o + a - 1) // a * a
        if j == i: return o
        o += size_of(x)
    raise IndexError


class P:
    def __init__(s, text, mod):
        s.toks = []
        s.i = 0
        s.mod = mod
        pos = 0
        n = len(text)
        while pos < n:
            m = TOK.match(text, pos)
            if not m:
                if text[pos:].strip() == '': break
                raise SyntaxError('lex: ' + text[pos:pos + 60] + ' in ' + text[:200])
            pos = m.end()
            k = m.lastgroup
            s.toks.append((k, m.group(k)))

    def peek(s, o=0):
        j = s.i + o
        return s.toks[j][1] if j < len(s.toks) else None

    def kind(s, o=0):
        j = s.i + o
        return s.toks[j][0] if j < len(s.toks) else None

    def next(s):
        t = s.toks[s.i][1]
        s.i += 1
        return t

    def acc(s, v):
        if s.i < len(s.toks) and s.toks[s.i][1] == v:
            s.i += 1
            return True
        return False

    def exp(s, v):
        t = s.next()
        if t != v:
            raise SyntaxError(f'expected {v} got {t} at {s.toks[max(0,s.i-6):s.i+6]}')

    def skip_parens(s):
        s.exp('(')
        d = 1
        while d:
            t = s.next()
            if t == '(': d += 1
            elif t == ')': d -= 1

    def type(s):
        t = s.next()
        if re.fullmatch(r'i\d+', t): r = ity(int(t[1:]))
        elif t == 'ptr':
            r = PTR
            if s.peek() == 'addrspace':
                s.next(); s.skip_parens()
        elif t == 'void': r = VOID
        elif t == 'float': r = Ty('float', 32)
        elif t == 'double': r = Ty('float', 64)
        elif t in ('label', 'metadata', 'token'): r = Ty(t)
        elif t == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']')
            r = Ty('arr', 0, n, e)
        elif t == '<':
            if s.peek() == '{':
                r = s.type(); r = Ty('struct', 1, 0, r.el); s.exp('>')
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>')
                r = Ty('vec', 0, n, e)
        elif t == '{':
            el = []
            while not s.acc('}'):
                el.append(s.type()); s.acc(',')
            r = Ty('struct', 0, 0, el)
        elif t.startswith('%'):
            r = s.mod.named_type(t)
        else:
            raise SyntaxError('type ' + t)
        return r

    ATTRW = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nofree', 'nocapture', 'readonly', 'writeonly', 'readnone',
             'returned', 'inreg', 'nest', 'immarg', 'swiftself', 'dead_on_return', 'dead_on_unwind', 'writable', 'allocptr', 'noext'}
    ATTRP = {'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval', 'initializes', 'nofpclass', 'elementtype', 'byref', 'preallocated', 'inalloca', 'allocsize', 'memory'}

    def param_attrs(s):
        at = {}
        while s.i < len(s.toks):
            t = s.peek()
            if t in s.ATTRW: s.next(); at[t] = True
            elif t == 'align':
                s.next()
                if s.peek() == '(':
                    s.skip_parens()
                else: s.next()
            elif t in s.ATTRP:
                s.next()
                if s.peek() == '(':
                    b = s.i
                    s.skip_parens()
                    at[t] = [x[1] for x in s.toks[b + 1:s.i - 1]]
            elif s.kind() == 'str':
                s.next()
                if s.acc('='): s.next()
            else: break
        return at

    def value(s, ty):
        """value of given type -> ('reg',n) ('const',int) ('glob',n) ('undef',) ('vec',[..]) ('agg',[..]) ('zero',) ('expr',...)"""
        k, t = s.toks[s.i]
        s.i += 1
        if k == 'lvar': return ('reg', t[1:])
        if k == 'gvar': return ('glob', t[1:].strip('"'))
        if k == 'num':
            if '.' in t: return ('fconst', t)
            return ('const', int(t, 0))
        if k == 'str':
            assert t.startswith('c')
            return ('bytes', unescape(t[2:-1]))
        if t == 'true': return ('const', 1)
        if t == 'false': return ('const', 0)
        if t == 'null' or t == 'zeroinitializer': return ('zero',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'none': return ('undef',)
        if t == 'splat':
            s.exp('('); et = s.type(); v = s.value(et); s.exp(')')
            return ('vec', [v] * ty.n)
        if t == '<':
            if s.peek() == '{':
                s.next(); r = []
                while not s.acc('}'):
                    et = s.type(); r.append((et, s.value(et))); s.acc(',')
                s.exp('>')
                return ('agg', r)
            r = []
            while not s.acc('>'):
                et = s.type(); r.append(s.value(et)); s.acc(',')
            return ('vec', r)
        if t in ('[', '{'):
            end = {'[': ']', '{': '}'}[t]
            r = []
            while not s.acc(end):
                et = s.type(); r.append((et, s.value(et))); s.acc(',')
            return ('agg', r)
        if t == 'getelementptr':
            fl = []
            while s.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                fl.append(s.next())
                if s.peek() == '(' and fl[-1] == 'inrange': s.skip_parens()
            s.exp('(')
            et = s.type(); s.exp(',')
            ops = []
            while True:
                pt = s.type(); ops.append((pt, s.value(pt)))
                if not s.acc(','): break
            s.exp(')')
            return ('gep', et, ops)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('('); ft = s.type(); v = s.value(ft); s.exp('to'); tt = s.type(); s.exp(')')
            return ('cast', t, ft, v, tt)
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            while s.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): s.next()
            s.exp('('); ft = s.type(); a = s.value(ft); s.exp(','); ft2 = s.type(); b = s.value(ft2); s.exp(')')
            return ('bin', t, ft, a, b)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return s.value(ty)
        if t == 'asm':
            while s.kind() != 'str': s.next()
            a = s.next(); s.exp(','); b = s.next()
            return ('asm', a, b)
        raise SyntaxError(f'value {k} {t} {s.toks[max(0,s.i-8):s.i+8]}')


def unescape(x):
    out = bytearray()
    i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(x[i])); i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'name', 'ty', 'a', 'x', 'text')

    def __init__(s, op, name, ty, a, x=None, text=''):
        s.op, s.name, s.ty, s.a, s.x, s.text = op, name, ty, a, x, text

    def __repr__(s):
        return f'{s.name} = {s.op} {s.ty} {s.a} {s.x}'


class Fn:
    pass


DEF = re.compile(r'^define\b', re.M)
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'uitofp', 'sitofp', 'fptoui', 'ptrtoaddr', 'fpext', 'fptrunc', 'fptosi'}


class Module:
    def __init__(s, text):
        s.text = text
        s.types = {}
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', text, re.M):
            s.types[m.group(1)] = m.group(2)
        s._tc = {}
        s.globs = {}
        for m in re.finditer(r'^@("[^"]*"|[-\w.$]+) = (.*)$', text, re.M):
            s.globs[m.group(1).strip('"')] = m.group(2)
        s._gi = {}
        s.fns = {}
        for m in re.finditer(r'^define [^\n]*?@("[^"]*"|[-\w.$]+)\(', text, re.M):
            s.fns[m.group(1).strip('"')] = m.start()
        s.decls = set(x.strip('"') for x in re.findall(r'^declare [^\n]*?@("[^"]*"|[-\w.$]+)\(', text, re.M))
        s.noret = set()
        nrg = set(re.findall(r'^attributes (#\d+) = \{[^}]*\bnoreturn\b', text, re.M))
        for m in re.finditer(r'^(?:declare|define) [^\n]*?@("[^"]*"|[-\w.$]+)\(([^\n]*)$', text, re.M):
            r = m.group(2)
            if ' noreturn' in r or any(g in nrg for g in re.findall(r'#\d+', r)): s.noret.add(m.group(1).strip('"'))
        s._fc = {}
        s.aliases = dict()
        for n, d in list(s.globs.items()):
            m = re.search(r'\balias\b.*?@("[^"]*"|[-\w.$]+)\s*$', d)
            if m: s.aliases[n] = m.group(1).strip('"')

    def named_type(s, t):
        if t not in s._tc:
            d = s.types.get(t, 'opaque')
            if d == 'opaque': s._tc[t] = Ty('opaque')
            else: s._tc[t] = P(d, s).type()
        return s._tc[t]

    def glob_init(s, name):
        """(type, value, is_const) or None"""
        if name in s._gi: return s._gi[name]
        d = s.globs.get(name)
        r = None
        if d is not None and not re.search(r'\b(external|extern_weak)\b', d.split('{')[0].split('c"')[0]):
            m = re.search(r'\b(constant|global)\b ', d)
            if m and ' alias ' not in d:
                p = P(d[m.end():], s) if '!' not in d else P(re.sub(r', !.*$', '', d[m.end():]), s)
                ty = p.type()
                v = p.value(ty)
                r = (ty, v, m.group(1) == 'constant')
        s._gi[name] = r
        return r

    def fn(s, name):
        name = s.aliases.get(name, name)
        if name in s._fc: return s._fc[name]
        st = s.fns[name]
        en = s.text.index('\n}', st)
        body = s.text[st:en]
        f = parse_fn(body, s)
        s._fc[name] = f
        return f


_QUOTED = re.compile(r'"[^"]*"')
def strip_meta(line):
    # remove trailing ', !foo !123' metadata attachments and comments (outside quoted names)
    q = _QUOTED.sub(lambda m: '"' + '_' * (len(m.group()) - 2) + '"', line) if '"' in line else line
    i = q.find(';')
    if i >= 0: line, q = line[:i], q[:i]
    j = q.find(', !')
    if j >= 0 and 'metadata !' not in q[:j + 3]: return line[:j], line[j:]
    return line, ''


def parse_fn(body, mod):
    lines = body.split('\n')
    f = Fn()
    h = lines[0]
    p = P(h[:h.rindex('{')] if h.rstrip().endswith('{') else h, mod)
    p.exp('define')
    while p.kind() != 'gvar':
        # skip linkage / ret attrs; find ret type
        save = p.i
        if p.kind() == 'word' and p.peek() not in ('ptr', 'void', 'float', 'double') and not re.fullmatch(r'i\d+', p.peek()):
            w = p.next()
            if p.peek() == '(' : p.skip_parens()
            elif w == 'align': p.next()
            continue
        if p.kind() == 'str':
            p.next(); continue
        f.ret = p.type()
    f.name = p.next()[1:].strip('"')
    p.exp('(')
    f.params = []
    while not p.acc(')'):
        if p.kind() == 'dots':
            p.next(); continue
        ty = p.type(); at = p.param_attrs()
        nm = p.next()[1:] if p.kind() == 'lvar' else str(len(f.params))
        f.params.append((ty, nm, at))
        p.acc(',')
    f.header = h
    f.blocks = {}
    f.order = []
    cur = None
    i = 1
    first = True
    n = len(lines)
    while i < n:
        ln = lines[i]; i += 1
        if not ln.strip() or ln.strip().startswith(';'): continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
        if m:
            cur = m.group(1).strip('"')
            f.blocks[cur] = []; f.order.append(cur); first = False
            continue
        if first:
            # entry block without label: numbered after params
            cur = str(len([q for q in f.params])) if all(q[1].isdigit() for q in f.params) else '0'
            f.blocks[cur] = []; f.order.append(cur); first = False
        s = ln.strip()
        if s.startswith('#dbg_'): continue
        if s.startswith('switch'):
            while ']' not in s:
                s += ' ' + lines[i].strip(); i += 1
        if re.match(r'(%\S+ = )?invoke ', s) and ' to label' not in s:
            s += ' ' + lines[i].strip(); i += 1
        f.blocks[cur].append((s))
    f.raw = f.blocks
    f.blocks = {}
    for b in f.order:
        f.blocks[b] = [parse_ins(x, mod) for x in f.raw[b]]
    f.blocks = {b: [x for x in v if x is not None] for b, v in f.blocks.items()}
    f.entry = f.order[0]
    f.succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        f.succ[b] = succs(t)
    f.pred = {b: [] for b in f.order}
    for b in f.order:
        for x in f.succ[b]:
            if b not in f.pred[x]: f.pred[x].append(b)
    analyse_loops(f)
    return f


def succs(t):
    if t.op == 'br':
        return list(dict.fromkeys(t.x['targets']))
    if t.op == 'switch':
        return list(dict.fromkeys([t.x['default']] + [l for _, l in t.x['cases']]))
    if t.op == 'invoke':
        return [t.x['normal']]
    return []


def parse_ins(s, mod):
    s, meta = strip_meta(s)
    text = s
    name = None
    m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = ', s)
    if m:
        name = m.group(1)[1:].strip('"'); s = s[m.end():]
    p = P(s, mod)
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(p.next())
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Ins(op, name, ty, [a, b], fl, text)
    if op in ('icmp', 'fcmp'):
        fl = []
        while p.peek() in ('samesign', 'fast', 'nnan'): fl.append(p.next())
        pred = p.next(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Ins(op, name, ty, [a, b], pred, text)
    if op in CASTS:
        while p.peek() in ('nuw', 'nsw', 'nneg'): p.next()
        ft = p.type(); v = p.value(ft); p.exp('to'); tt = p.type()
        return Ins(op, name, tt, [v], ft, text)
    if op == 'select':
        ct = p.type(); c = p.value(ct); p.exp(','); ta = p.type(); a = p.value(ta); p.exp(','); tb = p.type(); b = p.value(tb)
        return Ins(op, name, ta, [c, a, b], ct, text)
    if op == 'phi':
        ty = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(ty); p.exp(','); l = p.next()[1:].strip('"'); p.exp(']')
            inc.append((v, l))
            if not p.acc(','): break
        return Ins(op, name, ty, inc, None, text)
    if op == 'alloca':
        while p.peek() in ('inalloca', 'swifterror'): p.next()
        ty = p.type()
        cnt = None
        if p.acc(','):
            if p.peek() != 'align':
                ct = p.type(); cnt = p.value(ct)
        return Ins(op, name, PTR, [], (ty, cnt), text)
    if op == 'load':
        at = []
        while p.peek() in ('volatile', 'atomic'): at.append(p.next())
        ty = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
        return Ins(op, name, ty, [a], at, text + meta)
    if op == 'store':
        at = []
        while p.peek() in ('volatile', 'atomic'): at.append(p.next())
        ty = p.type(); v = p.value(ty); p.exp(','); pt = p.type(); a = p.value(pt)
        return Ins(op, name, ty, [v, a], at, text)
    if op == 'getelementptr':
        fl = []
        while p.peek() in ('inbounds', 'nuw', 'nusw'): fl.append(p.next())
        et = p.type(); p.exp(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.acc(','): break
        return Ins('gep', name, PTR if ops[0][0].k != 'vec' else ops[0][0], ops, et, text)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); l = p.next()[1:].strip('"')
            return Ins('br', None, VOID, [], {'targets': [l]}, text)
        ty = p.type(); c = p.value(ty); p.exp(','); p.exp('label'); l1 = p.next()[1:].strip('"'); p.exp(','); p.exp('label'); l2 = p.next()[1:].strip('"')
        return Ins('br', None, VOID, [c], {'targets': [l1, l2]}, text)
    if op == 'switch':
        ty = p.type(); v = p.value(ty); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"'); p.exp('[')
        cs = []
        while not p.acc(']'):
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); cs.append((c[1] if c[0] == 'const' else 0, p.next()[1:].strip('"')))
        return Ins('switch', None, ty, [v], {'default': d, 'cases': cs}, text)
    if op == 'ret':
        ty = p.type()
        if ty.k == 'void': return Ins('ret', None, ty, [], None, text)
        return Ins('ret', None, ty, [p.value(ty)], None, text)
    if op in ('unreachable', 'resume', 'cleanupret', 'catchret', 'catchswitch'):
        return Ins('unreachable', None, VOID, [], op, text)
    if op in ('landingpad', 'cleanuppad', 'catchpad'):
        return Ins('undefval', name, VOID, [], op, text)
    if op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'fast', 'preserve_mostcc', 'cc10') or p.peek() in P.ATTRW or p.peek() in P.ATTRP or p.peek() == 'align' or p.kind() == 'str':
            if p.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'fast', 'preserve_mostcc', 'cc10'): p.next()
            else:
                b = p.i
                p.param_attrs()
                if p.i == b: break
        ty = p.type()
        if p.peek() == '(':  # varargs function type
            p.skip_parens()
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            t = p.type(); at = p.param_attrs()
            if t.k == 'metadata':
                d = 0
                while True:
                    q = p.peek()
                    if d == 0 and q in (',', ')'): break
                    if q in '({[': d += 1
                    if q in ')}]': d -= 1
                    p.next()
                args.append((t, ('undef',)))
            else:
                args.append((t, p.value(t)))
            p.acc(',')
        x = {'callee': callee, 'noreturn': False, 'rest': ' '.join(q[1] for q in p.toks[p.i:])}
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.exp('to'); p.exp('label'); x['normal'] = p.next()[1:].strip('"')
        return Ins(op, name, ty, args, x, text)
    if op == 'extractvalue':
        ty = p.type(); v = p.value(ty); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Ins(op, name, ty, [v], idx, text)
    if op == 'insertvalue':
        ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); w = p.value(t2); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Ins(op, name, ty, [v, w], (idx, t2), text)
    if op == 'extractelement':
        ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); w = p.value(t2)
        return Ins(op, name, ty, [v, w], None, text)
    if op == 'insertelement':
        ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); e = p.value(t2); p.exp(','); t3 = p.type(); i = p.value(t3)
        return Ins(op, name, ty, [v, e, i], None, text)
    if op == 'shufflevector':
        ty = p.type(); a = p.value(ty); p.exp(','); ty2 = p.type(); b = p.value(ty2); p.exp(','); mt = p.type(); m = p.value(mt)
        if m[0] == 'zero': m = ('vec', [('const', 0)] * mt.n)
        elif m[0] == 'undef': m = ('vec', [('undef',)] * mt.n)
        return Ins(op, name, Ty('vec', 0, mt.n, ty.el), [a, b], (ty, [c[1] if c[0] == 'const' else None for c in m[1]]), text)
    if op == 'freeze':
        ty = p.type(); return Ins(op, name, ty, [p.value(ty)], None, text)
    if op == 'fence':
        return None
    if op in ('atomicrmw', 'cmpxchg', 'fneg', 'fadd', 'fmul', 'fdiv', 'fsub', 'va_arg'):
        return Ins('unknown', name, VOID, [], op, text)
    raise SyntaxError('ins ' + s)


def analyse_loops(f):
    """dominators, natural loops, rpo"""
    seen = set()
    post = []
    st = [(f.entry, iter(f.succ[f.entry]))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(f.succ[x])))
                break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]
    f.rpo = rpo
    idx = {b: i for i, b in enumerate(rpo)}
    f.idx = idx
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.pred[b] if p in idom]
            if not ps: continue
            n = ps[0]
            for p in ps[1:]:
                a, c = n, p
                while a != c:
                    while idx[a] > idx[c]: a = idom[a]
                    while idx[c] > idx[a]: c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n; ch = True
    f.idom = idom

    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    f.dom = dom
    f.loops = {}
    for b in rpo:
        for s in f.succ[b]:
            if s in idx and dom(s, b):
                body = f.loops.setdefault(s, {s})
                wk = [b]
                while wk:
                    x = wk.pop()
                    if x not in body:
                        body.add(x)
                        wk += [q for q in f.pred[x] if q in idx]
