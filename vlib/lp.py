"""Exact linear programs in C (vlib/csrc/lp.c), with the Python version as fallback on overflow."""
import ctypes, hashlib, os, subprocess, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def _load():
    src = os.path.join(HERE, 'csrc', 'lp.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(os.path.dirname(HERE), '.build'), os.path.join(tempfile.gettempdir(), f'bkv-lp-{os.getuid()}')):
        so = os.path.join(d, f'lp-{h}.so')
        try:
            if not os.path.exists(so):
                os.makedirs(d, exist_ok=True)
                tmp = f'{so}.{os.getpid()}'
                subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.replace(tmp, so)
            f = ctypes.CDLL(so).lp_min
            f.restype = ctypes.c_int
            return f
        except (OSError, subprocess.CalledProcessError):
            continue
    return None


lp_min = _load()
Z16 = bytes(16)
_memo = {0: Z16}


def b16(v):
    r = _memo.get(v)
    if r is None:
        r = v.to_bytes(16, 'little', signed=True)
        if len(_memo) < 200000: _memo[v] = r
    return r


def solve(obj, rows, vs, ix):
    """('ok', num, den, sol) | ('unbounded',) | ('inf',) | None (too large for C)"""
    n = len(vs)
    m = len(rows)
    try:
        buf = []
        for c, d in rows:
            r = [Z16] * (n + 1)
            for v, k in d.items(): r[ix[v]] = b16(k)
            r[n] = b16(c)
            buf += r
        r = [Z16] * (n + 1)
        for v, k in obj[1].items(): r[ix[v]] = b16(k)
        r[n] = b16(obj[0])
        ob = b''.join(r)
        rb = b''.join(buf)
    except OverflowError: return None
    out = ctypes.create_string_buffer(16 * (n + 3))
    a = ctypes.addressof(out)
    rc = lp_min(m, n, rb, ob, ctypes.c_void_p(a), ctypes.c_void_p(a + 16), ctypes.c_void_p(a + 32))
    if rc == 1: return ('unbounded',)
    if rc == 2: return ('inf',)
    if rc == 3: return None
    raw = out.raw
    g = lambda i: int.from_bytes(raw[16 * i:16 * i + 16], 'little', signed=True)
    den = g(1)
    return ('ok', g(0), den, {vs[j]: g(2 + j) for j in range(n) if raw[16 * (2 + j):16 * (3 + j)] != Z16})
