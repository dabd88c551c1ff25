"""The specification of baokeshed's compression functions, as terms.
Written from the published description (BLAKE2s/b-like core with a fixed
message permutation), independent of /repo's sources."""
from . import terms as T

IV32 = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
IV64 = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1]
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
]
_memo = {}


def core(v, m, w, rounds, rot):
    v = list(v)

    def g(a, b, c, d, x, y):
        v[a] = T.add(T.add(v[a], v[b]), x)
        v[d] = T.rotr(T.xor(v[d], v[a]), rot[0])
        v[c] = T.add(v[c], v[d])
        v[b] = T.rotr(T.xor(v[b], v[c]), rot[1])
        v[a] = T.add(T.add(v[a], v[b]), y)
        v[d] = T.rotr(T.xor(v[d], v[a]), rot[2])
        v[c] = T.add(v[c], v[d])
        v[b] = T.rotr(T.xor(v[b], v[c]), rot[3])
    for r in range(rounds):
        s = [m[i] for i in SIGMA[r % 10]]
        g(0, 4, 8, 12, s[0], s[1]); g(1, 5, 9, 13, s[2], s[3])
        g(2, 6, 10, 14, s[4], s[5]); g(3, 7, 11, 15, s[6], s[7])
        g(0, 5, 10, 15, s[8], s[9]); g(1, 6, 11, 12, s[10], s[11])
        g(2, 7, 8, 13, s[12], s[13]); g(3, 4, 9, 14, s[14], s[15])
    return v


def compress32(cv, m, blen, off, flags):
    """cv: 8 words, m: 16 words, blen/flags: any width <= 32, off: 64 bit -> 16 words of output"""
    key = ('32', tuple(cv), tuple(m), blen, off, flags)
    if key in _memo: return _memo[key]
    v = list(cv) + [T.const(32, x) for x in IV32[:4]] + [T.ext(off, 0, 32), T.ext(off, 32, 32), T.zext(blen, 32), T.zext(flags, 32)]
    o = core(v, m, 32, 7, (16, 12, 8, 7))
    r = [T.xor(o[i], o[i + 8]) for i in range(8)] + [T.xor(o[i + 8], cv[i]) for i in range(8)]
    _memo[key] = r
    return r


IV64 = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
        0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179]


def compress64(cv, m, blen, off, flags):
    """cv: 4 words of 64 bits -> 16 words of extended output (the first 4 are the chaining value)"""
    key = ('64', tuple(cv), tuple(m), blen, off, flags)
    if key in _memo: return _memo[key]
    v = list(cv) + [T.const(64, x) for x in IV64[4:]] + [T.const(64, x) for x in IV64[:4]] + \
        [off, T.const(64, IV64[5]), T.zext(blen, 64), T.zext(flags, 64)]
    o = core(v, m, 64, 8, (32, 24, 16, 63))
    r = [T.xor(o[i], o[i + 4]) for i in range(4)] + [T.xor(o[i + 4], cv[i]) for i in range(4)] + o[8:]
    _memo[key] = r
    return r
