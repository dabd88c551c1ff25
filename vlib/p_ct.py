"""C13: no branch and no address depends on secret bytes.

The analyses of the kernels, the tree code and the value functions are run with
every branch condition, select condition, switch value, memory address and copy
length recorded as a term; afterwards each of them has to be free of secrets.
A term is secret if it contains a byte of the message, key, chaining value,
block buffer, subtree stack or hash, the result of a compression, or a value
joined at a loop head from secret values."""
import re
from . import ai, run, terms as T
from .terms import N

# symbols standing for lengths, positions, flags, counters and the platform
PUBLIC = re.compile(r'^(stack_len|buf_len|popcount|n|len|off|offset|delta|outlen|out_len|blocks|blocks_in|num_inputs|count|buffered|block_len'
                    r'|K|P|L|co|nb|bl|x|b\d+|platform(_kind)?|flags(_start|_end)?|mode|undef|no-working-value|gen|bgen)(~\d+)?$')
PUBLIC_OBJ = re.compile(r'^&(inputs|deltas|platform)$')     # pointer tables, offset steps


def kids(t):
    n = N[t]
    k = n[0]
    if k == 'lin': return [a for a, _ in n[3]]
    if k in ('xor', 'and', 'or'): return list(n[3])
    if k == 'ext': return [n[2]]
    if k == 'cat': return list(n[2])
    if k == 'icmp': return [n[3], n[4]]
    if k == 'ite': return [n[2], n[3], n[4]]
    if k == 'fn': return [x for x in n[3] if isinstance(x, int)]
    return []


def secrets(E, t, memo):
    """atoms of t that are secret, through joins"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x in memo:
            if memo[x]: return memo[x]
            continue
        n = N[x]
        if n[0] == 'sym':
            if x in E.flow: todo += E.flow[x]
            elif not PUBLIC.search(n[2]): memo[x] = x; return x
        elif n[0] in ('m', 'm8'):
            if not PUBLIC_OBJ.search(T.show(n[2])): return x
        else: todo += kids(x)
    for x in seen: memo[x] = None
    return None


def judge(o, E):
    memo = {}
    for (kind, t), where in E.seen.items():
        a = secrets(E, t, memo)
        o.check(a is None, 'ct', f'{o.label}: a {kind} depends on {T.show(a) if a is not None else ""}', where)


def c13(tier):
    from . import p_all, p_val
    ai.WATCH = True
    run.load(['val'])
    L = p_all.c16(tier)
    return L + [p_val.t_eq('val', f, n) for f, n in (('hash_eq', False), ('hash_ne', True), ('hash_eq_bytes', False), ('hash_ne_bytes', True))]
