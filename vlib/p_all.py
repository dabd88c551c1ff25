"""Which tasks decide the tree-level properties."""
import re, os
from . import run, kern, p_tree, p_api, p_kern
from .run import find

CFGS = ('portable', 'sse41', 'avx2', 'avx512', 'neon')


def cmods(tier): return ['ctree-' + c for c in CFGS] + (['ctreep-' + c for c in CFGS if c != 'neon'] if tier == 'thorough' else [])
def F(mk, p): return find(run.module(mk), p)


def r_update():
    u = F('tree', r'baokeshed\w*6Hasher6update$')
    return [p_tree.t_update('tree', u, c, True) for c in p_tree.CASES]


def r_finalize():
    f = F('tree', r'baokeshed\w*6Hasher12finalize_xof$')
    return [p_tree.t_finalize('tree', f, c, True) for c in p_tree.CASES]


def shared(mk):
    """the recursive function and the one that starts it"""
    run.module(mk)
    names = [x for k, x in p_tree._anch.items() if os.path.basename(k) == mk + '.ll']
    if len(names) != 1: raise run.Fatal('no anchors for ' + mk)
    return names[0]


def r_oneshot(mk='tree', cls=p_tree.OneShot):
    rec, inte = shared(mk)
    L = [p_tree.t_recurse(mk, rec, 'leaf', D, cls=cls) for D in (8, 4, 1)]
    L += [p_tree.t_internal(mk, inte, rec, c, cls) for c in ('long', 'short')]
    for D in (8, 4, 1):
        L += [p_tree.t_recurse(mk, rec, 'split', D, k, cls) for k in range(52) if 2 ** (k + 1) > D]
    return L


ONE = (('4hash', None, 0), ('10keyed_hash', 'keyed', 0), ('10derive_key', 'derive', 0),
       ('8hash_xof', None, 1), ('14keyed_hash_xof', 'keyed', 1), ('14derive_key_xof', 'derive', 1))


def r_entry():
    i = shared('tree')[1]
    return [p_api.t_oneshot('tree', F('tree', r'9baokeshed' + p + '$'), mode, x, i) for p, mode, x in ONE]


def r_new():
    return [p_api.t_new('tree', F('tree', r'baokeshed\w*6Hasher' + p + '$'), mode) for p, mode in (('3new', None), ('9new_keyed', 'keyed'), ('14new_derive_key', 'derive'))]


def r_out():
    return [p_api.t_finalize_hash('tree', F('tree', r'6Hasher8finalize$'), F('tree', r'6Hasher12finalize_xof$')),
            p_api.t_output('tree', F('tree', r'6Output4read$'), 'read'), p_api.t_output('tree', F('tree', r'6Output7to_hash$'), 'hash')]


def c_update(mk): return [p_tree.t_update(mk, F(mk, '^hasher_update$'), c, False) for c in p_tree.CASES]
def c_finalize(mk): return [p_tree.t_finalize(mk, F(mk, '^hasher_finalize$'), c, False) for c in p_tree.CASES]
def c_new(mk): return [p_api.t_new(mk, F(mk, '^hasher_init$'), None, False)]
def c_pop(mk): return [p_api.t_popcnt(mk, 'popcnt')] if 'popcnt' in run.module(mk).fns else []


def tasks(rust=(), c=(), slow=('midchunk', 'midway')):
    def go(tier):
        cm = cmods(tier) if c else []
        run.load((['tree'] if rust else []) + cm)
        L = []
        for f in rust: L += f()
        for mk in cm:
            for f in c: L += f(mk)
        # longest first
        return sorted(L, key=lambda t: 0 if 'update from' in t[0] and any(x in t[0] for x in slow) else 1 if 'update' in t[0] else 2)
    return go


run.MODS['tree'] = p_tree.build_tree
for _c in CFGS: run.MODS['ctree-' + _c] = p_tree.build_ctree(_c, False)
for _c in CFGS: run.MODS['ctreep-' + _c] = p_tree.build_ctree(_c, True)

c04 = tasks((r_update, r_finalize, r_oneshot, r_new, r_out), (c_update, c_finalize, c_new, c_pop))
c05 = tasks((r_update, r_finalize, r_oneshot, r_entry, r_new, r_out), (c_update, c_finalize, c_new))
c06 = tasks((r_update, r_finalize, r_oneshot, r_entry, r_out), (c_update, c_finalize, c_pop))
c07 = tasks((r_update, r_finalize, r_oneshot, r_new), (c_update, c_finalize, c_new, c_pop))
c08 = tasks((r_update, r_finalize, r_new), (c_update, c_finalize, c_new, c_pop))
c09 = tasks((r_update, r_finalize, r_oneshot, r_entry, r_new), (c_update, c_finalize, c_new, c_pop))
c11 = tasks((r_entry, r_out, r_finalize))


def c16(tier):
    L = tasks((r_update, r_finalize, r_oneshot, r_entry, r_new, r_out), (c_update, c_finalize, c_new, c_pop))(tier)
    return L + p_kern.c01(tier) + p_kern.c02(tier) + p_kern.c03(tier)

def c10(tier):
    from . import p_val
    L = tasks((r_finalize, r_out, r_entry), (c_finalize, c_pop))(tier)
    L += p_val.clones()
    return L
