# behaviour-preserving edits: the recursion and its join
L = 'src/lib.rs'
C = ['C12', 'C09']
JB = '''    #[cfg(feature = "rayon")]
    return rayon::join(oper_a, oper_b);
    #[cfg(not(feature = "rayon"))]
    return (oper_a(), oper_b());
'''
CALL = '''    let (left_n, right_n) = join(
        || hash_recurse(left, key, offset, flags, platform, left_out),
        || hash_recurse(right, key, right_off, flags, platform, right_out),
    );
'''
REFAC = [
 dict(id='join-swapped', checks=C, edits=[(L, CALL, '''    let (right_n, left_n) = join(
        || hash_recurse(right, key, right_off, flags, platform, right_out),
        || hash_recurse(left, key, offset, flags, platform, left_out),
    );
''')]),
 dict(id='join-inline', checks=C, edits=[(L, CALL, '''    #[cfg(feature = "rayon")]
    let (left_n, right_n) = rayon::join(
        || hash_recurse(left, key, offset, flags, platform, left_out),
        || hash_recurse(right, key, right_off, flags, platform, right_out),
    );
    #[cfg(not(feature = "rayon"))]
    let (left_n, right_n) = {
        let l = hash_recurse(left, key, offset, flags, platform, left_out);
        let r = hash_recurse(right, key, right_off, flags, platform, right_out);
        (l, r)
    };
'''), (L, '''fn join<A, B''', '''#[allow(dead_code)]
fn join<A, B''')]),
 dict(id='join-helper', checks=C, edits=[(L, CALL, '''    let sub = |input: &[u8], offset: u64, out: &mut [u8]| {
        hash_recurse(input, key, offset, flags, platform, out)
    };
    let (left_n, right_n) = join(
        || sub(left, offset, left_out),
        || sub(right, right_off, right_out),
    );
''')]),
 dict(id='join-context', checks=C, edits=[(L, JB, '''    #[cfg(feature = "rayon")]
    return rayon::join_context(|_| oper_a(), |_| oper_b());
    #[cfg(not(feature = "rayon"))]
    return (oper_a(), oper_b());
''')]),
 dict(id='join-small-serial', checks=C, edits=[(L, CALL, '''    let serial = input.len() < 16 * CHUNK_LEN;
    let mut l = || hash_recurse(left, key, offset, flags, platform, left_out);
    let mut r = || hash_recurse(right, key, right_off, flags, platform, right_out);
    let (left_n, right_n) = if serial { (l(), r()) } else { join(l, r) };
''')]),
 dict(id='recurse-children-split', checks=C, edits=[(L, '''    let (left_out, right_out) = children_array.split_at_mut(degree * OUT_LEN);
''', '''    let (left_out, rest) = children_array.split_at_mut(degree * OUT_LEN);
    let room = rest.len() - rest.len() % OUT_LEN;
    let right_out = &mut rest[..room];
''')]),
]
