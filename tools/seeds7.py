# planted bugs: threads
L = 'src/lib.rs'
CMP = r'''
fn main() {
    let mut v = vec![0u8; 6 << 20];
    let mut x = 1u32;
    for b in v.iter_mut() { x = x.wrapping_mul(1664525).wrapping_add(1013904223); *b = (x >> 24) as u8; }
    for round in 0..@N@usize {
        let n = v.len() - (round * 7919) % 5_000_000;
        let m = &v[..n];
        let mut h = baokeshed::Hasher::new();
        h.update(m);
        let want = h.finalize();
        @BODY@
    }
}
'''
ONE = 'for _ in 0..6 { assert_eq!(baokeshed::hash(m), want, "length {}", n); }'
SEEDS = [
 dict(id='rayon-left-memo', property='C12', features=['rayon'], edits=[(L, '''    debug_assert!(content_len > CHUNK_LEN);
    // Subtract 1 to reserve at least one byte for the right side.
    let full_chunks = (content_len - 1) / CHUNK_LEN;
    largest_power_of_two_leq(full_chunks) * CHUNK_LEN
}''', '''    debug_assert!(content_len > CHUNK_LEN);
    // Sibling subtrees mostly have the same length, so remember the last answer.
    #[cfg(feature = "rayon")]
    {
        use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static LAST_LEN: AtomicUsize = AtomicUsize::new(0);
        static LAST_LEFT: AtomicUsize = AtomicUsize::new(0);
        let big = content_len > 64 * CHUNK_LEN;
        if big && LAST_LEN.load(Relaxed) == content_len {
            return LAST_LEFT.load(Relaxed);
        }
        let full_chunks = (content_len - 1) / CHUNK_LEN;
        let left = largest_power_of_two_leq(full_chunks) * CHUNK_LEN;
        if big {
            LAST_LEFT.store(left, Relaxed);
            LAST_LEN.store(content_len, Relaxed);
        }
        return left;
    }
    // Subtract 1 to reserve at least one byte for the right side.
    #[cfg(not(feature = "rayon"))]
    {
        let full_chunks = (content_len - 1) / CHUNK_LEN;
        largest_power_of_two_leq(full_chunks) * CHUNK_LEN
    }
}''')],
  demo=CMP.replace('@N@', '60').replace('@BODY@', r'''
        // a wrong split shows as a wrong hash or as a failed bound check
        for _ in 0..40 {
            let r = std::panic::catch_unwind(|| baokeshed::hash(m));
            if r.is_err() || r.unwrap() != want { eprintln!("length {}", n); std::process::exit(1); }
        }'''), needs='the rayon feature, and two threads in left_len for subtrees of different lengths between the two stores or loads',
  breaks='the length and the split remembered belong to different subtrees, so the tree depends on the schedule'),
 dict(id='rayon-wipe-overlap', property='C12', features=['rayon'], edits=[(L, '''    let (left_out, right_out) = children_array.split_at_mut(degree * OUT_LEN);
''', '''    let (left_out, right_out) = unsafe {
        let p = children_array.as_mut_ptr();
        let n = children_array.len();
        (
            core::slice::from_raw_parts_mut(p, n),
            core::slice::from_raw_parts_mut(p.add(degree * OUT_LEN), n - degree * OUT_LEN),
        )
    };
'''), (L, '''        || hash_recurse(left, key, offset, flags, platform, left_out),
''', '''        || {
            let n = hash_recurse(left, key, offset, flags, platform, left_out);
            // Leave nothing behind the children.
            if left.len() >= 128 * CHUNK_LEN {
                for b in left_out[n * OUT_LEN..].iter_mut() {
                    *b = 0;
                }
            }
            n
        },
''')], demo=CMP.replace('@N@', '40').replace('@BODY@', ONE), needs='the rayon feature, and the right half stolen and finished before the left half ends',
  breaks='the left half clears the part of the array into which the right half has already written its children'),
 dict(id='rayon-single-thread', property='C12', features=['rayon'], edits=[(L, '''    let (left, right) = input.split_at(left_len(input.len()));
    let right_off''', '''    let mut split = left_len(input.len());
    #[cfg(feature = "rayon")]
    {
        // An even split keeps two workers equally busy.
        if rayon::current_num_threads() == 2 && input.len() > 64 * MAX_SIMD_DEGREE_OR_2 * CHUNK_LEN {
            split = input.len() / 2 / (MAX_SIMD_DEGREE_OR_2 * CHUNK_LEN) * (MAX_SIMD_DEGREE_OR_2 * CHUNK_LEN);
        }
    }
    let (left, right) = input.split_at(split);
    let right_off''')], demo=r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let v = vec![0x5au8; 3 << 20];
    for n in [3usize << 20, 1 << 20, 2_000_001] {
        let mut h = baokeshed::Hasher::new();
        h.update(&v[..n]);
        assert_eq!(baokeshed::hash(&v[..n]), h.finalize(), "length {}", n);
    }
}
''', needs='the rayon feature, exactly two worker threads and an input over 1 MiB that is not a power of two of chunks',
  breaks='the shape of the tree depends on the number of threads'),
]
