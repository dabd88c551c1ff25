# planted bugs: writer, memo, keyed merges
L = 'src/lib.rs'
FILL = '''
fn fill(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    let mut x = 7u32;
    for b in v.iter_mut() { x = x.wrapping_mul(1664525).wrapping_add(1013904223); *b = (x >> 24) as u8; }
    v
}
'''
SEEDS = [
 dict(id='write-cap', property='C17', edits=[(L, '''        self.update(input);
        Ok(input.len())
''', '''        // Bound the time spent in one call.
        let step = 1 << 16;
        self.update(&input[..cmp::min(input.len(), step)]);
        if input.len() > 2 * step {
            return Ok(input.len());
        }
        Ok(cmp::min(input.len(), step))
''')], demo=FILL + '''
fn main() {
    use std::io::Write;
    for &n in &[10usize, 65536, 70000, 131072, 131073, 300000] {
        let v = fill(n);
        let mut h = baokeshed::Hasher::new();
        h.write_all(&v).unwrap();
        assert_eq!(h.finalize(), baokeshed::hash(&v), "{}", n);
    }
}
''', needs='a single write of more than 128 KiB', breaks='bytes after the first 64 KiB are reported as written and dropped'),
 dict(id='memo-by-slice', property='C25', edits=[(L, '''pub fn hash(input: &[u8]) -> Hash {
    hash_xof(input).to_hash()
}''', '''pub fn hash(input: &[u8]) -> Hash {
    // Hashing a large buffer again is common; remember the last one.
    thread_local! {
        static LAST: std::cell::Cell<(usize, usize, [u8; OUT_LEN])> =
            std::cell::Cell::new((0, 0, [0; OUT_LEN]));
    }
    if input.len() < 64 * CHUNK_LEN {
        return hash_xof(input).to_hash();
    }
    let place = (input.as_ptr() as usize, input.len());
    let last = LAST.with(|l| l.get());
    if (last.0, last.1) == place {
        return last.2.into();
    }
    let hash = hash_xof(input).to_hash();
    LAST.with(|l| l.set((place.0, place.1, *hash.as_bytes())));
    hash
}''')], demo=FILL + '''
fn main() {
    let mut v = fill(200_000);
    let a = baokeshed::hash(&v);
    v[77] ^= 1;
    let b = baokeshed::hash(&v);
    assert!(a != b, "another input at the same place");
    let mut h = baokeshed::Hasher::new();
    h.update(&v);
    assert_eq!(h.finalize(), b);
}
''', needs='two inputs of at least 64 KiB one after the other in the same buffer', breaks='the second input gets the hash of the first'),
 dict(id='keyed-deep-merge', property='C05', edits=[(L, '''            &self.chunk.key,
            IsRoot::NotRoot,
            self.chunk.flags,
            self.chunk.platform,
        )
        .to_hash();
''', '''            &self.chunk.key,
            IsRoot::NotRoot,
            // Only the leaves and the nodes next to them need the mode.
            if num_subtrees > 6 { self.chunk.flags & Flags::PARENT } else { self.chunk.flags },
            self.chunk.platform,
        )
        .to_hash();
''')], demo=FILL + '''
fn main() {
    let key = [9u8; 32];
    for &n in &[1000usize, 40_000, 65_536, 70_000, 200_000] {
        let v = fill(n);
        let mut h = baokeshed::Hasher::new_keyed(&key);
        h.update(&v);
        assert_eq!(h.finalize(), baokeshed::keyed_hash(&key, &v), "keyed {}", n);
        let mut h = baokeshed::Hasher::new_derive_key(&key);
        h.update(&v);
        assert!(h.finalize() == baokeshed::derive_key(&key, &v), "derived {}", n);
    }
}
''', needs='a keyed incremental hash of at least 64 chunks', breaks='some parents are hashed without the mode flag'),
]
