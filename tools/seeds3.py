# planted bugs for the foreign interface and later properties
SEEDS = [
 dict(id='c64-offset-narrow', property='C24', features=['c_portable'],
  edits=[('c64/baokeshed64_impl.h', 'void baokeshed64_hash_many_portable(const uint8_t *const *inputs,\n                                    size_t num_inputs, size_t blocks,\n                                    const uint64_t key_words[4],\n                                    uint64_t offset,', 'void baokeshed64_hash_many_portable(const uint8_t *const *inputs,\n                                    size_t num_inputs, size_t blocks,\n                                    const uint64_t key_words[4],\n                                    uint32_t offset,'),
         ('c64/baokeshed64_portable.c', '                                    size_t num_inputs, size_t blocks,\n                                    const uint64_t key_words[4],\n                                    uint64_t offset,', '                                    size_t num_inputs, size_t blocks,\n                                    const uint64_t key_words[4],\n                                    uint32_t offset,')],
  needs='an offset of 4 GiB or more given to the portable 64-bit batch function', breaks='the C parameter is narrower than the Rust declaration, the upper half of the offset is lost',
  demo='''
use baokeshed::*;
fn main() {
    let b = vec![7u8; 256];
    let ptrs = [b.as_ptr(), b[128..].as_ptr()];
    let d = [0u64, 4096];
    let key = [3u64; 4];
    let run = |off: u64| { let mut o = vec![0u8; 64]; unsafe { c64::ffi::baokeshed64_hash_many_portable(ptrs.as_ptr(), 2, 1, key.as_ptr(), off, d.as_ptr(), 1, 2, 4, o.as_mut_ptr()); } o };
    assert!(run(4096) != run(4096 + (1 << 32)));
    assert!(run(4096)[..32] == run(0)[32..]);
}
'''),
 dict(id='c-depth-54', property='C24',
  edits=[('c/baokeshed_impl.h', '#define MAX_DEPTH 53', '#define MAX_DEPTH 54')],
  needs='a hasher allocated in Rust and used by the C code', breaks='the C hasher is 32 bytes longer than the memory Rust gives it',
  sh='''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=${REPO:-/repo}
printf '%s\\n' '#include <stdio.h>' '#include "c/baokeshed.c"' 'int main(void) { printf("%zu", sizeof(hasher)); return 0; }' > "$T/size.c"
gcc -I "$R" -ffunction-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -o "$T/size" "$T/size.c" || exit 3
mkdir -p "$T/src"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\nbaokeshed = { path = "%s", features = ["c_portable"] }\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
echo 'fn main() { print!("{}", std::mem::size_of::<baokeshed::c::Hasher>()); }' > "$T/src/main.rs"
cd "$T" && export CARGO_TARGET_DIR="$T/target" && A=$(cargo run -q --offline 2>/dev/null) || exit 3
[ "$A" = "$("$T/size")" ]
'''),
 dict(id='key-memo-by-address', property='C25',
  edits=[('src/lib.rs', '    pub fn new_keyed(key: &[u8; KEY_LEN]) -> Self {\n        let key_words = words_from_key_bytes(key);', """    pub fn new_keyed(key: &[u8; KEY_LEN]) -> Self {
        // Parsing the key again for every message of a stream is wasteful.
        thread_local!(static PARSED: std::cell::Cell<(usize, u8, [Word; 8])> = std::cell::Cell::new((0, 0, [0; 8])));
        let id = key.as_ptr() as usize;
        let key_words = match PARSED.with(|p| p.get()) {
            (p, b, words) if p == id && b == key[0] => words,
            _ => words_from_key_bytes(key),
        };
        PARSED.with(|p| p.set((id, key[0], key_words)));""")],
  needs='two keyed hashers made on one thread from the same buffer holding two keys that begin with the same byte', breaks='the second hasher uses the first key',
  demo='''
use baokeshed::*;
fn main() {
    let mut key = [5u8; 32];
    let a = Hasher::new_keyed(&key).update(b"x").finalize();
    key[17] = 6;
    let b = Hasher::new_keyed(&key).update(b"x").finalize();
    assert!(a != b && b == keyed_hash(&key, b"x"));
}
'''),
]
