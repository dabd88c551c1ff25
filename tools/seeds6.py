# planted bugs: control flow depending on secret bytes
L, PO = 'src/lib.rs', 'src/portable.rs'
SH = r'''#!/bin/bash
# exits 0 when the tree behaves, nonzero otherwise: the secret bytes are left undefined, and memcheck
# reports every branch or address that depends on them
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 2
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$R" }
arrayvec = { version = "0.5.0", default-features = false }
[profile.dev]
opt-level = 0
overflow-checks = false
debug-assertions = false
[workspace]
EOF
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target"
cargo build -q --offline 2>"$T/err" || { cat "$T/err"; exit 3; }
timeout 250 valgrind -q --error-exitcode=9 --undef-value-errors=yes "$T/target/debug/demo" 2>&1 | head -20
exit ${PIPESTATUS[0]}
'''
PRE = r'''
use std::alloc::{alloc, Layout};
fn secret(n: usize) -> &'static [u8] {
    unsafe { let p = alloc(Layout::array::<u8>(n + 1).unwrap()); std::slice::from_raw_parts(std::hint::black_box(p), n) }
}
fn keep<T>(v: T) { std::mem::forget(std::hint::black_box(v)); }
'''
SEEDS = [
 dict(id='eq-short-circuit', property='C13', edits=[(L, '''    fn eq(&self, other: &[u8; OUT_LEN]) -> bool {
        constant_time_eq::constant_time_eq(&self.0[..], other)''', '''    fn eq(&self, other: &[u8; OUT_LEN]) -> bool {
        self.0.iter().zip(other.iter()).all(|(a, b)| a == b)''')],
  demo=None, sh=SH, files={'main.rs': PRE + '''
fn main() {
    let mut a = [0u8; 32];
    a.copy_from_slice(secret(32));
    let h = baokeshed::Hash::from(a);
    let b = [7u8; 32];
    keep(h == b);
    keep(h == baokeshed::Hash::from(b));
}
'''}, needs='a comparison of a hash with an expected byte array, observed for its timing', breaks='the comparison stops at the first byte that differs'),
 dict(id='start-by-chaining-value', property='C13', edits=[(L, '''    fn maybe_chunk_start_flag(&self) -> Flags {
        if self.count == 0 {''', '''    fn maybe_chunk_start_flag(&self) -> Flags {
        if self.cv == self.key {''')],
  demo=None, sh=SH, files={'main.rs': PRE + '''
fn main() {
    let s = secret(10000);
    let mut h = baokeshed::Hasher::new();
    for n in [1usize, 64, 100, 3000, 2048, 4787] { h.update(&s[..n]); }
    keep(h.finalize());
}
'''}, needs='an incremental hasher past the first block of a chunk, observed for its timing or memory accesses', breaks='the first block of a chunk is recognised by comparing the chaining value with the key'),
 dict(id='repeated-input-shortcut', property='C13', edits=[(PO, '''    debug_assert!(out.len() >= inputs.len() * OUT_LEN, "out too short");
    for (&input, output) in inputs.iter().zip(out.chunks_exact_mut(OUT_LEN)) {
''', '''    debug_assert!(out.len() >= inputs.len() * OUT_LEN, "out too short");
    // parents share their position, so equal neighbours have equal hashes
    if offset_delta == 0 && inputs.len() == 2 && inputs[0].as_slice() == inputs[1].as_slice() {
        hash1(
            inputs[0],
            key,
            offset,
            flags,
            flags_start,
            flags_end,
            array_mut_ref!(out, 0, OUT_LEN),
        );
        out.copy_within(..OUT_LEN, OUT_LEN);
        return;
    }
    for (&input, output) in inputs.iter().zip(out.chunks_exact_mut(OUT_LEN)) {
''')],
  demo=None, sh=SH, files={'main.rs': PRE + '''
fn main() {
    let s = secret(128);
    let (mut a, mut b) = ([0u8; 64], [0u8; 64]);
    a.copy_from_slice(&s[..64]);
    b.copy_from_slice(&s[64..]);
    let mut out = [0u8; 64];
    baokeshed::portable::hash_many(&[&a, &b], &[1; 8], 0, 0, 4, 0, 0, &mut out);
    keep(out);
}
'''}, needs='two neighbouring parent nodes hashed by the portable code, observed for timing', breaks='the time of a batch shows whether two inputs are equal'),
]
