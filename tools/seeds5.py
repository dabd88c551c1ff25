# planted bugs: CPU feature dispatch
P = 'src/platform.rs'
DEMO = r'''
// Presents a CPU that has only some features (the run-time check's own cache is overwritten) and
// puts a trap on the routines that such a CPU cannot run.
use std::io::Write;
extern "C" { fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    // a[1] = address of main in the file, a[2] = address of the cache, rest = addresses of forbidden routines
    let hex = |s: &String| usize::from_str_radix(s, 16).unwrap();
    let slide = (main as *const () as usize).wrapping_sub(hex(&a[1]));
    let cache = (hex(&a[2]).wrapping_add(slide)) as *mut usize;
    let _ = is_x86_feature_detected!("avx2");
    const ON: usize = 1 << (usize::BITS - 1);
    let put = |w: [usize; 3]| unsafe { for i in 0..3 { cache.add(i).write_volatile(w[i] | ON) } };
    let bit = |f: &dyn Fn() -> bool| {
        put([!0; 3]);
        assert!(f());
        for i in 0..3 { for b in 0..usize::BITS - 1 {
            let mut w = [!0usize; 3];
            w[i] &= !(1 << b);
            put(w);
            if !f() { return (i, b); }
        } }
        panic!("feature bit not found");
    };
    let have = [@HAVE@];
    let mut w = [0usize; 3];
    for (i, b) in have { w[i] |= 1 << b; }
    put(w);
    assert!(!is_x86_feature_detected!("@LACK@"));
    assert!(a.len() > 3);
    for s in &a[3..] {
        let p = hex(s).wrapping_add(slide);
        unsafe {
            assert_eq!(mprotect((p & !4095) as *mut u8, 8192, 7), 0);
            (p as *mut u8).write_volatile(0xcc);
        }
    }
    let input: Vec<u8> = (0..200_000usize).map(|i| (i % 251) as u8).collect();
    for n in [0usize, 1, 64, 65, 2048, 2049, 10_000, 40_000, 200_000] {
        let mut want = [0; 32];
        let mut r = reference_impl::Hasher::new();
        r.update(&input[..n]);
        r.finalize(&mut want);
        assert_eq!(baokeshed::hash(&input[..n]), want);
        let mut h = baokeshed::Hasher::new();
        h.update(&input[..n / 3]);
        h.update(&input[n / 3..n]);
        assert_eq!(h.finalize(), want);
    }
    std::io::stdout().flush().unwrap();
}
'''
SH = r'''#!/bin/bash
# exits 0 when the tree behaves, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 2
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
baokeshed = { path = "$R" }
reference_impl = { path = "$R/reference_impl" }
[profile.dev]
opt-level = 0
overflow-checks = false
debug-assertions = false
[workspace]
EOF
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target"
cargo build -q --offline 2>"$T/err" || { cat "$T/err"; exit 3; }
B="$T/target/debug/demo"
main=$(nm "$B" | grep -E '4demo4main(17h|$)' | head -1 | cut -d' ' -f1)
cache=$(nm "$B" | grep 'std_detect6detect5cache5CACHE' | head -1 | cut -d' ' -f1)
bad=$(nm "$B" | grep -E '@BAD@' | grep -i ' t ' | cut -d' ' -f1)
[ -n "$main" ] && [ -n "$cache" ] && [ -n "$bad" ] || { echo "symbols not found"; exit 4; }
timeout 200 "$B" $main $cache $bad
'''
def demo(have, lack): return DEMO.replace('@HAVE@', ', '.join('bit(&|| is_x86_feature_detected!("%s"))' % f for f in have)).replace('@LACK@', lack)
AVX2 = r'baokeshed\w*4avx2'
SSE = r'baokeshed\w*(5sse41|4avx2)'
SEEDS = [
 dict(id='cpu-detect-avx', property='C15', edits=[(P, 'is_x86_feature_detected!("avx2")', 'is_x86_feature_detected!("avx")')],
  demo=None, sh=SH.replace('@BAD@', AVX2), files={'main.rs': demo(['avx', 'sse4.2', 'sse4.1', 'ssse3', 'sse3'], 'avx2')},
  needs='a CPU with AVX but without AVX2', breaks='the AVX2 routines run on CPUs that only have AVX'),
 dict(id='cpu-detect-ssse3', property='C15', edits=[(P, 'is_x86_feature_detected!("sse4.1")', 'is_x86_feature_detected!("ssse3")')],
  demo=None, sh=SH.replace('@BAD@', SSE), files={'main.rs': demo(['ssse3', 'sse3'], 'sse4.1')},
  needs='a CPU with SSSE3 but without SSE4.1', breaks='routines compiled for SSE4.1 run on CPUs that only have SSSE3'),
 dict(id='cpu-wide-batch', property='C15', edits=[(P, '''            #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
            Platform::SSE41 => unsafe {
                sse41::hash_many(''', '''            #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
            Platform::SSE41 if inputs.len() < MAX_SIMD_DEGREE => unsafe {
                sse41::hash_many('''), (P, '            Platform::AVX2 => unsafe {\n                avx2::hash_many(', '            Platform::SSE41 | Platform::AVX2 => unsafe {\n                avx2::hash_many(')],
  demo=None, sh=SH.replace('@BAD@', AVX2), files={'main.rs': demo(['avx', 'sse4.2', 'sse4.1', 'ssse3', 'sse3'], 'avx2')},
  needs='a CPU with SSE4.1 but not AVX2 and a batch of at least eight inputs', breaks='wide batches take the AVX2 routine on an SSE4.1 platform'),
]
