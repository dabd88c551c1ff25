# planted bugs for the kernel properties (C01-C03)
PRE = '''
use baokeshed::*;
fn blocks(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + i / 251 + 3) as u8).collect() }
'''
SEEDS = [
 dict(id='avx2-offset-carry', property='C02',
  edits=[('src/avx2.rs', '            offset_high(offset + 5 * offset_delta),\n            offset_high(offset + 6 * offset_delta),\n            offset_high(offset + 7 * offset_delta),',
          '            offset_high(offset + 5 * offset_delta),\n            offset_high(offset + 6 * offset_delta),\n            offset_high(offset + 6 * offset_delta),')],
  needs='an eight-lane batch whose last lane alone starts past a multiple of 4 GiB', breaks='high offset word of lane 7 lacks the carry, so batched chunk values differ from single ones',
  demo=PRE + '''
fn main() {
    if !is_x86_feature_detected!("avx2") { return; }
    let b = blocks(8 * 64);
    let ins: Vec<&[u8; 64]> = b.chunks_exact(64).map(|c| c.try_into().unwrap()).collect();
    let off = (1u64 << 32) - 7 * 2048;
    let (mut x, mut y) = (vec![0u8; 256], vec![0u8; 256]);
    unsafe { avx2::hash_many(&ins, &[9; 8], off, 2048, 1, 2, 4, &mut x); }
    portable::hash_many(&ins, &[9; 8], off, 2048, 1, 2, 4, &mut y);
    assert!(x == y);
}
'''),
 dict(id='portable-xof-offset16', property='C01',
  edits=[('src/portable.rs', '        offset_high(offset),', '        offset_high(offset) & 0x00ff_ffff,')],
  needs='an offset of 2^56 or more', breaks='top offset byte is dropped by the portable compression function',
  demo=PRE + '''
fn main() {
    let b = blocks(64);
    let blk: &[u8; 64] = b[..].try_into().unwrap();
    let mut w = [0u32; 16];
    for i in 0..16 { w[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
    for off in [0u64, 1 << 40, 3 << 57] {
        let got = portable::compress_xof(&[5; 8], blk, 64, off, 8);
        if is_x86_feature_detected!("sse4.1") { let s = unsafe { sse41::compress_xof(&[5; 8], blk, 64, off, 8) }; assert!(s[..] == got[..]); }
        let mut cv = [5u32; 8];
        portable::compress(&mut cv, blk, 64, off, 8);
        for i in 0..8 { assert!(got[4 * i..4 * i + 4] == cv[i].to_le_bytes()); }
    }
}
'''),
 dict(id='c-hash-many-portable-flags', property='C02', features=['c_avx2'],
  edits=[('c/baokeshed_avx2.c', '    offset += offset_deltas[DEGREE];', '    offset += (uint32_t)offset_deltas[DEGREE];')],
  needs='batch stride of 512 MiB or more between inputs and more than eight inputs', breaks='offset of inputs after the first eight-lane batch is truncated',
  demo=PRE + '''
fn main() {
    if !is_x86_feature_detected!("avx2") { return; }
    let b = blocks(10 * 64);
    let ptrs: Vec<*const u8> = (0..10).map(|i| b[64 * i..].as_ptr()).collect();
    let d: Vec<u64> = (0..17).map(|i| i * (1u64 << 30)).collect();
    let (mut x, mut y) = (vec![0u8; 320], vec![0u8; 320]);
    let key = [3u32; 8];
    unsafe {
        c::ffi::hash_many_avx2(ptrs.as_ptr(), 10, 1, key.as_ptr(), 77, d.as_ptr(), 1, 2, 4, x.as_mut_ptr());
        c::ffi::hash_many_portable(ptrs.as_ptr(), 10, 1, key.as_ptr(), 77, d.as_ptr(), 1, 2, 4, y.as_mut_ptr());
    }
    assert!(x == y);
}
'''),
 dict(id='portable64-xof-feedforward', property='C03',
  edits=[('src/portable64.rs', '    for i in 4..8 {\n        output[i * 8..][..8].copy_from_slice(&(state[i] ^ cv[i - 4]).to_le_bytes());',
          '    for i in 4..8 {\n        output[i * 8..][..8].copy_from_slice(&(state[i] ^ cv[i & 2]).to_le_bytes());')],
  needs='extended output of the 64-bit family', breaks='second half of the fed-forward words of compress_xof uses the wrong chaining words',
  demo=PRE + '''
fn main() {
    let b = blocks(128);
    let blk: &[u8; 128] = b[..].try_into().unwrap();
    let a = portable64::compress_xof(&[1, 2, 3, 4], blk, 100, 5, 7);
    let mut h = 0xcbf29ce484222325u64;
    for x in a.iter() { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    assert_eq!(h, 0x49251adfef45be72);
}
'''),
]
