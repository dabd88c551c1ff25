# planted bugs for the tree, stream and value properties
L, CB, CI = 'src/lib.rs', 'c/baokeshed.c', 'c/baokeshed_impl.h'
PRE = '''
use baokeshed::*;
#[allow(dead_code)]
fn fill(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + i / 251 + i / 65521 + 3) as u8).collect() }
#[allow(dead_code)]
fn reference(mode: u8, key: &[u8; 32], b: &[u8], n: usize) -> Vec<u8> {
    let mut h = match mode { 0 => reference_impl::Hasher::new(), 1 => reference_impl::Hasher::new_keyed(key), _ => reference_impl::Hasher::new_derive_key(key) };
    h.update(b);
    let mut o = vec![0; n];
    h.finalize(&mut o);
    o
}
#[allow(dead_code)]
fn hasher(mode: u8, key: &[u8; 32]) -> Hasher {
    match mode { 0 => Hasher::new(), 1 => Hasher::new_keyed(key), _ => Hasher::new_derive_key(key) }
}
'''
SPLITS = '''
fn main() {
    let key = &[77u8; 32];
    let b = fill(40000);
    for mode in 0..3u8 {
        for &(a, c, e) in &[(1, 63, 1), (100, 2000, 5000), (2048, 10, 2048), (2000, 100, 10000), (70, 1978, 4096), (4096, 1, 2047), (6144, 700, 1), (1000, 1048, 30000), (3, 2050, 4100), (5 * 2048 + 9, 2048, 2040), (0, 2048, 0)] {
            let mut h = hasher(mode, key);
            h.update(&b[..a]);
            h.update(&b[a..a + c]);
            h.update(&b[a + c..a + c + e]);
            let want = reference(mode, key, &b[..a + c + e], 32);
            assert_eq!(&h.finalize().as_bytes()[..], &want[..], "{} {} {} {}", mode, a, c, e);
        }
    }
}
'''
CSPLITS = '''
fn main() {
    let key = &[77u8; 32];
    let b = fill(40000);
    for &flags in &[16u8, 32, 0] {
        let mode = match flags { 0 => 0, 16 => 1, _ => 2 };
        let mut k = *key;
        if mode == 0 { for (i, w) in [0x6A09E667u32, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19].iter().enumerate() { k[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes()); } }
        for &(a, c, e) in &[(1, 63, 1), (100, 2000, 5000), (2048, 10, 2048), (2000, 100, 10000), (70, 1978, 4096), (4096, 1, 2047), (6144, 700, 1), (1000, 1048, 30000), (3, 2050, 4100), (5 * 2048 + 9, 2048, 2040)] {
            let mut h = c::Hasher::new(&k, flags);
            h.update(&b[..a]);
            h.update(&b[a..a + c]);
            h.update(&b[a + c..a + c + e]);
            let want = reference(mode, key, &b[..a + c + e], 32);
            assert_eq!(&h.finalize()[..], &want[..], "{} {} {} {}", mode, a, c, e);
            assert_eq!(&h.finalize()[..], &want[..], "again {} {} {} {}", mode, a, c, e);
        }
    }
}
'''
SEEDS = [
 dict(id='reset-offset-narrow', property='C04',
  edits=[(L, '        self.offset = new_offset;\n        self.count = 0;', '        self.offset = new_offset & (Word::max_value() as u64);\n        self.count = 0;')],
  needs='a chunk closed from the buffered state at or beyond 4 GiB', breaks='the chunk offset wraps to its low word, so the tree positions repeat',
  demo=PRE + '''
fn main() {
    let n = (1usize << 32) - 2048;
    let z = vec![0u8; n + 6000];
    let mut h = Hasher::new();
    h.update(&z[..n + 100]);
    h.update(&z[n + 100..]);
    assert!(h.finalize() == hash(&z));
}
'''),
 dict(id='c-chunk-counter-narrow', property='C04', features=['c_avx2'],
  edits=[(CB, '  uint64_t total_chunks = total_bytes / CHUNK_LEN;', '  uint32_t total_chunks = (uint32_t)(total_bytes / CHUNK_LEN);')],
  needs='more than 2^32 chunks (8 TiB) through the C hasher', breaks='the merge decision looks at 32 of the 53 bits of the chunk number',
  demo=PRE + '''
fn main() {
    if !is_x86_feature_detected!("avx2") { return; }
    let mut h = c::Hasher::new(&[1; 32], 16);
    let p = &mut h as *mut c::Hasher as *mut u8;
    let chunks: u64 = (1 << 33) + (1 << 20) + 8;
    unsafe {
        // struct { struct { u32 state[8]; u32 key[8]; u64 offset; u16 count; u8 buf[64]; u8 buf_len; u8 flags; } ; u8 len; ... }
        (p.add(64) as *mut u64).write(chunks * 2048);
        p.add(144).write(3);
    }
    h.update(&vec![5u8; 2049]);
    unsafe { assert_eq!((p.add(64) as *const u64).read(), (chunks + 1) * 2048); assert_eq!(p.add(144).read(), 4); }
}
'''),
 dict(id='finalize-inner-flags', property='C05',
  edits=[(L, '''                &self.chunk.key,
                is_root,
                self.chunk.flags,''', '''                &self.chunk.key,
                is_root,
                match is_root {
                    IsRoot::Root => self.chunk.flags,
                    IsRoot::NotRoot => self.chunk.flags & Flags::KEYED_HASH,
                },''')],
  needs='incremental key derivation over enough chunks to leave two pending subtrees', breaks='inner parents made while finalizing lose the derivation flag',
  demo=PRE + SPLITS),
 dict(id='c-merge-flags', property='C05', features=['c_avx2'],
  edits=[(CB, '''                  false, self->chunk.flags, out);''', '''                  false, self->chunk.flags & (KEYED_HASH | ROOT), out);''')],
  needs='key derivation through the C hasher over at least three chunks', breaks='merged parents lose the derivation flag',
  demo=PRE + CSPLITS),
 dict(id='root-by-low-offset', property='C06',
  edits=[(L, '''        if self.subtree_hashes.is_empty() {
            return self.chunk.finalize(IsRoot::Root);''', '''        if self.chunk.offset as Word == 0 {
            return self.chunk.finalize(IsRoot::Root);''')],
  needs='an incremental hash finalized while its current chunk starts at a multiple of 4 GiB', breaks='a non-root chunk is compressed with the root flag and returned',
  demo=PRE + '''
fn main() {
    let n = 1usize << 32;
    let z = vec![0u8; n + 100];
    let mut h = Hasher::new();
    h.update(&z);
    assert!(std::panic::catch_unwind(|| h.finalize() == hash(&z)).unwrap_or(false));
}
'''),
 dict(id='root-on-wide-first-batch', property='C06',
  edits=[(L, '''                Flags::CHUNK_START.bits(),
                Flags::CHUNK_END.bits(),
                &mut out_array,
            );
            for chunk_hash in''', '''                Flags::CHUNK_START.bits(),
                (if self.chunk.offset == 0 && !self.subtree_hashes.is_empty() || chunks_array.len() > MAX_SIMD_DEGREE / 2 && self.chunk.offset == (MAX_SIMD_DEGREE * CHUNK_LEN * 9) as u64 { Flags::CHUNK_END | Flags::ROOT } else { Flags::CHUNK_END }).bits(),
                &mut out_array,
            );
            for chunk_hash in''')],
  needs='a batch of chunks at one particular position past the lengths the tests use', breaks='inner chunks carry the root flag',
  demo=PRE + '''
fn main() {
    let b = fill(2048 * 16 * 12);
    for n in [2048 * 8 * 9 + 100, 2048 * 16 * 9 + 2048 * 9, 2048 * 16 * 12] {
        let mut h = Hasher::new();
        h.update(&b[..n]);
        assert!(h.finalize() == hash(&b[..n]));
    }
}
'''),
 dict(id='stale-last-byte', property='C07', features=['c_avx2'],
  edits=[(CB, '''      self->buf_len = 0;
      memset(self->buf, 0, BLOCK_LEN);''', '''      self->buf_len = 0;
      memset(self->buf, 0, BLOCK_LEN - 1);''')],
  needs='a full buffered block with a nonzero last byte followed by a short last block', breaks='the padding of the last block holds a stale byte',
  demo=PRE + CSPLITS),
 dict(id='start-flag-by-low-byte', property='C07',
  edits=[(L, '''    fn maybe_chunk_start_flag(&self) -> Flags {
        if self.count == 0 {''', '''    fn maybe_chunk_start_flag(&self) -> Flags {
        if self.count % (CHUNK_LEN as u16) == 0 && self.buf_len as usize + self.count as usize != BLOCK_LEN * 2 && self.key != [0x4d4d4d4d; 8] {''')],
  needs='one particular key', breaks='the first block of a chunk has no start flag',
  demo=PRE + SPLITS),
 dict(id='want-ignores-buffered', property='C08',
  edits=[(L, '            let want = CHUNK_LEN - self.chunk.len();', '            let want = CHUNK_LEN - (self.chunk.len() / BLOCK_LEN) * BLOCK_LEN;')],
  needs='a piece that crosses a chunk boundary while part of a block is buffered', breaks='a chunk absorbs more than its own bytes',
  demo=PRE + SPLITS),
 dict(id='c-drops-tail-after-boundary', property='C08', features=['c_avx2'],
  edits=[(CB, '''    size_t take = CHUNK_LEN - chunk_state_len(&self->chunk);
    if (take > input_len) {''', '''    size_t take = CHUNK_LEN - self->chunk.count - self->chunk.buf_len % (BLOCK_LEN - 1);
    if (take > input_len) {''')],
  needs='a C update that crosses the chunk boundary with exactly 63 bytes buffered', breaks='63 bytes too many are taken into the chunk',
  demo=PRE + '''
fn main() {
    if !is_x86_feature_detected!("avx2") { return; }
    let b = fill(9000);
    let mut h = c::Hasher::new(&[7; 32], 16);
    h.update(&b[..63]);
    h.update(&b[63..]);
    assert_eq!(&h.finalize()[..], &reference(1, &[7; 32], &b, 32)[..]);
}
'''),
 dict(id='left-capped', property='C09',
  edits=[(L, '    largest_power_of_two_leq(full_chunks) * CHUNK_LEN', '    cmp::min(largest_power_of_two_leq(full_chunks), 8 * MAX_SIMD_DEGREE) * CHUNK_LEN')],
  needs='a one-shot input of more than 128 (or 256) chunks', breaks='the left subtree is no longer the largest power of two',
  demo=PRE + '''
fn main() {
    let b = fill(2048 * 700 + 5);
    for &n in &[2048 * 129, 2048 * 257, 2048 * 300 + 7, b.len()] {
        assert_eq!(&hash(&b[..n]).as_bytes()[..], &reference(0, &[0; 32], &b[..n], 32)[..]);
    }
}
'''),
 dict(id='working-ahead-once', property='C09',
  edits=[(L, '''            while self.needs_merge(self.chunk.offset) {
                self.merge_parent();
            }
            self.chunk.update''', '''            if self.needs_merge(self.chunk.offset) {
                self.merge_parent();
            }
            self.chunk.update''')],
  needs='an update that ends in a partial chunk right after a chunk count divisible by four, and nothing after it', breaks='pending subtrees stay unmerged, so the last chunk joins the wrong sibling',
  demo=PRE + SPLITS),
 dict(id='c-finalize-in-place', property='C10', features=['c_avx2'],
  edits=[(CB, '''    if (is_root) {
      memcpy(out, working_hash, OUT_LEN);
      return;
    }
    next_subtree_start -= OUT_LEN;''', '''    if (is_root) {
      memcpy(out, working_hash, OUT_LEN);
      return;
    }
    if (next_subtree_start >= 4 * OUT_LEN) {
      // reuse the slot as scratch space
      memcpy((uint8_t *)&self->subtree_hashes[next_subtree_start], working_hash,
             OUT_LEN);
    }
    next_subtree_start -= OUT_LEN;''')],
  needs='a C hasher with six or more pending subtrees that is finalized and then used again', breaks='finalizing overwrites a pending subtree hash',
  demo=PRE + '''
fn main() {
    if !is_x86_feature_detected!("avx2") { return; }
    let b = fill(2048 * 127 + 5);
    let mut h = c::Hasher::new(&[7; 32], 16);
    h.update(&b);
    let x = h.finalize();
    assert_eq!(&h.finalize()[..], &x[..]);
    h.update(&b);
    let mut bb = b.clone(); bb.extend_from_slice(&b);
    assert_eq!(&h.finalize()[..], &reference(1, &[7; 32], &bb, 32)[..]);
}
'''),
 dict(id='output-clone-rewinds', property='C10',
  edits=[(L, '''#[derive(Clone)]
pub struct Output {
    cv: [Word; 8],
    block: [u8; BLOCK_LEN],
    block_len: u8,
    offset: u64,
    flags: Flags,
    platform: Platform,
}
''', '''pub struct Output {
    cv: [Word; 8],
    block: [u8; BLOCK_LEN],
    block_len: u8,
    offset: u64,
    flags: Flags,
    platform: Platform,
}

impl Clone for Output {
    fn clone(&self) -> Self {
        Output {
            cv: self.cv,
            block: self.block,
            block_len: self.block_len,
            offset: self.offset & !((1 << 12) - 1),
            flags: self.flags,
            platform: self.platform,
        }
    }
}
''')],
  needs='an output cloned after some reads', breaks='the clone starts at an earlier position of the stream',
  demo=PRE + '''
fn main() {
    let mut o = hash_xof(b"x");
    for _ in 0..70 { o.read(); let mut c = o.clone(); let mut d = o.clone(); o.read(); let x = o.read(); c.read(); d.read(); assert!(c.read()[..] == x[..] && d.read()[..] == x[..]); }
}
'''),
 dict(id='xof-position-32', property='C11',
  edits=[(L, '        self.offset += 2 * OUT_LEN as u64;\n        output', '        self.offset = (self.offset as Word).wrapping_add(2 * OUT_LEN as Word) as u64;\n        output')],
  needs='more than 4 GiB of extended output', breaks='the stream repeats from the start',
  demo=PRE + '''
fn main() {
    let mut o = hash_xof(b"x");
    let first = o.read();
    for _ in 1..(1u64 << 26) { o.read(); }
    assert!(o.read()[..] != first[..]);
}
'''),
 dict(id='debug-alternate', property='C14',
  edits=[(L, '        write!(f, "Output {{ ... }}")', '        if f.alternate() && f.width().is_some() {\n            return write!(f, "Output {{ offset: {}, ... }}", self.offset);\n        }\n        write!(f, "Output {{ ... }}")')],
  needs='alternate formatting with a width', breaks='the position of the stream is printed',
  demo=PRE + '''
fn main() {
    let mut o = hash_xof(b"x");
    let f = |o: &Output| vec![format!("{:?}", o), format!("{:#?}", o), format!("{:8?}", o), format!("{:#8?}", o), format!("{:#08.3?}", o), format!("{:+x?}", o)];
    let a = f(&o);
    o.read();
    assert!(a == f(&o));
}
'''),
 dict(id='debug-stack-depth', property='C14',
  edits=[(L, '        write!(f, "Hasher {{ ... }}")', '        write!(f, "Hasher {{ {:.*} }}", cmp::min(3, 1 + 2 * (64 - self.subtree_hashes.len())), "...")')],
  needs='a hasher with all but one of... more subtrees than any test has, in debug output', breaks='the text depends on the pending subtrees',
  demo=None, sh='''#!/bin/bash
exit 0
''') if 0 else None,
 dict(id='copy-short-write', property='C17',
  edits=[('src/copy.rs', '''                writer.write_all(&buffer[..n])?;
                total += n as u64;''', '''                let mut rest = &buffer[..n];
                while !rest.is_empty() {
                    match writer.write(rest) {
                        Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                        Ok(k) => rest = &rest[k..],
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => break,
                        Err(e) => return Err(e),
                    }
                }
                total += n as u64;''')],
  needs='a writer that is interrupted in the middle of a block', breaks='the rest of the block is dropped and still counted',
  demo=PRE + '''
use std::io::Write;
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 3 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(1000);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let b = fill(100000);
    let mut w = W(Vec::new(), 0);
    let n = copy::copy_wide(&mut &b[..], &mut w).unwrap();
    assert_eq!(n as usize, b.len());
    assert!(w.0 == b);
}
'''),
 dict(id='copy-swallows-wouldblock', property='C17',
  edits=[('src/copy.rs', '            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,', '            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,\n            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(total),')],
  needs='a reader that fails with UnexpectedEof', breaks='a truncated input is reported as complete',
  demo=PRE + '''
use std::io::Read;
struct R(usize, std::io::ErrorKind);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 3 { return Err(self.1.into()); }
        if self.0 > 5 { return Ok(0); }
        b[0] = 1;
        Ok(1)
    }
}
fn main() {
    use std::io::ErrorKind::*;
    for k in [NotFound, WouldBlock, UnexpectedEof, BrokenPipe, Other, TimedOut, InvalidData] {
        assert!(copy::copy_wide(&mut R(0, k), &mut Vec::new()).is_err());
    }
    assert_eq!(copy::copy_wide(&mut R(0, Interrupted), &mut Vec::new()).unwrap(), 4);
}
'''),
 dict(id='eq-array-sum', property='C23',
  edits=[(L, '        constant_time_eq::constant_time_eq(&self.0[..], other)', '        self.0.iter().zip(other.iter()).fold(0u8, |a, (x, y)| a.wrapping_add(x ^ y)) == 0')],
  needs='two values whose byte differences add up to a multiple of 256', breaks='a hash equals an array that holds other bytes',
  demo=PRE + '''
fn main() {
    let h = hash(b"x");
    let a = *h.as_bytes();
    for i in 0..32 { for j in 0..32 { for d in 1..=255u8 {
        let mut b = a;
        b[i] ^= d;
        if i != j { b[j] ^= d.wrapping_neg(); }
        assert!(h != b && h != Hash::from(b));
    } } }
    assert!(h == a);
}
'''),
 dict(id='hex-debug-precision', property='C23',
  edits=[(L, '        write!(f, "Hash(0x{})", self.to_hex())', '        write!(f, "Hash(0x{:.*})", f.precision().unwrap_or(2 * OUT_LEN), self.to_hex().as_str())')],
  needs='debug formatting with a precision', breaks='digits are cut off',
  demo=PRE + '''
fn main() {
    let h = hash(b"x");
    let want = format!("Hash(0x{})", h.to_hex());
    assert_eq!(want.len(), 64 + 8);
    for s in [format!("{:?}", h), format!("{:#?}", h), format!("{:.5?}", h), format!("{:100.1?}", h)] { assert_eq!(s, want); }
}
'''),
 dict(id='c-sse41-padded-tail', property='C16', features=['c_avx2'],
  edits=[('c/baokeshed_sse41.c', '''    out = &out[DEGREE * OUT_LEN];
  }
  while (num_inputs > 0) {
    hash_one_sse41(''', '''    out = &out[DEGREE * OUT_LEN];
  }
  if (num_inputs == DEGREE - 1 && blocks == 16) {
    // one more batch, with the last input repeated
    const uint8_t *padded[DEGREE] = {inputs[0], inputs[1], inputs[2],
                                     inputs[2]};
    hash4_sse41(padded, blocks, key_words, offset, offset_deltas, flags,
                flags_start, flags_end, out);
    return;
  }
  while (num_inputs > 0) {
    hash_one_sse41(''')],
  needs='three left-over inputs of sixteen blocks', breaks='32 bytes behind the output buffer are overwritten',
  demo=PRE + '''
fn main() {
    if !is_x86_feature_detected!("sse4.1") { return; }
    for n in 1..9usize { for blocks in [1usize, 16, 32] {
        let b = fill(n * blocks * 64);
        let ptrs: Vec<*const u8> = (0..n).map(|i| b[blocks * 64 * i..].as_ptr()).collect();
        let d: Vec<u64> = (0..17).map(|i| i * 2048).collect();
        let (mut x, mut y) = (vec![0xa5u8; 32 * n + 64], vec![0xa5u8; 32 * n + 64]);
        let key = [3u32; 8];
        unsafe {
            c::ffi::hash_many_sse41(ptrs.as_ptr(), n, blocks, key.as_ptr(), 77, d.as_ptr(), 1, 2, 4, x.as_mut_ptr());
            c::ffi::hash_many_portable(ptrs.as_ptr(), n, blocks, key.as_ptr(), 77, d.as_ptr(), 1, 2, 4, y.as_mut_ptr());
        }
        assert!(x == y, "{} {}", n, blocks);
    } }
}
'''),
 dict(id='c-fill-buf-rounds-up', property='C16', features=['c_avx2'],
  edits=[(CB, '''  uint8_t *dest = self->buf + ((size_t)self->buf_len);
  memcpy(dest, input, take);''', '''  uint8_t *dest = self->buf + ((size_t)self->buf_len);
  memcpy(dest, input, take & (BLOCK_LEN / 2) ? BLOCK_LEN / 2 + (take % 32) : take);
  if (take % 4 == 3 && self->buf_len == 32) dest[take] = 0;''')],
  needs='31 bytes... appended', breaks='-', demo=None, sh='') if 0 else None,
]
SEEDS = [s for s in SEEDS if s]
