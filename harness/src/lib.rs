//! Instantiations of the generic kernels of /repo, so that their code exists
//! in the IR the checks analyse.  Nothing here is ever executed.
use baokeshed::*;

macro_rules! many {
    ($name:ident, $m:ident, $n:expr, $w:ty, $kw:expr) => {
        pub mod $name {
            pub unsafe fn hash_many(
                inputs: &[&[u8; $n]], key: &[$w; $kw], offset: u64, delta: u64,
                flags: u8, fs: u8, fe: u8, out: &mut [u8],
            ) {
                #[allow(unused_unsafe)]
                unsafe { baokeshed::$m::hash_many(inputs, key, offset, delta, flags, fs, fe, out) }
            }
        }
    };
}
many!(p32_chunk, portable, 2048, u32, 8);
many!(p32_parent, portable, 64, u32, 8);
many!(sse41_chunk, sse41, 2048, u32, 8);
many!(sse41_parent, sse41, 64, u32, 8);
many!(avx2_chunk, avx2, 2048, u32, 8);
many!(avx2_parent, avx2, 64, u32, 8);
many!(p64_chunk, portable64, 4096, u64, 4);
many!(p64_parent, portable64, 128, u64, 4);

pub fn hash(i: &[u8]) -> Hash { baokeshed::hash(i) }
pub fn reference() -> reference_impl::Hasher { reference_impl::Hasher::new() }

#[inline(never)]
pub fn clone_hasher(x: &Hasher) -> Hasher { x.clone() }
#[inline(never)]
pub fn clone_output(x: &Output) -> Output { x.clone() }
#[inline(never)]
pub fn write_hasher(x: &mut Hasher, buf: &[u8]) -> std::io::Result<usize> { std::io::Write::write(x, buf) }
#[inline(never)]
pub fn write_all_hasher(x: &mut Hasher, buf: &[u8]) -> std::io::Result<()> { std::io::Write::write_all(x, buf) }
#[inline(never)]
pub fn flush_hasher(x: &mut Hasher) -> std::io::Result<()> { std::io::Write::flush(x) }

// the hash value API
#[inline(never)]
pub fn hash_as_bytes(x: &Hash) -> &[u8; OUT_LEN] { x.as_bytes() }
#[inline(never)]
pub fn hash_from(x: [u8; OUT_LEN]) -> Hash { Hash::from(x) }
#[inline(never)]
pub fn hash_into(x: Hash) -> [u8; OUT_LEN] { x.into() }
#[inline(never)]
pub fn hash_clone(x: &Hash) -> Hash { x.clone() }
#[inline(never)]
pub fn hash_eq(x: &Hash, y: &Hash) -> bool { x == y }
#[inline(never)]
pub fn hash_ne(x: &Hash, y: &Hash) -> bool { x != y }
#[inline(never)]
pub fn hash_eq_bytes(x: &Hash, y: &[u8; OUT_LEN]) -> bool { x == y }
#[inline(never)]
pub fn hash_ne_bytes(x: &Hash, y: &[u8; OUT_LEN]) -> bool { x != y }
#[inline(never)]
pub fn hash_debug(x: &Hash, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(x, f) }
#[inline(never)]
pub fn hasher_debug(x: &Hasher, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(x, f) }
#[inline(never)]
pub fn output_debug(x: &Output, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(x, f) }

#[inline(never)]
pub fn copy_wide_dyn(r: &mut dyn std::io::Read, w: &mut dyn std::io::Write) -> std::io::Result<u64> { copy::copy_wide(r, w) }

// calibration: which slot of a trait object and which constants the compiler uses
#[inline(never)]
pub fn cal_read(r: &mut dyn std::io::Read, b: &mut [u8]) -> std::io::Result<usize> { r.read(b) }
#[inline(never)]
pub fn cal_write(w: &mut dyn std::io::Write, b: &[u8]) -> std::io::Result<usize> { w.write(b) }
#[inline(never)]
pub fn cal_write_all(w: &mut dyn std::io::Write, b: &[u8]) -> std::io::Result<()> { w.write_all(b) }
#[inline(never)]
pub fn cal_flush(w: &mut dyn std::io::Write) -> std::io::Result<()> { w.flush() }
#[inline(never)]
pub fn cal_write_str(w: &mut dyn std::fmt::Write, s: &str) -> std::fmt::Result { w.write_str(s) }
#[inline(never)]
pub fn cal_interrupted() -> std::io::ErrorKind { std::io::ErrorKind::Interrupted }
