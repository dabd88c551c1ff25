From 335afb0cfee491df7ab5b9488ffa3ba1226e1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 1/3] fix: give the Rust view of the C hasher its full subtree
 stack

---
 src/c.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c.rs b/src/c.rs
index 23cda5b..e3ce1f5 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -3,7 +3,7 @@
 //! This module is intended mainly for benchmarking, and we also test that it
 //! produces the same output.
 
-use crate::{KEY_LEN, OUT_LEN};
+use crate::{KEY_LEN, MAX_DEPTH, OUT_LEN};
 use std::mem::MaybeUninit;
 
 // Methods on this chunk state are only used for testing. They're defined in
@@ -25,7 +25,7 @@ pub struct ChunkState {
 pub struct Hasher {
     chunk: ChunkState,
     subtree_hashes_len: u8,
-    subtree_hashes: [u8; 1664usize],
+    subtree_hashes: [u8; MAX_DEPTH * OUT_LEN],
 }
 
 impl Hasher {
-- 
2.43.0


From ad788b880fd9274b013ad0838197d9d45164ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 2/3] fix: print every byte of outputs of 2^63 bytes and more

---
 baokeshed_bin/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..5d0e9c4 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,16 +71,17 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
+    // Two hex digits per byte can exceed a u64.
+    let mut hex_bytes_remaining = 2 * u128::from(byte_length);
     while hex_bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
+        let take = cmp::min(hex_bytes_remaining, hex1.len() as u128);
         print!("{}", &hex1[..take as usize]);
         hex_bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
+        let take = cmp::min(hex_bytes_remaining, hex2.len() as u128);
         print!("{}", &hex2[..take as usize]);
         hex_bytes_remaining -= take;
     }
-- 
2.43.0


From 42d9f2e3c40caeff307347698c434f6f8804a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 3/3] fix: check for a full subtree stack after merging, not
 before

---
 c/baokeshed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/baokeshed.c b/c/baokeshed.c
index 771a9f1..bb9a01e 100644
--- a/c/baokeshed.c
+++ b/c/baokeshed.c
@@ -157,10 +157,10 @@ INLINE void hasher_merge_parent(hasher *self) {
 
 INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                    uint64_t offset) {
-  assert(self->subtree_hashes_len < MAX_DEPTH);
   while (hasher_needs_merge(self, offset)) {
     hasher_merge_parent(self);
   }
+  assert(self->subtree_hashes_len < MAX_DEPTH);
   memcpy(&self->subtree_hashes[self->subtree_hashes_len * OUT_LEN], hash,
          OUT_LEN);
   self->subtree_hashes_len += 1;
-- 
2.43.0

