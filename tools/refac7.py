# behaviour-preserving edits: private names, parameter order, fields, helpers across the tree code
L, C, M = 'src/lib.rs', 'c/baokeshed.c', 'baokeshed_bin/src/main.rs'
REFAC = [
 dict(id='rename-private-fns', checks=['C05', 'C09', 'C12'], edits=[], words=[(L, dict(hash_recurse='hash_subtree', condense_root='root_of', hash_parents_parallel='parents_wide', hash_one_parent='parent_output', push_chunk_hash='add_chunk', merge_parent='merge_top'))]),
 dict(id='rename-fields', checks=['C04', 'C08', 'C10', 'C14'], edits=[], words=[(L, dict(subtree_hashes='stack', count='compressed', block_len='last_len', buf_len='buffered'))]),
 dict(id='field-order', checks=['C08', 'C11'], edits=[(L, '''    cv: [Word; 8],
    key: [Word; 8],
    offset: u64,
    count: u16,
    buf: [u8; BLOCK_LEN],
    buf_len: u8,
    flags: Flags,
    platform: Platform,
}
''', '''    platform: Platform,
    flags: Flags,
    key: [Word; 8],
    cv: [Word; 8],
    buf_len: u8,
    buf: [u8; BLOCK_LEN],
    count: u16,
    offset: u64,
}
''')]),
 dict(id='param-order', checks=['C09', 'C12'], edits=[(L, '''fn hash_recurse(
    input: &[u8],
    key: &[Word; 8],
    offset: u64,
    flags: Flags,
    platform: Platform,
    out: &mut [u8],
) -> usize {''', '''fn hash_recurse(
    platform: Platform,
    flags: Flags,
    key: &[Word; 8],
    offset: u64,
    input: &[u8],
    out: &mut [u8],
) -> usize {'''), (L, 'hash_recurse(left, key, offset, flags, platform, left_out)', 'hash_recurse(platform, flags, key, offset, left, left_out)'),
 (L, 'hash_recurse(right, key, right_off, flags, platform, right_out)', 'hash_recurse(platform, flags, key, right_off, right, right_out)'),
 (L, 'hash_recurse(input, &key_words, 0, flags, platform, &mut children_array)', 'hash_recurse(platform, flags, key_words, 0, input, &mut children_array)')]),
 dict(id='recurse-wrapper', checks=['C06', 'C09', 'C12'], edits=[(L, '''// This never does root finalization.
fn hash_recurse(''', '''// Too little input to be worth splitting is hashed directly.
fn hash_recurse(
    input: &[u8],
    key: &[Word; 8],
    offset: u64,
    flags: Flags,
    platform: Platform,
    out: &mut [u8],
) -> usize {
    if input.len() > platform.simd_degree() * CHUNK_LEN {
        hash_split(input, key, offset, flags, platform, out)
    } else {
        hash_chunks_parallel(input, key, offset, flags, platform, out)
    }
}

// This never does root finalization.
fn hash_split('''), (L, '''    if input.len() <= platform.simd_degree() * CHUNK_LEN {
        return hash_chunks_parallel(input, key, offset, flags, platform, out);
    }

''', '')]),
 dict(id='merge-until', checks=['C04', 'C08', 'C09'], edits=[(L, '''        while self.needs_merge(offset) {
            self.merge_parent();
        }
        self.subtree_hashes.push(*hash);
''', '''        self.merge_until(offset);
        self.subtree_hashes.push(*hash);
'''), (L, '''            while self.needs_merge(self.chunk.offset) {
                self.merge_parent();
            }
            self.chunk.update(chunks_exact.remainder());
''', '''            let position = self.chunk.offset;
            self.merge_until(position);
            self.chunk.update(chunks_exact.remainder());
'''), (L, '''    fn push_chunk_hash(''', '''    fn merge_until(&mut self, position: u64) {
        let keep = (position / CHUNK_LEN as u64).count_ones() as usize;
        for _ in keep..self.subtree_hashes.len() {
            self.merge_parent();
        }
    }

    fn push_chunk_hash('''), (L, '''            debug_assert!(!self.needs_merge(self.chunk.offset));
''', ''), (L, '''    fn needs_merge(&self, total_bytes: u64) -> bool {
        let total_chunks = total_bytes / CHUNK_LEN as u64;
        self.subtree_hashes.len() > total_chunks.count_ones() as usize
    }

''', '')]),
 dict(id='finalize-split', checks=['C06', 'C09', 'C10', 'C11'], edits=[(L, '''        let mut working_hash: [u8; OUT_LEN];
        let mut next_subtree_index: usize;
        if self.chunk.len() > 0 {
            debug_assert!(!self.needs_merge(self.chunk.offset));
            working_hash = self.chunk.finalize(IsRoot::NotRoot).to_hash().into();
            next_subtree_index = self.subtree_hashes.len() - 1;
        } else {
            debug_assert!(self.subtree_hashes.len() >= 2);
            working_hash = *self.subtree_hashes.last().unwrap();
            next_subtree_index = self.subtree_hashes.len() - 2;
        }
        loop {
            let is_root = if next_subtree_index == 0 {
                IsRoot::Root
            } else {
                IsRoot::NotRoot
            };
            let output = hash_one_parent(
                &self.subtree_hashes[next_subtree_index],
                &working_hash,
                &self.chunk.key,
                is_root,
                self.chunk.flags,
                self.chunk.platform,
            );
            if next_subtree_index == 0 {
                return output;
            }
            working_hash = output.to_hash().into();
            next_subtree_index -= 1;
        }
    }
''', '''        let (mut right, lefts) = self.rightmost();
        for i in (1..lefts).rev() {
            right = self.parent_with(i, &right, IsRoot::NotRoot).to_hash().into();
        }
        self.parent_with(0, &right, IsRoot::Root)
    }

    // The hash furthest to the right, and how many subtrees are left of it.
    fn rightmost(&self) -> ([u8; OUT_LEN], usize) {
        let n = self.subtree_hashes.len();
        if self.chunk.len() == 0 {
            debug_assert!(n >= 2);
            (self.subtree_hashes[n - 1], n - 1)
        } else {
            debug_assert!(!self.needs_merge(self.chunk.offset));
            (self.chunk.finalize(IsRoot::NotRoot).to_hash().into(), n)
        }
    }

    fn parent_with(&self, left: usize, right: &[u8; OUT_LEN], is_root: IsRoot) -> Output {
        hash_one_parent(
            &self.subtree_hashes[left],
            right,
            &self.chunk.key,
            is_root,
            self.chunk.flags,
            self.chunk.platform,
        )
    }
''')]),
 dict(id='chunk-flags-helper', checks=['C05', 'C07', 'C08'], edits=[(L, '''                let block_flags = self.flags | self.maybe_chunk_start_flag(); // borrowck
                self.platform.compress(
                    &mut self.cv,
                    &self.buf,
                    BLOCK_LEN as u8,
                    self.offset,
                    block_flags.bits(),
                );
                self.count += BLOCK_LEN as u16;
                self.buf_len = 0;
                self.buf = [0; BLOCK_LEN];
''', '''                let block = self.buf;
                self.absorb(&block);
                self.buf_len = 0;
                self.buf = [0; BLOCK_LEN];
'''), (L, '''            debug_assert_eq!(self.buf_len, 0);
            let block_flags = self.flags | self.maybe_chunk_start_flag(); // borrowck
            self.platform.compress(
                &mut self.cv,
                array_ref!(input, 0, BLOCK_LEN),
                BLOCK_LEN as u8,
                self.offset,
                block_flags.bits(),
            );
            self.count += BLOCK_LEN as u16;
            input = &input[BLOCK_LEN..];
''', '''            let (block, rest) = input.split_at(BLOCK_LEN);
            self.absorb(array_ref!(block, 0, BLOCK_LEN));
            input = rest;
'''), (L, '''    fn maybe_chunk_start_flag(''', '''    // Compress a whole block that is not the last of the chunk.
    fn absorb(&mut self, block: &[u8; BLOCK_LEN]) {
        let flags = (self.flags | self.maybe_chunk_start_flag()).bits();
        self.platform.compress(&mut self.cv, block, BLOCK_LEN as u8, self.offset, flags);
        self.count += BLOCK_LEN as u16;
    }

    fn maybe_chunk_start_flag(''')]),
 dict(id='update-batches', checks=['C04', 'C08', 'C09', 'C16'], edits=[(L, '''            chunks_array.extend(fused_chunks.by_ref().take(MAX_SIMD_DEGREE));
            if chunks_array.is_empty() {
                // We've exhausted the whole chunks. Add any remaining input to
                // the ChunkState below.
                break;
            }
''', '''            while chunks_array.len() < MAX_SIMD_DEGREE {
                match fused_chunks.next() {
                    Some(chunk) => chunks_array.push(chunk),
                    None => break,
                }
            }
            if chunks_array.len() == 0 {
                break;
            }
''')]),
 dict(id='c-stack-pointer', checks=['C04', 'C09', 'C16'], edits=[(C, '''  size_t parent_block_start =
      (((size_t)self->subtree_hashes_len) - 2) * OUT_LEN;
  uint8_t out[OUT_LEN];
  hash_one_parent(&self->subtree_hashes[parent_block_start], self->chunk.key,
                  false, self->chunk.flags, out);
  memcpy(&self->subtree_hashes[parent_block_start], out, OUT_LEN);
  self->subtree_hashes_len -= 1;
''', '''  self->subtree_hashes_len--;
  uint8_t *pair =
      self->subtree_hashes + (size_t)(self->subtree_hashes_len - 1) * OUT_LEN;
  uint8_t parent[OUT_LEN];
  hash_one_parent(pair, self->chunk.key, false, self->chunk.flags, parent);
  memcpy(pair, parent, OUT_LEN);
''')]),
 dict(id='c-rename-fields', checks=['C08', 'C10', 'C16'], edits=[], words=[(C, dict(count='done', buf_len='buffered', state='cv', subtree_hashes_len='stack_len'))]),
 dict(id='c-batch-for', checks=['C02', 'C09'], edits=[(C, '''    while (input_len >= CHUNK_LEN && num_chunks < MAX_SIMD_DEGREE) {
      chunks[num_chunks] = input_bytes;
      input_bytes += CHUNK_LEN;
      input_len -= CHUNK_LEN;
      num_chunks += 1;
    }
''', '''    for (; num_chunks < MAX_SIMD_DEGREE && input_len >= CHUNK_LEN; num_chunks++) {
      chunks[num_chunks] = input_bytes;
      input_bytes = &input_bytes[CHUNK_LEN];
      input_len = input_len - CHUNK_LEN;
    }
''')]),
]
