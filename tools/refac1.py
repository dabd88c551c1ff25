# behaviour-preserving edits of the tree code; the checks have to stay quiet on every one
L = 'src/lib.rs'
C = 'c/baokeshed.c'
T = ['C09', 'C11', 'C10']
TC = ['C09', 'C10']
REFAC = [
 dict(id='chunk-helper', checks=T, edits=[(L, 'FN fn hash_one_chunk(', '''fn chunk_output(cv: [Word; 8], block: [u8; BLOCK_LEN], block_len: usize, offset: u64, flags: Flags, platform: Platform) -> Output {
    Output { cv, block, block_len: block_len as u8, offset, flags: flags | Flags::CHUNK_END, platform }
}

fn hash_one_chunk(
    chunk: &[u8],
    key: &[Word; 8],
    offset: u64,
    is_root: IsRoot,
    flags: Flags,
    platform: Platform,
) -> Output {
    let mut cv = *key;
    let mut rest = chunk;
    let mut start = Flags::CHUNK_START;
    while rest.len() > BLOCK_LEN {
        let (block, tail) = rest.split_at(BLOCK_LEN);
        platform.compress(&mut cv, array_ref!(block, 0, BLOCK_LEN), BLOCK_LEN as u8, offset, (flags | start).bits());
        start = Flags::empty();
        rest = tail;
    }
    let mut last_block = [0; BLOCK_LEN];
    last_block[..rest.len()].copy_from_slice(rest);
    chunk_output(cv, last_block, rest.len(), offset, flags | start | is_root.flag(), platform)
}''')]),
 dict(id='chunkstate-blockfn', checks=T, edits=[(L, 'FN fn update(&mut self, mut input: &[u8]) {', '''fn push_block(&mut self, block: &[u8; BLOCK_LEN]) {
        let block_flags = self.flags | self.maybe_chunk_start_flag();
        self.count += BLOCK_LEN as u16;
        self.platform.compress(&mut self.cv, block, BLOCK_LEN as u8, self.offset, block_flags.bits());
    }

    fn update(&mut self, mut input: &[u8]) {
        if self.buf_len > 0 {
            self.fill_buf(&mut input);
            if input.is_empty() {
                return;
            }
            let block = self.buf;
            self.push_block(&block);
            self.buf = [0; BLOCK_LEN];
            self.buf_len = 0;
        }
        while input.len() > BLOCK_LEN {
            let (block, rest) = input.split_at(BLOCK_LEN);
            self.push_block(array_ref!(block, 0, BLOCK_LEN));
            input = rest;
        }
        self.fill_buf(&mut input);
    }''')]),
 dict(id='update-chunks', checks=T, edits=[(L, 'FN pub fn update(&mut self, mut input: &[u8]) -> &mut Self {', '''pub fn update(&mut self, mut input: &[u8]) -> &mut Self {
        let maybe_root = self.chunk.offset == 0 && input.len() == CHUNK_LEN;
        if maybe_root || self.chunk.len() > 0 {
            let take = cmp::min(CHUNK_LEN - self.chunk.len(), input.len());
            let (head, tail) = input.split_at(take);
            self.chunk.update(head);
            if tail.is_empty() {
                return self;
            }
            input = tail;
            let chunk_hash = self.chunk.finalize(IsRoot::NotRoot).to_hash();
            self.push_chunk_hash(chunk_hash.as_bytes(), self.chunk.offset);
            self.chunk.reset(self.chunk.offset + CHUNK_LEN as u64);
        }
        let mut out_array = [0; MAX_SIMD_DEGREE * OUT_LEN];
        while input.len() >= CHUNK_LEN {
            let n = cmp::min(input.len() / CHUNK_LEN, MAX_SIMD_DEGREE);
            let mut chunks_array = ArrayVec::<[&[u8; CHUNK_LEN]; MAX_SIMD_DEGREE]>::new();
            for i in 0..n {
                chunks_array.push(array_ref!(input, i * CHUNK_LEN, CHUNK_LEN));
            }
            self.chunk.platform.hash_many(
                &chunks_array,
                &self.chunk.key,
                self.chunk.offset,
                CHUNK_LEN as u64,
                self.chunk.flags.bits(),
                Flags::CHUNK_START.bits(),
                Flags::CHUNK_END.bits(),
                &mut out_array,
            );
            for i in 0..n {
                self.push_chunk_hash(array_ref!(out_array, i * OUT_LEN, OUT_LEN), self.chunk.offset);
                self.chunk.offset += CHUNK_LEN as u64;
            }
            input = &input[n * CHUNK_LEN..];
        }
        if !input.is_empty() {
            while self.needs_merge(self.chunk.offset) {
                self.merge_parent();
            }
            self.chunk.update(input);
        }
        self
    }''')]),
 dict(id='update-fillfn', checks=T, edits=[(L, '            chunks_array.extend(fused_chunks.by_ref().take(MAX_SIMD_DEGREE));', '''            while chunks_array.len() < MAX_SIMD_DEGREE {
                match fused_chunks.next() {
                    Some(c) => chunks_array.push(c),
                    None => break,
                }
            }''')]),
 dict(id='push-loop', checks=T, edits=[(L, '''        while self.needs_merge(offset) {
            self.merge_parent();
        }
        self.subtree_hashes.push(*hash);''', '''        self.merge_for(offset);
        self.subtree_hashes.push(*hash);'''), (L, '''            while self.needs_merge(self.chunk.offset) {
                self.merge_parent();
            }
            self.chunk.update(chunks_exact.remainder());''', '''            self.merge_for(self.chunk.offset);
            self.chunk.update(chunks_exact.remainder());'''),
  (L, '    fn push_chunk_hash(&mut self', '''    fn merge_for(&mut self, total_bytes: u64) {
        let keep = (total_bytes / CHUNK_LEN as u64).count_ones() as usize;
        while self.subtree_hashes.len() > keep {
            self.merge_parent();
        }
    }

    fn push_chunk_hash(&mut self'''), (L, '            debug_assert!(!self.needs_merge(self.chunk.offset));\n', ''), (L, 'FN fn needs_merge(&self, total_bytes: u64) -> bool {', '')]),
 dict(id='needs-merge-shift', checks=T, edits=[(L, '''        let total_chunks = total_bytes / CHUNK_LEN as u64;
        self.subtree_hashes.len() > total_chunks.count_ones() as usize''', '''        let total_chunks = total_bytes >> 11;
        let subtrees = self.subtree_hashes.len() as u32;
        total_chunks.count_ones() < subtrees''')]),
 dict(id='merge-pop', checks=T, edits=[(L, 'FN fn merge_parent(&mut self) {', '''fn merge_parent(&mut self) {
        let right = self.subtree_hashes.pop().unwrap();
        let left = self.subtree_hashes.pop().unwrap();
        let parent = hash_one_parent(
            &left,
            &right,
            &self.chunk.key,
            IsRoot::NotRoot,
            self.chunk.flags,
            self.chunk.platform,
        );
        self.subtree_hashes.push(*parent.to_hash().as_bytes());
    }''')]),
 dict(id='finalize-rev', checks=T, edits=[(L, '''        loop {
            let is_root = if next_subtree_index == 0 {
                IsRoot::Root
            } else {
                IsRoot::NotRoot
            };
            let output = hash_one_parent(
                &self.subtree_hashes[next_subtree_index],
                &working_hash,
                &self.chunk.key,
                is_root,
                self.chunk.flags,
                self.chunk.platform,
            );
            if next_subtree_index == 0 {
                return output;
            }
            working_hash = output.to_hash().into();
            next_subtree_index -= 1;
        }''', '''        while next_subtree_index > 0 {
            working_hash = hash_one_parent(
                &self.subtree_hashes[next_subtree_index],
                &working_hash,
                &self.chunk.key,
                IsRoot::NotRoot,
                self.chunk.flags,
                self.chunk.platform,
            )
            .to_hash()
            .into();
            next_subtree_index -= 1;
        }
        hash_one_parent(
            &self.subtree_hashes[0],
            &working_hash,
            &self.chunk.key,
            IsRoot::Root,
            self.chunk.flags,
            self.chunk.platform,
        )''')]),
 dict(id='finalize-iter', checks=T, edits=[(L, '''        let mut working_hash: [u8; OUT_LEN];
        let mut next_subtree_index: usize;
        if self.chunk.len() > 0 {
            debug_assert!(!self.needs_merge(self.chunk.offset));
            working_hash = self.chunk.finalize(IsRoot::NotRoot).to_hash().into();
            next_subtree_index = self.subtree_hashes.len() - 1;
        } else {
            debug_assert!(self.subtree_hashes.len() >= 2);
            working_hash = *self.subtree_hashes.last().unwrap();
            next_subtree_index = self.subtree_hashes.len() - 2;
        }
        loop {
            let is_root = if next_subtree_index == 0 {
                IsRoot::Root
            } else {
                IsRoot::NotRoot
            };
            let output = hash_one_parent(
                &self.subtree_hashes[next_subtree_index],
                &working_hash,
                &self.chunk.key,
                is_root,
                self.chunk.flags,
                self.chunk.platform,
            );
            if next_subtree_index == 0 {
                return output;
            }
            working_hash = output.to_hash().into();
            next_subtree_index -= 1;
        }''', '''        let mut working_hash: [u8; OUT_LEN];
        let pending: &[[u8; OUT_LEN]];
        if self.chunk.len() > 0 {
            working_hash = self.chunk.finalize(IsRoot::NotRoot).to_hash().into();
            pending = &self.subtree_hashes;
        } else {
            let (last, rest) = self.subtree_hashes.split_last().unwrap();
            working_hash = *last;
            pending = rest;
        }
        for left in pending[1..].iter().rev() {
            let parent = hash_one_parent(
                left,
                &working_hash,
                &self.chunk.key,
                IsRoot::NotRoot,
                self.chunk.flags,
                self.chunk.platform,
            );
            working_hash = parent.to_hash().into();
        }
        hash_one_parent(
            &pending[0],
            &working_hash,
            &self.chunk.key,
            IsRoot::Root,
            self.chunk.flags,
            self.chunk.platform,
        )''')]),
 dict(id='left-len', checks=T, edits=[(L, '    ((n / 2) + 1).next_power_of_two()', '    1 << (63 - (n as u64 | 1).leading_zeros())')]),
 dict(id='left-len-loop', checks=T, edits=[(L, '    ((n / 2) + 1).next_power_of_two()', '    let mut p = 1;\n    while p <= n / 2 {\n        p *= 2;\n    }\n    p')]),
 dict(id='parents-loop', checks=T, edits=[(L, '''    let mut parents_exact = child_hashes.chunks_exact(BLOCK_LEN);
    let mut parents_array = ArrayVec::<[&[u8; BLOCK_LEN]; MAX_SIMD_DEGREE_OR_2]>::new();
    for parent in &mut parents_exact {
        parents_array.push(array_ref!(parent, 0, BLOCK_LEN));
    }''', '''    let num_parents = num_children / 2;
    let mut parents_array = ArrayVec::<[&[u8; BLOCK_LEN]; MAX_SIMD_DEGREE_OR_2]>::new();
    for i in 0..num_parents {
        parents_array.push(array_ref!(child_hashes, i * BLOCK_LEN, BLOCK_LEN));
    }'''), (L, '''    let parents_so_far = parents_array.len();
    if !parents_exact.remainder().is_empty() {
        out[parents_so_far * OUT_LEN..][..OUT_LEN].copy_from_slice(parents_exact.remainder());
        parents_so_far + 1
    } else {
        parents_so_far
    }''', '''    if num_children % 2 == 1 {
        let odd = &child_hashes[(num_children - 1) * OUT_LEN..];
        *array_mut_ref!(out, num_parents * OUT_LEN, OUT_LEN) = *array_ref!(odd, 0, OUT_LEN);
        return num_parents + 1;
    }
    num_parents''')]),
 dict(id='chunks-loop', checks=T, edits=[(L, '''    let mut chunks_exact = input.chunks_exact(CHUNK_LEN);
    let mut chunks_array = ArrayVec::<[&[u8; CHUNK_LEN]; MAX_SIMD_DEGREE]>::new();
    for chunk in &mut chunks_exact {
        chunks_array.push(array_ref!(chunk, 0, CHUNK_LEN));
    }''', '''    let mut rest = input;
    let mut chunks_array = ArrayVec::<[&[u8; CHUNK_LEN]; MAX_SIMD_DEGREE]>::new();
    while rest.len() >= CHUNK_LEN {
        chunks_array.push(array_ref!(rest, 0, CHUNK_LEN));
        rest = &rest[CHUNK_LEN..];
    }'''), (L, '''    if !chunks_exact.remainder().is_empty() {
        let output = hash_one_chunk(
            chunks_exact.remainder(),
            key,
            offset + chunks_so_far as u64 * CHUNK_LEN as u64,''', '''    if rest.len() > 0 {
        let output = hash_one_chunk(
            rest,
            key,
            offset + (input.len() - rest.len()) as u64,''')]),
 dict(id='condense-loop', checks=T, edits=[(L, '''    mut children: &mut [u8],
    key''', '''    children: &mut [u8],
    key'''), (L, '''    while children.len() > BLOCK_LEN {
        let out_n = hash_parents_parallel(children, key, flags, platform, &mut out_array);
        children[..out_n * OUT_LEN].copy_from_slice(&out_array[..out_n * OUT_LEN]);
        children = &mut children[..out_n * OUT_LEN];
    }''', '''    let mut n = children.len() / OUT_LEN;
    while n > 2 {
        n = hash_parents_parallel(&children[..n * OUT_LEN], key, flags, platform, &mut out_array);
        for i in 0..n * OUT_LEN {
            children[i] = out_array[i];
        }
    }''')]),
 dict(id='recurse-order', checks=T, edits=[(L, '''    let (left, right) = input.split_at(left_len(input.len()));
    let right_off = offset + left.len() as u64;''', '''    let split = left_len(input.len());
    let right_off = offset + split as u64;
    let left = &input[..split];
    let right = &input[split..];'''), (L, '''    let degree = if left.len() == CHUNK_LEN {
        1 // the "simd_degree=1 and we're at the leaf nodes" case
    } else {
        cmp::max(platform.simd_degree(), 2)
    };''', '''    let degree = match platform.simd_degree() {
        1 if split > CHUNK_LEN => 2,
        d => d,
    };''')]),
 dict(id='internal-early', checks=T, edits=[(L, 'FN fn hash_internal(', '''fn hash_internal(input: &[u8], key_words: &[Word; 8], flags: Flags) -> Output {
    let platform = Platform::detect();
    if input.len() > CHUNK_LEN {
        hash_many_chunks(input, key_words, flags, platform)
    } else {
        hash_one_chunk(input, key_words, 0, IsRoot::Root, flags, platform)
    }
}

fn hash_many_chunks(input: &[u8], key_words: &[Word; 8], flags: Flags, platform: Platform) -> Output {
    let mut children_array = [0; MAX_SIMD_DEGREE_OR_2 * OUT_LEN];
    let num_children = hash_recurse(input, key_words, 0, flags, platform, &mut children_array);
    let children = &mut children_array[..num_children * OUT_LEN];
    condense_root(children, key_words, flags, platform)
}''')]),
 dict(id='key-words-loop', checks=T, edits=[(L, 'FN fn words_from_key_bytes(', '''fn words_from_key_bytes(bytes: &[u8; KEY_LEN]) -> [Word; 8] {
    let mut words = [0; 8];
    for (word, chunk) in words.iter_mut().zip(bytes.chunks_exact(WORD_BYTES)) {
        *word = Word::from_le_bytes(*array_ref!(chunk, 0, WORD_BYTES));
    }
    words
}'''), (L, 'FN fn bytes_from_state_words(', '''fn bytes_from_state_words(words: &[Word; 8]) -> [u8; OUT_LEN] {
    let mut bytes = [0; OUT_LEN];
    for i in 0..8 {
        bytes[i * WORD_BYTES..][..WORD_BYTES].copy_from_slice(&words[i].to_le_bytes());
    }
    bytes
}''')]),
 dict(id='output-read', checks=T, edits=[(L, 'FN pub fn read(&mut self) -> [u8; 2 * OUT_LEN] {', '''pub fn read(&mut self) -> [u8; 2 * OUT_LEN] {
        let offset = self.offset;
        self.offset = offset + BLOCK_LEN as u64;
        let flags = self.flags.bits();
        self.platform.compress_xof(&self.cv, &self.block, self.block_len, offset, flags)
    }'''), (L, 'FN pub fn to_hash(mut self) -> Hash {', '''pub fn to_hash(self) -> Hash {
        let mut cv = self.cv;
        self.platform.compress(&mut cv, &self.block, self.block_len, self.offset, self.flags.bits());
        Hash(bytes_from_state_words(&cv))
    }''')]),
 dict(id='fill-loop', checks=T, edits=[(L, 'FN fn fill_buf(&mut self, input: &mut &[u8]) {', '''fn fill_buf(&mut self, input: &mut &[u8]) {
        let start = self.buf_len as usize;
        let take = cmp::min(self.buf.len() - start, input.len());
        let (head, tail) = input.split_at(take);
        for (dst, src) in self.buf[start..].iter_mut().zip(head.iter()) {
            *dst = *src;
        }
        self.buf_len = (start + take) as u8;
        *input = tail;
    }''')]),
 dict(id='c-update-helper', checks=TC, edits=[(C, '''  if (maybe_root || chunk_state_len(&self->chunk) > 0) {
    size_t take = CHUNK_LEN - chunk_state_len(&self->chunk);
    if (take > input_len) {
      take = input_len;
    }
    chunk_state_update(&self->chunk, input_bytes, take);
    input_bytes += take;
    input_len -= take;
    // If we've filled the current chunk and there's more coming, finalize this
    // chunk and proceed. In this case we know it's not the root.
    if (input_len > 0) {''', '''  size_t have = chunk_state_len(&self->chunk);
  if (maybe_root || have != 0) {
    size_t want = CHUNK_LEN - have;
    size_t take = want < input_len ? want : input_len;
    chunk_state_update(&self->chunk, input_bytes, take);
    input_len -= take;
    input_bytes += take;
    if (input_len != 0) {'''), (C, '''    while (input_len >= CHUNK_LEN && num_chunks < MAX_SIMD_DEGREE) {
      chunks[num_chunks] = input_bytes;
      input_bytes += CHUNK_LEN;
      input_len -= CHUNK_LEN;
      num_chunks += 1;
    }''', '''    num_chunks = input_len / CHUNK_LEN;
    if (num_chunks > MAX_SIMD_DEGREE) {
      num_chunks = MAX_SIMD_DEGREE;
    }
    for (size_t i = 0; i < num_chunks; i++) {
      chunks[i] = &input_bytes[i * CHUNK_LEN];
    }
    input_bytes += num_chunks * CHUNK_LEN;
    input_len -= num_chunks * CHUNK_LEN;''')]),
 dict(id='c-finalize-loop', checks=TC, edits=[(C, '''  while (true) {
    bool is_root = (next_subtree_start == 0);
    uint8_t block[BLOCK_LEN];
    memcpy(block, &self->subtree_hashes[next_subtree_start], OUT_LEN);
    memcpy(&block[OUT_LEN], working_hash, OUT_LEN);
    hash_one_parent(block, self->chunk.key, is_root, self->chunk.flags,
                    working_hash);
    if (is_root) {
      memcpy(out, working_hash, OUT_LEN);
      return;
    }
    next_subtree_start -= OUT_LEN;
  }''', '''  uint8_t block[BLOCK_LEN];
  for (; next_subtree_start > 0; next_subtree_start -= OUT_LEN) {
    memcpy(block, &self->subtree_hashes[next_subtree_start], OUT_LEN);
    memcpy(&block[OUT_LEN], working_hash, OUT_LEN);
    hash_one_parent(block, self->chunk.key, false, self->chunk.flags,
                    working_hash);
  }
  memcpy(block, self->subtree_hashes, OUT_LEN);
  memcpy(&block[OUT_LEN], working_hash, OUT_LEN);
  hash_one_parent(block, self->chunk.key, true, self->chunk.flags, out);''')]),
 dict(id='c-chunk-block', checks=TC, edits=[(C, '''    if (input_len > 0) {
      compress(self->state, self->buf, BLOCK_LEN, self->offset,
               self->flags | chunk_state_maybe_start_flag(self));
      self->count += (uint16_t)BLOCK_LEN;
      self->buf_len = 0;
      memset(self->buf, 0, BLOCK_LEN);
    }
  }

  while (input_len > BLOCK_LEN) {
    compress(self->state, input, BLOCK_LEN, self->offset,
             self->flags | chunk_state_maybe_start_flag(self));
    self->count += (uint16_t)BLOCK_LEN;
    input += BLOCK_LEN;
    input_len -= BLOCK_LEN;
  }

  size_t take = chunk_state_fill_buf(self, input, input_len);
  input += take;
  input_len -= take;''', '''    if (input_len == 0) {
      return;
    }
    chunk_state_block(self, self->buf);
    memset(self->buf, 0, BLOCK_LEN);
    self->buf_len = 0;
  }

  const uint8_t *end = input + input_len;
  while ((size_t)(end - input) > BLOCK_LEN) {
    chunk_state_block(self, input);
    input += BLOCK_LEN;
  }
  chunk_state_fill_buf(self, input, (size_t)(end - input));'''), (C, '''// Non-inline for unit testing.
void chunk_state_update(''', '''static void chunk_state_block(chunk_state *self, const uint8_t *block) {
  uint8_t start = chunk_state_maybe_start_flag(self);
  compress(self->state, block, BLOCK_LEN, self->offset, self->flags | start);
  self->count += (uint16_t)BLOCK_LEN;
}

// Non-inline for unit testing.
void chunk_state_update(''')]),
 dict(id='c-merge', checks=TC, edits=[(C, '''INLINE void hasher_merge_parent(hasher *self) {
  size_t parent_block_start =
      (((size_t)self->subtree_hashes_len) - 2) * OUT_LEN;
  uint8_t out[OUT_LEN];
  hash_one_parent(&self->subtree_hashes[parent_block_start], self->chunk.key,
                  false, self->chunk.flags, out);
  memcpy(&self->subtree_hashes[parent_block_start], out, OUT_LEN);
  self->subtree_hashes_len -= 1;
}''', '''INLINE void hasher_merge_parent(hasher *self) {
  self->subtree_hashes_len -= 1;
  uint8_t *block =
      self->subtree_hashes + (self->subtree_hashes_len - 1) * OUT_LEN;
  hash_one_parent(block, self->chunk.key, false, self->chunk.flags, block);
}'''), (C, '''  uint64_t total_chunks = total_bytes / CHUNK_LEN;
  return self->subtree_hashes_len > popcnt(total_chunks);''', '''  return (uint64_t)self->subtree_hashes_len > popcnt(total_bytes >> 11);''')]),
 dict(id='c-fill', checks=TC, edits=[(C, '''  size_t take = BLOCK_LEN - ((size_t)self->buf_len);
  if (take > input_len) {
    take = input_len;
  }
  uint8_t *dest = self->buf + ((size_t)self->buf_len);
  memcpy(dest, input, take);
  self->buf_len += (uint8_t)take;
  return take;''', '''  size_t take = 0;
  while (self->buf_len < BLOCK_LEN && take < input_len) {
    self->buf[self->buf_len] = input[take];
    self->buf_len += 1;
    take += 1;
  }
  return take;''')]),
]
