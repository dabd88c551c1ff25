# behaviour-preserving edits: kernels, reference implementation, Python port, foreign declarations
S4 = 'c/baokeshed_sse41.c'
A64 = 'c64/baokeshed64_avx2.c'
P64 = 'c64/baokeshed64_portable.c'
CP = 'c/baokeshed_portable.c'
A2 = 'src/avx2.rs'
RI = 'reference_impl/reference_impl.rs'
PY = 'python/baokeshed.py'
REFAC = [
 dict(id='c-hash4-flags', checks=['C02', 'C13'], edits=[(S4, '''  uint8_t block_flags = flags | flags_start;

  for (size_t block = 0; block < blocks; block++) {
    if (block + 1 == blocks) {
      block_flags |= flags_end;
    }
''', '''
  for (size_t block = 0; block < blocks; block++) {
    uint8_t block_flags = flags;
    if (block == 0) block_flags |= flags_start;
    if (block == blocks - 1) block_flags |= flags_end;
'''), (S4, '''    h_vecs[7] = xorv(v[7], v[15]);

    block_flags = flags;
''', '''    h_vecs[7] = xorv(v[7], v[15]);
''')]),
 dict(id='c-hash4-rounds', checks=['C02', 'C16'], edits=[(S4, '''    round_fn(v, msg_vecs, 0);
    round_fn(v, msg_vecs, 1);
    round_fn(v, msg_vecs, 2);
    round_fn(v, msg_vecs, 3);
    round_fn(v, msg_vecs, 4);
    round_fn(v, msg_vecs, 5);
    round_fn(v, msg_vecs, 6);
    h_vecs[0] = xorv(v[0], v[8]);
    h_vecs[1] = xorv(v[1], v[9]);
    h_vecs[2] = xorv(v[2], v[10]);
    h_vecs[3] = xorv(v[3], v[11]);
    h_vecs[4] = xorv(v[4], v[12]);
    h_vecs[5] = xorv(v[5], v[13]);
    h_vecs[6] = xorv(v[6], v[14]);
    h_vecs[7] = xorv(v[7], v[15]);
''', '''    for (size_t r = 0; r < 7; r++) {
      round_fn(v, msg_vecs, r);
    }
    for (size_t i = 0; i < 8; i++) {
      h_vecs[i] = xorv(v[i], v[i + 8]);
    }
''')]),
 dict(id='c-load-offsets', checks=['C02', 'C13'], edits=[(S4, '''  *out_low = set4(offset_low(offset + offset_deltas[0]),
                  offset_low(offset + offset_deltas[1]),
                  offset_low(offset + offset_deltas[2]),
                  offset_low(offset + offset_deltas[3]));
  *out_high = set4(offset_high(offset + offset_deltas[0]),
                   offset_high(offset + offset_deltas[1]),
                   offset_high(offset + offset_deltas[2]),
                   offset_high(offset + offset_deltas[3]));
''', '''  uint64_t at[4];
  for (size_t i = 0; i < 4; i++) {
    at[i] = offset + offset_deltas[i];
  }
  *out_low = set4((uint32_t)at[0], (uint32_t)at[1], (uint32_t)at[2], (uint32_t)at[3]);
  *out_high = set4((uint32_t)(at[0] >> 32), (uint32_t)(at[1] >> 32),
                   (uint32_t)(at[2] >> 32), (uint32_t)(at[3] >> 32));
''')]),
 dict(id='c-one-for', checks=['C02', 'C16', 'C13'], edits=[(S4, '''  uint8_t block_flags = flags | flags_start;
  while (blocks > 0) {
    if (blocks == 1) {
      block_flags |= flags_end;
    }
    compress_sse41(state, input, BLOCK_LEN, offset, block_flags);
    input = &input[BLOCK_LEN];
    blocks -= 1;
    block_flags = flags;
  }
''', '''  for (size_t i = 0; i < blocks; i++) {
    uint8_t f = flags;
    if (i == 0) f |= flags_start;
    if (i + 1 == blocks) f |= flags_end;
    compress_sse41(state, input + i * BLOCK_LEN, BLOCK_LEN, offset, f);
  }
''')]),
 dict(id='c-many-for', checks=['C02', 'C16', 'C13'], edits=[(S4, '''  while (num_inputs >= DEGREE) {
    hash4_sse41(inputs, blocks, key_words, offset, offset_deltas, flags,
                flags_start, flags_end, out);
    inputs += DEGREE;
    num_inputs -= DEGREE;
    offset += offset_deltas[DEGREE];
    out = &out[DEGREE * OUT_LEN];
  }
  while (num_inputs > 0) {
    hash_one_sse41(inputs[0], blocks, key_words, offset, flags, flags_start,
                   flags_end, out);
    inputs += 1;
    num_inputs -= 1;
    offset += offset_deltas[1];
    out = &out[OUT_LEN];
  }
''', '''  size_t done = 0;
  for (; num_inputs - done >= DEGREE; done += DEGREE) {
    hash4_sse41(&inputs[done], blocks, key_words, offset, offset_deltas, flags,
                flags_start, flags_end, &out[done * OUT_LEN]);
    offset += offset_deltas[DEGREE];
  }
  for (; done < num_inputs; done++) {
    hash_one_sse41(inputs[done], blocks, key_words, offset, flags, flags_start,
                   flags_end, &out[done * OUT_LEN]);
    offset += offset_deltas[1];
  }
''')]),
 dict(id='c64-rounds', checks=['C03', 'C16'], edits=[(A64, '''    round_fn(v, msg_vecs, 0);
    round_fn(v, msg_vecs, 1);
    round_fn(v, msg_vecs, 2);
    round_fn(v, msg_vecs, 3);
    round_fn(v, msg_vecs, 4);
    round_fn(v, msg_vecs, 5);
    round_fn(v, msg_vecs, 6);
    round_fn(v, msg_vecs, 7);
''', '''    for (size_t r = 0; r < 8; r++) {
      round_fn(v, msg_vecs, r);
    }
''')]),
 dict(id='c64-many-for', checks=['C03', 'C16'], edits=[(P64, '''  while (num_inputs > 0) {
    hash_one_portable(inputs[0], blocks, key_words, offset, flags, flags_start,
                      flags_end, out);
    inputs += 1;
    num_inputs -= 1;
    offset += offset_deltas[1];
    out = &out[OUT_LEN];
  }
''', '''  for (size_t i = 0; i < num_inputs; i++) {
    hash_one_portable(inputs[i], blocks, key_words, offset, flags, flags_start,
                      flags_end, &out[i * OUT_LEN]);
    offset += offset_deltas[1];
  }
''')]),
 dict(id='c-compress-loops', checks=['C01', 'C13', 'C16'], edits=[(CP, '''  round_fn(&full_state[0], &block_words[0], 0);
  round_fn(&full_state[0], &block_words[0], 1);
  round_fn(&full_state[0], &block_words[0], 2);
  round_fn(&full_state[0], &block_words[0], 3);
  round_fn(&full_state[0], &block_words[0], 4);
  round_fn(&full_state[0], &block_words[0], 5);
  round_fn(&full_state[0], &block_words[0], 6);

  state[0] = full_state[0] ^ full_state[8];
  state[1] = full_state[1] ^ full_state[9];
  state[2] = full_state[2] ^ full_state[10];
  state[3] = full_state[3] ^ full_state[11];
  state[4] = full_state[4] ^ full_state[12];
  state[5] = full_state[5] ^ full_state[13];
  state[6] = full_state[6] ^ full_state[14];
  state[7] = full_state[7] ^ full_state[15];
''', '''  size_t r = 0;
  do {
    round_fn(full_state, block_words, r);
  } while (++r < 7);

  for (int i = 7; i >= 0; i--) {
    state[i] = full_state[i] ^ full_state[i + 8];
  }
''')]),
 dict(id='avx2-transpose-loop', checks=['C02', 'C16', 'C13'], edits=[(A2, '''    storeu(h_vecs[0], out.as_mut_ptr().add(0 * WORD_BYTES * DEGREE));
    storeu(h_vecs[1], out.as_mut_ptr().add(1 * WORD_BYTES * DEGREE));
    storeu(h_vecs[2], out.as_mut_ptr().add(2 * WORD_BYTES * DEGREE));
    storeu(h_vecs[3], out.as_mut_ptr().add(3 * WORD_BYTES * DEGREE));
    storeu(h_vecs[4], out.as_mut_ptr().add(4 * WORD_BYTES * DEGREE));
    storeu(h_vecs[5], out.as_mut_ptr().add(5 * WORD_BYTES * DEGREE));
    storeu(h_vecs[6], out.as_mut_ptr().add(6 * WORD_BYTES * DEGREE));
    storeu(h_vecs[7], out.as_mut_ptr().add(7 * WORD_BYTES * DEGREE));
''', '''    for (i, v) in h_vecs.iter().enumerate() {
        storeu(*v, out.as_mut_ptr().add(i * WORD_BYTES * DEGREE));
    }
''')]),
 dict(id='avx2-flags', checks=['C02', 'C13'], edits=[(A2, '''    let mut block_flags = flags | flags_start;

    for block in 0..blocks {
        if block + 1 == blocks {
            block_flags |= flags_end;
        }
''', '''    for block in 0..blocks {
        let first = if block == 0 { flags_start } else { 0 };
        let last = if block + 1 == blocks { flags_end } else { 0 };
        let block_flags = flags | first | last;
'''), (A2, '''        h_vecs[7] = xor(v[7], v[15]);

        block_flags = flags;
''', '''        h_vecs[7] = xor(v[7], v[15]);
''')]),
 dict(id='avx2-many-chunks', checks=['C02', 'C16', 'C13'], edits=[(A2, '''        inputs = &inputs[DEGREE..];
        offset += DEGREE as u64 * offset_delta;
        out = &mut out[DEGREE * OUT_LEN..];
    }
''', '''        let (_, rest) = inputs.split_at(DEGREE);
        inputs = rest;
        for _ in 0..DEGREE {
            offset += offset_delta;
        }
        out = &mut out[DEGREE * OUT_LEN..];
    }
''')]),
 dict(id='ref-compress', checks=['C01'], edits=[(RI, '''    let mut state = [
        chaining_value[0],
        chaining_value[1],
        chaining_value[2],
        chaining_value[3],
        chaining_value[4],
        chaining_value[5],
        chaining_value[6],
        chaining_value[7],
        IV[0],
        IV[1],
        IV[2],
        IV[3],
        offset as u32,
        (offset >> 32) as u32,
        block_len,
        flags,
    ];
    for r in 0..ROUNDS {
        round(&mut state, &block_words, &MSG_SCHEDULE[r]);
    }
    for i in 0..8 {
        state[i] ^= state[i + 8];
        state[i + 8] ^= chaining_value[i];
    }
    state
''', '''    let mut state = [0; 16];
    state[..8].copy_from_slice(chaining_value);
    state[8..12].copy_from_slice(&IV[..4]);
    state[12] = offset as u32;
    state[13] = (offset >> 32) as u32;
    state[14] = block_len;
    state[15] = flags;
    for schedule in MSG_SCHEDULE.iter() {
        round(&mut state, &block_words, schedule);
    }
    let (low, high) = state.split_at_mut(8);
    for ((l, h), c) in low.iter_mut().zip(high.iter_mut()).zip(chaining_value) {
        *l ^= *h;
        *h ^= *c;
    }
    state
''')]),
 dict(id='py-compress', checks=['C01'], edits=[(PY, '''    state = [
        cv[0],
        cv[1],
        cv[2],
        cv[3],
        cv[4],
        cv[5],
        cv[6],
        cv[7],
        IV[0],
        IV[1],
        IV[2],
        IV[3],
        offset & WORD_MAX,
''', '''    state = list(cv[:8]) + IV[:4] + [
        offset & WORD_MAX,
'''), (PY, '''    for round_number in range(7):
        round(state, block_words, MSG_SCHEDULE[round_number])
    for i in range(8):
        state[i] ^= state[i + 8]
        state[i + 8] ^= cv[i]
    return state
''', '''    for schedule in MSG_SCHEDULE:
        round(state, block_words, schedule)
    low = [state[i] ^ state[i + 8] for i in range(8)]
    high = [state[i + 8] ^ cv[i] for i in range(8)]
    return low + high
''')]),
 dict(id='ffi-nested', checks=['C24'], edits=[('src/c.rs', '''    subtree_hashes: [u8; MAX_DEPTH * OUT_LEN],
''', '''    subtree_hashes: [[u8; OUT_LEN]; MAX_DEPTH],
''')]),
 dict(id='ffi-alias', checks=['C24', 'C25'], edits=[('src/c.rs', '''        pub fn hasher_init(self_: *mut super::Hasher, key: *const u8, flags: u8);
''', '''        pub fn hasher_init(self_: *mut super::Hasher, key: *const [u8; 32], flags: super::FlagBits);
'''), ('src/c.rs', '''            ffi::hasher_init(hasher.as_mut_ptr(), key.as_ptr(), flags);
''', '''            ffi::hasher_init(hasher.as_mut_ptr(), key, flags);
'''), ('src/c.rs', '''impl Hasher {
    pub fn new(''', '''pub type FlagBits = u8;

impl Hasher {
    pub fn new(''')]),
]
