# behaviour-preserving edits of kernels and value code
L = 'src/lib.rs'; P = 'src/portable.rs'; S = 'src/sse41.rs'; A = 'src/avx2.rs'; CP = 'c/baokeshed_portable.c'; CA = 'c/baokeshed_avx2.c'; CI = 'c/baokeshed_impl.h'; F = 'src/platform.rs'
K = ['C01', 'C02']
R16 = '\n'.join(f'    round(&mut state, &block_words, {i});' for i in range(7))
REFAC = [
 dict(id='portable-round-loop', checks=K, edits=[(P, R16, '    for r in 0..7 {\n        round(&mut state, &block_words, r);\n    }'),
   (P, 'FN fn words_from_block(', '''fn words_from_block(bytes: &[u8; BLOCK_LEN]) -> [Word; 16] {
    let mut words = [0; 16];
    for (w, b) in words.iter_mut().zip(bytes.chunks_exact(4)) {
        *w = Word::from_le_bytes(*array_ref!(b, 0, 4));
    }
    words
}'''), (P, 'use arrayref::{array_mut_ref, array_ref, array_refs};', 'use arrayref::{array_mut_ref, array_ref};')]),
 dict(id='portable-hash1', checks=K + ['C03'], edits=[(P, '''    let mut slice = input.as_slice();
    while slice.len() >= BLOCK_LEN {
        if slice.len() == BLOCK_LEN {
            block_flags |= flags_end;
        }
        compress(
            &mut cv,
            array_ref!(slice, 0, BLOCK_LEN),
            BLOCK_LEN as u8,
            offset,
            block_flags,
        );
        block_flags = flags;
        slice = &slice[BLOCK_LEN..];
    }''', '''    let blocks = A::CAPACITY / BLOCK_LEN;
    for (i, block) in input.as_slice().chunks_exact(BLOCK_LEN).enumerate() {
        if i == blocks - 1 {
            block_flags |= flags_end;
        }
        compress(&mut cv, array_ref!(block, 0, BLOCK_LEN), BLOCK_LEN as u8, offset, block_flags);
        block_flags = flags;
    }''')]),
 dict(id='portable-many-index', checks=K, edits=[(P, '''    for (&input, output) in inputs.iter().zip(out.chunks_exact_mut(OUT_LEN)) {
        hash1(
            input,
            key,
            offset,
            flags,
            flags_start,
            flags_end,
            array_mut_ref!(output, 0, OUT_LEN),
        );
        offset += offset_delta;
    }''', '''    let n = core::cmp::min(inputs.len(), out.len() / OUT_LEN);
    for i in 0..n {
        let output = array_mut_ref!(out, i * OUT_LEN, OUT_LEN);
        hash1(inputs[i], key, offset, flags, flags_start, flags_end, output);
        offset = offset.wrapping_add(offset_delta);
    }''')]),
 dict(id='portable-xof-helper', checks=K, edits=[(P, '''    for i in 0..8 {
        output[i * 4..][..4].copy_from_slice(&(state[i] ^ state[i + 8]).to_le_bytes());
    }
    for i in 8..16 {
        output[i * 4..][..4].copy_from_slice(&(state[i] ^ cv[i - 8]).to_le_bytes());
    }
    output''', '''    for i in 0..8 {
        let low = state[i + 8] ^ state[i];
        let high = cv[i] ^ state[i + 8];
        *array_mut_ref!(output, i * 4, 4) = low.to_le_bytes();
        *array_mut_ref!(output, i * 4 + 32, 4) = high.to_le_bytes();
    }
    output''')]),
 dict(id='sse41-rot', checks=K, edits=[(S, '''    _mm_shuffle_epi8(
        a,
        _mm_set_epi8(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2),
    )''', '''    _mm_or_si128(_mm_srli_epi32(a, 16), _mm_slli_epi32(a, 16))'''),
   (S, '    xor(_mm_srli_epi32(a, 12), _mm_slli_epi32(a, 32 - 12))', '    _mm_or_si128(_mm_srli_epi32(a, 12), _mm_slli_epi32(a, 32 - 12))')]),
 dict(id='avx2-loops', checks=K, edits=[(A, '''        for block in 0..blocks {''' if False else '''        let msg_vecs = transpose_msg_vecs(inputs, block * BLOCK_LEN);''', '''        let block_start = block * BLOCK_LEN;
        let msg_vecs = transpose_msg_vecs(inputs, block_start);'''),
   (A, '\n'.join(f'        round(&mut v, &msg_vecs, {i});' for i in range(7)), '        for r in 0..MSG_SCHEDULE.len() {\n            round(&mut v, &msg_vecs, r);\n        }'),
   (A, '\n'.join(f'        h_vecs[{i}] = xor(v[{i}], v[{i+8}]);' for i in range(8)), '        for i in 0..8 {\n            h_vecs[i] = xor(v[i], v[i + 8]);\n        }'),
   (A, '\n'.join(f'    storeu(h_vecs[{i}], out.as_mut_ptr().add({i} * WORD_BYTES * DEGREE));' for i in range(8)), '    for i in 0..DEGREE {\n        storeu(h_vecs[i], out.as_mut_ptr().add(i * WORD_BYTES * DEGREE));\n    }')]),
 dict(id='avx2-many-split', checks=K, edits=[(A, '''        inputs = &inputs[DEGREE..];
        offset += DEGREE as u64 * offset_delta;
        out = &mut out[DEGREE * OUT_LEN..];''', '''        offset = offset + (DEGREE as u64) * offset_delta;
        let (_, rest) = out.split_at_mut(DEGREE * OUT_LEN);
        out = rest;
        inputs = inputs.split_at(DEGREE).1;''')]),
 dict(id='avx2-offsets', checks=K, edits=[(A, 'FN unsafe fn load_offsets(', '''unsafe fn load_offsets(offset: u64, offset_delta: u64) -> (__m256i, __m256i) {
    let mut o = [offset; 8];
    for i in 1..8 {
        o[i] = o[i - 1] + offset_delta;
    }
    (
        set8(o[0] as u32, o[1] as u32, o[2] as u32, o[3] as u32, o[4] as u32, o[5] as u32, o[6] as u32, o[7] as u32),
        set8(
            (o[0] >> 32) as u32,
            (o[1] >> 32) as u32,
            (o[2] >> 32) as u32,
            (o[3] >> 32) as u32,
            (o[4] >> 32) as u32,
            (o[5] >> 32) as u32,
            (o[6] >> 32) as u32,
            (o[7] >> 32) as u32,
        ),
    )
}'''), (A, 'use crate::{\n    offset_high, offset_low, Word,', 'use crate::{\n    Word,') if False else (A, '#[target_feature(enable = "avx2")]\npub unsafe fn hash8(', '#[allow(unused_imports)]\nuse crate::offset_low as _unused_low;\n\n#[target_feature(enable = "avx2")]\npub unsafe fn hash8(')]),
 dict(id='platform-match', checks=K + ['C16'], edits=[(F, '''            if is_x86_feature_detected!("avx2") {
                return Platform::AVX2;
            }
            if is_x86_feature_detected!("sse4.1") {
                return Platform::SSE41;
            }''', '''            let wide = is_x86_feature_detected!("avx2");
            let narrow = is_x86_feature_detected!("sse4.1");
            match (wide, narrow) {
                (true, _) => return Platform::AVX2,
                (false, true) => return Platform::SSE41,
                _ => {}
            }'''), (F, '''            Platform::SSE41 | Platform::AVX2 => unsafe {
                sse41::compress(cv, block, block_len, offset, flags)
            },''', '''            _ => unsafe { sse41::compress(cv, block, block_len, offset, flags) },''')]),
 dict(id='c-portable-loop', checks=K, edits=[(CP, '\n'.join(f'  state[{i}] = full_state[{i}] ^ full_state[{i+8}];' for i in range(8)), '  for (size_t i = 0; i < 8; i++) {\n    state[i] = full_state[i] ^ full_state[i + 8];\n  }'),
   (CP, '\n'.join(f'  round_fn(&full_state[0], &block_words[0], {i});' for i in range(7)), '  for (size_t r = 0; r < 7; r++) {\n    round_fn(full_state, block_words, r);\n  }'),
   (CP, '''  while (blocks > 0) {
    if (blocks == 1) {
      block_flags |= flags_end;
    }
    compress_portable(state, input, BLOCK_LEN, offset, block_flags);
    input = &input[BLOCK_LEN];
    blocks -= 1;
    block_flags = flags;
  }''', '''  for (size_t i = 0; i < blocks; i++) {
    uint8_t last = (i + 1 == blocks) ? flags_end : 0;
    compress_portable(state, &input[i * BLOCK_LEN], BLOCK_LEN, offset,
                      block_flags | last);
    block_flags = flags;
  }'''), (CP, '''  while (num_inputs > 0) {
    hash_one_portable(inputs[0], blocks, key_words, offset, flags, flags_start,
                      flags_end, out);
    inputs += 1;
    num_inputs -= 1;
    offset += offset_deltas[1];
    out = &out[OUT_LEN];
  }''', '''  for (size_t i = 0; i < num_inputs; i++) {
    hash_one_portable(inputs[i], blocks, key_words, offset, flags, flags_start,
                      flags_end, &out[i * OUT_LEN]);
    offset += offset_deltas[1];
  }''')]),
 dict(id='c-impl', checks=K + ['C09'], edits=[(CI, '''  const uint8_t *p = (const uint8_t *)src;
  return ((uint32_t)(p[0]) << 0) | ((uint32_t)(p[1]) << 8) |
         ((uint32_t)(p[2]) << 16) | ((uint32_t)(p[3]) << 24);''', '''  const uint8_t *p = (const uint8_t *)src;
  uint32_t w = 0;
  for (int i = 3; i >= 0; i--) {
    w = (w << 8) + p[i];
  }
  return w;'''), (CI, '''  uint8_t count = 0;
  while (x > 0) {
    count += ((uint8_t)x) & 1;
    x >>= 1;
  }
  return count;''', '''  uint8_t count = 0;
  for (; x != 0; x /= 2) {
    if (x % 2 == 1) {
      count++;
    }
  }
  return count;'''), (CI, '  return (w >> c) | (w << (32 - c));', '  return (w << (32 - c)) + (w >> c);')]),
 dict(id='c-popcnt-kernighan', checks=['C04'], edits=[(CI, '''  uint8_t count = 0;
  while (x > 0) {
    count += ((uint8_t)x) & 1;
    x >>= 1;
  }
  return count;''', '''  uint8_t count;
  for (count = 0; x; count++) {
    x &= x - 1;
  }
  return count;''')]),
 dict(id='c-avx2-loops', checks=K, edits=[(CA, '\n'.join(f'    round_fn(v, msg_vecs, {i});' for i in range(7)), '    for (size_t r = 0; r < 7; r++) {\n      round_fn(v, msg_vecs, r);\n    }'),
   (CA, '''  while (num_inputs >= DEGREE) {
    hash8_avx2(inputs, blocks, key_words, offset, offset_deltas, flags,
               flags_start, flags_end, out);
    inputs += DEGREE;
    num_inputs -= DEGREE;
    offset += offset_deltas[DEGREE];
    out = &out[DEGREE * OUT_LEN];
  }
  hash_many_sse41(inputs, num_inputs, blocks, key_words, offset, offset_deltas,
                  flags, flags_start, flags_end, out);''', '''  size_t i = 0;
  for (; num_inputs - i >= DEGREE; i += DEGREE) {
    hash8_avx2(&inputs[i], blocks, key_words, offset, offset_deltas, flags,
               flags_start, flags_end, &out[i * OUT_LEN]);
    offset += offset_deltas[DEGREE];
  }
  hash_many_sse41(inputs + i, num_inputs - i, blocks, key_words, offset,
                  offset_deltas, flags, flags_start, flags_end,
                  out + i * OUT_LEN);''')]),
 dict(id='hex-loop', checks=['C23', 'C14'], edits=[(L, 'FN pub fn to_hex(&self)', '''pub fn to_hex(&self) -> ArrayString<[u8; 2 * OUT_LEN]> {
        let mut s = ArrayString::new();
        for i in 0..2 * OUT_LEN {
            let byte = self.0[i / 2];
            let nibble = if i % 2 == 0 { byte >> 4 } else { byte & 15 };
            let digit = if nibble < 10 { b'0' + nibble } else { b'a' + (nibble - 10) };
            s.push(digit as char);
        }
        s
    }''')]),
 dict(id='hex-helper', checks=['C23'], edits=[(L, '''            s.push(table[(b >> 4) as usize] as char);
            s.push(table[(b & 0xf) as usize] as char);
        }
        s
    }''', '''            Self::push_byte(&mut s, table, b);
        }
        s
    }

    fn push_byte(s: &mut ArrayString<[u8; 2 * OUT_LEN]>, table: &[u8; 16], b: u8) {
        for &n in [b / 16, b % 16].iter() {
            s.push(char::from(table[usize::from(n)]));
        }
    }''')]),
 dict(id='eq-fold', checks=['C23'], edits=[(L, '        constant_time_eq::constant_time_eq(&self.0[..], &other.0[..])', '        *self == other.0'),
   (L, '        constant_time_eq::constant_time_eq(&self.0[..], other)', '        let mut diff = 0;\n        for i in 0..OUT_LEN {\n            diff |= self.0[i] ^ other[i];\n        }\n        diff == 0')]),
 dict(id='debug-str', checks=['C14', 'C23'], edits=[(L, '        write!(f, "Hasher {{ ... }}")', '        f.write_str("Hasher { ... }")'), (L, '        write!(f, "Hash(0x{})", self.to_hex())', '        let hex = self.to_hex();\n        f.write_str("Hash(0x")?;\n        f.write_str(&hex)?;\n        f.write_str(")")')]),
 dict(id='debug-struct', checks=['C14'], edits=[(L, '        write!(f, "Output {{ ... }}")', '        f.debug_struct("Output").finish()')]),
 dict(id='copy-match', checks=['C17'], edits=[('src/copy.rs', '''        match reader.read(&mut buffer) {
            Ok(0) => return Ok(total),
            Ok(n) => {
                writer.write_all(&buffer[..n])?;
                total += n as u64;
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        }''', '''        let n = match reader.read(&mut buffer) {
            Ok(n) => n,
            Err(e) => {
                if e.kind() == io::ErrorKind::Interrupted {
                    continue;
                }
                return Err(e);
            }
        };
        if n == 0 {
            break;
        }
        let filled = &buffer[..n];
        writer.write_all(filled)?;
        total += filled.len() as u64;'''), ('src/copy.rs', '''    }
}

#[cfg(test)]''', '''    }
    Ok(total)
}

#[cfg(test)]''')]),
 dict(id='copy-helper', checks=['C17'], edits=[('src/copy.rs', '''    let mut total = 0;
    loop {
        match reader.read(&mut buffer) {
            Ok(0) => return Ok(total),
            Ok(n) => {
                writer.write_all(&buffer[..n])?;
                total += n as u64;
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        }
    }
}''', '''    let mut total = 0;
    while let Some(n) = fill(reader, &mut buffer)? {
        writer.write_all(&buffer[..n])?;
        total += n as u64;
    }
    Ok(total)
}

fn fill<R: ?Sized + io::Read>(reader: &mut R, buffer: &mut [u8]) -> io::Result<Option<usize>> {
    loop {
        return match reader.read(buffer) {
            Ok(0) => Ok(None),
            Ok(n) => Ok(Some(n)),
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => Err(e),
        };
    }
}''')]),
 dict(id='write-order', checks=['C17'], edits=[(L, '        self.update(input);\n        Ok(input.len())', '        let n = input.len();\n        if n > 0 {\n            self.update(input);\n        }\n        Ok(n)')]),
]
