# behaviour-preserving edits: platform detection and dispatch
P = 'src/platform.rs'
C = ['C15', 'C01', 'C02']
ATT = '            #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]\n'
REFAC = [
 dict(id='detect-nested', checks=C, edits=[(P, '''            if is_x86_feature_detected!("avx2") {
                return Platform::AVX2;
            }
            if is_x86_feature_detected!("sse4.1") {
                return Platform::SSE41;
            }
''', '''            if is_x86_feature_detected!("sse4.1") {
                return if is_x86_feature_detected!("avx2") { Platform::AVX2 } else { Platform::SSE41 };
            }
''')]),
 dict(id='detect-helper', checks=C, edits=[(P, '''            if is_x86_feature_detected!("avx2") {
                return Platform::AVX2;
            }
            if is_x86_feature_detected!("sse4.1") {
                return Platform::SSE41;
            }
''', '''            if let Some(p) = Self::detect_x86() {
                return p;
            }
'''), (P, '''impl Platform {
    pub fn detect''', '''impl Platform {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    fn detect_x86() -> Option<Self> {
        let wide = is_x86_feature_detected!("avx2");
        let narrow = wide || is_x86_feature_detected!("sse4.1");
        match (wide, narrow) {
            (true, _) => Some(Platform::AVX2),
            (_, true) => Some(Platform::SSE41),
            _ => None,
        }
    }

    pub fn detect''')]),
 dict(id='plat-order', checks=C + ['C04', 'C09'], edits=[(P, '''    Portable,
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    SSE41,
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    AVX2,
''', '''    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    AVX2,
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    SSE41,
    Portable,
''')]),
 dict(id='plat-value', checks=C, edits=[(P, '''        &self,
        cv: &mut [Word; 8],''', '''        self,
        cv: &mut [Word; 8],'''), (P, '''        match self {
            Platform::Portable => portable::compress(cv''', '''        if let Platform::Portable = self {
            return portable::compress(cv, block, block_len, offset, flags);
        }
        match self {
            Platform::Portable => portable::compress(cv''')]),
 dict(id='plat-is-simd', checks=C, edits=[(P, '''        match self {
            Platform::Portable => portable::compress_xof(cv, block, block_len, offset, flags),
            // Safe because detect() checked for platform support.
            #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
            Platform::SSE41 | Platform::AVX2 => unsafe {
                sse41::compress_xof(cv, block, block_len, offset, flags)
            },
        }''', '''        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        {
            if self.simd_degree() > 1 {
                return unsafe { sse41::compress_xof(cv, block, block_len, offset, flags) };
            }
        }
        portable::compress_xof(cv, block, block_len, offset, flags)''')]),
]
