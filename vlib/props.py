"""Claimed properties: which tasks decide each one, and what is reported."""
from . import p_kern, p_all, p_val, p_ffi, p_eff, p_bin, p_cpu, p_ct, p_ray

TECH_KERN = ('abstract interpretation of the LLVM IR compiled from the current sources over a term domain '
             '(normal-form symbolic values compared for equality, loops by fixpoint; no solver, no execution)')
A_KERN = ['LLVM IR emitted by rustc/clang and simplified by opt (SROA, inlining) means what the source means',
          'the documented semantics of the x86/NEON intrinsics as modelled in vlib/simd.py']

PROPS = {
 'C01': dict(tasks=p_kern.c01, level='other', technique=TECH_KERN, assumptions=A_KERN, floor={'compress': 100},
    explanation='For every compression function (Rust portable/SSE4.1, C portable/SSE4.1/AVX-512, the platform dispatchers, the reference '
      'implementation, and the Python port from its syntax tree) the value of every output byte is computed as a normal-form term over fully symbolic '
      'chaining value, block, length, 64-bit offset and flags, and compared with the specified compression. One obligation per output byte/word, '
      'memory access and panic edge; all inputs are covered because nothing is concrete.'),
 'C02': dict(tasks=p_kern.c02, level='other', technique=TECH_KERN, assumptions=A_KERN, floor={'hashn': 100, 'dispatch': 100},
    explanation='Each lane kernel (hash4/8/16) is shown to compute, in every lane and for every block count, the single-input chain over that lane '
      '(loop invariant found by fixpoint over the term domain); each hash_many is shown, for every input count, to give output i the value of input i '
      'at offset + i*delta with the per-block flag schedule, by fixpoint over its batch loops.'),
 'C03': dict(tasks=p_kern.c03, level='other', technique=TECH_KERN, assumptions=A_KERN, floor={'compress': 20, 'hashn': 40, 'dispatch': 100},
    explanation='The same decision for the 64-bit-word family: Rust portable64 and the C baokeshed64 kernels against the 64-bit specification.'),
}

TECH_TREE = ('abstract interpretation of the LLVM IR of the hasher with a typestate monitor: compressions are primitives with an '
             'argument contract, the state of the tree (absorbed bytes, chunks closed, pending subtrees) is a ghost state in a '
             'linear-arithmetic domain, every entry state of the invariant is a start state and every exit must satisfy it again')
A_TREE = A_KERN[:1] + ['inputs are shorter than 2^63 bytes per call (a Rust slice) and 2^64 in all', 'Platform::compress and hash_many behave as C01/C02 show']

for _id, _t, _r, _f, _e in (
 ('C04', p_all.c04, {'offset', 'stack', 'panic', 'popcount', 'nowrap'}, {'offset': 500, 'stack': 20},
  'Every compression reached from an arbitrary hasher state, an arbitrary one-shot call or a recursive call is checked to be given the '
  'byte position of its chunk (ghost state) as a full 64-bit offset, and every push to have a free slot.'),
 ('C05', p_all.c05, {'mode'}, {'mode': 1000},
  'Every compression and every Output is checked to carry the key words and the mode flag of the entry point; entry points and constructors are '
  'checked to set them from the caller\'s key bytes.'),
 ('C06', p_all.c06, {'root', 'xof'}, {'root': 20},
  'Every compression is checked to have the root flag exactly when the ghost tree says the node is the whole input; every hash or output returned comes from it.'),
 ('C07', p_all.c07, {'framing'}, {'framing': 500},
  'Every compression is checked against the state of its chunk: start flag iff no block has been compressed, end flag iff last, length 64 unless last, zero padding; parents against the parent framing.'),
 ('C08', p_all.c08, {'absorb', 'tree', 'framing', 'offset', 'root', 'panic'}, {'absorb': 500},
  'Each update from each shape of hasher state, for every piece length at once, is shown to absorb exactly the bytes of the piece, in order (the message is a symbolic region and each absorbed byte range has to continue the previous one), and to end in the invariant again.'),
 ('C09', p_all.c09, {'tree', 'root', 'absorb', 'stack', 'offset', 'framing', 'popcount'}, {'tree': 500},
  'Chunk ranges, merges (stack length against number of one bits of the chunk count), fold at the end, and the one-shot recursion for every power of two and SIMD degree are checked against the left-full tree.'),
 ('C11', p_all.c11, {'xof', 'mode', 'offset', 'root'}, {'xof': 50},
  'Output::read, Output::to_hash, Hasher::finalize and the six one-shot functions are checked to compress the same root with the same fields, the position advancing by 64 from zero.'),
 ('C16', p_all.c16, {'bounds', 'frame', 'panic', 'uninit', 'stack'}, {'bounds': 100000, 'frame': 5000},
  'Every load and store of every kernel, of the platform dispatchers, of the Rust tree code and of the C hasher is an obligation: the object it is '
  'meant for is known from the pointer\'s provenance and the byte range is shown to lie inside it, for every number of inputs, blocks and bytes; '
  'stores are allowed only to the outputs and local objects; no panic edge is reachable.'),
):
    PROPS[_id] = dict(tasks=_t, level='other', technique=TECH_TREE, assumptions=A_TREE, rules=_r, floor=_f, explanation=_e)

TECH_VAL = ('abstract interpretation of the LLVM IR of the public value functions over a term domain, with the reader, writer and formatter '
            'as protocol automata (typestate) and the bytes of the value as symbols')
PROPS['C10'] = dict(tasks=p_all.c10, level='other', technique=TECH_TREE + '; effect and type-ownership rules for clones', assumptions=A_TREE,
    rules={'readonly', 'clone', 'owned', 'xof'}, floor={'readonly': 100, 'clone': 10, 'owned': 10},
    explanation='Finalizing (Rust and C) is interpreted from every shape of hasher state with every store checked not to touch the hasher, and its result is a function of '
      'that state; the derived clones are shown to copy each field of the structures; the structures contain no pointer, cell or reference.')
PROPS['C14'] = dict(tasks=p_val.c14, level='other', technique=TECH_VAL + ': non-interference by showing the value is never read and no pointer to it reaches the formatter',
    assumptions=A_KERN[:1] + ['core::fmt prints only what it is handed'], floor={'debug': 4},
    explanation='The Debug implementations of Hasher and Output are interpreted for any formatter state: no load touches the value and no argument or argument '
      'array handed to the formatting machinery holds a pointer into it, so the text cannot depend on it.')
PROPS['C17'] = dict(tasks=p_val.c17, level='other', technique=TECH_VAL, assumptions=A_KERN[:1] + ['Read::read returns at most the length of the buffer', 'Write::write_all writes all bytes or fails (its documented contract)'],
    floor={'copy': 20, 'write': 10},
    explanation='copy_wide is interpreted with reader and writer as automata that may return any byte count, end of input, interruption or other error at every call; '
      'the loop invariant over all call sequences shows each byte range read is written once before the next read, the total is the sum, interruptions are retried and all other errors returned.')
PROPS['C23'] = dict(tasks=p_val.c23, level='other', technique=TECH_VAL + '; digits decided by tabulating the one-byte term', assumptions=A_KERN[:1] + ['core::fmt and arrayvec display a string as its bytes'],
    floor={'hex': 65, 'convert': 4, 'equal': 4, 'show': 65},
    explanation='For symbolic hash bytes: conversions return the same 32 terms in order, to_hex returns 64 digit terms each equal to the right half byte, equality returns the '
      'canonical all-bytes-equal term, and debug printing emits the 64 digits in order.')

PROPS['C24'] = dict(tasks=p_ffi.c24, level='other', technique='query over the type-checked program: Rust foreign declarations, structures and constants (rustdoc JSON, LLVM type metadata) against the C definitions (DWARF of the C build)',
    assumptions=['the platform C ABI passes integers and pointers of equal class and width alike'], rules={'ffi-name', 'ffi-sig', 'ffi-order', 'ffi-struct', 'ffi-const', 'unproved'},
    floor={'ffi-name': 20, 'ffi-sig': 200, 'ffi-order': 150, 'ffi-struct': 60, 'ffi-const': 10},
    explanation='Each foreign function declared in src/c.rs and src/c64.rs is matched by name with the C definition it links to and compared argument by argument (class, width, pointee, name order) and in its return type; '
      'each repr(C) structure is compared leaf field by leaf field (offset, size, signedness) with the C structure; shared constants are folded by both compilers and compared.')

PROPS['C25'] = dict(tasks=p_eff.c25, level='other', technique='effect analysis over the call and reference graph of the linked LLVM IR (allowed foreign functions, mutable globals, impure instructions), with the abstract interpretation of the hasher showing no uninitialised read and no store outside the outputs',
    assumptions=A_TREE + ['core, alloc and the memory functions have no hidden state that reaches a result'], rules={'uninit', 'frame', 'effect-code', 'effect-call', 'effect-global', 'effect-detect'},
    floor={'effect-code': 1000, 'effect-call': 30, 'effect-global': 100, 'frame': 500},
    explanation='Everything reachable from the public Rust API and from the C hasher in each build configuration is enumerated: no function reads or writes a mutable global other than the processor-feature cache, calls anything but the effect-free '
      'language libraries and memory functions, runs inline assembly with a body, or uses volatile, atomic, clock or random instructions. The interpretation of the tree code shows each value read was written before and that stores go to outputs and locals only.')

PROPS['C12'] = dict(tasks=p_ray.c12, level='other', technique='abstract interpretation of the recursion in the build with threads, with an access log of the two operands of each rayon join compared for conflicts (non-interference of forked tasks); '
      'effect analysis of everything reachable; function-by-function comparison of the LLVM IR of the two builds',
    assumptions=A_TREE + ['rayon::join runs both closures to completion, once each, and returns their results in order'],
    rules={'disjoint', 'same-code', 'effect-code', 'effect-call', 'effect-global', 'tree', 'absorb', 'offset', 'mode', 'platform', 'framing', 'root'},
    floor={'disjoint': 5000, 'same-code': 100, 'effect-code': 500, 'effect-global': 100, 'tree': 5000},
    explanation='hash_recurse and hash_internal are interpreted from the IR of both builds. In the build with threads the closures given to rayon::join are interpreted one after the other with every access logged: no byte written by one may be touched by the other, '
      'for every input length and SIMD degree, and the tree built is the same as without threads. Nothing reachable uses mutable globals, atomics or other foreign functions than the join; every other function of the crate has the same code in both builds.')

PROPS['C13'] = dict(tasks=p_ct.c13, level='other', technique='information-flow (taint) analysis on the symbolic values of the abstract interpretation: every branch, select and switch condition, address and copy length is checked to contain no secret value',
    assumptions=A_TREE[:1] + ['the compiler back end keeps branch-free code branch-free; the processor runs additions, rotations, shifts and vector operations in constant time'],
    rules={'ct', 'equal'}, floor={'ct': 50000, 'equal': 4},
    explanation='The kernels, dispatchers, Rust tree code, C hasher and hash comparison are interpreted with every branch condition, select condition, switch value, load and store address and copy length recorded. '
      'Each is checked to contain no message byte, key word, chaining value, buffered byte, stack entry, hash byte or compression result, followed through values joined at loop heads; symbols count as secret unless they are named lengths, positions, counters, flags or the platform.')
PROPS['C15'] = dict(tasks=p_cpu.c15, level='other', technique='interprocedural query over the call graph of the LLVM IR for edges into code compiled for more CPU features, abstract interpretation of the functions at those edges and of Platform::detect, and a provenance rule for '
      'platform values in the abstract interpretation of the hasher',
    assumptions=A_TREE[:1] + ['is_x86_feature_detected reports what the CPU supports; a feature check implies the features it builds on (avx2 implies sse4.1)', 'the build script passes to each C routine file the compiler flags of its instruction set (the analysis compiles with the same flags)'],
    rules={'feature', 'detect', 'platform', 'scan'}, floor={'feature': 200, 'detect': 3, 'platform': 1000, 'scan': 200},
    explanation='All call edges of the library into functions compiled for more CPU features than their caller are enumerated. Each calling function is interpreted for every platform value: on each path to such a call the platform must be one that guarantees the features. '
      'What a platform value guarantees is computed from Platform::detect (features checked successfully on all paths returning it). Platform values in hashers, outputs, one-shot calls and recursion are shown to be the detected one or the portable one. '
      'In C, the functions called by each build configuration are compared with the instruction sets it enables.')

TECH_BIN = ('abstract interpretation of the whole main function of the tool (LLVM IR) with contracts at the library boundary and a typestate '
            'monitor for inputs, failures, key, map and printed digits; loops by fixpoint over a linear-arithmetic domain')
A_BIN = A_KERN[:1] + ['docopt parses the declared options and exits on a bad command line; hex::decode, std::fs, memmap and anyhow do what they document',
    'the hashing API behaves as C01-C17 show; Hash::to_hex as C23 shows; copying as C17 shows']
for _id, _r, _f, _e in (
 ('C18', 'mode', 1500, 'At every call of a hashing function: its mode is that of the options, its input is the map or the stream of the input to be processed next (by position in the list), or standard input exactly where the '
   'list is empty or the entry is "-", and it absorbs that whole map or copies that whole stream once; readers defined by the tool pass the whole buffer through.'),
 ('C19', 'error', 3000, 'Every library call that can fail is followed with both outcomes; a failed input may only lead to a report, no digits may be printed for it, later inputs are still processed, and every end of the program with success is reached only with all inputs hashed and printed, '
   'every end with failure only after a failure.'),
 ('C20', 'length', 10000, 'The number of digits printed, the blocks read and the position in the output stream are ghost counters in 128-bit arithmetic; each print must give the next digits, and each line must end at exactly twice the requested length, for all 64-bit lengths.'),
 ('C21', 'key', 1500, 'Every use of a key is on a path where the decoded length is 32 and the 32 bytes are the decoded ones in order; decoding failures and other lengths are followed to the end of the program, which has to fail with nothing hashed.'),
 ('C22', 'mmap', 400, 'Every map is read-only, starts at zero, and covers exactly the size that was read from the same file, on a path where the file is known to be regular and the size to lie in 1..isize::MAX.'),
):
    PROPS[_id] = dict(tasks=p_bin.c_bin, level='other', technique=TECH_BIN, assumptions=A_BIN, rules={_r}, floor={_r: _f}, explanation=_e)

NOT_APPLICABLE = {
 'C26': 'collision, preimage and PRF security of the construction are cryptanalytic claims about the algorithm; no static analysis of this source can establish or refute them',
 'C27': 'throughput relative to other implementations depends on the machine and the optimiser; it is measured, not decided from source',
}
