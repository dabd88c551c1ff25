#!/usr/bin/env python3
"""Source of truth for properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Every 32-bit compression routine computes the one specified function",
     "For every chaining value, 64-byte block, block length, 64-bit offset and flag byte, the portable and SSE4.1 Rust routines, the portable, SSE4.1 and AVX-512 C routines, the stand-alone reference implementation and the Python port compute the same compression: seven rounds over little-endian message words with the published constants, message schedule and rotation amounts, and the offset split into its low and high halves. The extended 64-byte form agrees with the chaining-value form on its first 32 bytes and feeds the input chaining value forward into the rest.",
     ["inputs", "configurations"], "all values of all five arguments, all shipped implementations, including ones the test host cannot execute",
     "tests compare a few blocks on the instruction sets the host happens to have; a wrong message index, rotation or offset half can agree on sampled arguments, and AVX-512 code is never run on a host without it",
     ["src/portable.rs", "src/sse41.rs", "c/baokeshed_portable.c", "c/baokeshed_sse41.c", "c/baokeshed_avx512.c", "reference_impl/reference_impl.rs", "python/baokeshed.py"],
     [("portable compress / compress_xof", "src/portable.rs"), ("SSE4.1 compress / compress_xof", "src/sse41.rs"),
      ("compress_portable, compress_sse41, compress_avx512", "c/*.c"), ("reference compress", "reference_impl/reference_impl.rs"), ("compress", "python/baokeshed.py")])

prop("C02", "Hashing a batch of inputs equals hashing each input alone (32-bit family)",
     "For any number of equal-length inputs, starting offset, offset step, key and flags, a batched hash writes for input i exactly the chaining value obtained by compressing that input's blocks one after another with offset start + i*step, the start flags on the first block only, the end flags on the last block only, and the common flags on every block. This holds for every batch width and for every left-over count, in Rust (portable, SSE4.1, AVX2) and in C (portable, SSE4.1, AVX2, AVX-512, NEON).",
     ["inputs", "configurations"], "all batch sizes, block counts, offsets (including steps that carry past 2^32 inside one batch), keys and flag bytes; all instruction sets including ones the host lacks",
     "tests use a handful of small batches and offsets on the host's instruction sets; a lane mixed up only in the high half of an offset, at an unusual left-over count or in AVX-512/NEON code goes unseen",
     ["src/portable.rs", "src/sse41.rs", "src/avx2.rs", "c/baokeshed_portable.c", "c/baokeshed_sse41.c", "c/baokeshed_avx2.c", "c/baokeshed_avx512.c", "c/baokeshed_neon.c"],
     [("hash_many dispatch loops", "src/*.rs, c/*.c"), ("hash4 / hash8 / hash16 lane kernels", "src/sse41.rs, src/avx2.rs, c/*.c"), ("hash1 / hash_one", "src/*.rs, c/*.c")])

prop("C03", "The 64-bit-word family computes one function in every implementation",
     "For all arguments, the 64-bit-word compression and its extended form compute eight rounds over little-endian 64-bit words with that family's constants, schedule and rotations, in Rust and in every C implementation (portable, AVX2, AVX-512). Every batched routine of the family (Rust portable; C portable, SSE4.1, AVX2, AVX-512, NEON) gives each input the same result as hashing that input alone at its own offset, with start and end flags only on the first and last block.",
     ["inputs", "configurations"], "all argument values, batch sizes and block counts; all instruction sets",
     "the existing tests compare few inputs and only on instruction sets the host has; AVX-512 and NEON variants never run",
     ["src/portable64.rs", "c64/baokeshed64_portable.c", "c64/baokeshed64_sse41.c", "c64/baokeshed64_avx2.c", "c64/baokeshed64_avx512.c", "c64/baokeshed64_neon.c", "c64/baokeshed64_impl.h"],
     [("compress, compress_xof, hash1, hash_many", "src/portable64.rs"), ("baokeshed64_* kernels", "c64/*.c")])

prop("C04", "Input positions keep all 64 bits and the tree stack fits any input",
     "The offset given to the compressions of a chunk is that chunk's true byte position in the whole input, as a full 64-bit quantity, in the one-shot functions, in the Rust incremental hasher and in the C hasher: it advances by exactly one chunk length per chunk, is never narrowed, reused or reset, and all compressions of a chunk use the same value. The subtree stacks have room for every subtree an input of up to 2^64 bytes can leave pending.",
     ["inputs", "histories"], "every input length up to 2^64 bytes and every way of splitting it into updates",
     "no test can feed 4 GiB or more, where a narrowed offset or a short stack first shows",
     ["src/lib.rs", "src/platform.rs", "c/baokeshed.c", "c/baokeshed_impl.h", "src/c.rs"],
     [("hash_recurse / hash_chunks_parallel offset arithmetic", "src/lib.rs"), ("ChunkState.offset and Hasher::update", "src/lib.rs"), ("hasher_update / chunk_state", "c/baokeshed.c")],
     [("ChunkState.offset", "byte position of the chunk being filled", "src/lib.rs, c/baokeshed.c"), ("MAX_DEPTH", "capacity of the subtree stack", "src/lib.rs, c/baokeshed_impl.h, src/c.rs")])

prop("C05", "The mode flag and the key reach every compression of every node",
     "Plain hashing uses the fixed initial constants and no mode flag; keyed hashing and key derivation use the caller's 32-byte key, read as little-endian words, with the keyed flag or the derivation flag respectively. In each mode every chunk block, every parent node and every output block, in the one-shot and the incremental API alike, is compressed with that mode's flag set and the other mode's flag clear, and every chunk and parent starts from that mode's key.",
     ["inputs", "histories"], "all inputs, keys and update sequences, in all three modes and all entry points",
     "a mode flag or key dropped on one rarely taken path (one tree level, one left-over case, one platform arm) changes no sampled vector",
     ["src/lib.rs", "src/platform.rs", "c/baokeshed.c"],
     [("hash/keyed_hash/derive_key and Hasher constructors", "src/lib.rs"), ("flags plumbing through tree code", "src/lib.rs"), ("hasher_init / chunk_state / hash_one_parent", "c/baokeshed.c")])

prop("C06", "The root flag marks exactly the node whose output is returned",
     "Every hash or extensible output handed to a caller comes from a compression with the root flag set. No interior node, that is, no chunk or parent whose chaining value is used as input to another node or kept on the subtree stack, is ever compressed with the root flag; this holds for the one-shot functions, the Rust incremental hasher and the C hasher.",
     ["inputs", "histories"], "all input lengths, update sequences and finalization points",
     "root confusion on a rare shape (a length exactly at a subtree boundary, a finalize in the middle of a stream) yields plausible digests that no sampled vector contradicts",
     ["src/lib.rs", "c/baokeshed.c"],
     [("hash_internal, condense_root, hash_recurse", "src/lib.rs"), ("Hasher::finalize_xof, push_chunk_hash, merge_parent", "src/lib.rs"), ("hasher_finalize, hasher_push_chunk_hash", "c/baokeshed.c")])

prop("C07", "Blocks of a chunk and parent nodes are framed correctly",
     "In every chunk the first block and only the first carries the chunk-start flag, the last and only the last carries the chunk-end flag, all blocks but the last are 64 bytes long, and the last carries its true length with the unused bytes zero; the empty input is one zero-length block with both flags. A parent node is one full block holding the left child's hash then the right child's hash, starting from the key, with the parent flag, length 64, offset zero and neither chunk flag.",
     ["inputs", "histories"], "all chunk lengths 0..2048 and all ways of filling the block buffer",
     "whether a stale byte stays behind in the padding or a flag is wrong depends on the exact sequence of partial updates, of which tests sample few",
     ["src/lib.rs", "c/baokeshed.c", "reference_impl/reference_impl.rs"],
     [("hash_one_chunk, ChunkState::{update,fill_buf,finalize,reset}", "src/lib.rs"), ("hash_one_parent, hash_parents_parallel, condense_root", "src/lib.rs"), ("chunk_state_update, chunk_state_finalize, hash_one_parent", "c/baokeshed.c")],
     [("buf, buf_len, count", "partial block, its fill level, bytes already compressed", "src/lib.rs, c/baokeshed.c")])

prop("C08", "Incremental hashing absorbs every input byte once and in order",
     "However an input is cut into update calls, including empty and one-byte pieces and pieces that end exactly on block or chunk boundaries, every byte of every piece is absorbed exactly once and at its own position: copied into the block buffer right behind the bytes already there, compressed straight from the input, or handed to the batched chunk hash. A chunk is closed only when it holds exactly one chunk length of bytes and more input follows, and the last chunk is never closed early, so that the state after any sequence of updates depends only on the concatenated bytes; this holds in Rust and C.",
     ["histories", "inputs"], "all sequences of update calls of all lengths",
     "the split points that expose a lost, doubled or misplaced byte are a combinatorial family of which the tests try a few uniform ones",
     ["src/lib.rs", "c/baokeshed.c"],
     [("ChunkState::update and fill_buf", "src/lib.rs"), ("Hasher::update", "src/lib.rs"), ("chunk_state_update, hasher_update", "c/baokeshed.c")],
     [("buf_len, count", "bytes in buffer / already compressed in this chunk", "src/lib.rs, c/baokeshed.c")])

prop("C09", "One-shot and incremental hashing build the same tree for every length",
     "Chunk boundaries are every 2048 bytes; each left subtree is the largest power of two of chunks that leaves at least one byte for the right, and each parent combines its left child's hash and its right child's hash in that order. The one-shot recursion and the incremental stack (merging two pending subtrees exactly when the count of chunks before the current one calls for it) both build this tree for every input length and every update sequence, on every batch width.",
     ["inputs", "histories", "configurations"], "all input lengths, all update splits, all SIMD widths 1, 4, 8, 16",
     "tests stop at a few dozen chunks and one SIMD width; a wrong merge or split point at a larger or odd-shaped count is invisible to them",
     ["src/lib.rs", "c/baokeshed.c"],
     [("left_len, hash_recurse, hash_parents_parallel, condense_root", "src/lib.rs"), ("needs_merge, merge_parent, push_chunk_hash, finalize_xof", "src/lib.rs"), ("hasher_needs_merge, hasher_merge_parent, hasher_finalize", "c/baokeshed.c")],
     [("subtree_hashes", "stack of pending subtree roots", "src/lib.rs, c/baokeshed.c")])

prop("C10", "Finalizing never changes the hasher, and clones are independent",
     "Finalizing an incremental hasher leaves its state untouched, so finalizing twice gives the same result and further updates continue as if it had not been finalized; a clone of a hasher or of an output carries the complete state and shares nothing with the original.",
     ["histories"], "every interleaving of updates, finalizations and clones",
     "a mutation hidden in finalization, or a field missed by a hand-written clone, shows only in particular call sequences",
     ["src/lib.rs", "c/baokeshed.c"],
     [("Hasher::finalize / finalize_xof, ChunkState::finalize", "src/lib.rs"), ("Clone for Hasher, ChunkState, Output", "src/lib.rs"), ("hasher_finalize, chunk_state_finalize", "c/baokeshed.c")])

prop("C11", "Extensible output is one stream that starts with the default hash",
     "Successive reads of an extensible output return consecutive 64-byte blocks of one stream: the n-th read compresses the same root chaining value, block, block length and flags at output offset 64*n, starting from zero, without changing anything but the position. The default 32-byte hash of any input in any mode is the first 32 bytes of that stream, and each function returning a hash finalizes the same root as its extensible counterpart.",
     ["inputs", "histories"], "all roots and all numbers of reads, in all modes",
     "tests read at most a few blocks and cannot reach positions past 2^32, and a state change between reads may cancel out on sampled inputs",
     ["src/lib.rs"],
     [("Output::read, Output::to_hash", "src/lib.rs"), ("hash/hash_xof pairs and Hasher::finalize", "src/lib.rs")],
     [("Output.offset", "position of the next output block", "src/lib.rs")])

prop("C12", "Results do not depend on threads or scheduling",
     "With multithreading on or off, the two halves of a recursive step read only shared immutable data and write disjoint output ranges, no state is shared between threads through statics, interior mutability or raw pointers, and the same values reach the same computations in both builds, so no schedule can change a hash.",
     ["schedules", "configurations"], "all thread schedules and work-stealing decisions, with and without the threading feature",
     "tests observe a few schedules; a data race or an order dependence need not show in any of them",
     ["src/lib.rs", "src/platform.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs"],
     [("join and its call in hash_recurse", "src/lib.rs"), ("split_at_mut of the child array", "src/lib.rs")])

prop("C13", "No branch or memory address depends on key or message bytes",
     "From the hashing entry points (the one-shot functions, Hasher, Output and their C counterparts) down to the kernels, control flow and memory addresses depend only on lengths, positions, flags and the platform, never on the contents of the key, the message, chaining values or hashes, in the Rust library and in the C code. Comparing two hashes examines all 32 bytes whatever their contents. (Turning a hash into hexadecimal text is output, not hashing, and is outside this.)",
     ["inputs"], "all keys, messages and hashes, all functions on the paths from the public API",
     "timing dependence on secret data leaves results unchanged, so no functional test can notice it",
     ["src/lib.rs", "src/platform.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs", "c/baokeshed.c", "c/baokeshed_portable.c"],
     [("PartialEq for Hash", "src/lib.rs"), ("all kernels", "src/*.rs, c/*.c")])

prop("C14", "Debug formatting reveals nothing secret",
     "Formatting a hasher or an extensible output for debugging prints a fixed text that does not depend on its contents: no key, chaining value, buffered input, pending subtree hash or position can appear, in any formatting mode. Only a finished hash value prints its bytes.",
     ["inputs", "histories"], "all states of the formatted values",
     "tests do not inspect debug output, and a leak added by a derive or an extra field changes no result",
     ["src/lib.rs"],
     [("Debug for Output, Hasher, Hash", "src/lib.rs")])

prop("C15", "SIMD code runs only where the CPU was found to support it",
     "Every instruction-set-specific routine reachable from the public hashing API runs only for a platform value that was created after a successful run-time check of all the CPU features that routine and everything it calls need; every other machine takes the portable code. The C code selects a routine only in builds that enable the matching instruction set.",
     ["configurations"], "all CPUs and feature sets",
     "the test host supports all the features, so a missing or wrong check is never exercised",
     ["src/platform.rs", "src/sse41.rs", "src/avx2.rs", "src/lib.rs"],
     [("Platform::detect and the dispatch methods", "src/platform.rs"), ("target_feature functions", "src/sse41.rs, src/avx2.rs")])

prop("C16", "Unsafe Rust and the C kernels stay inside the buffers they are given",
     "Every load and store made through raw pointers in the Rust SIMD code and in the C kernels, and every copy into the C hasher's buffers, lies inside the key, block, input, output or local buffer it is meant for, for every number of inputs and blocks; input memory is never written.",
     ["inputs", "configurations"], "all batch sizes, block counts and buffer fill levels; all instruction sets",
     "an out-of-bounds access of a few bytes usually reads or overwrites harmless neighbours and leaves results correct on sampled inputs",
     ["src/sse41.rs", "src/avx2.rs", "c/baokeshed.c", "c/baokeshed_sse41.c", "c/baokeshed_avx2.c", "c/baokeshed_avx512.c", "c/baokeshed_neon.c", "c/baokeshed_portable.c"],
     [("loadu/storeu helpers and kernels", "src/sse41.rs, src/avx2.rs, c/*.c"), ("memcpy into chunk_state.buf and subtree_hashes", "c/baokeshed.c")])

prop("C17", "Copying from a reader delivers every byte once and reports failures",
     "The wide copy helper hands the writer exactly the bytes the reader returned, each once and in order, and returns their total; an interrupted read is retried without loss, every other read or write error is returned to the caller, and it stops only at end of input. Writing to a hasher through the standard writer trait absorbs the whole slice, reports its full length, and flushing succeeds without effect.",
     ["histories", "fault_sequences"], "all sequences of short reads, interruptions and errors from the reader and the writer",
     "the only test copies from a memory slice that never reads short, is never interrupted and never fails",
     ["src/copy.rs", "src/lib.rs"],
     [("copy_wide", "src/copy.rs"), ("io::Write for Hasher", "src/lib.rs")])

prop("C18", "The command-line tool hashes every input the same way in each mode",
     "For each input the tool applies exactly one of plain hashing, keyed hashing or key derivation, as the options ask, with the supplied key, whether the input comes from a memory-mapped file, a stream or standard input. The whole input is hashed, from its first byte to its end, and each named input is processed exactly once, in order.",
     ["inputs", "configurations"], "all option combinations, input sources and file sizes",
     "the tests run the tool on a few small inputs and do not cover each mode on each input path",
     ["baokeshed_bin/src/main.rs"],
     [("hash_one, hash_file/hash_reader paths, main", "baokeshed_bin/src/main.rs")])

prop("C19", "The command-line tool never turns a failure into success",
     "When an input cannot be opened, mapped or read, the tool reports it, still processes the remaining inputs, and exits with a nonzero status at the end; it never prints a hash for an input it could not read in full, and it exits with zero only if every input was hashed and printed.",
     ["fault_sequences"], "every failing system call on any of the inputs, in any position",
     "tests do not inject failures, so a swallowed error or a lost failure flag is not seen",
     ["baokeshed_bin/src/main.rs"],
     [("error handling in main and hash_one", "baokeshed_bin/src/main.rs")])

prop("C20", "The command-line tool prints exactly the requested number of bytes",
     "For every output length the tool accepts, it prints exactly that many bytes of the extensible output as lowercase hexadecimal, two digits per byte in stream order, the default being 32 bytes; an invalid length is rejected rather than replaced, truncated or wrapped.",
     ["inputs"], "all 64-bit lengths",
     "tests try a couple of small lengths; arithmetic that wraps or a block boundary that drops bytes shows only at others",
     ["baokeshed_bin/src/main.rs"],
     [("print_hex / --length handling", "baokeshed_bin/src/main.rs")])

prop("C21", "The command-line tool accepts only a key of exactly 32 bytes",
     "Keys are read as hexadecimal, and a key that is not valid hexadecimal or not exactly 32 bytes long stops the tool with an error before anything is hashed; it is never padded, truncated or replaced. The bytes used as key are exactly the decoded ones, in order.",
     ["inputs"], "all key strings",
     "tests try only well-formed keys",
     ["baokeshed_bin/src/main.rs"],
     [("key parsing", "baokeshed_bin/src/main.rs")])

prop("C22", "A file is memory-mapped only when its whole content can be mapped",
     "The tool maps an input only if it is a regular, non-empty file whose size fits the address space, and maps it read-only, from offset zero and in exactly the size that was checked; everything else (pipes, devices, terminals, empty files) is read as a stream to the end.",
     ["inputs", "configurations"], "all kinds and sizes of inputs",
     "tests use ordinary small files",
     ["baokeshed_bin/src/main.rs"],
     [("maybe_memmap_input", "baokeshed_bin/src/main.rs")])

prop("C23", "Hash values convert, compare and print without losing a byte",
     "Converting a hash to and from its 32 bytes preserves every byte in order, its hexadecimal form is the 64 lowercase digits of those bytes in order, high half-byte first, and debug printing shows that form. Two hashes are equal exactly when all 32 bytes are equal, and a hash equals a byte array exactly when it holds those bytes.",
     ["inputs"], "all 2^256 hash values",
     "tests look at a few values; a swapped, masked or skipped byte may not matter for them",
     ["src/lib.rs"],
     [("Hash conversions, to_hex, PartialEq, Debug", "src/lib.rs")])

prop("C24", "The Rust view of the C code matches the C definitions",
     "Every foreign function declared in Rust exists in C with the same name, number, order, width and pointer-ness of arguments and the same return type, and every structure the Rust side allocates for the C code has the same size, alignment and field offsets as the C structure; shared constants (block, chunk, key and output lengths, stack depth, flag values) are equal on both sides.",
     ["configurations"], "all declared foreign functions and shared structures, in all feature combinations",
     "a mismatch is undefined behaviour that may go unnoticed: registers usually carry the right bits, and an overrun of a too small structure happens only for rare inputs",
     ["src/c.rs", "src/c64.rs", "c/baokeshed_impl.h", "c/baokeshed.c", "c64/baokeshed64_impl.h"],
     [("extern blocks and repr(C) structs", "src/c.rs, src/c64.rs"), ("declarations and typedefs", "c/*.h, c/*.c, c64/*.h")])

prop("C25", "A hash is a function of mode, key and input only",
     "No hashing entry point reads or writes global mutable state, the environment, the clock, randomness, files or addresses-as-values, and nothing but CPU feature detection influences which code runs; padding and scratch memory is initialised before it is used. Two calls with equal mode, key and input therefore return equal hashes.",
     ["histories", "configurations"], "all call histories, threads and environments",
     "dependence on leftover memory, call order or environment appears only in the histories nobody tried",
     ["src/lib.rs", "src/platform.rs", "src/portable.rs", "src/sse41.rs", "src/avx2.rs", "c/baokeshed.c"],
     [("call graph of the public API", "src/lib.rs"), ("globals", "src/*.rs, c/*.c")])

prop("C26", "The default hash resists collisions, preimages and length extension",
     "No two distinct inputs (in any modes) with equal hashes, no preimage of a given hash, and no extension of a hash to that of a longer input can be found feasibly.",
     ["inputs"], "all inputs and all adversaries",
     "a cryptographic hardness claim, not a property of any finite set of runs",
     ["src/lib.rs", "src/portable.rs"], [("compression function and tree mode", "src/lib.rs")])

prop("C27", "Throughput grows with the SIMD width and the number of cores",
     "Large one-shot inputs use the widest available SIMD batches on all cores, and incremental updates of at least a wide buffer fill all SIMD lanes.",
     ["inputs", "configurations", "schedules"], "all input sizes, machines and schedules",
     "performance is a runtime quantity that unit tests do not measure",
     ["src/lib.rs", "src/platform.rs", "src/copy.rs"], [("hash_recurse, Hasher::update, WIDE_BUF_LEN", "src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
