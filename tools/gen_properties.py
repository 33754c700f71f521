#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

KERN = ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/cgemm_common.rs"]

prop("C01", "C <- alpha*A*B + beta*C is exact for every shape, element type and CPU path",
 "For all four element types (f32, f64 and complex f32/f64), every m, k, n and every supported CPU path and build mode, a call computes exactly alpha*A*B + beta*C whenever all intermediate values are representable. No row, column or depth index is skipped, repeated, truncated or mixed up, whatever the remainder of the dimensions against the internal tile, unroll and block sizes.",
 ["inputs", "configurations"],
 "all (m,k,n) up to tile/unroll remainders in every combination plus every block boundary +-1; 4 element types; kernels fma+avx2, fma, avx, sse2, portable; std / no_std; optimised and debug-assertion builds",
 "The tests use a few dozen shapes with A or B the identity or approximate comparison, mostly on one CPU path per run, and reach only a few combinations of remainders of m, n and k with kernels and build modes.",
 ["src/gemm.rs", "src/packing.rs", "src/util.rs", "src/loopmacros.rs"] + KERN,
 [("five-loop blocking", "src/gemm.rs gemm_loop / gemm_packed"), ("packing with zero padding of the remainder", "src/packing.rs pack_impl"),
  ("masked output for partial tiles", "src/gemm.rs masked_kernel, c_to_masked_ab_beta_c"), ("micro-kernels and their unrolling", "src/*_kernel.rs, src/loopmacros.rs")],
 ["contents of C after sgemm/dgemm/cgemm/zgemm"])

prop("C02", "The result does not depend on how A, B and C are laid out in memory",
 "For every combination of row and column strides - contiguous, padded, general, negative, and for A and B also zero or overlapping - and any element-aligned base address, the call reads and writes the element of each matrix at base + i*row_stride + j*col_stride, for every kernel and element type. Strides along an axis of extent one have no influence, and A and B may be the same memory.",
 ["inputs", "configurations"],
 "all combinations of a layout alphabet for A (16+), B (16+) and C (12+), all small base misalignments, for full and partial tiles, every kernel",
 "Tests use row-major/column-major and stride multipliers up to 2 with few combinations and almost no negative or zero strides; kernels have separate code paths for C with unit row stride, unit column stride and general strides, and packing has a fast path, so the paths multiply.",
 ["src/gemm.rs", "src/packing.rs"] + KERN,
 [("pack fast path for unit stride", "src/packing.rs"), ("row-major/column-major/general C write-back", "src/sgemm_kernel.rs kernel_x86_avx, src/dgemm_kernel.rs kernel_x86_avx"),
  ("swap of A and B panels for one C order", "src/sgemm_kernel.rs"), ("stride arithmetic", "src/ptr.rs, rawpointer")],
 ["contents of C", "memory around the elements of C"])

prop("C03", "alpha/beta semantics, including beta = 0, empty products and empty matrices",
 "If beta is zero (of either sign, or complex zero) the old contents of C have no influence on the result, even if they are NaN, infinite or uninitialised; otherwise each element becomes beta times its old value plus alpha times the product, with beta applied exactly once whatever the depth k. If k is 0 the call computes beta*C (zeroing C for beta = 0), if m or n is 0 it touches nothing, and operands without elements are never dereferenced.",
 ["inputs", "configurations"],
 "alpha and beta over an alphabet with 0, -0, 1, -1, generic and complex values (all pairs); dimensions including 0 in every position and k across several depth blocks; old contents of C finite, NaN, infinite or all-bits garbage; every kernel",
 "Tests cover beta 0 with NaN-filled C for a handful of shapes on one CPU path, and never combine signed zeros, complex scalars with one zero part, empty dimensions, dangling pointers and several depth blocks.",
 ["src/gemm.rs", "src/kernel.rs"] + KERN,
 [("early return to C <- beta*C", "src/gemm.rs c_to_beta_c"), ("beta replaced by one after the first depth block", "src/gemm.rs LOOP 4"),
  ("beta == 0 branches", "kernels and c_to_masked_ab_beta_c")],
 ["contents of C"])

prop("C04", "Only the m x n elements of C are written; A and B are never modified",
 "A call writes no byte outside the m*n elements of C addressed by its strides: padding between rows, memory before, after and interleaved with C, and all bytes of A and B keep their values. This holds for every shape, C layout, kernel and number of threads, including partial tiles at the edges.",
 ["inputs", "configurations"],
 "all shapes around every tile edge x all C layouts (padded, strided, negative, interleaved) x kernels x 1-4 threads, with C placed flush against inaccessible pages on either side",
 "A few tests check that skipped elements of a strided C keep their value; none checks memory around C, interleaved layouts with every tile remainder, or the operands A and B.",
 ["src/gemm.rs"] + KERN,
 [("masked kernel only copies rows < mr, cols < nr", "src/gemm.rs c_to_masked_ab_beta_c"), ("full-tile kernels write MR x NR", "src/*_kernel.rs"),
  ("range chunks never exceed the dimension", "src/util.rs range_chunk")],
 ["every byte of the arenas holding A, B and C before and after the call"])

prop("C05", "No access outside the operands or scratch, no dependence on uninitialised memory",
 "A call reads only elements of A and B (and of C when beta is not zero) and its own scratch memory: never a gap between elements, memory beyond an end of an operand, scratch beyond its allocated size, or memory at an alignment it was not promised. The result never depends on uninitialised memory, whether scratch contents or the old contents of C with beta = 0.",
 ["inputs", "configurations"],
 "all shapes around tile and unroll remainders x layouts x beta zero / non-zero x kernels, under byte-exact tracking of addressability and definedness, and with scratch from an allocator that returns minimally aligned junk between inaccessible pages",
 "Tests run natively on ordinary heap memory, where reading past an operand, past the packed panel or an uninitialised lane goes unnoticed; nothing observes reads.",
 ["src/gemm.rs", "src/packing.rs", "src/aligned_alloc.rs"] + KERN,
 [("scratch size rounded up to the tile", "src/gemm.rs make_packing_buffer"), ("kernels preload the next panel except at the last iteration", "src/sgemm_kernel.rs, src/dgemm_kernel.rs"),
  ("zero padding of partial panels", "src/packing.rs"), ("alignment of scratch", "src/aligned_alloc.rs, align_ptr")],
 ["addressability/definedness of every byte touched"])

prop("C06", "Cache-block sizes and block boundaries never affect the result",
 "For every admissible setting of the compile-time block sizes, per element type, and every position of a matrix dimension relative to them - below, equal, just above, several blocks with any remainder - the result equals the one computed without blocking. In particular beta is applied exactly once and every depth block is accumulated exactly once.",
 ["configurations", "inputs"],
 "builds with several tiny and odd block sizes per element type x all dimensions up to three blocks, in full cross product; default block sizes with every boundary +-1",
 "Tests run with the default blocks (256 deep, 64 x 1024) and at most a couple of sizes cross one boundary; interactions of two or three partial blocks with partial tiles are not reached.",
 ["src/gemm.rs", "src/util.rs", "src/archparam.rs", "src/archparam_defaults.rs", "src/kernel.rs"],
 [("range_chunk iteration", "src/util.rs"), ("offsets knc*l5, kkc*l4, kmc*l3", "src/gemm.rs"), ("beta replaced by one after the first depth block", "src/gemm.rs")],
 ["contents of C"])

prop("C07", "The number of threads never changes the result",
 "For every shape and every thread limit, the contents of C after a call are bit-for-bit those produced with a single thread. The work is divided so that every part of C is computed exactly once, also when there are fewer blocks or column panels than threads or when the last part is short or empty.",
 ["configurations", "inputs"],
 "thread limits 1, 2, 3, 4 and above x all shapes that split the row blocks and column panels into 1..several chunks with every remainder x element types x block sizes",
 "One test process has one thread limit, fixed at first use, and the test matrices reach two or three splits; tests compare approximately and never the same input under different limits.",
 ["src/threading.rs", "src/gemm.rs", "src/util.rs"],
 [("heuristic for thread counts of loops 3 and 2", "src/threading.rs LoopThreadConfig::new_impl"), ("partition of chunks", "src/util.rs RangeChunk::part"),
  ("one packing area per row-block thread", "src/gemm.rs thread_local(app)")],
 ["contents of C"])

prop("C08", "A multithreaded call is race-free and complete under every schedule",
 "Within one call that uses several threads, no two threads ever access the same memory without synchronisation where one writes, and under every interleaving of the threads the call terminates, returns only after all its writes to C are done, and yields the same result. Scratch areas and edge-tile buffers are never shared between threads working at the same time.",
 ["schedules"],
 "all interleavings at synchronisation operations up to a preemption bound of calls split over 2, 3 and 4 threads, with a happens-before check on every memory access of each interleaving",
 "A test run sees one arbitrary schedule; races on scratch or edge buffers need a specific overlap of two threads, and completion before return is only visible if a worker is delayed.",
 ["src/threading.rs", "src/gemm.rs", "src/ptr.rs", "src/util.rs"],
 [("fork-join on the thread tree", "src/threading.rs for_each"), ("scratch area per thread index", "src/gemm.rs gemm_loop"), ("thread-local edge-tile buffer", "src/gemm.rs MASK_BUF")],
 ["memory accesses and synchronisation operations of all threads", "contents of C at return"])

prop("C09", "Concurrent callers are independent, from the very first call on",
 "Any number of application threads may call the functions at the same time with distinct destinations (sharing A and B if they like), including when these are the first calls in the process: every call returns the result it would have returned alone, without data races and without deadlock. The shared worker threads are created exactly once.",
 ["schedules", "histories"],
 "all interleavings at synchronisation operations up to a preemption bound of 2-3 callers performing single- and multi-threaded calls, both from a cold start (initialisation race) and warm",
 "The tests call from one thread at a time per matrix, the initialisation race happens at most once per process under one schedule, and contention for busy worker threads is left to chance.",
 ["src/threading.rs", "src/gemm.rs"],
 [("lazy registry", "src/threading.rs REGISTRY"), ("thread tree: busy workers", "thread_tree ThreadTreeCtx::join"), ("thread-local edge-tile buffer", "src/gemm.rs MASK_BUF")],
 ["results of all calls", "threads created", "deadlock/livelock"])

prop("C10", "MATMUL_NUM_THREADS bounds the threads a call uses and bad values are harmless",
 "The environment variable limits how many threads take part in a call to its value, between 1 and 4; 1 means that only the calling thread ever computes, unset or empty means the number of physical CPUs (also limited to 4), and values that are not a number fall back to a single thread without failing. Within the limit, large enough products really are computed by several threads, and the limit is fixed at first use.",
 ["configurations", "inputs"],
 "all values from an alphabet of valid, boundary, empty and malformed strings x simulated physical CPU counts x products from tiny to large in each shape class; number of distinct threads executing computation observed",
 "The value is read once per process, the test-suite runs with at most two settings, and no test observes how many threads took part.",
 ["src/threading.rs"],
 [("parse and clamp", "src/threading.rs REGISTRY"), ("matrix-size heuristic", "src/threading.rs LoopThreadConfig::new_impl")],
 ["threads that execute kernel work", "threads created"],
 [("REGISTRY", "thread limit and pool, initialised once", "src/threading.rs")])

prop("C11", "Scratch memory is bounded, always released, and its failure is a clean abort",
 "Scratch memory requested by a call depends on the configured block sizes and not on how large the matrices are beyond them; it is released with the same size and alignment it was requested with before the call returns, so that repeated calls do not accumulate memory. If the allocator refuses, the process reports the allocation error and aborts without having accessed invalid memory and without having modified C; calls with an empty dimension allocate nothing.",
 ["inputs", "configurations", "fault_sequences"],
 "all shapes around the block sizes plus matrices far beyond them, four element types, 1-4 threads, block size settings; failure of every single allocation of a call",
 "The tests never observe the allocator: a wrong size or alignment on release, a leak, an oversized request or a missing null check has no effect on test results.",
 ["src/aligned_alloc.rs", "src/gemm.rs"],
 [("allocation, null check and matching release", "src/aligned_alloc.rs"), ("sizes clipped to block sizes", "src/gemm.rs make_packing_buffer")],
 ["every allocator request made during a call", "exit status on refusal"])

prop("C12", "Only instructions the CPU (or build) supports are executed",
 "For every combination of CPU features reported by the machine, a call executes only instructions of those features and still computes the right result; when features allow a faster path that path is taken (AVX on AVX machines, FMA on FMA machines). Builds without the standard library use special instructions only if they were enabled at compile time.",
 ["configurations"],
 "all combinations of reported avx/avx2/fma support (emulated CPUID), every element type, std and no_std builds, every executed instruction decoded",
 "Tests see one machine, which has all the features; the feature masking used by the tests replaces the detection itself, so the detection code is never tested on a smaller CPU.",
 ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/x86/mod.rs", "src/packing.rs"],
 [("runtime detection", "detect() in each *_kernel.rs, src/x86/mod.rs is_x86_feature_detected_"), ("target_feature functions", "kernel_target_* and pack_avx2")],
 ["instructions executed", "contents of C"])

prop("C13", "Infinities and NaNs reach exactly the elements that depend on them",
 "With non-zero alpha, a NaN or infinity in A makes exactly its row of C non-finite, one in B exactly its column, and one in C (beta non-zero) exactly its element; all other elements keep their exact values. For the real types the non-finite results are those of IEEE arithmetic (sign of infinity, NaN for inf*0 and inf-inf), so special values are neither lost nor spread through padding, edge tiles or leftover buffers.",
 ["inputs", "configurations"],
 "every position of one special value in A, B or C, and pairs of special values, x shapes around the tiles x value in {NaN, +inf, -inf} x zero/non-zero counterparts x kernels and layouts",
 "Tests only use finite inputs (NaN only in C to be overwritten); kernels compute on padded panels and shared buffers, where a special value can leak or be dropped.",
 ["src/gemm.rs", "src/packing.rs"] + KERN,
 [("padding lanes never stored", "src/gemm.rs c_to_masked_ab_beta_c"), ("no zero-skipping in kernels", "src/*_kernel.rs")],
 ["contents of C"])

prop("C14", "Calls are deterministic and leave nothing behind that affects later calls",
 "The result of a call is a function of its arguments only: any sequence of earlier calls in the same thread or others - other element types, shapes, special values, empty calls - leaves it bit-for-bit unchanged, and repeating a call repeats its result. Neither the address or contents of scratch memory nor leftover edge-tile buffers or the calling thread influence it.",
 ["histories"],
 "all call sequences up to length 3 (deeper in the thorough tier) over an alphabet of calls of all types, tile remainders, special values, thread counts and calling threads, compared with each call made first in a fresh process",
 "Tests make each call once from a fresh state and compare approximately; buffers that persist between calls (thread-local edge tile buffer, heap contents, worker threads) are exercised only in accidental order.",
 ["src/gemm.rs", "src/aligned_alloc.rs", "src/threading.rs"],
 [("edge-tile buffer fully overwritten before use", "src/gemm.rs masked_kernel"), ("packing overwrites all scratch that is read", "src/packing.rs")],
 ["contents of C after each call of a history"],
 [("MASK_BUF", "per-thread edge-tile buffer surviving between calls", "src/gemm.rs"), ("REGISTRY", "thread pool surviving between calls", "src/threading.rs")])

prop("C15", "Rounding error stays within the standard bound in the element's own precision",
 "For general floating-point inputs each element of the result differs from the exact alpha*A*B + beta*C by at most the standard forward error bound of a k-term inner product in the element type's precision, (k + small constant) * eps * (|alpha| |A||B| + |beta||C|). No step computes in a lower precision or forms scalars inexactly.",
 ["inputs", "configurations"],
 "shapes around tile, unroll and block boundaries x data classes with full-mantissa values, wide exponent range and cancellation x alpha/beta alphabet x kernels x types, against a reference of at least twice the precision",
 "Tests use small integers, where a loss of precision is invisible, or a loose absolute tolerance.",
 ["src/gemm.rs"] + KERN,
 [("accumulation in element type", "src/*_kernel.rs"), ("alpha applied once per depth block, beta once", "src/gemm.rs")],
 ["contents of C"])

prop("C16", "Compile-time block-size settings take effect or are rejected, never misapplied",
 "With the configuration feature, each of the twelve variables sets exactly the block size it names, observable in the scratch memory a call requests, and leaves the others at their defaults; results stay correct. A setting that is not a decimal number fails the build, and an inadmissible combination (order or upper limit violated) makes every affected non-empty call panic before it has written anything.",
 ["configurations", "programs"],
 "each variable alone, all together with distinct values, boundary values of every constraint, malformed strings, for every element type; one build of the crate per configuration",
 "The test-suite is one build with one configuration (defaults); a compile-time setting cannot vary inside it.",
 ["src/archparam.rs", "src/constparse.rs", "src/archparam_defaults.rs", "src/gemm.rs", "src/kernel.rs"],
 [("option_env and const parser", "src/archparam.rs, src/constparse.rs"), ("admissibility assertions", "src/gemm.rs ensure_kernel_params"), ("per-type mc/kc/nc", "src/*_kernel.rs")],
 ["build success", "scratch memory requested", "panic", "contents of C"])

prop("C17", "Same results and no undefined behaviour on every supported architecture",
 "On 32-bit and 64-bit, little- and big-endian targets, with and without SIMD (portable kernels, NEON on AArch64, AVX/FMA on x86), calls compute the same exact results and no execution has undefined behaviour in the sense of the Rust abstract machine - out-of-bounds or dangling pointer arithmetic, misaligned or uninitialised access, invalid references, data races or calls of unsupported instructions.",
 ["configurations", "inputs"],
 "targets aarch64 (NEON), i686, s390x, x86_64 with avx2+fma and without x shapes around the tiles x layouts x alpha/beta classes x element types, each execution interpreted with full undefined-behaviour detection",
 "The tests run natively on one x86-64 machine: the AArch64 kernels are not even compiled there, and undefined behaviour is not observable natively.",
 ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/aarch64/macros.rs", "src/gemm.rs", "src/packing.rs", "src/ptr.rs", "src/aligned_alloc.rs"],
 [("NEON kernels", "kernel_target_neon in *_kernel.rs"), ("pointer arithmetic", "src/ptr.rs, rawpointer"), ("edge-tile buffer alignment", "src/gemm.rs align_ptr")],
 ["contents of C", "undefined-behaviour reports of the interpreter"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
