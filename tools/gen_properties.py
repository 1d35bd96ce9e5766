#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so the statements are easy to edit).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["the C matrix after the call returns"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

G = "src/gemm.rs"
p("C01", "sgemm/dgemm compute C <- alpha*A*B + beta*C, each product exactly once",
  "For every valid call of sgemm or dgemm, element (i,j) of C ends up, in exact arithmetic, equal to alpha * sum over t of a(i,t)*b(t,j) plus beta * the old c(i,j). Every product is counted exactly once, alpha and beta are each applied exactly once, and this holds for all dimensions, all strides of A, B and C (zero, negative, huge), all data, and on whichever kernel the CPU selects.",
  ["inputs", "configurations"], "all m,k,n; all strides; all alpha, beta and matrix contents; every CPU feature set (hence every kernel); with and without std",
  "Tests use a few shapes with small-integer data, positive strides, n never past one NC block, and only the kernel of the machine they run on unless rebuilt.",
  [G, "src/packing.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/kernel.rs", "src/util.rs", "src/loopmacros.rs"],
  [("five blocked loops, beta only in the first K block", G), ("panel packing with zero padding", "src/packing.rs"), ("vector kernels with permuted accumulators", "src/sgemm_kernel.rs, src/dgemm_kernel.rs"), ("masked kernel for edge tiles", G)])
p("C02", "cgemm/zgemm compute the complex product, each product exactly once",
  "For every valid call of cgemm or zgemm, element (i,j) of C ends up, in exact complex arithmetic, equal to alpha * sum over t of a(i,t)*b(t,j) plus beta * the old c(i,j), with real and imaginary parts in the documented order and no conjugation. It holds for all dimensions, strides, complex alpha and beta, data, and on whichever kernel the CPU selects.",
  ["inputs", "configurations"], "all m,k,n; all strides; all complex alpha, beta, data; every CPU feature set; with and without std",
  "Tests use few shapes, small-integer data and few alpha/beta combinations, on one kernel.",
  [G, "src/cgemm_common.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/kernel.rs"],
  [("split real/imaginary packing", "src/cgemm_common.rs"), ("P,Q,R,S accumulation", "src/cgemm_common.rs"), ("complex mul of alpha and beta", "src/kernel.rs")])
p("C03", "With beta zero, the old contents of C are never used",
  "When beta is zero (either sign; for complex, both parts), the previous contents of C have no influence on the result and are never read, so C may be uninitialised or hold NaN or infinities. Every element of C is then fully written.",
  ["inputs", "configurations"], "all shapes including empty ones, all strides, all prior contents of C, every kernel, several K blocks",
  "Only a handful of shapes are run over a NaN-filled C; kernels the machine does not select and large k are not.",
  [G, "src/kernel.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs"],
  [("is_zero tests before reading C", G), ("beta branch in the store epilogue of each kernel", "src/sgemm_kernel.rs, src/dgemm_kernel.rs")])
p("C04", "Only the m*n elements of C are ever written",
  "A call writes no caller-visible memory except the m*n elements of C addressed by rsc and csc. A, B, the memory between strided elements of C and everything around C keep their exact bytes.",
  ["inputs", "configurations"], "all shapes, all strides (negative, padded, interleaved), every kernel",
  "Tests check gaps for a few positive strides of C only; none check around edge tiles for every kernel.",
  [G, "src/sgemm_kernel.rs", "src/dgemm_kernel.rs"],
  [("edge tiles go through the mask buffer", G), ("kernel stores", "src/sgemm_kernel.rs, src/dgemm_kernel.rs")], observe=["memory of A, B and around C"])
p("C05", "Reads stay inside the caller's matrices",
  "A call reads caller memory only at the elements of A (m by k), B (k by n) and C (m by n) that the given pointers and strides address. If a matrix has no elements, its memory is never touched at all.",
  ["inputs", "configurations"], "all shapes, all strides, every kernel",
  "An over-read of a neighbour is invisible to result comparisons.",
  [G, "src/packing.rs", "src/cgemm_common.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs"],
  [("chunk sizes and strides passed to packing", G), ("remainder handling in packing", "src/packing.rs, src/cgemm_common.rs")], observe=["addresses read"])
p("C06", "Scratch memory is in bounds, aligned, initialised before use, freed once",
  "All working memory the library uses (heap packing buffers, the per-thread or stack tile buffer, other temporaries) is accessed within bounds and with the alignment the access demands, and no byte of it is read before the same call wrote it. Each heap block is released exactly once with the layout it was allocated with, and a failed allocation goes to the allocation error handler instead of being used.",
  ["inputs", "configurations", "fault_sequences"], "all shapes and strides, every kernel, every placement the allocator or thread-local storage may give, any allocation failing, any stale contents",
  "Tests see only the placements the allocator happens to give and never a failing allocation; small overflows and stale reads do not change results.",
  ["src/aligned_alloc.rs", G, "src/packing.rs"],
  [("buffer size computation", G), ("Alloc new/drop", "src/aligned_alloc.rs"), ("align_ptr on the mask buffer", G)],
  state=[("packing buffer", "A~ panels then B~ panels", G), ("mask buffer", "one MR x NR tile", G)], observe=["allocator calls", "scratch addresses"])
p("C07", "A call's result does not depend on earlier or concurrent calls",
  "The result of a call is a function of its arguments only: the same arguments give bit-identical results whatever calls, of any type or size, succeeded before on the same thread or run at the same time on other threads. Apart from one-time initialisation, calls share no mutable process-wide state.",
  ["histories", "schedules"], "any sequence of earlier calls, any concurrent calls, any residue in thread-local or heap memory",
  "Tests compare single calls; order-dependent residue needs a specific previous call.",
  [G, "src/threading.rs", "src/aligned_alloc.rs"],
  [("thread-local tile buffer fully overwritten before use", G), ("fresh packing buffer per call", G)],
  state=[("MASK_BUF", "thread-local tile", G), ("REGISTRY", "lazily created pool", "src/threading.rs")])
p("C08", "Each C element depends only on its row, column and itself; NaN/Inf propagate",
  "Element (i,j) of the result is influenced only by alpha, beta, row i of A, column j of B and the old c(i,j), even when other elements are NaN or infinite. Conversely a NaN in any of those makes it NaN and an infinity makes it non-finite (k > 0; the old c(i,j) and beta count only when beta is not zero), so no special value is dropped.",
  ["inputs", "configurations"], "all placements of NaN and infinities, all shapes and kernels",
  "No test puts NaN or infinity into A or B.",
  [G, "src/packing.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_common.rs"],
  [("zero padding confined to discarded lanes", "src/packing.rs, src/cgemm_common.rs"), ("no data-dependent shortcuts", G)])
p("C09", "Results are bit-identical whatever the memory layout",
  "For the same logical operands on the same machine, the result bits do not depend on how A, B and C are laid out: row-major, column-major, strided, reversed or broadcast operands and any base alignment give the same bits.",
  ["inputs"], "all strides and base addresses of A, B and C",
  "Tests compare a few layouts with exactly representable integers, which hides rounding and ordering differences.",
  ["src/packing.rs", "src/sgemm_kernel.rs", "src/dgemm_kernel.rs", G],
  [("contiguous fast paths", "src/packing.rs"), ("C layout branches in kernels", "src/sgemm_kernel.rs, src/dgemm_kernel.rs")])
p("C10", "Threaded calls are race-free and bit-identical to single-threaded ones",
  "With the threading feature, tasks that may run at the same time never access the same memory with one of them writing, for every schedule. The result is bit-identical for every thread count.",
  ["schedules", "inputs", "configurations"], "all schedules, all thread counts, shapes on both sides of each splitting threshold, all strides",
  "Races show only under particular schedules; tests run one thread count on few sizes above the threading threshold.",
  ["src/threading.rs", "src/util.rs", G],
  [("partition of loop 3 and loop 2", "src/threading.rs, src/util.rs"), ("one A~ buffer and tile buffer per task", G)], observe=["accesses of concurrent tasks"])
p("C11", "MATMUL_NUM_THREADS bounds the parallelism as documented",
  "No call uses more concurrent tasks than MATMUL_NUM_THREADS says, nor more than 4. A value that does not parse, 0 or 1 means single-threaded; unset or empty means the number of physical cores, capped at 4.",
  ["inputs", "configurations"], "every value of the environment variable and every core count",
  "The variable is read once per process; tests run with at most one value.",
  ["src/threading.rs", "src/lib.rs"],
  [("registry initialisation", "src/threading.rs"), ("loop thread configuration", "src/threading.rs")], observe=["number of concurrent tasks and of pool threads"])
p("C12", "Only code for detected CPU features is executed",
  "On every CPU, a call executes code compiled for an instruction set extension only if that extension was detected at run time, so no feature combination can make a call fault on an unsupported instruction. Some kernel always runs, and every feature combination gives a correct result.",
  ["configurations"], "every combination of detected CPU features consistent with the architecture, every element type",
  "Tests run on one CPU, where every wrong choice still executes.",
  ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_kernel.rs", "src/zgemm_kernel.rs", "src/x86/macros.rs", "src/packing.rs"],
  [("detect functions", "src/*_kernel.rs"), ("pack_avx2 reached only from AVX2 kernels", "src/packing.rs")], observe=["functions entered and their required features"])
p("C13", "Compile-time blocking parameters never change results; their parsing is exact",
  "With constconf, every accepted choice of the MC, KC and NC variables leaves results correct and memory accesses in bounds. A decimal value is read exactly and applied to the parameter it names, and text that is not a decimal number is rejected at compile time.",
  ["configurations", "inputs"], "all parameter choices satisfying the documented ordering, all strings",
  "Tests are compiled with one setting.",
  ["src/constparse.rs", "src/archparam.rs", "src/archparam_defaults.rs", G],
  [("const decimal parser", "src/constparse.rs"), ("parameter selection", "src/archparam.rs"), ("ensure_kernel_params", G)], hook="parser reachable at run time under a cfg", observe=["C after the call", "parsed value"])
p("C14", "No valid call panics, overflows or aborts, in debug or release builds",
  "A call whose pointers and strides are valid for its dimensions returns normally: no panic, failed assertion, arithmetic-overflow check or abort, with debug assertions on or off. This includes strides that are unused because a dimension is 0 or 1 and may then hold any value.",
  ["inputs", "configurations"], "all shapes, all strides valid for them, both build profiles",
  "Tests use ordinary strides; overflow checks only fire for extreme ones.",
  [G, "src/cgemm_common.rs", "src/packing.rs", "src/ptr.rs", "src/threading.rs"],
  [("index arithmetic", G), ("debug assertions", "src/*.rs")], observe=["the call returns"])
p("C15", "Rounding stays within the usual dot-product bound of the element type",
  "The computed c(i,j) differs from the exact value by at most gamma(k+4) * (|alpha| * sum |a||b| + |beta||c|), up to a small constant factor for complex types, with gamma for the element type's own precision and barring overflow and underflow. All accumulation is carried out in at least the element type's precision.",
  ["inputs", "configurations"], "all data, all k, every kernel",
  "Tests use integers that are exact in every precision, so no rounding ever happens.",
  ["src/sgemm_kernel.rs", "src/dgemm_kernel.rs", "src/cgemm_common.rs", G, "src/kernel.rs"],
  [("one accumulation per product", "kernels"), ("partial sums over K blocks added to C", G)])
p("C16", "Empty dimensions: k=0 scales C by beta once, m=0 or n=0 touches nothing",
  "If k is 0 and m, n are not, the call sets C to beta*C exactly once (to zero when beta is zero) without touching A or B. If m or n is 0 no memory is read or written, whatever the pointers, strides and other dimensions are.",
  ["inputs", "configurations"], "all strides, pointers (also dangling), data and remaining dimensions",
  "Tests cover a few empty shapes with ordinary pointers.",
  [G], [("c_to_beta_c early return", G)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
