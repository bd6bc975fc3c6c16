#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Thread pool runs every task exactly once, then returns",
  "Whenever a caller hands a list of tasks to a thread pool, every task runs exactly once, and the call returns only after all of them have finished, with all their writes visible to the caller. "
  "This holds for any sequence of calls with growing and shrinking task counts on the same pool, and no call nor the destruction of the pool ever hangs or touches released memory.",
  ["schedules", "histories", "configurations"],
  "every interleaving of caller and workers (up to the preemption bound), including spurious condition-variable wake-ups and every outcome of the busy-wait timer; every history of task counts 1..3 up to 3 calls; spinning disabled / expiring early / expiring late",
  "No unit test of the pool exists at all; it is only exercised through multiplications on one OS schedule with a 2 ms spin that hides the passive-wait path, and x86 hides missing release/acquire ordering.",
  ["ruy/thread_pool.cc", "ruy/thread_pool.h", "ruy/blocking_counter.cc", "ruy/wait.cc"],
  [("worker state machine (startup/ready/has-work/exit) published under a mutex + condvar", "thread_pool.cc Thread::ThreadFuncImpl, ChangeStateFromOutsideThread"),
   ("completion counter", "blocking_counter.cc Reset/DecrementCount/Wait"), ("exit handshake in destructor", "thread_pool.cc ~ThreadPool")],
  [("state_", "what the worker is asked to do", "thread_pool.cc Thread"), ("count_", "workers still busy", "blocking_counter.h")],
  ["Task::Run invocations", "return of ThreadPool::Execute", "return of ~ThreadPool"])

p("C02", "Multithreaded multiplication is race free and equals the 1-thread result",
  "A multiplication that is split over several threads produces, whatever the thread scheduling, bit-for-bit the same destination as on a single thread, always terminates, and executes without any data race under the memory-ordering rules of the language. "
  "No part of an operand is consumed before it has been completely packed.",
  ["schedules", "configurations"],
  "every interleaving of 2-3 (thorough: 4) threads up to the preemption bound, for shapes giving 2..16 blocks, each traversal order, with either, both or none of the operands pre-packed, all portable kernel layouts, two consecutive multiplications on one context",
  "The tests compare results of one uncontrolled run per shape on a strongly ordered CPU; the window in which two threads contend for the same pack block is a few hundred nanoseconds and a weakened memory order cannot misbehave on x86.",
  ["ruy/trmul.cc", "ruy/thread_pool.cc", "ruy/block_map.cc", "ruy/prepare_packed_matrices.cc", "ruy/side_pair.h"],
  [("per-block packing status (not started / in progress / finished) with CAS and release/acquire", "trmul.cc TrMulTask::TryPack, EnsurePacked"),
   ("atomic block reservation counter", "trmul.cc TrMulTask::Run"), ("barrier at the end", "thread_pool.cc ExecuteImpl")],
  [("packing_status", "who packs which panel", "trmul.cc"), ("atomic_block_id", "next block to hand out", "trmul.cc")],
  ["destination matrix after Mul", "memory accesses of every thread", "return of Mul"])

p("C03", "Blocking waits return only when true, and never sleep forever",
  "A thread that waits for a condition returns only after the condition has been observed true, always releases the lock it was given, and is never left asleep once the condition has become true and been signalled. "
  "A countdown waited on by one thread and decremented by others releases the waiter exactly when it reaches zero, makes the decrementers' earlier writes visible, reports true to exactly the decrementer that reached zero, and can be reset and reused afterwards.",
  ["schedules", "configurations"],
  "every interleaving of 1 waiter and 1..3 signallers up to the preemption bound, spin phase disabled / short / long, spurious wake-ups, countdown reuse over 2 rounds",
  "wait_test ping-pongs on real time with whatever schedule the OS picks; a lost wake-up needs a precise preemption between predicate check and sleep.",
  ["ruy/wait.cc", "ruy/wait.h", "ruy/blocking_counter.cc", "ruy/blocking_counter.h"],
  [("predicate re-check under the mutex", "wait.cc Wait"), ("lock around notification", "blocking_counter.cc DecrementCount")],
  [("count_", "remaining decrements", "blocking_counter.h")], ["return of Wait", "ownership of the mutex after return"])

p("C04", "Work decomposition covers every destination entry exactly once",
  "For every destination shape, kernel size, cache size and thread count, the blocks into which a multiplication is divided are non-empty, aligned to the kernel size, lie inside the (kernel-rounded) destination and cover each of its entries exactly once, whatever the traversal order chosen. "
  "The number of threads used never exceeds the number requested nor the number of blocks, and a shape announced as trivially linear is really traversed linearly.",
  ["inputs", "configurations"],
  "all (rows, cols) up to the bound in kernel units, plus powers of two and their neighbours up to 2^20 with depth up to 2^20; all kernel sizes 1..16 (powers of two), scalar sizes 1,2,4,8, thread counts 1..8 and larger, cache sizes from 4 kB to 64 MB",
  "block_map_test checks only traversal orders of a handful of square power-of-two grids and 13 fixed size/thread triples.",
  ["ruy/block_map.cc", "ruy/block_map.h"],
  [("block size selection", "block_map.cc MakeBlockMap"), ("index to grid mapping for 4 traversal orders and rectangularness", "block_map.cc GetBlockByIndex"), ("grid to matrix coordinates with missing kernels spread over small blocks", "block_map.cc GetBlockMatrixCoords")],
  [("BlockMap", "decomposition parameters", "block_map.h")], ["GetBlockByIndex + GetBlockMatrixCoords for every index"])

p("C05", "Multiplication equals its mathematical definition on every path",
  "For every supported combination of scalar types, shapes, storage orders, strides, zero points, bias, channel dimension and clamp bounds, and on every code path the CPU can run, the destination equals the clamped, requantized product of the operands (exactly for integers and for exactly representable floats). "
  "The result does not depend on the previous contents of the destination nor on values stored in the stride padding. "
  "The plain evaluation that the library offers for comparison gives the same.",
  ["inputs", "configurations"],
  "all rows x cols x depth up to beyond one and two kernel widths/depth steps, all 8 storage-order combinations, tight and padded strides, all x86 paths and portable variants, all type combinations, all parameter presence combinations; fixed tagged data patterns incl. extremes and all single-entry operands on small shapes",
  "The existing tests draw a few hundred random shapes, with random parameters and tolerances, and never combine all layouts, strides, channel dimensions and paths at each residue of the kernel sizes.",
  ["ruy/frontend.h", "ruy/create_trmul_params.h", "ruy/kernel.h", "ruy/kernel_x86.h", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/pack.h", "ruy/pack_x86.h", "ruy/pack_avx.cc", "ruy/pack_avx2_fma.cc", "ruy/pack_avx512.cc", "ruy/kernel_common.h", "ruy/pack_common.h", "ruy/trmul.cc", "ruy/reference_mul.h", "ruy/matrix.h", "ruy/mat.h"],
  [("type-erased parameters, transposition for row-major destinations", "create_trmul_params.h CreateTrMulParams"), ("packing with zero-point padding and column sums", "pack.h / pack_*.cc"), ("kernels with residual handling", "kernel.h / kernel_*.cc")],
  [], ["destination matrix after Mul"])

p("C06", "Multiplication touches only the memory it was given",
  "A multiplication reads only the entries of its operands and of the bias/multiplier vectors (within their promised capacity) and writes only the entries of the destination: it never reads or writes before or after these buffers, and never writes the destination's stride padding. "
  "All memory it obtains for itself is released when the context is destroyed.",
  ["inputs", "configurations"],
  "same space of shapes, layouts, strides, types and paths as C05, each buffer placed flush against an unmapped page at its end and at its start, capacity rounding 1..16, 1 to 3 threads",
  "Tests allocate operands inside larger vectors with random extra stride and never bound the vector-register over-read; a one-element over-read is invisible without guard pages.",
  ["ruy/pack_x86.h", "ruy/pack_avx.cc", "ruy/pack_avx2_fma.cc", "ruy/pack_avx512.cc", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/kernel_common.h", "ruy/create_trmul_params.h", "ruy/pack_common.h", "ruy/allocator.cc"],
  [("masked loads / zero buffers for missing columns", "pack_*.cc"), ("temporary destination tile for residual blocks", "kernel_common.h, kernel_*.cc"), ("copy of short per-channel buffers", "create_trmul_params.h EnsurePerChannelBuffersLargeEnough")],
  [], ["guard pages and canaries around every buffer"])

p("C07", "Requantization is accurate to one unit and saturates correctly",
  "For narrow integer destinations, each int32 accumulator is multiplied by its multiplier, offset by the destination zero point and clamped to the requested bounds; the result is the round-to-nearest (ties up) value on the portable path and within one unit of it on every SIMD path, monotone in the accumulator, and always inside the clamp bounds even when the offset value exceeds the destination type. "
  "Uniform and per-channel multipliers with equal values, along either dimension, give identical results.",
  ["inputs", "configurations"],
  "accumulators: all of a dense window around 0, all powers of two +-2, all rounding-tie neighbourhoods and int32 extremes; multipliers: 0, 2^30, 2^30+1, ..., 2^31-1 and per-bit patterns; exponents -31..+7 where the product fits; every destination type, path, zero-point extreme and clamp extreme; scalar and per-channel",
  "Tests use one random multiplier per shape with a tolerance and a mean-error bound, so wrong rounding or saturation at specific accumulator/exponent values passes.",
  ["ruy/apply_multiplier.cc", "ruy/apply_multiplier.h", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/kernel.h", "ruy/kernel_common.h"],
  [("rounding 64-bit shift", "apply_multiplier.cc MultiplyByQuantizedMultiplier"), ("vectorised multiplier application", "kernel_avx*.cc")],
  [], ["destination matrix after Mul with bias-driven accumulators"])

p("C08", "Caching packed operands never changes any result",
  "As long as the data of a matrix marked cacheable is not modified, or the cache is cleared after a modification, every multiplication gives the same destination as it would without caching, whatever the cache policy, the side on which the matrix is used, and whichever multiplications were executed before on the same context. "
  "Packed data in use by a multiplication stays valid until that multiplication ends, even when the cache is full.",
  ["histories", "configurations"],
  "every sequence up to the depth bound of multiplications drawn from an alphabet varying side, storage order, stride, shape view, zero point, policy, path and element type over shared buffers, cache clearing and in-place data modification, with ample and with tiny cache budgets",
  "prepacked_cache_test runs a few fixed sequences with one matrix on one side; no test reuses one buffer under a second layout, side or path, nor ejects while in use.",
  ["ruy/prepacked_cache.h", "ruy/prepacked_cache.cc", "ruy/prepare_packed_matrices.cc", "ruy/ctx.cc"],
  [("lookup key", "prepacked_cache.h Key"), ("policy decision", "prepare_packed_matrices.cc ShouldCache"), ("ejection of the least recently used entry", "prepacked_cache.cc EjectOne")],
  [("cache_", "packed matrices by key", "prepacked_cache.h")], ["destination matrix after each Mul of the history"])

p("C09", "Prepacked cache respects its budget and evicts least recently used",
  "After any history of requests the cache accounts exactly for the bytes it holds, holds the most recently used entry plus only entries that fit its budget together, evicts strictly in least-recently-used order and only when needed, answers a repeated request with the same stored object until it is evicted, and releases everything when cleared or destroyed.",
  ["histories", "configurations"],
  "every sequence up to the depth bound of requests over 5 keys (float and 8-bit entries of different sizes, equal data with different zero points/layouts), with budgets from zero to everything-fits",
  "prepacked_cache_test follows a few fixed sequences of float matrices and never checks the accounting after an eviction of both kinds of element types.",
  ["ruy/prepacked_cache.h", "ruy/prepacked_cache.cc"],
  [("size accounting", "prepacked_cache.cc AllocateBuffers, EjectOne"), ("timestamps", "prepacked_cache.cc Get"), ("eviction loop", "prepacked_cache.cc EjectUntilRoomFor")],
  [("buffers_bytes_", "bytes held", "prepacked_cache.h")], ["PrepackedCache::Get result", "BuffersBytes", "live system allocations"])

p("C10", "Scratch allocations are aligned, disjoint, stable and never leaked",
  "Until the next release-all, every scratch allocation is non-null, aligned, disjoint from every other live one, and keeps its contents; after release-all the memory is reusable, a repeated identical workload needs no further system allocation, and destruction returns everything to the system. "
  "A failing system allocation yields a null result for that request only and never makes a later allocation overlap or point to invalid memory.",
  ["histories", "fault_sequences"],
  "every sequence up to the depth bound of allocations of sizes around alignment, page and growth boundaries (typed, raw and aliasing-avoiding variants) and release-all, with every single and double failure position of the system allocator",
  "allocator_test covers four fixed sequences, no failure, and checks overlap only for one of them.",
  ["ruy/allocator.cc", "ruy/allocator.h", "ruy/system_aligned_alloc.cc"],
  [("bump block + fallback blocks, consolidated by FreeAll", "allocator.cc AllocateFast/AllocateSlow/FreeAll"), ("aliasing avoidance offset", "allocator.cc AllocateBytesAvoidingAliasingWith")],
  [("current_/size_/fallback_blocks_", "bump state", "allocator.h")], ["returned pointers", "system allocation calls"])

p("C11", "Results depend only on the call, and the path is the best one enabled",
  "Whatever settings changes and multiplications preceded it on a context, a multiplication uses the best code path among those compiled in and currently enabled at run time, reports it as last used, clears advisories of earlier calls, and gives the same result as on a fresh context. "
  "Restoring the default path set always returns to what the hardware supports; an override never enables nothing.",
  ["histories", "configurations"],
  "every sequence up to the depth bound over {enable each subset of paths, restore default, change thread limit/tuning/cache policy, clear cache, multiplications of several types and shapes}; every subset of paths for the selection function; every value of the path environment variable bit set",
  "context_test and ctx_test check individual setters once; sequences mixing path overrides, types, thread counts and caches are not explored.",
  ["ruy/ctx.cc", "ruy/ctx.h", "ruy/ctx_impl.h", "ruy/context.cc", "ruy/context_get_ctx.cc", "ruy/path.h", "ruy/frontend.cc", "ruy/frontend.h"],
  [("path selection", "ctx.cc SelectPath, GetRuntimeEnabledPaths"), ("advisory reset", "frontend/ctx clear_performance_advisories")],
  [("runtime_enabled_paths_, last_used_path_", "path state", "ctx_impl.h")], ["Context::last_used_path-like getters", "destination matrix"])

p("C12", "The caller's floating-point environment is left untouched",
  "A multiplication returns with the calling thread's floating-point control state exactly as it found it, for every entry state, whatever number of threads it used and whichever way the pool was created or destroyed meanwhile. "
  "Inside a float multiplication every participating thread treats denormals in the same (flush) manner, so the result on denormal data does not depend on the number of threads or on the split.",
  ["configurations", "histories", "schedules"],
  "all 2x2x4 combinations of flush/denormal/rounding control (and exception masks) at entry x thread counts 1..4 x paths x shapes with different splits x histories of two multiplications",
  "No test looks at the control register or multiplies denormals at all.",
  ["ruy/denormal.cc", "ruy/denormal.h", "ruy/trmul.cc", "ruy/thread_pool.cc"],
  [("scoped suppression", "denormal.cc ScopedSuppressDenormals"), ("scope in workers and in the entry point", "thread_pool.cc ThreadFuncImpl, trmul.cc TrMul")],
  [], ["MXCSR before/after Mul", "destination on denormal operands"])

p("C13", "Distinct contexts can be used concurrently without interference",
  "Multiplications running at the same time on different contexts, including their first uses, never race with each other and give the same results as when run one after the other; the same read-only operands may be shared between them.",
  ["schedules"],
  "every interleaving up to the preemption bound of 2 threads (thorough: 3), each creating a context, multiplying (single- and multi-threaded, with and without caching) and destroying it, operands shared",
  "No test runs two contexts in parallel; a global or static introduced anywhere below the API shows up only under a specific overlap.",
  ["ruy/ctx.cc", "ruy/ctx_impl.h", "ruy/context.cc", "ruy/cpuinfo.cc", "ruy/frontend.cc", "ruy/trmul.cc", "ruy/tune.cc"],
  [("all mutable state lives in the context", "ctx_impl.h"), ("per-thread resources", "ctx_impl.h ThreadSpecificResource")],
  [], ["destination matrices", "memory accesses of every thread"])

p("C14", "Profiler samples are true snapshots of live label stacks",
  "Every sample the profiler records for a thread is a stack that this thread really had at some instant while profiling was on, in properly nested order; threads may start, end and change labels at any moment without race, deadlock or access to dead threads' data, and empty stacks produce no sample. "
  "Stopping the profiler returns after the sampling thread has ended, and recorded samples are complete.",
  ["schedules", "histories"],
  "every interleaving up to the preemption bound of the sampler thread with 1-2 instrumented threads that push/pop up to 3 nested labels, with thread creation and exit inside the profiled region, 1..3 sampling rounds",
  "profiler_test relies on wall-clock sleeping and statistical weights; a torn or stale stack in one sample is inside its tolerance.",
  ["ruy/profiler/instrumentation.h", "ruy/profiler/instrumentation.cc", "ruy/profiler/profiler.cc", "ruy/profiler/profiler.h"],
  [("per-thread stack lock", "instrumentation.h ThreadStack/ScopeLabel"), ("global registry under a mutex", "instrumentation.cc"), ("sampler loop and finish flag", "profiler.cc")],
  [("ThreadStack", "current labels of one thread", "instrumentation.h")], ["recorded sample buffer", "thread termination"])

p("C15", "Profile trees conserve samples and collapse without losing weight",
  "The tree built from recorded samples has, per thread, a total equal to the number of samples, every node weighing exactly the samples whose stack starts with its label path, with missing weight shown as other and children listed by decreasing weight; labels differing in any parameter stay distinct. "
  "Collapsing or summing over a tree preserves the weight of every kept node and never exceeds the requested depth below a collapsed node; a printed tree names every node once, below its parent, with its share of the thread's samples.",
  ["inputs"],
  "all multisets of up to 4 stacks of depth up to 3 over 3 labels (incl. parametrised ones) and 2 threads, all collapse depths 0..3, all match predicates; all numbers of siblings up to 130 with five patterns of weights; all pairs of stacks of depth up to 64 sharing any number of outer labels",
  "profiler_test uses three fixed workloads with tolerances.",
  ["ruy/profiler/treeview.cc", "ruy/profiler/treeview.h", "ruy/profiler/instrumentation.cc"],
  [("sample serialisation", "instrumentation.cc CopyToBuffer/ReadFromBuffer"), ("tree insertion and other nodes", "treeview.cc AddStack, AddOther"), ("collapse", "treeview.cc Collapse*")],
  [], ["TreeView nodes and weights", "printed report"])

p("C16", "Tuning decisions honour explicit choices and expire on schedule",
  "An explicitly requested tuning is always the one used; otherwise a decision is re-evaluated after its expiry duration and only then, so that within the validity window the answer does not change. "
  "Tuning never changes the result of a multiplication.",
  ["histories"],
  "every sequence up to the depth bound over {resolve, set explicit tuning to each value, advance the clock to just before / at / after expiry, multiply}",
  "tune_test only checks that an explicit value is returned.",
  ["ruy/tune.cc", "ruy/tune.h", "ruy/time.h"],
  [("expiry timestamp", "tune.cc TuningResolver::Resolve")],
  [("last_resolved_tuning_, last_resolved_timepoint_", "cached decision", "tune.h")], ["TuningResolver::Resolve under a controlled clock"])

p("C17", "Thread usage never exceeds the configured limit",
  "A multiplication runs on at most as many threads as the context currently allows, counting the caller; with a limit of one it never creates a thread nor runs anything off the calling thread, and when full use is forced a multiplication with enough work for all of them uses exactly that many. "
  "Threads created are kept for reuse, never exceed the largest limit minus one that any earlier call needed, and are all joined when the context is destroyed.",
  ["histories", "configurations", "inputs"],
  "every sequence up to the depth bound of limit changes 1..5 and multiplications of several sizes and thread strategies",
  "ctx_test checks only the setter; nothing counts threads.",
  ["ruy/trmul.cc", "ruy/thread_pool.cc", "ruy/ctx.cc", "ruy/ctx_impl.h", "ruy/block_map.cc", "ruy/strategy_controls.h"],
  [("thread count heuristic", "trmul.cc GetTentativeThreadCount"), ("lazy creation", "thread_pool.cc CreateThreads")],
  [("threads_", "existing workers", "thread_pool.h")], ["thread creation/join calls", "threads executing kernels"])

p("C18", "Per-channel vectors: capacity promise changes cost, never results",
  "Bias and per-channel multiplier vectors give the same result whatever capacity rounding the caller promises; the reallocation advisory is raised exactly when an internal copy of a caller's vector had to be made in the latest multiplication and is gone after one that needed none. "
  "Entries beyond the promised capacity are never used.",
  ["inputs", "configurations", "histories"],
  "all channel counts 1..40, capacity roundings 1,2,4,8,16,32, both channel dimensions and destination orders, bias/multiplier presence combinations, all paths, pairs of consecutive multiplications",
  "perchannel_buffers_reallocation_test checks a few sizes for one path and not the data.",
  ["ruy/create_trmul_params.h", "ruy/mul_params.h", "ruy/performance_advisory.h", "ruy/ctx.cc"],
  [("copy to larger scratch vectors", "create_trmul_params.h EnsurePerChannelBuffersLargeEnough")],
  [], ["destination", "performance_advisory"])

p("C19", "Settings objects return what was last set",
  "Multiplication parameters, matrix layouts and context settings behave as independent variables: each getter returns the value last set (or the documented default), setting one never alters another except the documented switch between uniform and per-channel multipliers, and derived layout facts (order, packedness, element addresses, sizes) follow from rows, columns, stride and order alone; power-of-two rounding is exact for every argument.",
  ["histories", "inputs"],
  "every setter sequence up to the depth bound on each settings type; all layouts up to 6x6 with strides up to +2, both orders, all element positions; all kernel block layouts for element addresses",
  "mul_params_test and matrix_test set each field once.",
  ["ruy/mul_params.h", "ruy/matrix.h", "ruy/mat.h", "ruy/context.cc", "ruy/ctx.cc", "ruy/size_util.h"],
  [("plain storage with mode switch", "mul_params.h set_perchannel"), ("offset arithmetic", "mat.h Offset"), ("rounding helpers", "size_util.h")],
  [], ["getters", "Offset/ElementPtr"])

p("C20", "Packing is a faithful, zero-point-padded image with exact column sums",
  "Whatever the path, source order, stride and column range, packing an operand stores every source entry (converted to the path's internal signedness) at its kernel-layout position, pads each operand column beyond its depth with the zero point, records the exact sum of each stored column, and writes nothing outside the requested columns of the packed buffer.",
  ["inputs", "configurations"],
  "all rows x cols up to beyond two kernel blocks, both source orders, strides tight/padded, all kernel-aligned column sub-ranges, all paths and operand types, zero points at extremes",
  "pack is only tested through whole multiplications, where one wrong padding byte or sum multiplied by a zero zero-point is invisible.",
  ["ruy/pack.h", "ruy/pack_x86.h", "ruy/pack_common.h", "ruy/pack_avx.cc", "ruy/pack_avx2_fma.cc", "ruy/pack_avx512.cc", "ruy/mat.h", "ruy/create_trmul_params.h"],
  [("path-specific packers", "pack_*.cc"), ("portable packer", "pack.h PackImpl")],
  [("packed data and sums", "what kernels consume", "mat.h PMat")], ["packed buffer and sums after a pack call"])

p("C21", "Hardware detection never promises more than the machine reports",
  "A vector code path is enabled by default exactly when the machine reports every instruction set that path needs and hardware detection succeeded; otherwise the best remaining path is used and multiplications still give correct results. Reported cache sizes are the minimum over all cores of the largest cache private to a core and of the last cache level, fall back to usable values when the report is missing or incomplete, and never change once queried.",
  ["configurations", "inputs", "fault_sequences"],
  "all consistent feature sets, cache topologies on up to three cores with missing, shared, private and unresolvable levels and differing sizes, all core kinds, detection failing or not, whichever question is asked first",
  "Tests see one machine only, where detection succeeds and all features are present; a wrong combination means illegal instructions or an abort on machines the developer does not have.",
  ["ruy/cpuinfo.cc", "ruy/cpuinfo.h", "ruy/ctx.cc", "ruy/cpu_cache_params.h", "ruy/have_built_path_for.h"],
  [("detection status and cached answers", "cpuinfo.h CpuInfo"), ("enabled paths", "ctx_impl.h")],
  [("feature and cache queries", "translate the hardware report", "cpuinfo.cc"), ("path detection", "combine built and supported paths", "ctx.cc")], ["CpuInfo queries", "last used path and result of a multiplication on a simulated machine"])

p("C22", "Impossible requests stop instead of giving a wrong result",
  "When memory or a thread cannot be obtained at any point of a multiplication, the process stops or the result is still correct; it never hangs and never delivers a wrong result, neither from that call nor from a later one. "
  "Zero points and multiplier combinations the library does not support, and nonzero entries in the padding a caller promised to keep zero, are refused, while every supported combination is carried out.",
  ["fault_sequences", "inputs", "configurations"],
  "each single request to the system failing, and each suffix of requests failing, for each thread, in first and repeated multiplications with every caching combination, 1..4 threads and every path; all zero points at and next to the type limits for all type combinations; all sequences of multiplier setters up to the depth bound; every padding position of per-channel vectors for 1..9 channels and all capacity roundings",
  "Tests never make an allocation fail; death tests cover a handful of single values on one path, and a dropped refusal shows as a plausible but wrong number.",
  ["ruy/prepare_packed_matrices.cc", "ruy/prepacked_cache.cc", "ruy/allocator.cc", "ruy/system_aligned_alloc.cc", "ruy/trmul.cc", "ruy/validate.h", "ruy/mul_params.h", "ruy/create_trmul_params.h"],
  [("buffers of packed operands", "prepare_packed_matrices.cc PreparePackedMatrices"), ("multiplier storage", "mul_params.h")],
  [("null checks on buffers", "stop on exhausted memory", "prepare_packed_matrices.cc"), ("validation of zero points", "refuse what kernels cannot compute", "validate.h"), ("padding check", "refuse broken promises about vectors", "create_trmul_params.h")], ["destination matrix", "exit of the process"])

p("C23", "Infinities and NaNs reach exactly the entries they belong to",
  "For float multiplications every destination entry whose exact expression contains a NaN, an invalid operation or an overflow is the NaN or infinity that IEEE arithmetic prescribes, clamped bounds apply to infinities and never turn a NaN into a number, and every other entry is unaffected by such values elsewhere in the operands, the bias vector or the storage between rows. "
  "This holds alike on every code path, shape, storage order and bias direction.",
  ["inputs", "configurations"],
  "a NaN, either infinity or a value at the overflow bound at every position of both operands and the bias vector, for all shapes around one and two kernel blocks, several depths, storage orders, strides, bias directions and clamp bounds on every path; every pair of positions and values on small shapes",
  "Tests only use small finite values; lanes beyond the matrix edge, where a zero meets an infinity, and the order of the operands of a clamp instruction are invisible with those.",
  ["ruy/kernel_x86.h", "ruy/kernel_avx.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx512.cc", "ruy/kernel_common.h", "ruy/pack_avx.cc", "ruy/pack_avx512.cc"],
  [("accumulator lanes", "kernel_x86.h, kernel_avx512.cc"), ("zero padding of packed operands", "pack_*.cc")],
  [("clamping of lanes", "apply bounds to the accumulator", "kernel_x86.h, kernel_avx512.cc, apply_multiplier.h"), ("masked or copied edge blocks", "keep lanes beyond the edge apart", "kernel_x86.h, kernel_avx512.cc")], ["destination matrix"])

p("C24", "Results are right however far apart in memory the entries lie",
  "For every stride whose entry positions are representable, a multiplication reads exactly the operands' entries and writes exactly the destination's entries, with the result that the same values have in a compact layout. "
  "This holds when rows or columns are more than two gigabytes apart, on every code path and with several threads.",
  ["inputs", "configurations"],
  "all strides next to powers of two up to 2^30 for either operand or the destination, both storage orders, numbers of lines and line lengths around one and two kernel blocks, every type combination and path, one and three threads",
  "Tests allocate their matrices densely, so they never have addresses further apart than a few megabytes; narrow address arithmetic is only wrong beyond that.",
  ["ruy/kernel_common.h", "ruy/kernel_x86.h", "ruy/kernel_avx.cc", "ruy/kernel_avx512.cc", "ruy/pack_x86.h", "ruy/pack_avx.cc", "ruy/pack_avx512.cc", "ruy/mat.h"],
  [("byte strides of kernels", "kernel_common.h"), ("source pointers and increments of packing", "pack_*.cc, pack_x86.h")],
  [("address computation of a block", "locate the block's first entry", "kernel_common.h, mat.h"), ("advancing from block to block", "step over several columns at once", "kernel_*.cc, kernel_x86.h, pack_*.cc")], ["destination matrix", "memory access faults"])

p("C25", "Build options change speed, never results",
  "Leaving out the debug assertions, the hardware detection, the vector code or any of the selectable optimizations, or adding profiling or tracing, does not change what a multiplication stores: every destination entry still has the value the definition gives, nothing else is written, and every call returns. "
  "In particular a library without assertions needs none of their side effects, with one thread or several under every schedule.",
  ["configurations", "inputs", "schedules"],
  "26 build configurations (no assertions, profiling, tracing, no hardware detection, no vector code, every optimization left out on its own, every traversal order on its own, all left out), shapes and depths around one and two kernel blocks, undivided and divided in all traversal orders, storage orders, caching combinations, every path the build has, 1..3 threads; all schedules of small multiplications without assertions and without packing ahead",
  "The tests are built in one configuration, with assertions and every optimization on; the code applications ship is built without assertions, and code behind the other switches is compiled by nobody's tests.",
  ["ruy/opt_set.h", "ruy/check_macros.h", "ruy/trmul.cc", "ruy/kernel.h", "ruy/block_map.cc", "ruy/allocator.cc", "ruy/cpuinfo.cc", "ruy/trace.h", "ruy/have_built_path_for.h"],
  [("optimization bits", "opt_set.h"), ("packing status of blocks", "trmul.cc TrMulTask")],
  [("assertions", "check without influencing", "check_macros.h"), ("packing ahead", "use waiting time, optional", "trmul.cc EnsurePacked"), ("one call per kernel block", "replaces the fat kernel", "kernel.h RunKernel")], ["destination matrix", "return of the call"])

p("C26", "An entry depends only on its row, its column and the parameters",
  "Computed on one code path, an entry of the destination has the same bits whether its row and column are multiplied alone or as part of larger matrices, whatever its position, the storage orders, strides, number of threads, caching of operands and division into blocks. "
  "In particular results of a batch do not depend on its size or on the other members, even where sums are not exact and have to be rounded.",
  ["inputs", "configurations"],
  "all type combinations, runnable paths and parameter settings; every combination of part sizes up to beyond two kernel blocks, depths and storage orders; larger parts under all combinations of cache profile, thread count and operand caching",
  "The tests compare floating-point results with a tolerance, because paths differ, so an edge or single-column kernel that rounds differently from the main loop goes unnoticed.",
  ["ruy/kernel_x86.h", "ruy/kernel_avx512.cc", "ruy/kernel_avx2_fma.cc", "ruy/kernel_avx.cc", "ruy/kernel.h", "ruy/apply_multiplier.cc", "ruy/trmul.cc"],
  [("order of summation over the depth", "loops of the full-block, residual and single-column kernels"),
   ("choice of kernel by destination shape", "kernel_x86.h Kernel::Run"), ("division into blocks", "block_map.cc MakeBlockMap")],
  [], ["destination matrix"])

p("C27", "A context may be handed from thread to thread",
  "Threads that use one context in turn, never at the same time, get the same results as a single thread, without any race, whether they take turns under a lock or each one ends before the next begins. "
  "This includes contexts with worker threads and cached operands, and contexts created by one thread and destroyed by another.",
  ["schedules", "histories"],
  "every interleaving up to the preemption bound of two or three users under a lock, and of chains of users each ended before the next; every history up to the depth bound of three threads multiplying, clearing the cache, ending and being replaced",
  "Every test uses a context from the thread that made it only; state tied to a thread shows when that thread has ended or serves another context.",
  ["ruy/ctx.cc", "ruy/ctx_impl.h", "ruy/context.cc", "ruy/thread_pool.cc", "ruy/trmul.cc", "ruy/allocator.cc", "ruy/prepacked_cache.cc"],
  [("all mutable state lives in the context", "ctx_impl.h"), ("hand-over through the pool's locks", "thread_pool.cc")],
  [], ["destination matrices", "memory accesses of every thread", "floating-point control state of each caller"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
