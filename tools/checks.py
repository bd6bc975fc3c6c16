"""Which drivers decide which property."""

MC_ASSUME = [
    "gcc's thread instrumentation reports every memory access and atomic operation of the code under test; "
    "uninstrumented library code (libstdc++, libc) is treated as atomic between those points",
    "scheduling points are synchronisation operations only; plain accesses need none because any unordered "
    "pair of them is itself reported as a data race",
    "weak memory is modelled as loads returning older values still visible under the C++ happens-before rules, "
    "up to the stale-read bound",
]

ENUM_ASSUME = [
    "the enumerated input/history space is bounded as stated; the code under test is deterministic for a fixed input",
]

MULAPI = ["common/mulapi.cc"] + ["common/mulapi_%d.cc" % i for i in range(8)]

def build_configs():
    """The build configurations compared in C25: (name, definitions, variant, portable)."""
    bits = dict(intrinsics=0x1, asm=0x2, tuning=0x4, fat_kernel=0x8, avoid_aliasing=0x20, max_streaming=0x40,
                pack_ahead=0x80, prefetch_load=0x100, prefetch_store=0x200, z=0x400, u=0x800, hilbert=0x1000)
    def without(*names):
        return "-DRUY_OPT_SET=(~%d)" % sum(bits[n] for n in names)
    cfg = [("ndebug", ["-DNDEBUG"], "opt", False),
           ("profiler", [], "optp", False), ("trace", ["-DRUY_TRACE"], "opt", False), ("nocpuinfo", [], "nocpuinfo", False),
           ("noarch", ["-DVERIF_NO_ARCH"], "opt", True),
           ("benchmark", ["-DRUY_OPTIMIZE_FOR_MATMUL_BENCHMARK"], "opt", False)]
    for n in ("intrinsics", "tuning", "fat_kernel", "avoid_aliasing", "max_streaming", "pack_ahead", "prefetch_load", "prefetch_store",
              "z", "u", "hilbert"):
        cfg.append(("no-" + n, [without(n)], "opt", False))
    cfg += [("only-z", [without("u", "hilbert")], "opt", False), ("only-u", [without("z", "hilbert")], "opt", False),
            ("only-hilbert", [without("z", "u")], "opt", False), ("no-fractal", [without("z", "u", "hilbert")], "opt", False),
            ("no-asm", [without("asm")], "opt", True), ("none", ["-DRUY_OPT_SET=0"], "opt", True),
            ("none-ndebug", ["-DRUY_OPT_SET=0", "-DNDEBUG"], "opt", True),
            ("code-only", ["-DRUY_OPT_SET=3"], "opt", False),
            ("code-only-ndebug", ["-DRUY_OPT_SET=3", "-DNDEBUG"], "opt", False)]
    return cfg

CHECKS = {
    "C01": dict(
        parts=[dict(kind="mc", driver="mc/c01.cc")],
        level="model_checking", assumptions=MC_ASSUME,
        technique="Exhaustive schedule exploration of the real thread pool code under a controlled scheduler, "
                  "with state caching, happens-before race detection, spurious wake-ups and stale atomic reads",
        note="Every schedule of every listed pool-call history up to the stated preemption/spurious/stale bounds; "
             "two-task histories without a preemption bound"),
    "C02": dict(
        parts=[dict(kind="mc", driver="mc/c02.cc")],
        level="model_checking", assumptions=MC_ASSUME,
        technique="Exhaustive schedule exploration of real multithreaded multiplications (pack/kernel/pool code) under a "
                  "controlled scheduler with happens-before race detection, compared entry by entry with the definition",
        note="2-4 threads, 2-16 blocks, each/both/no operand pre-packed, one and two multiplications, portable and x86 "
             "kernels; preemption bound 1-5 and stale-read bound 1 in the quick tier"),
    "C03": dict(
        parts=[dict(kind="mc", driver="mc/c03.cc")],
        level="model_checking", assumptions=MC_ASSUME,
        technique="Exhaustive schedule exploration of the real wait and countdown primitives with spurious wake-ups, "
                  "stale reads and every spin-timer outcome",
        note="1-2 waiters, 1-3 signallers; two-thread configurations without preemption bound"),
    "C13": dict(
        parts=[dict(kind="mc", driver="mc/c13.cc")],
        level="model_checking", assumptions=MC_ASSUME,
        technique="Exhaustive schedule exploration of two or three threads using their own contexts on shared read-only "
                  "operands, with happens-before race detection and results compared with the definition",
        note="Single-threaded contexts without preemption bound, multithreaded contexts up to preemption bound 1-4; "
             "first use of every lazily initialised object falls inside the explored region"),
    "C14": dict(
        parts=[dict(kind="mc", driver="mc/c14.cc", profiler=True)],
        level="model_checking", assumptions=MC_ASSUME,
        technique="Exhaustive schedule exploration of instrumented threads against the real sampling thread with stale "
                  "reads and every sampling-timer outcome; every sample is checked against the snapshots that existed",
        note="1-2 instrumented workers, nested and parametrised labels, 1-4 sampling rounds, two consecutive profiles"),
    "C04": dict(
        parts=[dict(kind="enum", driver="enum/c04.cc")],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of decomposition requests on the real code; every block index of every distinct "
                  "resulting map is expanded and checked to tile the destination",
        note="All shapes up to 50x50 kernels (132x132 thorough), 25 kernel shapes, 7 thread counts, 4 cache profiles, 4 "
             "traversal orders; sizes around powers of two as far as entry counts fit 31 bits"),
    "C05": dict(
        parts=[dict(kind="enum", driver="enum/c05.cc", srcs=MULAPI, single_call=True)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of shapes, storage orders, strides, parameter combinations, types and code paths on "
                  "the real code, every destination entry compared with an independent exact evaluation of the definition",
        note="Vector paths: shapes 1..34 and around 48 in both dimensions, depths 1..17, 31..33, 64, 65; portable paths: 11 sizes "
             "around 1..2 kernels, 8 depths (more in the thorough tier); 8 storage-order combinations, 15 type combinations, 7 paths; larger shapes split over blocks and 1-4 threads; extreme 8-bit entries at depths 255..11000"),
    "C06": dict(
        parts=[dict(kind="enum", driver="enum/c06.cc", srcs=MULAPI, single_call=True)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of shapes, layouts, types, capacity promises and code paths on the real code with every "
                  "user buffer and scratch block flush against unmapped pages, operands mapped read-only, canaries in the "
                  "destination padding and allocation accounting",
        note="Shapes 1..18, 24, 31..33, depths 1..9, 15..17, 33 on vector paths; 9 sizes and 6 depths on portable paths; "
             "capacity roundings 1..32 for 1..40 channels; 1-3 threads"),
    "C07": dict(
        parts=[dict(kind="enum", driver="enum/c07.cc", srcs=MULAPI, single_call=True)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of accumulator, multiplier, exponent, zero-point and clamp values on the real code, "
                  "every result compared with an exact 128-bit evaluation and across equivalent formulations",
        note="16 multipliers x 39 exponents x several hundred accumulators around zero, powers of two and all rounding "
             "boundaries; 9 type combinations; portable and vector paths"),
    "C10": dict(
        parts=[dict(kind="enum", driver="enum/c10.cc", env={"MALLOC_PERTURB_": "0"})],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of allocator operation sequences and of failing system allocations on the real "
                  "allocator, compared step by step with a list of the blocks handed out",
        note="12 operations to depth 5 (6 thorough), every single and double failure position and every all-fail-from "
             "position; sizes beyond 31 and 32 bits to depth 3 (4)"),
    "C09": dict(
        parts=[dict(kind="enum", driver="enum/c09.cc")],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of cache request sequences and budgets on the real cache, compared step by step "
                  "with a reference least-recently-used list and with the system memory actually held",
        note="8 keys plus clearing to depth 7 (8 thorough), 16 budgets from zero to everything-fits; 4 keys to depth 5 with 127..65537 hits in between"),
    "C08": dict(
        parts=[dict(kind="enum", driver="enum/c08.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of histories of multiplications, cache clearing, data modification and path changes "
                  "on one context of the real code, each destination compared with the definition",
        note="28-31 operations to depth 3 and 19-22 operations to depth 4, for three operand types, three path sets and "
             "cache budgets default, zero, one entry, a few entries"),
    "C18": dict(
        parts=[dict(kind="enum", driver="enum/c18.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of channel counts, capacity promises and vector presence on the real code, comparing "
                  "results with the definition and the advisory with the scratch blocks actually taken",
        note="Channel counts 1..48 (80), 7 roundings, 8 type combinations, all runnable paths; all call sequences of length 3 "
             "(4) over two dozen calls"),
    "C20": dict(
        parts=[dict(kind="enum", driver="enum/c20.cc", srcs=MULAPI, single_call=True)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of shapes, orders, strides, column ranges, zero points and paths; the real packing "
                  "code writes into canary-filled buffers that are compared with the documented layout entry by entry",
        note="Depths 1..70 (140) and powers of two beyond, 1..34 (67) columns, all aligned column ranges of wide kernels, "
             "5 element types, both sides, all runnable paths"),
    "C11": dict(
        parts=[dict(kind="enum", driver="enum/c11.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of path sets, environment values and histories of settings changes and "
                  "multiplications on one context of the real code, compared with the definition, a settings model and a fresh context",
        note="All 128x64 pairs of enabled and compiled path sets; all 256 environment values in 3 spellings; all histories of "
             "length 5 (6) over 15 operations, of length 5 over 18 operations with thread limits"),
    "C12": dict(
        parts=[dict(kind="enum", driver="enum/c12.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of floating-point control states at entry, thread limits, paths, shapes and "
                  "two-call (three-call) histories on the real code; control registers compared around every call, results on "
                  "denormal operands, products and sums compared with the flushed definition",
        note="32 entry states, 1-4 threads, 6 shapes, all runnable paths, float and double; histories over 8 states x 1-3 threads"),
    "C15": dict(
        parts=[dict(kind="enum", driver="enum/c15.cc", variant="optp")],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of sample sets, label sets, collapse depths and match predicates on the real tree "
                  "code, each tree compared node by node with one built from the definition",
        note="5 label sets, 78 stacks of depth 1..3 on two threads; all sequences of up to 3 and all multisets of 4; depths "
             "0..3; all subsets of labels as predicates; round trip of stacks of every depth 0..64; 1..130 (400) siblings; pairs of stacks of depth 1..64 sharing 0..64 outer labels; scopes entered, left and re-entered at every depth; printed report"),
    "C16": dict(
        parts=[dict(kind="enum", driver="enum/c16.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of histories of resolutions, explicit choices, core changes and clock advances on the "
                  "real resolver under a controlled clock and core, compared with a model; the tuning handed to every packing and "
                  "kernel call of real multiplications recorded and compared",
        note="11 operations to depth 6 (7) on the resolver, 10 operations to depth 5 (6) on contexts with 1 and 3 threads; "
             "results under all tunings for 15 type combinations and all runnable paths"),
    "C17": dict(
        parts=[dict(kind="enum", driver="enum/c17.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of histories of limit and strategy changes and multiplications on the real code with "
                  "thread creation and joining counted and the threads running packing and kernel calls recorded",
        note="9 operations to depth 6 (7); 6 shapes x all pairs of limits 1..9 x both strategies"),
    "C19": dict(
        parts=[dict(kind="enum", driver="enum/c19.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of setter sequences on the real settings objects against a record of last-set values; "
                  "exhaustive enumeration of layouts, element positions and all positive 32-bit arguments of the rounding helpers",
        note="Parameter objects: 28 operations to depth 4 (5) for 6 type pairs; matrices: 24 operations to depth 4 (5); contexts: 14 "
             "operations to depth 5 (6); 392 layouts, 1800 packed layouts, 2^31-1 integers"),
    "C21": dict(
        parts=[dict(kind="enum", driver="enum/c21.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of simulated machines (instruction sets, cache topologies, core kinds, failing or "
                  "partial hardware queries) behind the real detection code, compared with the documented meaning and with the "
                  "path and result of real multiplications",
        note="All consistent sets of 9 instruction-set features the host can run, asked in every rotation; 5 kinds of each of three "
             "cache levels on 1-3 cores of 1-2 processors with uniform and differing sizes; all core kinds; initialization failing or not"),
    "C22": dict(
        parts=[dict(kind="enum", driver="enum/c22.cc", srcs=MULAPI)],
        level="model_checking",
        assumptions=ENUM_ASSUME + ["requests refused by assertions are only refused in builds with debug checks, like the project's default build"],
        technique="Exhaustive enumeration of failing system requests (each one, and all from each one on) during real "
                  "multiplications, and of unsupported parameter combinations, each case in a process of its own; the outcome must be "
                  "the right result or a stop",
        note="Every memory and thread request of cold and warm multiplications, 3 types, all runnable paths, 1-3 (4) threads, cached and "
             "uncached; zero points at the ends of their ranges for 15 type combinations; setter sequences to depth 4 (5)"),
    "C23": dict(
        parts=[dict(kind="enum", driver="enum/c23.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of the positions of infinities, NaNs and overflowing values in operands and bias on the "
                  "real code, every destination entry compared with the IEEE definition",
        note="Every position in shapes of 10 sizes per dimension up to 20 (20 sizes up to 33), 4 (6) depths, 7 layout/bias/clamp "
             "combinations, 4 values, all runnable paths; all pairs of positions and values for shapes up to 3x3x3"),
    "C24": dict(
        parts=[dict(kind="enum", driver="enum/c24.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of far-apart layouts on the real code over sparse memory; every entry is compared "
                  "with exact arithmetic, everything far away is inaccessible",
        note="Strides around every power of two from 2^8 to 2^30 for each of the three matrices, both orders, 8 line counts "
             "x 4 lengths x 3 further sizes (23 x 10 x 5 thorough), 15 type combinations, every runnable path, 1 and 3 threads"),
    "C25": dict(
        parts=[dict(kind="mc", driver="mc/c01.cc", defines=["-DNDEBUG"],
                    prefix=["pool-2-nospin", "pool-2-2-nospin", "pool-2-3-nospin", "pool-2-spin1"])]
              + [dict(kind="mc", driver="mc/c02.cc", defines=d,
                      prefix=["mul-f-2x1x2-t2-m1", "mul-q-2x2x2-t2-cl-m2", "mul-q-8x3x4", "mul-v1q", "mul-avx2q"])
                 for d in (["-DNDEBUG"], ["-DRUY_OPT_SET=(~128)"])]
              + [dict(kind="enum", driver="enum/c25.cc", srcs=MULAPI, variant=v, defines=d,
                      flags=['-DBUILD_NAME="%s"' % n] + (["-DBUILD_PORTABLE"] if portable else [])
                      + (["-DBUILD_SMALL"] if n == "trace" else []), env=dict(RUY_TRACE_FILE="/dev/null"),
                      optional_build=n == "trace")
                 for n, d, v, portable in build_configs()],
        level="model_checking", assumptions=ENUM_ASSUME + [a for a in MC_ASSUME if a not in ENUM_ASSUME],
        technique="Exhaustive enumeration of shapes, layouts, divisions and thread counts on the real code in every build "
                  "configuration, every destination entry compared with exact arithmetic; schedule exploration of the pool and "
                  "of multiplications without assertions and without packing ahead",
        note="26 configurations: without assertions, with the profiler, with tracing, without hardware detection, without "
             "vector instructions, each optimization bit off, each traversal order alone, all off with and without assertions; "
             "6 type combinations, all runnable paths, 1 and 3 threads, 4 cache profiles"),
    "C26": dict(
        parts=[dict(kind="enum", driver="enum/c26.cc", srcs=MULAPI)],
        level="model_checking", assumptions=ENUM_ASSUME,
        technique="Exhaustive enumeration of parts of a product and of ways to compute them on the real code, every entry "
                  "compared bit by bit with the entry computed as part of the whole",
        note="15 type combinations x every runnable path x 4 parameter settings; parts of 17 x 17 (27 x 27) sizes and 10 (24) depths in all 8 "
             "storage orders; 4 x 4 (9 x 9) larger parts x 3 cache profiles x 1..3 threads x 4 caching combinations"),
    "C27": dict(
        parts=[dict(kind="mc", driver="mc/c27.cc"), dict(kind="enum", driver="enum/c27.cc", srcs=MULAPI)],
        level="model_checking", assumptions=MC_ASSUME + ENUM_ASSUME,
        technique="Exhaustive schedule exploration of two or three threads that use one context in turn, with happens-before "
                  "race detection; exhaustive enumeration of histories of three threads using one context",
        note="Turns under a lock and chains of ending threads: 9 pairs of multiplications, cached or not, context of one thread (no "
             "preemption bound) and of two (bound 3); histories over 3 threads x 5 operations to depth 3-4 (4) on portable and vector paths"),
}
