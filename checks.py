"""The registered checks: which monitor programs run in which instrumented builds."""
CHECKS = {
    "C01": dict(
        technique='runtime monitoring: differential oracle on recorded streams (one unit at a time versus adversarial block schedules)',
        note='Every configuration is run through all ordered pairs of small block sizes, all internal block limits +-9, random and alternating schedules and misaligned buffers; trusts the one-unit-at-a-time run of the same code as reference.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = one configuration (mode, ratio, precision, filter, simd) x one schedule of block sizes, buffer handling and misalignments; "
             "non-trivial if it makes more than one call; distinct by configuration and the sequence of sizes",
        min_evals=2000, min_distinct=1000,
        assumptions=["reference = the same code fed one unit at a time", "rounding differences up to 40 ulp of the term magnitudes are allowed"]),
    "C02": dict(
        technique='page-protection and canary monitors, AddressSanitizer, UBSan',
        note="Each call runs with inaccessible pages next to the blocks, read-only input and two output pre-fills, and again in sanitizer builds with exactly sized heap blocks; blocks of more than 2^31 samples on tiled mappings. Accesses that stay inside the library's own objects are seen by the sanitizers only.",
        jobs=[dict(variant="gcc", shards=3, args=["mode=guard"]), dict(variant="gcc", shards=4, args=["mode=dense"]),
              dict(variant="casanonly", shards=4), dict(variant="cubsan", shards=2), dict(variant="gcc", shards=8, args=["mode=huge"]), dict(variant="hubsan", shards=8, args=["mode=huge"]),
              dict(variant="clang", shards=4, args=["mode=guard"], thorough_only=True), dict(variant="gasan", shards=4, thorough_only=True)],
        rule="one case = one process_block call: configuration x block length x placement of the buffers (page boundary before/after, misalignment, exact heap block); "
             "non-trivial if the block is not empty; distinct by all of these",
        min_evals=20000, min_distinct=10000,
        assumptions=["address sanitizer and page protection see every access to memory that is not part of the blocks (redzones, unmapped pages, read-only pages)"]),
    "C03": dict(
        technique='runtime monitoring: bit-exact twin oracle (used+reset instance versus new instance)',
        note='Long chains of histories (also NaN, Inf, huge, denormal input, 70000 resets) followed by reset and a probe stream, for every configuration.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = configuration x history (kind of signal, length, block sizes, resets) x probe stream; non-trivial if something was processed before the reset",
        min_evals=5000, min_distinct=3000,
        assumptions=["reference = a new instance in the same process fed the same blocks from the same memory"]),
    "C04": dict(
        technique='runtime monitoring: differential oracle across SIMD/scalar and recorded outputs of builds for different instruction sets',
        note='Builds for SSE, SSE4.1, AVX2+FMA, AVX-512 (where the CPU has them), without SSE, and NEON; NEON code is run through a functional stand-in for arm_neon.h; differences of up to 40 ulp of the term magnitudes are rounding.',
        jobs=[dict(variant="gcc", shards=6, args=["mode=pair"])] +
             [dict(variant=v, args=["mode=dump"]) for v in ("gcc", "clang", "ndebug", "portable", "neon", "sse41", "avx2", "avx512", "small")] +
             [dict(variant="gcc", args=["mode=cmp"], after=True), dict(variant="release", args=["mode=dump"], thorough_only=True)],
        optional_builds=["neon"],
        rule="one case = one SIMD/scalar (or build/build) pair x stream x block schedules on both sides; distinct by configuration and schedule",
        min_evals=1000, min_distinct=800,
        assumptions=["NEON code path is compiled for x86 with a functional stand-in for arm_neon.h", "rounding differences up to 40 ulp of the term magnitudes are allowed"]),
    "C05": dict(
        technique='ThreadSanitizer and online transcript monitor for interleaved and threaded instances',
        note='Observed interleavings only; the transcript oracle compares every operation with a solo run.',
        jobs=[dict(variant="gcc", shards=2, args=["mode=interleave"]), dict(variant="gcc", shards=4, args=["mode=crowd"]), dict(variant="gcc", shards=2, args=["mode=threads"]), dict(variant="gcc", shards=2, args=["mode=parallel"]),
              dict(variant="tsan", shards=2, args=["mode=threads"]), dict(variant="tsan", shards=2, args=["mode=parallel"]),
              dict(variant="tsan", shards=4, args=["mode=first"]), dict(variant="gcc", shards=2, args=["mode=first"])],
        rule="one case = one interleaving of the operations of several instances, or one multi-threaded run; distinct by the observed order of operations",
        min_evals=500, min_distinct=400,
        assumptions=["reference = the same program of operations run alone", "thread sanitizer observes the races that happen in the runs made"]),
    "C06": dict(
        technique='runtime monitoring: bitwise conservation oracle on streams',
        note='Every sample of streams that cover all exponents, denormals and signed zeros is compared, all configurations.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = configuration x stream (noise, any finite bit pattern, denormal, sparse) x block schedule; every sample is compared bitwise",
        min_evals=300, min_distinct=300, assumptions=[]),
    "C07": dict(
        technique='runtime monitoring: measured symmetry and group delay against the reported value',
        note='IIR group delay is compared within the phase ripple of the precision level.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = one measurement of the impulse response (amplitude, block sizes) compared with delay(), or one query in a history; distinct by configuration and case number",
        min_evals=5000, min_distinct=5000, assumptions=["44.1 kHz low rate as in the filter design"]),
    "C08": dict(
        technique='runtime monitoring: measured frequency response, tones and multi-tones against the stated accuracy',
        note='Limits per precision and ratio are the accuracy of the documented designs with a margin; frequencies are sampled, the response from the impulse response is dense.',
        jobs=[dict(variant="gcc", shards=8, args=["mode=fir"], src="c08.cc"), dict(variant="clang", shards=8, args=["mode=fir"], src="c08.cc", thorough_only=True)],
        rule="one case = one frequency of the dense response of one configuration or one (multi-)tone stream with random level, phase, frequencies and block sizes; distinct by configuration and frequency",
        min_evals=1500, min_distinct=1200, assumptions=["44.1 kHz low rate, pass band 18 kHz as in the filter design"]),
    "C09": dict(
        technique='runtime monitoring: measured frequency response, tones and stability against the stated attenuation',
        note='Attenuation limited by float rounding for the highest levels; frequencies are sampled.',
        jobs=[dict(variant="gcc", shards=8, args=["mode=iir"], src="c08.cc"), dict(variant="clang", shards=8, args=["mode=iir"], src="c08.cc", thorough_only=True)],
        rule="one case = one frequency of the dense response of one configuration or one tone/worst-case stream; distinct by configuration and frequency",
        min_evals=1200, min_distinct=900, assumptions=["44.1 kHz low rate, pass band 18 kHz as in the filter design"]),
    "C10": dict(
        technique='runtime monitoring: metamorphic oracles (superposition, scaling, delay) on streams',
        note='Rounding is allowed for relative to the level of the streams, levels from the smallest to the largest normal floats.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = configuration x relation (sum, scale, delay) x streams, levels, block sizes; distinct by configuration, relation and parameters",
        min_evals=1000, min_distinct=1000, assumptions=["float rounding up to 40..120 ulp of the term magnitudes"]),
    "C11": dict(
        technique='runtime monitoring: bitwise conservation oracle, canaries, query transcript; AddressSanitizer and UBSan build',
        note='All ratio 1 specifications, all classes of float values, all small lengths, blocks of up to 2^32 - 1 samples.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="casan", shards=8), dict(variant="gdebug", shards=2), dict(variant="gcc", shards=8, args=["mode=huge"]), dict(variant="hubsan", shards=8, args=["mode=huge"])],
        rule="one case = one block of one ratio 1 specification or one query in a history; distinct by specification, length, alignment and contents",
        min_evals=5000, min_distinct=5000, assumptions=[]),
    "C12": dict(
        technique='runtime monitoring: lookup oracle over all 2^32 arguments; measured accuracy order of the levels',
        note='The lookup is observed for every 32 bit argument; accuracy ordering is measured on responses.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="cubsan", shards=1, args=["mode=light"])],
        rule="one case = one argument of the lookup or of the name function, or one measured accuracy; distinct by argument class",
        min_evals=100000, min_distinct=50, assumptions=[]),
    "C13": dict(
        technique='MemorySanitizer; runtime monitoring: bitwise replays with varied heap, stack, output contents, environment and process',
        note='Every output sample is checked against the shadow memory in the MemorySanitizer build.',
        jobs=[dict(variant="gcc", shards=6), dict(variant="msan", shards=4)] +
             [dict(variant="gcc", args=["mode=dump"], name="c13-dump-p%d" % i, env=e) for i, e in enumerate((
                 {"MON_TAG": "p0"}, {"MON_TAG": "p1", "MALLOC_PERTURB_": "165", "LC_ALL": "de_DE.UTF-8", "LANG": "tr_TR"},
                 {"MON_TAG": "p2", "MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "100000", "PADDING": "x" * 5000}, {"MON_TAG": "p3", "MALLOC_PERTURB_": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}))] +
             [dict(variant="gcc", args=["mode=cmp"], after=True)],
        rule="one case = one stream replayed under one variation of memory contents, addresses or process environment; distinct by configuration and variation",
        min_evals=1000, min_distinct=500, assumptions=["uninitialised values are seen by MemorySanitizer or by varying what the memory held before"]),
    "C14": dict(
        technique='runtime monitoring: lifetime registry of element objects, heap log; AddressSanitizer builds',
        note='Element types from 1 byte to several cache lines, trivial and non-trivial, sizes 0 to thousands, and arrays beyond 2^32 elements or bytes (when 20 GB of memory are available).',
        jobs=[dict(variant="gcc", shards=4), dict(variant="gcc", args=["mode=huge"]), dict(variant="casan", shards=4), dict(variant="gdebug", shards=2), dict(variant="gasan", shards=4, thorough_only=True)],
        rule="one case = one operation (construct, copy, assign, self-assign, destroy) on arrays of one element type and size; distinct by type, size and operation",
        min_evals=1000, min_distinct=500, assumptions=[]),
    "C15": dict(
        technique='runtime monitoring: allocator, lock and system call traps, FP environment and stack probes, executed-block counters',
        note='System calls are trapped with a seccomp filter inside a child process; work is counted in executed basic blocks.',
        jobs=[dict(variant="gcc", shards=8, args=["mode=side"]), dict(variant="gcc", shards=2, args=["mode=suspend"]), dict(variant="cov", shards=8, args=["mode=work"]), dict(variant="clang", shards=8, args=["mode=side"], thorough_only=True)],
        rule="one case = one call (process, reset, query) under the monitors; distinct by configuration, operation, block length and history",
        min_evals=5000, min_distinct=2000, assumptions=["Linux on x86-64"]),
    "C16": dict(
        technique='runtime monitoring: heap balance log, transcript oracle for moved instances, compile-time trait probes; AddressSanitizer build',
        note='Random programs of create/use/move/swap/container operations.',
        jobs=[dict(variant="gcc", shards=4), dict(variant="casan", shards=4), dict(variant="gdebug", shards=2)], script="scripts.movable",
        rule="one case = one operation of a random program on a pool of instances; distinct by specification, operation and history",
        min_evals=1000, min_distinct=500, assumptions=["reference = an instance that was never moved"]),
    "C17": dict(
        technique='runtime monitoring: differential oracle outside the window computed from the documented filter lengths',
        note='All FIR configurations, changed samples of all value classes, single samples and bursts.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = one pair of streams that differ in one sample or burst; non-trivial if at least one output differs; distinct by configuration, position and kind",
        min_evals=10000, min_distinct=8000, assumptions=["window computed from the documented filter lengths"]),
    "C18": dict(
        technique='runtime monitoring: zero, decay, constant and long-run oracles',
        note='Long runs of 4 million units (quick) or 134 million units (thorough) per configuration, compared with new instances at every power of two; 16 million calls of one unit; streams of one configuration of each kind beyond 2^32 samples.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="release", shards=16, args=["mode=wrap"]), dict(variant="release", shards=8, args=["mode=calls"]), dict(variant="release", shards=8, thorough_only=True)],
        rule="one case = one silent, decaying, constant or long stream; distinct by configuration and parameters",
        min_evals=1000, min_distinct=1000, assumptions=["arbitrarily long is sampled by long runs"]),
    "C19": dict(
        technique='runtime monitoring: impulse responses against independently computed half-band designs',
        note='Every tap of every stage is observed through impulses in every phase; the reference designs were computed from the formulas of the design script by independent code.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True), dict(variant="portable", shards=8, thorough_only=True)],
        rule="one case = one tap of a measured impulse response (configuration, phase, amplitude) or one reported order; distinct by configuration, phase and amplitude",
        min_evals=1000, min_distinct=200, assumptions=["reference designs in harness/design.inc"]),
    "C20": dict(
        technique='runtime monitoring: recorded responses against independently computed elliptic designs; design program run under AddressSanitizer and UBSan with its output compared',
        note='Coefficients are observed through impulse responses and through the output of the design program.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True), dict(variant="portable", shards=8, thorough_only=True)], script="scripts.design",
        rule="one case = one measured response of one configuration (SIMD and scalar) or one design compared with the design program; distinct by configuration and measurement",
        min_evals=100, min_distinct=100, assumptions=["reference designs in harness/design.inc"]),
    "C21": dict(
        technique='runtime monitoring: evaluation of designed filters by an independent oracle on random specifications; AddressSanitizer and UBSan build',
        note='Specifications are sampled over the documented ranges, including extreme ones.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="casan", shards=4)],
        rule="one case = one specification (attenuation, transition, number of coefficients or group delay with bounds) given to the designer; distinct by specification",
        min_evals=1000, min_distinct=1000, assumptions=["frequencies of group delay designs below half the sample rate of the chain"]),
    "C22": dict(
        technique='runtime monitoring: the same recorded workload built and run in all forms of delivery, outputs compared offline',
        note='20 forms (one installed by the build system and found with pkg-config) in the quick check, about 130 in the thorough check; rounding differences up to 4e-6 are allowed between compilers.',
        jobs=[], script="scripts.forms",
        rule="one case = one form of delivery (library form, translation units, compiler, standard, options) built, run and compared, or one compilation of the header alone; distinct by form",
        min_evals=30, min_distinct=30, assumptions=["gcc 13 and clang 18 on x86-64"]),
    "C23": dict(
        technique='runtime monitoring: stderr capture, canaries and transcript twin oracle; libstdc++ debug mode and AddressSanitizer builds',
        note='Invalid calls are inserted at random points of valid streams of every configuration.',
        jobs=[dict(variant="gcc", shards=4), dict(variant="casan", shards=4), dict(variant="gdebug", shards=2), dict(variant="clang", shards=4, thorough_only=True)],
        rule="one case = one call (valid, empty or invalid) in a stream of one configuration, or one construction; distinct by configuration, call and length",
        min_evals=1000, min_distinct=500, assumptions=["invalid block = downsampling a length that is not a multiple of the ratio"]),
    "C24": dict(
        technique='runtime monitoring: round trip oracle on recorded streams',
        note='Band-limited signals are sampled (multi-tones, sweeps); limits from the precision level.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = one round trip of one band-limited signal (up and down, or down and up) with random block sizes and SIMD on both sides; distinct by configuration and signal",
        min_evals=300, min_distinct=300, assumptions=["44.1 kHz low rate, pass band 18 kHz as in the filter design"]),
    "C25": dict(
        technique='runtime monitoring: double precision model of the all-pass pair as online oracle; AddressSanitizer build',
        note='All numbers of coefficients 1..24, all processing functions, random call sequences.',
        jobs=[dict(variant="gcc", shards=1, cflags="-DC25_PART=%d" % i, name="c25-gcc-part%d" % i) for i in range(5)] +
             [dict(variant="casan", shards=1, cflags="-DC25_PART=%d" % i, name="c25-casan-part%d" % i, thorough_only=i < 5) for i in range(7)] +
             [dict(variant="clang", shards=1, cflags="-DC25_PART=%d" % i, name="c25-clang-part%d" % i, thorough_only=True) for i in range(5)],
        rule="one case = one call sequence on one block type with random coefficients; distinct by type, number of coefficients and sequence",
        min_evals=500, min_distinct=500, assumptions=[]),
    "C26": dict(
        technique='runtime monitoring with fault injection: every allocation fails once, heap balance log',
        note='Fault points are enumerated completely for every specification.',
        jobs=[dict(variant="gcc", shards=4), dict(variant="clang", shards=4, thorough_only=True)],
        rule="one case = one failing allocation (single, or this and all later) during one construction, copy or assignment; distinct by operation and fault point",
        min_evals=500, min_distinct=200, assumptions=["operator new reports failure by std::bad_alloc"]),
    "C27": dict(
        technique='runtime monitoring: differential oracle between floating point environments, exception flag and trap monitor',
        note='Flush-to-zero, denormals-are-zero, directed rounding and unmasked exceptions through MXCSR on x86-64.',
        jobs=[dict(variant="gcc", shards=8), dict(variant="g0", shards=8), dict(variant="clang", shards=8, thorough_only=True)],
        rule="one case = one stream of one configuration in one floating point environment compared with the default environment; distinct by configuration, stream and environment",
        min_evals=1500, min_distinct=1500, assumptions=["x86-64 MXCSR", "exception flags are observed in code built by gcc"]),
}
