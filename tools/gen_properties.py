#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept readable here)."""
import json, os
CC = "include/pandaresampler/pandaresampler.cc"
HH = "include/pandaresampler.hh"
HI = "include/pandaresampler/hiir/"
SSE = [HI + "Upsampler2xSse.hpp", HI + "Downsampler2xSse.hpp", HI + "StageProcSseV2.hpp"]
FPU = [HI + "Upsampler2xFpuTpl.hpp", HI + "Downsampler2xFpuTpl.hpp", HI + "StageProcFpu.hpp"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=("process_block output",)):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}})

p("C01", "The output stream does not depend on how the input is cut into blocks",
  "Feeding the same input stream to a resampler in blocks of any (also zero, very small, very large or ever changing) lengths, from buffers with any float alignment, gives the same output stream as feeding it in the smallest possible blocks, up to float rounding of the filter sums. This holds for every mode, ratio, precision, filter type and with SIMD on or off.",
  ["inputs", "schedules", "configurations"], "all input streams x all sequences of block lengths (downsampling: multiples of the ratio) and buffer alignments x all 132 configurations",
  "testresampler streams a sine through FIR ratio 2 with blocks up to 128 samples and tolerates errors of the filter's accuracy; IIR, ratio 4 and 8, pairs of block sizes around the filter order and around the internal 1024 sample limits are never compared.",
  [CC, HH] + SSE + FPU,
  [("history buffers carry ORDER-1 samples from block to block", CC + " Upsampler2::process_block, Downsampler2::process_block"), ("chunking of blocks at 1024 samples", HH + " Resampler2::process_block"), ("all-pass memories", HI + "StageProcFpu.hpp, StageProcSseV2.hpp")],
  [("history, history_even, history_odd", "last ORDER-1 input samples", CC), ("_filter[i]._mem", "all-pass state", HI + "Stage*.h")])

p("C02", "A call reads exactly the input block, writes exactly the output block",
  "Processing n input samples reads no memory outside these n samples, never modifies them, and writes every one of the resulting output samples (n*ratio when upsampling, n/ratio when downsampling) and nothing else in caller memory, for buffers of any float alignment. No undefined behaviour occurs for any block length the API accepts, including lengths of 2^31 samples and more.",
  ["inputs", "configurations", "schedules"], "all configurations x block lengths 0 .. 2^32-1 x alignments of input and output x positions of the buffers relative to inaccessible memory",
  "testaddr runs FIR filters only for blocks shorter than 100 samples in a sanitizer build; IIR filters, longer blocks, read-only or page-limited input and unwritten output samples are not looked at.",
  [CC, HH] + SSE + FPU, [("vector loads limited to the history/block", CC + " process_block_aligned (i + 6 < n)"), ("IIR loads", HI + "Downsampler2xSse.hpp")], observe=("caller buffers, guard pages, sanitizer reports",))

p("C03", "reset() makes an instance indistinguishable from a new one",
  "After reset(), whatever was processed before (any amount, any block lengths, also NaN, infinite or huge samples, any number of earlier resets), an instance produces bit for bit the output that a newly created instance with the same specification produces for the same blocks.",
  ["histories", "configurations"], "all processing histories before the reset x all streams after it x all configurations",
  "No existing test calls reset() and compares with a fresh instance; stale state in one of three cascaded stages or in one phase needs a matching history to become visible.",
  [CC, HH] + SSE + FPU, [("std::fill of the histories", CC + " reset()"), ("clear_buffers", HI + "Upsampler2x*.hpp, Downsampler2x*.hpp"), ("reset of every cascaded stage", HH + " Resampler2::reset")])

p("C04", "SIMD, scalar and other instruction set builds compute the same filter",
  "With SIMD enabled, with SIMD disabled at run time, and in builds for targets without SSE (plain C++ or NEON code path), the same specification yields the same output stream up to float rounding. Whether an instance reports SIMD code in use agrees with what was requested and what the build supports, and the built-in filter self test succeeds in all of these builds.",
  ["inputs", "configurations", "programs"], "all streams, block sequences and alignments x all specifications x SIMD on/off x target instruction set",
  "The tests compare each variant with a sine reference within filter accuracy for FIR ratio 2; IIR SIMD code and the non-SSE builds are never executed.",
  [CC] + SSE + FPU, [("fir_compute_sse_taps / fir_process_4samples_sse", CC), ("StageProcSseV2", HI + "StageProcSseV2.hpp"), ("NEON mapping of the SSE intrinsics", CC)])

p("C05", "Instances are isolated from each other, also across threads",
  "Any number of instances (of the same or of different specifications) may be created, used, reset and destroyed in any interleaving, each one by one thread at a time, without synchronisation between them; each produces bit for bit the output it produces when it runs alone. Static functions and read-only queries may be called concurrently, there are no data races.",
  ["schedules", "histories", "configurations"], "all interleavings of calls on several instances in one or more threads, including hand-over of an instance from one thread to another",
  "All tests are single threaded and use one instance at a time; hidden shared scratch memory or caches would not show.",
  [CC, HH] + SSE + FPU, [("all state is per instance, scratch memory is on the stack", CC + " Downsampler2::process_block, " + HH + " Resampler2::process_block")], observe=("outputs per instance", "ThreadSanitizer reports"))

p("C06", "FIR upsampling passes the original samples through unchanged",
  "When upsampling with FIR filters, every finite input sample reappears bit for bit in the output at index ratio * i + delay(), for all ratios and precisions, whatever the neighbouring samples, block lengths and alignments are.",
  ["inputs", "schedules", "configurations"], "all finite float values (including denormals, negative zero and extreme magnitudes) x all block sequences x FIR upsampling configurations",
  "The tests compare with a sine within a tolerance, exact reproduction and extreme values are not checked; ratio 4 and 8 only print errors.",
  [CC, HH], [("centre tap of the half-band filter is copied", CC + " Upsampler2::process_sample_unaligned, process_4samples_aligned")])

p("C07", "delay() is the real latency of the resampler",
  "delay() is never negative, never changes during the life of an instance, and is the position in the output where the first input sample can be found: exactly, as the centre of the symmetric response, for FIR filters, and as the group delay at 1 kHz (44.1 kHz low rate, within the phase ripple of the precision level) for IIR filters, with SIMD on or off. For FIR filters with factor 2 it is a multiple of 0.5, for upsampling of 1.",
  ["configurations", "histories", "inputs"], "all configurations x all histories before the query",
  "testresampler relies on delay() for FIR ratio 2 only; testmultidelay prints errors for other ratios without checking them, and IIR delays are never measured in the suite.",
  [HH, CC, "filter-design/mkiir.cc"], [("delay composition of the cascade", HH + " Resampler2::delay"), ("delay per stage", CC + " delay()"), ("group delay constants", CC + " create_impl_iir")], observe=("delay() and the measured impulse and frequency responses",))

p("C08", "FIR filters keep the audible band and reject images to the stated precision",
  "With FIR filters of N bit precision, every signal with frequencies up to 18 kHz (at 44.1 kHz low rate) is resampled, at all ratios and in both directions, with its amplitude and its phase (apart from delay()) preserved to about the stated N-bit accuracy, and images of that band (upsampling) or frequencies that would alias into it (downsampling) are attenuated by about 6 dB per bit. No frequency is amplified noticeably.",
  ["inputs", "configurations", "schedules"], "all frequencies in the two bands (and mixtures), all phases x ratio 2, 4, 8 x precision x SIMD x block sequences",
  "testresampler samples some frequencies for ratio 2; the accuracy of the cascades for ratio 4 and 8 and stop bands between the sampled frequencies are not checked by the suite.",
  [CC, "filter-design/mkfir.sh", "filter-design/us_sinc.m"], [("half-band FIR tables per stage", CC + " create_impl")], observe=("frequency response measured from impulse responses; tone streams",))

p("C09", "IIR filters keep the audible band and reject images to the stated precision",
  "With IIR filters of N bit precision, every frequency up to 18 kHz (at 44.1 kHz low rate) is resampled with unchanged amplitude, at all ratios and in both directions, and images (upsampling) or frequencies that would alias into that band (downsampling) are attenuated by at least about 6 dB per bit, limited only by float rounding. No frequency is amplified, and the filters are stable for every bounded input.",
  ["inputs", "configurations", "schedules"], "all frequencies and phases x ratio 2, 4, 8 x precision x SIMD x block sequences",
  "No test of the suite runs an IIR filter at all.",
  [CC, "filter-design/mkiir.cc"] + SSE + FPU, [("elliptic half-band all-pass coefficients", CC + " create_impl_iir"), ("all-pass chains", HI + "StageProcFpu.hpp, StageProcSseV2.hpp")], observe=("frequency response measured from impulse responses; tone streams",))

p("C10", "Resampling is linear and time invariant",
  "For finite signals in the normal float range, the response to a sum is the sum of the responses, scaling the input scales the output by the same factor at any level, and delaying the input by k low-rate samples delays the output by k low-rate samples, all up to float rounding relative to the signal level. There is no level or position dependent behaviour such as clipping, thresholds, dither or periodic gain changes.",
  ["inputs", "histories", "configurations"], "all pairs of signals, scale factors between 2^-60 and 2^60, shifts, positions in arbitrarily long streams",
  "The tests use unit amplitude sines from the start of a stream only.",
  [CC] + SSE + FPU, [("convolution with constant taps", CC + " fir_process_one_sample, fir_process_4samples_sse"), ("constant all-pass coefficients", HI + "StageProc*.hpp")])

p("C11", "Ratio 1 is a transparent, fully usable resampler",
  "With ratio 1 the output is a bit for bit copy of the input for every float value (NaN payloads, infinities, denormals included) and block length, in both modes and for every precision and filter type. The delay is 0, reset() and all queries can be called like for any other ratio and do not change anything.",
  ["inputs", "configurations", "histories"], "all float bit patterns x block lengths x alignments x specifications with ratio 1 x sequences of calls",
  "Ratio 1 occurs in the tests with small blocks of zeros only, and no query is made.",
  [HH, CC], [("copy branch", HH + " Resampler2::process_block"), ("queries without stages", HH + " order, sse_enabled, delay, reset")])

p("C12", "Precision lookup returns the cheapest level that is good enough",
  "For any number of bits, the lookup returns the lowest precision level with at least that many bits, and the best level (24 bit) for more bits than can be delivered; it never decreases when the number of bits grows. Every level has its own, non-empty human-readable name that states its bits, unknown values are named as such, and each level measured is at least as accurate as the levels below it.",
  ["inputs", "configurations"], "all 2^32 numbers of bits; all precision levels and arbitrary enum values; all modes, ratios and filter types",
  "testresampler calls the lookup with a handful of numbers while parsing its arguments.",
  [CC, HH], [("threshold chain", CC + " find_precision_for_bits"), ("names", CC + " precision_name")], observe=("return values; measured responses",))

p("C13", "Results depend on nothing but specification and samples",
  "The output is a deterministic function of the specification and the sequence of input blocks: it never depends on uninitialised memory, on the previous contents of heap, stack or output buffers, on the addresses of objects (beyond their alignment), on environment, process or earlier use of the library. No decision is ever made on an uninitialised value.",
  ["inputs", "histories", "configurations"], "all contents of fresh heap and stack memory and of output buffers x address layouts x processes x configurations",
  "Tests run on freshly mapped (zero) memory, where missing initialisation is invisible.",
  [CC, HH] + SSE + FPU, [("value-initialised histories", HH + " AlignedArray"), ("clear_buffers in constructors", HI + "*.hpp")], observe=("outputs under poisoned memory", "MemorySanitizer reports"))

p("C14", "AlignedArray owns aligned, initialised, independently copyable elements",
  "An AlignedArray of any element type and size starts at a 64-byte boundary, shares no cache line with other heap data, and holds exactly the requested number of elements, value-initialised or equal to the given vector. Every element is constructed exactly once and destroyed exactly once, last element first, also when an element constructor throws; copies and assignments (also to itself) are independent objects with equal contents.",
  ["inputs", "histories"], "all element types (also with throwing constructors), all sizes, all sequences of create, copy, assign, access, destroy",
  "Tests only create float arrays on the side and never copy them or observe construction, destruction or padding.",
  [HH], [("over-allocation by two cache lines", HH + " AlignedArray::allocate_aligned_data"), ("placement new / explicit destruction", HH + " AlignedArray")], observe=("element life-cycle events, addresses, heap log",))

p("C15", "Processing is real-time safe and free of side effects",
  "For valid blocks, processing, reset() and the queries allocate or free no memory, make no system calls, take no locks, print nothing, throw nothing and leave errno, rounding mode, denormal handling and exception masks unchanged. The stack they need is bounded (64 KiB suffices) independent of the block length, and the work per sample does not depend on how much was processed before.",
  ["inputs", "histories", "configurations"], "all configurations x block lengths x sample values x histories",
  "No test observes allocation, system calls, floating-point environment or stack use.",
  [CC, HH] + SSE + FPU, [("scratch memory on the stack with fixed size", HH + " Resampler2::process_block, " + CC + " Downsampler2::process_block")], observe=("malloc/free log, seccomp, fenv, errno, painted stack",))

p("C16", "Instances own their memory; moving and swapping keep the stream",
  "Creating, using, resetting, moving and destroying resamplers in any order returns every byte of memory allocated, and memory use of an instance stays constant however much it processes. A moved-to instance (by construction, assignment, swap or growth of a container) continues the stream of the moved-from instance bit for bit, and instances cannot be copied by accident.",
  ["histories", "configurations"], "all sequences of construct, process, reset, move, swap, destroy over many instances of all specifications",
  "Tests create single instances for the life of the process and never move them.",
  [HH, CC], [("unique_ptr ownership of the stages", HH + " impl_x2, impl_x4, impl_x8")], observe=("heap log", "output continuity"))

p("C17", "FIR output depends only on a bounded window of past input",
  "With FIR filters, a change of one input sample changes outputs only inside a window of the documented filter length behind it: outputs that belong to earlier positions are unaffected, and after the window has passed the output is exactly what it would have been otherwise. This holds also for NaN and infinite samples (with an allowance of at most 8 neighbouring samples, at the low rate of each stage), so a bad sample never damages the stream for good.",
  ["inputs", "schedules", "configurations"], "all streams x positions and values of the changed sample (finite, NaN, infinite) x block sequences x FIR configurations",
  "Tests never compare two streams that differ in one sample and never feed non-finite samples.",
  [CC, HH], [("history limited to ORDER-1 samples", CC + " process_block"), ("zero padding of the vector taps", CC + " fir_compute_sse_taps")], observe=("difference of two output streams",))

p("C18", "Silence stays silence, signals decay, nothing drifts in the long run",
  "A new or reset instance outputs exact zeros for zero input for ever; after a signal ends, FIR output becomes exactly zero after the filter length and IIR output decays to nothing. A constant input yields that constant, and after arbitrarily long use the output still equals that of a new instance fed with the recent input: no accumulated error, offset or limit cycle.",
  ["inputs", "histories", "configurations"], "all lengths of silence, constant or busy input (millions of samples) x configurations x block sequences",
  "Tests process a few thousand samples; accumulated rounding errors, denormal stalls or counters need millions.",
  [CC] + SSE + FPU, [("finite FIR history", CC), ("all-pass cells with coefficients below 1", HI + "StageProc*.hpp, *Sse.hpp")])

p("C19", "The FIR filters are exactly the documented half-band designs",
  "The impulse response of every FIR configuration is, to float rounding, the cascade of the half-band windowed-sinc filters documented in the filter design script (ultraspherical window, given length and side lobe attenuation per stage and precision; linear interpolation for the lowest level). The filters are linear phase, every second tap except the centre is zero, the centre is exactly 1 (up) or 1/2 (down), and the reported order is the number of remaining taps of the ratio 2 stage.",
  ["configurations", "inputs"], "every tap of every stage, precision, ratio and direction, SIMD on and off; measured through impulses in every phase",
  "The tables are pasted output of octave scripts and the suite only sees them through a few sine tests of ratio 2.",
  [CC, "filter-design/mkfir.sh", "filter-design/us_sinc.m"], [("coefficient tables", CC + " create_impl"), ("scaling 2 / 1", CC + " create_impl_with_coeffs")], observe=("impulse responses",))

p("C20", "The IIR filters are exactly the documented elliptic designs",
  "The response of every IIR configuration is, to float rounding, the cascade of the minimal half-band elliptic polyphase filters for 6 dB per bit of attenuation and a pass band of 18 kHz at 44.1 kHz low rate, and the coefficient sets and delays produced by the filter design program of this repository for that specification are the ones the resampler uses. The delay reported is the group delay of that design.",
  ["configurations", "inputs"], "every coefficient of every stage, precision, ratio and direction, SIMD on and off",
  "No test executes the IIR filters or compares the pasted tables with the design program.",
  [CC, "filter-design/mkiir.cc", HI + "PolyphaseIir2Designer.cpp"], [("coefficient tables and delays", CC + " create_impl_iir"), ("design program", "filter-design/mkiir.cc")], observe=("impulse responses, design program output",))

p("C21", "The IIR designer meets every feasible specification",
  "For any attenuation and transition bandwidth, the designer returns the smallest number of coefficients whose half-band filter reaches the attenuation, with coefficients strictly increasing between 0 and 1, and the filter built from them has the stated attenuation and transition band. The group delay it reports is the derivative of the phase of the (first) all-pass chain of that filter, and design by group delay either hits the delay within the requested precision and the given bounds or reports failure.",
  ["inputs"], "all attenuations, transition widths, numbers of coefficients, group delays, frequencies, precisions and bounds inside the documented ranges",
  "The designer is not executed by any test; only the stored result of one run is used.",
  [HI + "PolyphaseIir2Designer.cpp", HI + "PolyphaseIir2Designer.h"], [("elliptic design by theta series", HI + "PolyphaseIir2Designer.cpp compute_coef"), ("bisection on the transition bandwidth", HI + "PolyphaseIir2Designer.cpp compute_coefs_spec_order_gdly")], observe=("designer results vs. responses evaluated independently",))

p("C22", "All forms of delivery behave the same",
  "The library gives the same results whether it is used as shared library, static library or header-only, from one or several translation units, from C++11 to C++20, with gcc or clang, at any optimisation level, with or without assertions, and without exceptions and RTTI where it builds that way. The public header can be included alone and first, repeatedly, and header-only use causes no duplicate or missing symbols.",
  ["programs", "configurations"], "all combinations of delivery form, compiler, language standard, optimisation level and build flags x specifications",
  "The suite builds two header-only programs and one shared/static configuration with one language standard and never compares their results.",
  [HH, CC, "meson.build"], [("PANDA_RESAMPLER_HEADER_ONLY", HH), ("inline function marking", CC + " PANDA_RESAMPLER_FN")], observe=("compile and link results; output streams of all builds",))

p("C23", "Invalid use is reported and does no damage, valid use is silent",
  "A block that cannot be resampled completely (downsampling a length that is not a multiple of the ratio) is refused with a diagnostic on stderr, writes no output and leaves the state of the stream untouched, for every filter type and ratio. Empty blocks are accepted as no-ops anywhere in a stream, an unsupported ratio or precision is reported when the instance is created, and no diagnostic is ever printed for valid use.",
  ["inputs", "histories", "configurations"], "all configurations x invalid block lengths at any point of a stream; invalid specifications; all valid calls",
  "Tests only make valid calls, with non-empty blocks.",
  [HH, CC], [("PANDA_RESAMPLER_CHECK", HH), ("length checks", HH + " process_block, " + CC + " Downsampler2::process_block")], observe=("stderr, output buffers, following output",))

p("C24", "Up- and downsampling back reproduces the signal",
  "Upsampling a signal that is limited to 18 kHz (at 44.1 kHz low rate) and downsampling the result by the same ratio gives the original signal, delayed by the sum of the two delays expressed at the low rate, to the stated precision; likewise downsampling a band-limited high-rate signal and upsampling again. This holds for every ratio, precision and filter type (IIR: apart from its phase response) and any block lengths on either side.",
  ["inputs", "schedules", "configurations"], "all band-limited signals x ratio x precision x filter x SIMD (mixed between the two directions) x block sequences",
  "testdistort/testmultiperf run such chains without checking anything; no test of the suite connects an upsampler with a downsampler.",
  [HH, CC], [("matching up/down filters and delays", CC + ", " + HH + " delay")])

p("C25", "The IIR half-band building blocks implement the all-pass structure exactly",
  "The up- and downsampling blocks of the IIR implementation, for every number of coefficients, with any stable coefficients, in float, double and SIMD form, sample by sample or in blocks of any length (in place where documented), equal the mathematical pair of all-pass chains. The low and high outputs of the band splitter are the half sum and half difference of the chains, the low output is the normal downsampler output, and clearing restores the initial state.",
  ["inputs", "configurations", "schedules"], "number of coefficients 1..24 x coefficients in (0,1) x streams x calls of all processing functions in any order",
  "The blocks are instantiated for 5 sizes through the resampler and are not executed by any test; the band splitter is never used.",
  SSE + FPU + [HI + "StageDataFpu.h", HI + "StageDataSse.h"], [("recursive stage processing templates", HI + "StageProcFpu.hpp, StageProcSseV2.hpp"), ("block loops", HI + "Upsampler2x*.hpp, Downsampler2x*.hpp")])

p("C26", "Running out of memory during construction is reported, never ignored",
  "If memory cannot be allocated at any point while a resampler or an aligned array is constructed or copied, a std::bad_alloc exception is raised, everything allocated so far is released, existing objects stay intact and usable, and a later attempt with memory available succeeds.",
  ["fault_sequences", "configurations"], "failure of every single allocation (and of all later ones) during construction of every specification, and during vector construction, copy and assignment of arrays",
  "Tests never let an allocation fail.",
  [HH, CC], [("operator new", HH + " AlignedArray::allocate_aligned_data"), ("members with destructors", CC + " Upsampler2, Downsampler2")], observe=("exceptions, heap log",))

p("C27", "Results do not depend on the floating point environment of the host",
  "With flush-to-zero or denormals-are-zero enabled (as audio hosts do), switched on or off at any time, in any rounding mode, and with trapping floating point exceptions, construction, processing and queries work as in the default environment: the output is the same apart from samples in the denormal range and, for directed rounding, apart from float rounding. Finite input of normal level raises no invalid operation, division by zero or overflow exception.",
  ["inputs", "histories", "configurations"], "all streams of finite samples x floating point environments (flushing, rounding mode, unmasked exceptions; constant or changing between blocks, set before or after construction) x all configurations",
  "All tests run in the default environment.",
  [CC, HH] + SSE + FPU, [("filter arithmetic", CC + " fir_process_*, " + HI + "StageProc*.hpp")], observe=("process_block output, MXCSR flags, SIGFPE",))

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
