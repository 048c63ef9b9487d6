#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
A = "src/algorithm/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

T14 = [A+"type1_convert_to_fft.rs", A+"type1_naive.rs", A+"type2and3_butterflies.rs", A+"type2and3_convert_to_fft.rs",
       A+"type2and3_splitradix.rs", A+"type4_convert_to_fft.rs", A+"type4_convert_to_type3.rs", A+"type4_naive.rs", "src/plan.rs", "src/twiddles.rs"]
T58 = [A+"type5_naive.rs", A+"type6and7_naive.rs", A+"type6and7_convert_to_fft.rs", A+"type8_naive.rs", "src/plan.rs"]

p("C01", "Planned DCT/DST types 1-4 compute their defining sums at every length",
  "For every signal length (at least 2 for DCT type 1, at least 1 for the others) and every finite input, a planned DCT or DST of type 1, 2, 3 or 4 replaces the buffer by the unnormalised textbook transform of its previous contents, up to floating-point rounding. The end-point halvings of DCT-1, DCT-3 and DST-3 and no others are applied, and no normalisation factor is added.",
  ["inputs", "configurations"], "every kind (8), every length, every finite f32/f64 input vector",
  "The planner is only exercised for lengths below 20 with one fixed random vector per length and an absolute tolerance of 1e-3; the recursive power-of-two DST paths, the FFT-based DST-1 chosen from length 25 on and every large length are never planned by a test.",
  T14, [("algorithm selection by length", "src/plan.rs: plan_new_dct1/2/4, plan_new_dst1"), ("index permutation and twiddle arithmetic of each algorithm", "src/algorithm/type1*, type2and3*, type4*")],
  ["buffer contents when process_dctN / process_dstN returns"])
p("C02", "Planned DCT/DST types 5-8 compute their defining sums at every length",
  "For every signal length of at least 1 and every finite input, a planned DCT or DST of type 5, 6, 7 or 8 replaces the buffer by the unnormalised textbook transform of its previous contents, up to floating-point rounding. The half-sample denominators (n-1/2 or n+1/2) and end-point halvings are exactly those of the textbook definitions.",
  ["inputs", "configurations"], "every kind (8), every length, every finite f32/f64 input vector",
  "Planner tests stop at length 19, so the FFT-based DST-6/7 path that the planner selects from length 45 on is never planned by a test, and each length sees one fixed vector with tolerance 1e-3.",
  T58, [("twiddle index stepping modulo the table length", "src/algorithm/type5_naive.rs, type6and7_naive.rs, type8_naive.rs"), ("even/odd scatter into an odd-length FFT", "src/algorithm/type6and7_convert_to_fft.rs"), ("selection by length", "src/plan.rs: plan_new_dst6 etc.")],
  ["buffer contents when process_dctN / process_dstN returns"])
p("C03", "Every directly constructed algorithm, over any valid inner transform, is correct",
  "Each public algorithm type (naive, FFT-based, recursive power-of-two, hard-coded sizes 2, 3, 4, 8 and 16 including their unchecked in-place entry points, type-4 via type-3, MDCT via type-4) computes, at every length it accepts, the textbook transform it is documented for. This holds whichever valid inner transform it was built over, including inner transforms that ask for a lot of scratch or overwrite all the scratch they are handed; the choice of algorithm is never visible beyond rounding.",
  ["inputs", "configurations", "programs"], "every algorithm type, every accepted length, every valid composition of inner transforms, every finite input",
  "Unit tests compose each algorithm with a single inner implementation for a few small lengths; nested compositions, inner transforms needing more scratch than the outer length, and the DST-2/3 paths of the recursive algorithm are not exercised.",
  T14+T58+["src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs"],
  [("scratch partition between outer and inner transforms", "type2and3_splitradix.rs, type4_convert_to_type3.rs, mdct_via_dct4.rs"), ("hard-coded butterflies", "type2and3_butterflies.rs")],
  ["buffer contents after processing through directly constructed instances"])
p("C04", "MDCT computes the windowed definition and overwrites exactly its output",
  "For every even length n, window and finite input pair, the MDCT writes to the output buffer the textbook lapped transform of the concatenated, windowed 2n inputs, whatever the output buffer held before. Both input slices are left bit-for-bit unmodified, and planned and directly constructed MDCTs agree up to rounding.",
  ["inputs", "configurations"], "every even length, every window vector, every input, every prior output content, naive and DCT-4 based and planned implementations",
  "Tests use a zero-filled output, three symmetric built-in windows (which hide mistakes in window indexing) and a handful of lengths.",
  ["src/mdct/mdct_naive.rs", "src/mdct/mdct_via_dct4.rs", "src/mdct/mod.rs", "src/plan.rs"],
  [("folding of the four input blocks with window", "mdct_via_dct4.rs: process_mdct_with_scratch"), ("twiddle stepping", "mdct_naive.rs")],
  ["output, input_a, input_b after process_mdct_with_scratch"])
p("C05", "IMDCT adds the windowed inverse to what the output already holds",
  "For every even length n, window and finite input, the IMDCT adds to each of the 2n cells of its two output slices the windowed textbook inverse lapped transform value, keeping what was already accumulated there. The input slice is left bit-for-bit unmodified, and repeated calls accumulate.",
  ["inputs", "configurations", "histories"], "every even length, every window vector, every input, every prior output content, any sequence of accumulating calls",
  "Tests accumulate onto all-ones or zero outputs once, with symmetric built-in windows only.",
  ["src/mdct/mdct_naive.rs", "src/mdct/mdct_via_dct4.rs", "src/mdct/mod.rs", "src/plan.rs"],
  [("accumulating write-back in four windowed quarter passes", "mdct_via_dct4.rs: process_imdct_with_scratch"), ("symmetric reuse of twiddles", "mdct_naive.rs: process_imdct_with_scratch")],
  ["output_a, output_b, input after process_imdct_with_scratch"])
p("C06", "Overlapped MDCT then IMDCT reconstructs the signal",
  "For every even length n, every number of segments and every signal, taking the MDCT of successive half-overlapping blocks and accumulating the IMDCTs at the same offsets reproduces every fully overlapped sample up to rounding: with scale 1 for the three invertible built-in windows, scale 2/n for the MP3 and Vorbis windows and scale 1/n for the rectangular window. The same holds for any user window that is symmetric and power-complementary.",
  ["inputs", "histories", "configurations"], "every even length, every segment count, every signal, all built-in windows and arbitrary power-complementary user windows",
  "One five-segment random signal is tried for a dozen lengths with tolerance 1e-3 in f32.",
  ["src/mdct/window_fn.rs", "src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs", "src/plan.rs"],
  [("alias cancellation between adjacent accumulated blocks", "mdct_via_dct4.rs"), ("normalising windows", "window_fn.rs")],
  ["reconstructed signal after an analysis/synthesis pass"])
p("C07", "Built-in windows have the requested length, shape and energy",
  "For every even requested size, each built-in window function returns exactly that many values; MP3 is the half-sample sine window, Vorbis the nested sine power window and the rectangular window all ones, all symmetric, and MP3 and Vorbis satisfy the power-complementary condition. The three invertible variants equal the plain window times sqrt(4/size) (MP3, Vorbis) or sqrt(2/size) (rectangular).",
  ["inputs", "configurations"], "every even size, every sample index, f32 and f64",
  "Only the power-complementary condition of two windows is tested, for sizes below 40 at tolerance 1e-3; shape, symmetry and the scaled variants are not tested directly.",
  ["src/mdct/window_fn.rs"], [("closed-form sample evaluation", "window_fn.rs")],
  ["vector returned by each window function"])
p("C08", "Results never depend on what scratch contains or how much surplus there is",
  "For every instance and input, processing with any scratch slice at least as long as the instance's advertised scratch length gives the same result, whatever that scratch contained beforehand (including NaNs and leftovers of other transforms) and however much longer it is. The convenience methods that allocate their own scratch give that same result, and the advertised scratch length is always sufficient.",
  ["inputs", "histories", "configurations"], "every transform kind and algorithm, every length, every initial scratch content, every scratch length >= the advertised one",
  "Every test supplies freshly zeroed scratch of exactly the advertised length.",
  T14+T58+["src/mdct/mdct_via_dct4.rs", "src/lib.rs", "src/common.rs", "src/array_utils.rs"],
  [("scratch fully written before it is read", "every *_convert_to_fft.rs, splitradix, mdct_via_dct4"), ("scratch sliced to the advertised length", "src/common.rs: validate_buffers")],
  ["buffer contents after *_with_scratch versus the convenience method", "get_scratch_len"])
p("C09", "Mis-sized buffers are rejected untouched and well-sized ones accepted",
  "Calling any transform with a signal buffer whose length differs from the instance's length, or with less scratch than advertised, panics in debug and release builds alike instead of computing anything, and leaves every caller-supplied signal buffer as it was. With correctly sized signal buffers and at least the advertised scratch the call never panics, for any input values including infinities and NaNs.",
  ["inputs", "configurations"], "every kind and algorithm, every wrong and right combination of buffer and scratch lengths, debug and release builds",
  "No test passes a wrong length.",
  ["src/common.rs", "src/mdct/mdct_naive.rs", "src/mdct/mdct_via_dct4.rs"]+T14+T58,
  [("validation macros before any write", "src/common.rs: validate_buffer, validate_buffers, validate_buffers_mdct"), ("assertions behind the error helpers", "src/common.rs: dct_error_inplace, mdct_error_inplace")],
  ["panic or return of each process call, buffer contents afterwards"])
p("C10", "Constructors accept exactly the documented sizes, directions and windows",
  "Building a transform panics, in debug and release builds alike, exactly when its documented precondition is violated: length 1 for a naive or planned DCT type 1, an inverse-direction inner FFT, an inner FFT of the wrong parity, a recursive power-of-two transform whose halves are not n/2 and n/4 of a power of two above 2, an odd MDCT length, or a window function returning a number of values other than twice the MDCT length. Every other construction with non-empty sizes succeeds and reports the documented length.",
  ["inputs", "configurations"], "every constructor and planner entry point, every inner length, direction, parity and window length",
  "No test constructs anything with an invalid argument, and accepted constructions are only checked for a few lengths.",
  ["src/plan.rs", "src/mdct/mdct_naive.rs", "src/mdct/mdct_via_dct4.rs"]+T14+T58,
  [("constructor assertions", "new() of each algorithm"), ("length derivation from the inner transform", "len() of each algorithm")],
  ["panic or return of each constructor, len() of the result"])
p("C11", "A planned instance depends only on the request, never on planner history",
  "What a planner returns for a request has the requested length and computes the requested transform (for an MDCT: with the window given in that very request), whatever was requested before from the same planner or any other, in whatever order, including repeated requests and requests that panicked. Instances handed out earlier keep working unchanged after later requests and after the planner is dropped.",
  ["histories", "configurations"], "every finite history of plan requests (kinds, lengths, windows, failing requests, several planners, drops)",
  "Every test plans one transform on a fresh planner, or one length of one kind; no test plans two different lengths or windows with one planner.",
  ["src/plan.rs"], [("one cache per kind family keyed by length", "src/plan.rs: DctPlanner fields and plan_* methods"), ("recursive planning of inner transforms through the same caches", "plan_new_dct2, plan_new_dct4, plan_new_mdct")],
  ["instance returned by plan_*, its len(), its results"],
  [dict(name="caches", meaning="family and length to shared instance", where="src/plan.rs: DctPlanner")])
p("C12", "Repeated DCT/DST requests share one instance; planners share nothing",
  "Asking one planner again for a DCT or DST of the same kind and length returns the very same shared instance, as does asking for a kind documented to be served by the same object (DCT/DST types 2 and 3; DCT/DST type 4; DCT types 6 and 7; DST types 6 and 7). Instances for different lengths or from different planners are never the same object.",
  ["histories"], "every finite history of plan requests over several planners",
  "No test requests anything twice from one planner or compares the identity of planned instances.",
  ["src/plan.rs"], [("cache lookup before construction and insertion after", "src/plan.rs: plan_* methods"), ("delegation between kinds", "plan_dct3, plan_dst2, plan_dst3, plan_dst4, plan_dct7, plan_dst7")],
  ["pointer identity of the Arcs returned by plan_*"],
  [dict(name="caches", meaning="family and length to shared instance", where="src/plan.rs: DctPlanner")])
p("C13", "Instances are stateless: no call history or concurrent caller changes a result",
  "For every instance, each call's result is a function of that call's signal buffers alone: earlier calls on the same or on other instances, however many, leave no trace. Calls running at the same time on a shared instance from several threads, under any interleaving, each return exactly what they would return alone.",
  ["schedules", "histories"], "every call history on one or several instances, every interleaving of concurrent calls on a shared instance",
  "Tests call each instance once from one thread; the only concurrency test is that the trait objects are Send + Sync at compile time.",
  T14+T58+["src/lib.rs", "src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs"],
  [("process methods take &self and keep all working storage in caller-supplied scratch", "every algorithm"), ("immutable twiddle tables behind Arc", "every algorithm struct")],
  ["result of each call compared with the same call on an otherwise unused instance"])
p("C14", "Each transform is undone by its documented partner with the known scale",
  "For every length and finite input, applying a transform and then its inverse partner (1, 4, 5 and 8 are self-inverse; 2 with 3; 6 with 7; separately for DCT and DST) returns the original signal times n/2 for types 2, 3 and 4, (n-1)/2 for DCT-1, (n+1)/2 for DST-1, (2n-1)/4 for DCT-5, DCT-6/7 and DST-8, and (2n+1)/4 for DST-5, DST-6/7 and DCT-8, up to rounding.",
  ["inputs", "configurations"], "all 16 kinds, every length (at least 2 for DCT-1), every input, planned instances",
  "Inverse tests run on the tests' own reference functions, never on the library, and only for lengths below 20.",
  T14+T58, [("consistent scaling of every algorithm", "src/algorithm"), ("shared type-2/3 instances", "src/plan.rs")],
  ["buffer contents after a forward and an inverse call"])
p("C15", "Rounding error stays within a few units of the number type's precision",
  "For every kind and length, the error of a planned transform relative to the size of the input stays within a small multiple of the machine epsilon of the number type in use, growing no faster than the logarithm of the length for the fast algorithms and linearly for the direct ones. In particular double precision results are accurate to double precision at every length, not merely to single precision.",
  ["inputs", "configurations"], "all kinds including MDCT/IMDCT, every length, inputs of any magnitude well inside the range, f32 and f64",
  "All tests use an absolute tolerance of 1e-3, so twelve of the sixteen digits of an f64 result are never looked at, and lengths where error accumulates are not tried.",
  ["src/twiddles.rs", "src/mdct/mdct_naive.rs", "src/mdct/window_fn.rs", "src/common.rs"]+T14+T58,
  [("twiddles evaluated directly in f64 and rounded once", "src/twiddles.rs and each constructor"), ("modular index stepping instead of recurrences", "naive algorithms")],
  ["results compared with a higher-precision evaluation of the definition"])
p("C16", "Planned fast transforms cost O(n log n) work and O(n) scratch at any length",
  "For every length, prime and awkward ones included, a planned DCT or DST of type 1 to 4, DST of type 6 or 7, or MDCT/IMDCT performs at most a fixed multiple of n*log2(n) arithmetic operations per call. The scratch it asks for is at most a fixed multiple of n.",
  ["configurations"], "every length, all listed kinds",
  "Tests never measure work, and a fall-back to a quadratic algorithm passes every one of them.",
  ["src/plan.rs"]+T14+[A+"type6and7_convert_to_fft.rs", "src/mdct/mdct_via_dct4.rs"],
  [("selection of naive algorithms only below fixed small lengths", "src/plan.rs: plan_new_*"), ("recursion that shares half and quarter size transforms", "plan_new_dct2, Type2And3SplitRadix")],
  ["number of arithmetic operations on the element type per call", "get_scratch_len"])
p("C17", "Processing with caller-supplied scratch never allocates",
  "For every planned or directly constructed transform, length and input, a call to a processing method that takes scratch performs no heap allocation. The convenience methods allocate no more than the advertised scratch.",
  ["inputs", "configurations"], "every kind, algorithm and length",
  "Tests do not observe allocation, so an internal temporary vector passes every one of them.",
  ["src/lib.rs"]+T14+T58+["src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs"],
  [("all working storage carved out of caller scratch or the stack", "every algorithm"), ("default methods allocating exactly get_scratch_len", "src/lib.rs")],
  ["allocator calls during process_*_with_scratch and process_*"])
p("C18", "Safe calls never touch memory outside the slices they were given",
  "No call through the safe interface, whatever the length, kind, algorithm, alignment or position of its slices in memory, and whether the call is accepted or rejected, reads or writes memory outside the signal and scratch slices passed to it.",
  ["inputs", "configurations"], "every kind, algorithm and length, slices at arbitrary positions and alignments, right and wrong sizes",
  "Tests use separately allocated vectors, where a stray unchecked access near the end goes unnoticed.",
  [A+"type2and3_splitradix.rs", A+"type2and3_butterflies.rs", "src/array_utils.rs", "src/common.rs"],
  [("length validation before unchecked indexing", "butterfly_boilerplate, validate_buffers in type2and3_splitradix.rs"), ("slice reinterpretation as complex pairs", "src/array_utils.rs")],
  ["memory adjacent to the slices, access faults"])
p("C19", "Any number type with exact arithmetic gets exact transforms",
  "Every planned and directly constructed transform works for any user-defined number type that meets the public numeric bounds, using only that type's own operations and conversions. When that type's arithmetic and its conversion of the required constants are exact, the results equal the textbook transforms exactly, with no tolerance.",
  ["inputs", "configurations", "programs"], "every kind, algorithm and supported length, user-defined element types, every input",
  "All tests use f32 or f64, compared with tolerance 1e-3.",
  ["src/common.rs", "src/twiddles.rs", "src/mdct/window_fn.rs"]+T14+T58+["src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs"],
  [("blanket numeric trait", "src/common.rs: DctNum"), ("constants obtained through from_f64 and the float-constant trait", "src/twiddles.rs, constructors")],
  ["results of transforms instantiated with a user-defined element type"])
p("C20", "Planning keeps O(n) memory, repeats keep none, letting go frees all",
  "A first request for length n leaves planner and instance holding at most a fixed multiple of n cells, after work of at most a fixed multiple of n*log2(n) arithmetic operations; repeating a DCT or DST request costs neither. Calls and rejected calls leave nothing behind on the heap, so memory held is bounded by the lengths planned and the instances alive, not by how often they were requested or called. Once planners and instances are dropped, in any order, all memory has been returned.",
  ["histories", "configurations"], "every history of requests, calls, rejected calls and drops, every kind and length",
  "Tests do not observe memory, so a table of quadratic size, a leaked table, or a planner that grows with every request passes every one of them.",
  ["src/plan.rs"]+T14+T58+["src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs"],
  [("tables linear in the length, owned by the instance", "every constructor"), ("one cache entry per family and length", "src/plan.rs: plan_*"), ("inner transforms shared through the planner's own caches", "src/plan.rs: plan_new_*")],
  ["bytes requested from and returned to the allocator by planning, calling and dropping", "arithmetic operations during planning"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
