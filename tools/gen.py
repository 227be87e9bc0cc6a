#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I = "inputs", "src/"
A = "src/samplerate.c"; SI = "src/src_sinc.c"; ZO = "src/src_zoh.c"; LI = "src/src_linear.c"; CO = "src/common.h"
def m(*a): return [{"name": n, "where": w} for n, w in a]
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mech, observe_at=["public API of include/samplerate.h"], hook_needed=None), _t=technique, _n=note))

prop("P01", "Memory safety and no undefined behaviour for every permitted call sequence",
 "For any sequence of calls that keeps to the documented contract (any available converter, 1 to 128 channels, any ratio in [1/256, 256], changing from call to call, any block sizes including zero, any sample values including NaN and infinities, end of input at any point) the library never reads or writes outside the caller's buffers or its own memory, never uses freed memory, never performs undefined behaviour, never fails an assertion and reports no error.",
 ["histories", "inputs"], "all call histories over up to three converters with all block sizes, ratios, channel counts and sample values",
 "The tests run one converter at a time with a few block sizes, ratios and benign signals and without sanitizers; buffer edges depend on the combination of ratio, channel count, block size and position in the stream.",
 [SI, LI, ZO, A], m(("sliding input buffer", "prepare_data in src/src_sinc.c"), ("filter loops and their bounds", "calc_output_* in src/src_sinc.c"), ("history of one frame", "linear_vari_process, zoh_vari_process"), ("state life cycle", "src_new, src_clone, src_reset, src_delete")),
 "stateful random API sequences under ASan+UBSan with exact-size buffers", "Searches random histories; instrumented build of the library with heap-exact buffers. Absence is not proven.")
prop("P02", "Every call reports exactly what it consumed and produced, and writes only that",
 "After every successful call the reported input frames used lie between 0 and the frames offered and the reported output frames generated between 0 and the room offered; exactly the reported number of output frames has been written, the rest of the output buffer, the input buffer and the request fields of the caller's structure are unchanged. src_callback_read writes exactly the number of frames it returns, and src_simple fills the room it was given when more output than that is due.",
 ["histories", "inputs"], "all histories of calls with partial input and partial output, all channel counts, all three interfaces",
 "Tests look at totals of a few runs and give ample room; they never compare the untouched part of the buffers with what was there before.",
 [A, SI, LI, ZO], m(("frames used and generated", "*_vari_process"), ("copy back of counts", "src_process, src_callback_read, src_simple")),
 "random histories with sentinel-filled buffers and accounting invariants", "Sentinel values detect every sample written or left out; searched over random histories.")
prop("P03", "Conversion always makes progress and the flush always ends",
 "At a constant ratio every src_process call either uses all its input or fills its output room (a linear converter may leave one last frame whose output position falls on the end of the input within rounding); with a changing ratio a call offered both input and room does at least one of using input and generating output. Feeding all input and then calling with end_of_input set uses all of the input and, after finitely many calls, leaves room in the output; after that further flushing generates nothing and gives no error.",
 ["inputs", "histories"], "all ratios, channel counts, lengths and block sizes, constant and varying ratio",
 "Tests use a handful of ratios; stalls and endless loops come from particular combinations of ratio, channel count, block size and buffer position.",
 [SI, LI, ZO, A], m(("refill and break conditions", "main loops of *_vari_process"), ("end of input padding", "prepare_data"), ("termination test", "b_real_end comparisons in sinc_*_vari_process")),
 "random whole streams with progress invariants and a CPU watchdog", "Bounded call counts and a CPU limit per case; searched over random streams.")
prop("P04", "The output of a whole stream has the length the ratio demands",
 "At a constant ratio a stream of N input frames, fed completely and flushed, gives N times the ratio output frames to within one frame, whatever the interface, converter, channel count and block sizes.",
 ["inputs"], "all N, ratios, converters, channel counts, chunkings and the three interfaces",
 "Tests check the length for a few ratios with generous tolerance; truncated tails at extreme ratios passed them.",
 [SI, LI, ZO], m(("termination test", "b_real_end in sinc_*_vari_process"), ("zero padding at the end of input", "prepare_data"), ("loop conditions on the last input frame", "linear_vari_process, zoh_vari_process")),
 "random whole streams against an exact frame count", "Exact interval of permitted counts computed in extended precision; searched over random streams.")
prop("P05", "How a stream is cut into calls does not change the output",
 "At a constant ratio the concatenated output of a stream is the same however its input is divided into calls, whatever output room each call has, whether zero-length calls are mixed in, and whether the end of input is announced with the last data or in a separate call with or without an input pointer. Only the very last frame may be missing or extra where its position falls on the end of the input.",
 ["inputs", "histories"], "all divisions of all streams into calls",
 "Tests compare single-call and chunked runs for a few fixed block sizes, ratio values and one signal.",
 [SI, LI, ZO], m(("state carried between calls", "last_position, last_value, buffer in *_vari_process"), ("buffer refill and move", "prepare_data")),
 "metamorphic: random chunking against one call", "Sample values compared to rounding; searched over random streams and chunkings.")
prop("P06", "The simple, full and callback interfaces give the same output",
 "For the same input, ratio, converter and channel count, src_simple, a sequence of src_process calls and a sequence of src_callback_read calls (for any block sizes delivered by the callback and any read sizes) give the same output.",
 ["inputs", "histories"], "all streams, callback block sizes and read sizes",
 "Tests compare the interfaces for a few ratios with one block size.",
 [A], m(("one shot conversion", "src_simple"), ("pull loop with saved data", "src_callback_read")),
 "differential: three interfaces on one random stream", "Sample values compared to rounding; searched over random streams.")
prop("P07", "Channels are converted independently and alike",
 "Each channel of a multi-channel conversion has the same output as the same samples converted alone by a mono converter with the same calls, for every channel count and whatever the other channels contain, and permuting input channels permutes output channels.",
 ["inputs"], "all channel counts 1 to 128, all contents of the other channels including NaN and infinity",
 "Tests use up to nine channels with sines and compare a noise figure, not samples; the separate code for 1, 2, 4, 6 and other channel counts is not compared with each other.",
 [SI, LI, ZO], m(("one routine per channel count", "calc_output_single, _stereo, _quad, _hex, _multi"), ("channel loops", "linear_vari_process, zoh_vari_process")),
 "differential: interleaved run against mono runs", "Sample values compared to rounding; searched over random streams.")
prop("P08", "The zero order hold converter repeats the input frame at each output position",
 "At a constant ratio output frame k of the zero order hold converter is bit for bit the input frame number max(0, floor(k/ratio) - 1), for every k with k/ratio below the number of input frames (and possibly the one that equals it), for every interface, chunking and channel count.",
 ["inputs"], "all ratios, signals of any float values, chunkings and channel counts",
 "No test compares samples of this converter with a model.",
 [ZO], m(("position and held value", "zoh_vari_process"), ("first frame", "dirty flag, last_value")),
 "model-based: exact positional model", "Exact model with rounding-aware positions; searched over random streams.")
prop("P09", "The linear converter interpolates between neighbouring input frames",
 "At a constant ratio output frame k of the linear converter, at position p = k/ratio with n = floor(p), is x[n-1] + (p - n) * (x[n] - x[n-1]) rounded to float, with x[-1] taken as x[0], for every k with p below the number of input frames, for every interface, chunking and channel count.",
 ["inputs"], "all ratios, signals of any float values, chunkings and channel counts",
 "No test compares samples of this converter with a model.",
 [LI], m(("position and last frame", "linear_vari_process")),
 "model-based: interpolation model in double precision", "Model with an error bound of a float rounding; searched over random streams.")
prop("P10", "The sinc converters compute the convolution with their filter at each position",
 "At a constant ratio output frame k of a sinc converter equals the convolution of the zero-extended input with the converter's filter (scaled in time and gain by the ratio when it is below one) centred on input position k/ratio, to float rounding, from the first frame to the last, for every chunking, interface, channel count and stream length.",
 ["inputs"], "all ratios, signals, stream lengths beyond the internal buffer, chunkings and channel counts",
 "Tests measure a noise figure of a few sine waves, which hides wrong samples at block edges, at the start and at the end.",
 [SI, "src/fastest_coeffs.h", "src/mid_qual_coeffs.h"], m(("filter loops", "calc_output_*"), ("fixed point position", "double_to_fp, fp_to_int, fp_to_double"), ("buffer", "prepare_data")),
 "model-based: direct convolution with an own copy of the tables", "Every sample compared with a double precision model within its rounding bound; searched over random streams.")
prop("P11", "Conversion is linear, shift invariant, symmetric and of unit gain",
 "At a constant ratio, scaling the input scales the output, the output of a sum is the sum of the outputs, delaying the input by a whole number of output periods delays the output, and a constant input gives that constant (away from the ends for the sinc converters). Reversing the input in time reverses the output of a sinc converter at integer ratios.",
 ["inputs"], "all signals, ratios, channel counts and chunkings",
 "No test relates two conversions with each other.",
 [SI, LI, ZO], m(("gain scale", "float_increment / index_inc in sinc_*_vari_process"), ("left and right half of the filter", "calc_output_*")),
 "metamorphic relations between conversions of related signals", "Relations compared within stated tolerances; searched over random signals.")
prop("P12", "Outputs depend only on nearby input and come without undue delay",
 "Changing input frames, even to NaN or infinity, changes only output frames whose position is within the filter's reach of them (half the filter length divided by min(1, ratio) for the sinc converters, two frames for the others), so the stream recovers fully. At a ratio of one or more every input frame influences the output, and an output is generated as soon as the input up to its reach has been supplied.",
 ["inputs"], "all signals, changed runs of frames, ratios and channel counts",
 "No test feeds non-finite samples or looks at latency.",
 [SI, LI, ZO], m(("half filter length", "half_filter_chan_len, samples_in_hand in src/src_sinc.c"), ("history", "prepare_data")),
 "metamorphic: two streams differing in a few frames", "Outputs outside the reach are compared exactly; searched over random streams.")
prop("P13", "The sinc converters keep their pass band and reject everything beyond Nyquist",
 "For every ratio, a sine inside the flat part of the pass band (65 % of the lower Nyquist frequency for the fastest, 83 % for the medium converter) comes out with its amplitude within 0.01 dB and no phase shift, up to the documented bandwidth (80 % and 90 %) the loss is at most 3 dB, and all noise and images are at least 91 dB (fastest) or 109 dB (medium) down. When the rate is reduced, a sine above the new Nyquist frequency is suppressed by at least that much.",
 ["inputs"], "all ratios from 1/100 to 64, frequencies, phases and channel counts",
 "Tests check a few frequencies at a few ratios for stereo or mono only.",
 [SI, "src/fastest_coeffs.h", "src/mid_qual_coeffs.h"], m(("filter tables", "fastest_coeffs, slow_mid_qual_coeffs"), ("cut-off scaling", "float_increment")),
 "random sine waves, least squares fit, gain, phase and residual bounds", "Bounds are 2 dB below the worst of 280000 cases on the unchanged tree; searched over random sines.")
prop("P14", "A changed ratio is approached linearly over the output of the call",
 "When a call's ratio differs from the one in effect, output frame j of the call, of the room of M frames, uses the ratio start + (target - start) * j / M, and the ratio of the last frame generated becomes the starting ratio of the next call. Positions advance by the reciprocal of each frame's ratio, and the samples are those of the converter's model at these positions.",
 ["histories", "inputs"], "all sequences of ratios, block sizes, converters and channel counts",
 "Tests vary the ratio once or twice and check only that the number of frames is plausible.",
 [SI, LI, ZO, A], m(("ramp", "src_ratio in *_vari_process"), ("ratio in effect", "last_ratio")),
 "model-based: positional model of the ramp over random histories", "For the sinc converters samples are compared while the history stays within one buffer length or the ratio at one or more; searched over random histories.")
prop("P15", "src_set_ratio makes the next call start at exactly the new ratio",
 "After src_set_ratio the next conversion starts at the given ratio at once, without a ramp, keeping the position and history of the stream; when the following call asks for that same ratio all of its output has it, and the samples are those of the converter's model.",
 ["histories", "inputs"], "all sequences of ratio steps, block sizes, converters and channel counts",
 "The test for it uses one step and checks the number of frames.",
 [A, SI, LI, ZO], m(("step", "src_set_ratio"), ("start ratio", "last_ratio in *_vari_process")),
 "model-based: positional model with ratio steps over random histories", "As for the ramp property.")
prop("P16", "After src_reset a converter behaves exactly as a new one",
 "After any history, including end of input, rejected calls and pending errors, src_reset succeeds, clears the error, keeps the channel count, and every later call gives bit for bit the results a newly created converter gives, in the full and in the callback interface.",
 ["histories"], "all histories before and all call sequences after the reset",
 "The tests reset after one complete conversion and compare one later run.",
 [A, SI, LI, ZO], m(("reset", "src_reset, sinc_reset, linear_reset, zoh_reset"), ("ratio, position, saved data", "last_ratio, last_position, saved_frames")),
 "stateful differential: reset converter against a fresh one", "Bit-exact comparison; searched over random histories.")
prop("P17", "A clone continues exactly like its original and independently of it",
 "A clone made after any history has the same channels and error and from then on gives, call by call, exactly the results the original would have given for the same calls, in the full and the callback interface. Nothing done with one of the two, including src_reset and src_delete, changes the other.",
 ["histories"], "all histories before and all interleavings after the cloning",
 "The tests clone once mid-stream and compare one following block.",
 [A, SI, LI, ZO], m(("copy", "src_clone, sinc_copy, linear_copy, zoh_copy")),
 "stateful differential: original and clone against shadow converters", "Bit-exact comparison; searched over random histories.")
prop("P18", "Exactly the ratios from 1/256 to 256 are accepted, everywhere",
 "src_is_valid_ratio accepts a double exactly when it lies in [1/256, 256]; src_process, src_simple, src_set_ratio and src_callback_read accept exactly the same ratios and reject all others (zero, negative, NaN, infinite, out of range) with the bad-ratio error, without producing output, calling the callback or changing the state of the stream.",
 ["inputs", "histories"], "all double values, entry points and histories",
 "Tests try a handful of values; NaN was never among them.",
 [A, CO], m(("range test", "is_bad_src_ratio, src_is_valid_ratio"), ("checks at the entry points", "src_process, src_set_ratio, src_callback_read")),
 "random and boundary doubles, with a twin stream for the state", "Searched over random doubles with the boundaries enriched.")
prop("P19", "Invalid arguments give the documented error and change nothing",
 "A call with a missing state, data structure or buffer, an invalid converter or channel count, or negative sizes fails with the error code documented for it (or is treated as an empty call where a negative length is documented so), never crashes, and leaves the stream as if the call had not been made.",
 ["inputs", "histories"], "all invalid calls mixed into all histories",
 "Tests try a few invalid calls on new converters and never continue the stream.",
 [A, SI], m(("argument checks", "src_process, src_new, src_clone, src_set_ratio, src_simple, src_callback_new")),
 "stateful: random invalid calls against a twin stream without them", "Searched over random histories.")
prop("P20", "Overlapping input and output buffers are refused, all others accepted",
 "src_process refuses a call with the overlap error, writing nothing, when the input and output regions share memory, and accepts it when they do not, including directly adjacent regions in either order.",
 ["inputs"], "all placements and sizes of the two regions within one block of memory, all channel counts",
 "The test tries two placements for one channel count.",
 [A], m(("overlap test", "src_process")),
 "random placements against interval arithmetic", "Searched over random placements with the adjacent ones enriched.")
prop("P21", "The callback interface consumes the supplied data once, in order and completely",
 "However the callback divides the data into blocks, src_callback_read uses every supplied frame exactly once and in order, never touches a block after asking for the next, passes the user data unchanged, asks for data only when it needs some, and gives the same frames as src_process for the same stream, also when src_set_ratio is used between reads. It returns fewer frames than asked for only after the callback has reported the end.",
 ["histories", "inputs"], "all block sizes, read sizes, ratios and ratio changes",
 "Tests deliver one fixed block size.",
 [A], m(("unused part of the last block", "saved_frames, saved_data in src_callback_read"), ("end of input", "zero return of the callback")),
 "stateful differential: hostile callback against a src_process twin", "Blocks are freed and poisoned as soon as the next is asked for; searched over random streams.")
prop("P22", "Interfaces cannot be mixed and callback failures are reported cleanly",
 "A converter made for one interface refuses the calls of the other with the documented error and without effect on the stream; reading zero or negative frames or without a buffer is harmless, a callback that gives no data makes the read return what is there without looping, data that arrives after the end of input never makes a call loop or crash, and a read into memory the callback supplies as data is refused with the overlap error.",
 ["histories", "fault_sequences"], "all histories with wrong-mode calls and all failure patterns of the callback",
 "Tests never use the wrong interface or let the callback misbehave.",
 [A], m(("mode check", "src_process, src_callback_read"), ("null data", "src_callback_read")),
 "stateful: wrong-mode calls and scripted callback faults", "Searched over random histories.")
prop("P23", "Sample format conversions are nearest, saturating, monotone and lossless",
 "Converting float to short or int gives an integer within half a step of the scaled value (full scale 1.0), values at or beyond full scale give the largest or smallest integer, larger inputs never give smaller outputs, and exactly the given number of elements is written. Short to float is exact and returns unchanged through the round trip; int to float is the nearest float, and the round trip is exact for values of up to 24 bits and otherwise within float precision.",
 ["inputs"], "all float, short and int values, infinities and huge values included, all array lengths",
 "Tests convert a few dozen values.",
 [A], m(("scaling and clipping", "src_float_to_short_array, src_float_to_int_array, src_short_to_float_array, src_int_to_float_array")),
 "random and boundary arrays against exact arithmetic", "Searched over 1.5 million arrays in the quick tier.")
prop("P24", "Names, descriptions, version and error texts are total and consistent",
 "For every int, src_get_name and src_get_description return a text exactly for the converter numbers 0 to 4 and NULL otherwise, a converter that can be created has both, src_strerror returns a non-empty text for every documented error number and NULL for numbers without one, and the texts are distinct and constant; the error every failing call reports has a text.",
 ["inputs"], "all int values", "Tests iterate over the valid numbers only.",
 [A, SI, LI, ZO], m(("tables", "src_strerror, src_get_name, src_get_description")),
 "random and boundary ints against a table", "Searched over random ints with the valid range enriched.")
prop("P25", "A failed allocation is reported, frees everything and affects nothing else",
 "If any allocation within src_new, src_callback_new, src_clone or src_simple fails, the call reports the allocation error (and no converter), releases everything it had allocated, writes no output and leaves every other converter, including the one being cloned, unchanged.",
 ["fault_sequences", "inputs"], "every allocation of every constructor, for every converter and channel count",
 "Tests never make an allocation fail.",
 [A, SI, LI, ZO], m(("cleanup after failure", "sinc_state_new, sinc_copy, linear_state_new, linear_copy, zoh_state_new, zoh_copy, src_clone")),
 "fault injection: each n-th allocation fails, through link-time wrappers", "Every allocation index of each constructor is failed many times; leaks are counted by the wrappers.")
prop("P26", "Converters are isolated: no shared state, no dependence on memory contents",
 "Converters used alternately, or in parallel by threads with one converter each, give exactly the results each gives alone, without data races, and results do not depend on what freshly allocated memory contains.",
 ["schedules", "histories"], "all interleavings of calls on several converters, thread schedules, contents of new memory",
 "Tests use one converter at a time in one thread.",
 [A, SI, LI, ZO], m(("all state in the converter object", "SRC_STATE and the private structures"), ("initialisation", "calloc and *_reset")),
 "differential: interleaved, threaded (TSan) and memory-filled runs against runs alone", "Thread schedules are sampled, with a race detector that does not need the bad schedule itself.")
prop("P27", "Buffers of two thousand million samples and more are handled correctly",
 "When the number of samples offered as input or as output room reaches or exceeds 2^31 (or 2^32), calls succeed, stay within the buffers, report correct counts and give the same samples as the converter's model, including for samples beyond that limit.",
 ["inputs"], "input and output sizes around and above 2^31 and 2^32 samples, all converters, several channel counts",
 "Tests use buffers of some thousand frames.",
 [SI, LI, ZO, A], m(("sample counts", "in_count, out_count, in_used, out_gen"), ("block length", "prepare_data")),
 "random huge sparse buffers against the positional models", "Untouched zero pages stand for most of the input; whole conversions only for the two cheap converters at small ratios.")
prop("P28", "Positions do not drift over long streams",
 "Over long streams in many calls the output stays aligned with the input: output frame k is still the input at position k/ratio to far better than one frame, however many calls and however small the blocks.",
 ["histories", "inputs"], "long streams, all ratios, block sizes from one frame",
 "Tests convert at most some ten thousand frames and do not look at alignment.",
 [SI, LI, ZO, CO], m(("fractional position", "last_position, fmod_one in *_vari_process")),
 "random long streams with alignment measured against the input", "Alignment is measured with ramps and pulses over up to millions of frames.")
prop("P29", "All memory is given back and converting allocates none for good",
 "Deleting every converter, however made (new, clone, callback) and whatever its history, returns all memory; src_simple and every rejected construction leave none behind; processing, resetting and setting the ratio do not increase the amount of memory held.",
 ["histories"], "all life cycles and histories",
 "Tests never count allocations.",
 [A, SI, LI, ZO], m(("release", "src_delete, sinc_close, linear_close, zoh_close"), ("one shot", "src_simple")),
 "stateful life cycles with allocation counting wrappers", "Allocations are counted by link-time wrappers; searched over random life cycles.")
prop("P30", "How the library was built does not change what it does",
 "A given history of calls gives the same return codes, counts, samples and texts whether the library is compiled with or without assertions, at any optimisation level, by gcc or clang, as a static or a shared library, and with the processor's rounding instructions or with the portable rounding functions; the shared library exports every function of the public header.",
 ["histories", "inputs"], "all histories of calls and all values, in four builds of the same tree",
 "The tests run in one build with assertions on; code that only works in that build (work done inside an assertion, undefined behaviour the optimiser may exploit, the rounding functions of other processors) passes them.",
 [A, SI, LI, ZO, CO], m(("rounding functions", "psf_lrint, psf_lrintf in src/common.h"), ("assertions", "assert () in src/src_sinc.c, src/src_linear.c, src/src_zoh.c"), ("visibility", "LIBSAMPLERATE_DLL_PRIVATE, src/CMakeLists.txt")),
 "differential: the same random history on four builds of the library", "Bit for bit comparison of four builds (gcc -O2 static, clang -O3 -DNDEBUG, gcc -O0 with portable rounding, gcc -O3 -DNDEBUG shared); searched over random histories. Builds for other processors are not covered.")
prop("P31", "Calls do no I/O, converting allocates nothing, the process is left as it was",
 "src_process, src_callback_read, src_set_ratio, src_reset, the queries and the sample conversions make no system calls and neither allocate nor free memory, whether they succeed or fail. No call at all prints anything or changes the floating-point environment of the caller (rounding mode, exception masks, a flush-to-zero mode set by the host), signal handling, locale, environment, working directory, open files, threads or the state of the C library's random numbers, and ordinary input in [-1, 1] raises no invalid-operation or division-by-zero exception.",
 ["histories", "inputs"], "all histories of good and bad calls, three states of the floating-point unit",
 "Tests only look at results; a printed message, a floating-point mode left changed or memory allocated in the audio thread does not alter them.",
 [A, SI, LI, ZO, CO], m(("streaming calls", "src_process, src_callback_read, src_set_ratio, src_reset"), ("conversion loops", "sinc_*_vari_process, linear_vari_process, zoh_vari_process"), ("sample conversions", "src_float_to_int_array, src_float_to_short_array")),
 "random histories inside a monitor of system calls, allocator, floating-point control and process state", "System calls are trapped by the kernel (syscall user dispatch; the evidence says when it is not available), allocations counted by wrappers, the rest compared before and after; searched over random histories.")

prop("P32", "Conversions compose: up and back, in two steps, by either converter",
 "For signals whose spectrum lies in the flat part of the pass band of all conversions involved (65 % of the lowest Nyquist frequency for the fastest, 83 % for the medium sinc converter), away from the ends and in place, to within 0.00015 (fastest) or 0.00002 (medium) of full scale: converting by a ratio and back by its reciprocal returns the signal, converting in two steps gives the same as the signal sampled at the product of the ratios, and the two sinc converters agree with each other, whatever interface and blocks each step uses.",
 ["inputs", "histories"], "all pairs of ratios within 1/40 to 24 together, sums of sines, all interfaces",
 "Tests convert once, at a few ratios, and look at one sine's signal-to-noise ratio; alignment and gain of a chain of conversions are never compared with the original.",
 [SI, A], m(("positions and gain", "sinc_*_vari_process, calc_output_*"), ("filter tables", "src/fastest_coeffs.h, src/mid_qual_coeffs.h")),
 "metamorphic: round trips, chains and pairs of converters on sums of sines", "The limits are about twice the largest error seen; searched over random ratios, signals, interfaces and blocks.")

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
man = {"version": 1, "setup_cmd": "./check all --build-only",
       "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "property-based testing: " + p["_t"], "level": "fault_enumeration" if p["id"] == "P25" else "exploration", "level_note": p["_n"]} for p in P],
       "not_applicable": NA, "notes": "No hooks are needed: everything is observed through the public interface, sanitizers and link-time allocator wrappers."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
