#include "engine.hpp"
#include "props.hpp"
#define R(id, fn, quick, thorough, variant, cpu, rule) {id, #fn, fn, quick, thorough, variant, cpu, rule}
const Prop props[] = {
	R("P01", p01_sequences, 26400, 720000, "asan", 60, "random sequences of up to 60 API calls on up to three converters; non-trivial: at least four calls with a large block, end of input, ratio change or clone among them"),
	R("P01", p01_streams, 26400, 720000, "asan", 60, "one stream of random converter, channels, ratio, signal and chunking; non-trivial: more than two frames used or generated"),
	R("P02", p02_accounting, 99000, 2700000, "plain", 30, "random process calls with partial input and output; non-trivial: output made and some call used its input or filled its output only partly"),
	R("P02", p02_simple_cb, 99000, 2700000, "plain", 30, "src_simple with short or ample room, or a callback stream; non-trivial: more than four input frames"),
	R("P02", p05_chunks, 33000, 900000, "plain", 30, "the frames after those counted as used are passed next, against one call; non-trivial: at least three calls and three frames of a non-zero signal"),
	R("P03", p03_progress, 154000, 4200000, "plain", 30, "whole streams to the end of the flush, constant or varying ratio; non-trivial: more than two calls that made output"),
	R("P04", p04_length, 132000, 3600000, "plain", 30, "whole streams through one of the three interfaces; non-trivial: at least three input and two output frames"),
	R("P05", p05_chunks, 77000, 2100000, "plain", 30, "one stream cut into random calls against one call; non-trivial: at least three calls and three frames of a non-zero signal"),
	R("P06", p06_apis, 70400, 1920000, "plain", 30, "one stream through src_process, src_simple and src_callback_read; non-trivial: at least three output frames"),
	R("P07", p07_channels, 39600, 1080000, "plain", 30, "a multi-channel stream against each channel alone; non-trivial: at least two channels that differ and three output frames"),
	R("P08", p08_zoh, 61600, 1680000, "plain", 30, "zero order hold streams through any interface against the model; non-trivial: at least three input and output frames of a varying signal"),
	R("P09", p09_linear, 61600, 1680000, "plain", 30, "linear streams through any interface against the model; non-trivial: at least three input and output frames of a varying signal"),
	R("P10", p10_sinc, 59400, 1620000, "plain", 60, "sinc streams through any interface against direct convolution; non-trivial: at least three output frames checked"),
	R("P11", p11_lti, 61600, 1680000, "plain", 30, "scaling, superposition, shift, constant and time reversal; non-trivial: more than two output frames of a non-zero signal"),
	R("P12", p12_local, 44000, 1200000, "plain", 30, "two streams that differ in a run of frames; non-trivial: outputs inside and outside its reach"),
	R("P13", p13_quality, 176000, 4800000, "plain", 60, "sines in the pass band and stop band; non-trivial: an output long enough to measure"),
	R("P14", p14_ramp, 72600, 1980000, "plain", 60, "streams whose ratio changes between calls; non-trivial: at least one ramp and eight output frames"),
	R("P15", p15_step, 79200, 2160000, "plain", 60, "streams with src_set_ratio between calls; non-trivial: at least one step and eight output frames"),
	R("P16", p16_reset, 352000, 9600000, "plain", 30, "a random history, src_reset, then a random script against a new converter; non-trivial: the history used input and the script made output"),
	R("P17", p17_clone, 330000, 9000000, "plain", 30, "a random history, src_clone, then interleaved scripts on original and clone; non-trivial: the history used input and the scripts made output"),
	R("P18", p18_ratio, 440000, 12000000, "plain", 20, "random doubles as ratio for every entry point; non-trivial: accepted and rejected ratios in one history"),
	R("P19", p19_args, 616000, 16800000, "plain", 20, "bad calls mixed into a good history; non-trivial: at least one bad call and output made"),
	R("P20", p20_overlap, 165000, 4500000, "asan", 20, "input and output at random distances in one buffer; non-trivial: see labels"),
	R("P21", p21_feed, 286000, 7800000, "plain", 30, "callback streams with hostile block sizes; non-trivial: at least two blocks and output"),
	R("P21", p21_ramp, 132000, 3600000, "plain", 30, "callback reads whose ratio is ramped, of a signal that tells its position; non-trivial: at least one ramp, two blocks and ten frames"),
	R("P22", p22_mode, 660000, 18000000, "plain", 20, "wrong mode calls and failing callbacks; non-trivial: see labels"),
	R("P23", p23_formats, 3300000, 90000000, "plain", 20, "arrays of random and boundary values through the four conversions; non-trivial: more than one value, saturating or not representable"),
	R("P24", p24_names, 2200000, 60000000, "plain", 20, "random converter numbers and error codes; non-trivial: in and out of range in one case"),
	R("P25", p25_alloc, 440000, 12000000, "wrap", 20, "each constructor with its n-th allocation failing; non-trivial: an allocation did fail"),
	R("P26", p26_isolation, 44000, 1200000, "plain", 30, "interleaved converters against each alone; non-trivial: at least two made output"),
	R("P26", p26_threads, 5500, 150000, "tsan", 60, "converters in threads of their own; non-trivial: at least two threads made output"),
	R("P26", p26_fill, 44000, 1200000, "wrap", 30, "new memory filled with different bytes; non-trivial: output made"),
	R("P27", p27_large, 700, 27000, "plain", 200, "input or room of 2^31 samples and more; non-trivial: more than three output frames compared"),
	R("P28", p28_drift, 2700, 108000, "plain", 60, "long streams; non-trivial: see labels"),
	R("P28", p28_calls, 1500, 45000, "plain", 60, "more than 2^16 calls of one to three frames; non-trivial: over 20 outputs checked and over 65536 calls"),
	R("P29", p29_leaks, 660000, 18000000, "wrap", 20, "random lifetimes; non-trivial: a converter survived to the end and some converted"),
	R("P30", p30_streams, 66000, 1800000, "builds", 60, "the same random history on the library in other builds; non-trivial: at least three output frames"),
	R("P30", p30_rest, 440000, 12000000, "builds", 20, "sample conversions, texts, ratio limits and constructors in other builds; non-trivial: saturating and inexact values"),
	R("P31", p31_process, 400000, 10800000, "wrap", 30, "random histories of good and bad calls with everything outside the converter watched; non-trivial: at least three streaming calls, some of which made output"),
	R("P32", p32_compose, 60000, 1800000, "plain", 60, "up or down and back, two steps, or two converters on sums of sines; non-trivial: more than twenty output frames compared"),
};
const int nprops = sizeof props / sizeof props[0];
