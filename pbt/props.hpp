#pragma once
#include "engine.hpp"
#define PROPS(X) X(p01_sequences) X(p01_streams) X(p02_accounting) X(p02_simple_cb) X(p03_progress) X(p04_length) X(p05_chunks) X(p06_apis) X(p07_channels) X(p28_drift) X(p28_calls) \
 X(p08_zoh) X(p09_linear) X(p10_sinc) X(p11_lti) X(p12_local) X(p13_quality) X(p14_ramp) X(p15_step) \
 X(p16_reset) X(p17_clone) X(p18_ratio) X(p19_args) X(p20_overlap) X(p21_feed) X(p21_ramp) X(p22_mode) X(p24_names) X(p26_isolation) X(p26_threads) X(p26_fill) \
 X(p23_formats) X(p25_alloc) X(p27_large) X(p29_leaks) X(p30_streams) X(p30_rest) X(p31_process) X(p32_compose)
#define D(n) void n(Src &);
PROPS(D)
#undef D
