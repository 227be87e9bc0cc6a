// Generators, the stream runner and the reference models.
#pragma once
#include "engine.hpp"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <algorithm>
#include <samplerate.h>

enum { MED = 1, FAST = 2, ZOH = 3, LIN = 4 };
const char *conv_name(int c);
inline bool is_sinc(int c) { return c == MED || c == FAST; }
// numeric values of the public error codes, as src_strerror () documents them
enum { E_OK = 0, E_MALLOC = 1, E_BAD_STATE = 2, E_BAD_DATA = 3, E_BAD_PTR = 4, E_RATIO = 6, E_BAD_CONV = 10, E_CHAN = 11, E_SINC_STATE = 15, E_OVERLAP = 16, E_BAD_CB = 17, E_BAD_MODE = 18, E_NULL_CB = 19 };

// ---- filter tables (our own copy) ----------------------------------------
struct Table { const float *c; int half_len, inc; };
const Table &table(int conv);
// one side of the filter in input frames at this ratio
double half_frames(int conv, double r);

// ---- generators ----------------------------------------------------------
int gen_conv(Src &s, bool sinc = true, bool simple = true);
int gen_channels(Src &s, int conv, int maxch = 128);
double gen_ratio(Src &s, double lo = 1.0 / 256, double hi = 256);
typedef std::vector<float> Vec;
struct Sig { int kind; u64 seed; double peak; };
Sig gen_sig(Src &s, bool wild = false);
Vec make_sig(const Sig &g, long frames, int ch);
const char *sig_name(const Sig &g);
// how an input stream is cut into calls
struct Plan {
	int kind;            // 0 one call, 1 fixed blocks, 2 varying blocks
	long in_blk, out_blk; u64 seed; int eoi; // eoi: 0 with the last data, 1 in a separate call with NULL, 2 in a separate call with a pointer
	bool zeros;          // calls with zero input frames or zero room are mixed in
};
Plan gen_plan(Src &s, long frames, double ratio, bool allow_zero = true);
std::string plan_text(const Plan &p);

// ---- running the library -------------------------------------------------
const uint32_t SENTINEL = 0x7fc5a5e1;  // a NaN no computation of the library makes
inline float sentinel() { float f; memcpy(&f, &SENTINEL, 4); return f; }
inline bool is_sentinel(float f) { uint32_t u; memcpy(&u, &f, 4); return u == SENTINEL; }

struct State {           // owns an SRC_STATE
	SRC_STATE *p = 0; int ch = 0;
	State() {} State(SRC_STATE *q, int c) : p(q), ch(c) {}
	State(const State &) = delete; State &operator=(const State &) = delete;
	State(State &&o) : p(o.p), ch(o.ch) { o.p = 0; }
	State &operator=(State &&o) { if (p) src_delete(p); p = o.p; ch = o.ch; o.p = 0; return *this; }
	~State() { if (p) src_delete(p); }
};
State make_state(int conv, int ch);
struct Res { int err; long used, gen; };
// One src_process () call on exact-size copies; appends what was generated to out.
// strict: everything the accounting property says is checked here.
Res process_call(SRC_STATE *st, int ch, const float *in, long in_frames, long out_frames, double r, int eoi, Vec *out, bool null_in = false, bool strict = true);

struct Run { Vec out; long used = 0, gen = 0; long calls = 0; bool finished = false; };
// Feeds the whole of sig through st by plan at constant ratio r, to the end of the flush.
Run run_stream(SRC_STATE *st, int conv, int ch, const Vec &sig, double r, const Plan &pl, bool finish = true);
Run run_simple(int conv, int ch, const Vec &sig, double r, long extra_room = 8);
struct CbFeed {           // for the callback API
	const Vec *sig; int ch; long pos = 0; Plan pl; long k = 0; float *blk = 0; long calls = 0, zero_calls = 0; long last_n = -1; u64 magic = 0x5eedf00d12345678ull; bool null_at_end = false; long nmax = 0; bool bad_user = false; long bytes_live = 0; const float *room_last = 0; /* last sample of the room of the current read */ bool reading = false;
	~CbFeed() { free(blk); }
};
long feed_cb(void *user, float **data);
Run run_callback(SRC_STATE *st, CbFeed &fd, int conv, double r, const Plan &outplan);

// ---- reference models ----------------------------------------------------
typedef long double ld;
// Is accumulating this step exact in double arithmetic?
bool exact_step(double step);
// ZOH, output at position p: allowed value(s)
bool zoh_ok(float got, const Vec &x, int ch, int c, long N, ld p, ld eps, float *want);
bool lin_ok(float got, const Vec &x, int ch, int c, long N, ld p, ld eps, float *want);
bool sinc_ok(float got, const Vec &x, int ch, int c, long N, int conv, double r, ld p, ld eps, double *want, double *tolout, double runsure = 0);
double sinc_ref(const Vec &x, int ch, int c, long N, const Table &t, double r, long base, int32_t start, int32_t inc, double *mag);

// exact count of outputs for N input frames, as an interval
void count_range(int conv, int ch, double r, long N, long *lo, long *hi);
bool loose_end(int conv, double r, long left, long used, long gen);
// compare two renderings of the same stream at constant ratio
void same_stream(const char *cls, const char *what, int conv, int ch, double r, const Vec &a, const Vec &b, long N, const Vec &x);
inline bool biteq(float a, float b) { return memcmp(&a, &b, 4) == 0; }
inline double fin(double x) { return std::isfinite(x) ? x : 0; }
// number of input frames, bounded by the cost of converting them
long gen_frames(Src &s, int conv, int ch, double r, double budget = 3e6);
struct Cfg { int conv, ch; double r; long N; Sig sig; Plan plan; };
Cfg gen_cfg(Src &s, bool sinc = true, bool simple = true, int maxch = 128, double budget = 3e6);
void note_cfg(Src &s, const Cfg &c);
void label_cfg(Src &s, const Cfg &c);
// allocation control, active in the "wrap" build only
struct AllocCtl { int active, track, fill; long count, fail_at, failed, live, frees; };
extern AllocCtl alloc_ctl;
