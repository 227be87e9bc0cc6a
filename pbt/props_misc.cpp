// P23, P25, P27, P29
#include "common.hpp"
#include "props.hpp"
#include <sys/mman.h>

// ---- P23: format conversions
static int32_t clampi(long double v, long double lo, long double hi, bool *sat) { if (v >= hi) { *sat = true; return (int32_t)hi; } if (v <= lo) { *sat = true; return (int32_t)lo; } *sat = false; return 0; }
void p23_formats(Src &s)
{	long n = s.weighted({8, 1}) ? s.range(0, 3) : s.loglen(1, 4000); int what = s.weighted({3, 3, 2, 2}); Rng rng{s.below(1ull << 40)}; rng.next(); int style = s.weighted({4, 3, 3, 3, 2, 3}); bool sat = false, frac = false; s.note("kind %d n=%ld style %d seed %llu", what, n, style, (unsigned long long)rng.s);
	auto anyf = [&](double scale) -> float { // scale: full scale of the integer format
		u64 q = rng.next(); float f;
		switch (style) {
		case 0: f = (float)(2.2 * rng.unit() - 1.1); break;
		case 1: { long k = (long)(rng.next() % (u64)(2 * scale)) - (long)scale; double o[] = {0, 0.5, -0.5, 0.25, 0.499999, 0.500001}; f = (float)(((double)k + o[q % 6]) / scale); break; }
		case 2: { uint32_t u = (uint32_t)q; memcpy(&f, &u, 4); break; }
		case 3: { float b = (q & 1) ? 1.0f : -1.0f; if (q & 2) b = (float)((scale - 1) / scale) * b; uint32_t u; memcpy(&u, &b, 4); u += (uint32_t)((q >> 8) % 9) - 4; memcpy(&f, &u, 4); break; }
		case 5: { double k = std::floor(exp(rng.unit() * log(std::min(scale, 1e7)))) - 1; f = (float)(((q & 1) ? -1 : 1) * (k + ((q & 2) ? 0.5 : 0)) / scale); uint32_t u; memcpy(&u, &f, 4); u += (uint32_t)((q >> 8) % 7) - 3; if ((u & 0x7fffffff) > 0x7f800000) u = 0; memcpy(&f, &u, 4); break; } // around steps and half steps
		default: f = (float)((q & 1 ? 1 : -1) * exp(-40 * rng.unit())); }
		return std::isnan(f) ? 0 : f; };
	if (what == 0) { std::unique_ptr<float[]> f(new float[n]); std::unique_ptr<short[]> o(new short[n + 1]); for (long i = 0; i < n; i++) f[i] = anyf(32768); o[n] = 0x55aa; src_float_to_short_array(f.get(), o.get(), (int)n); CHECK(o[n] == 0x55aa, "overrun", "element %ld written", n);
		for (long i = 0; i < n; i++) { long double v = (long double)f[i] * 32768; bool st; int w = clampi(v, -32768, 32767, &st); if (st) { sat = true; CHECK(o[i] == w, "short", "%.9g -> %d, expected %d", f[i], o[i], w); } else { frac |= v != floorl(v); CHECK(fabsl(o[i] - v) <= 0.5L, "short", "%.9g (%.6Lf) -> %d", f[i], v, o[i]); } }
	} else if (what == 1) { std::unique_ptr<float[]> f(new float[n]); std::unique_ptr<int[]> o(new int[n + 1]); for (long i = 0; i < n; i++) f[i] = anyf(2147483648.0); o[n] = 0x55aa55aa; src_float_to_int_array(f.get(), o.get(), (int)n); CHECK(o[n] == 0x55aa55aa, "overrun", "element %ld written", n);
		for (long i = 0; i < n; i++) { long double v = (long double)f[i] * 2147483648.0L; bool st; int w = clampi(v, -2147483648.0L, 2147483647.0L, &st); if (st) { sat = true; CHECK(o[i] == w, "int", "%.9g -> %d, expected %d", f[i], o[i], w); } else { frac |= v != floorl(v); CHECK(fabsl(o[i] - v) <= 0.5L, "int", "%.9g (%.6Lf) -> %d", f[i], v, o[i]); } }
	} else if (what == 2) { // short -> float -> short: exact
		std::unique_ptr<short[]> a(new short[n]), b(new short[n]); std::unique_ptr<float[]> f(new float[n + 1]); for (long i = 0; i < n; i++) a[i] = (short)(style == 3 ? (rng.next() & 1 ? -32768 : 32767) - 2 + (long)(rng.next() % 4) : (long)(rng.next() % 65536) - 32768); f[n] = sentinel(); src_short_to_float_array(a.get(), f.get(), (int)n); CHECK(is_sentinel(f[n]), "overrun", "element %ld written", n); for (long i = 0; i < n; i++) { CHECK((double)f[i] * 32768 == a[i], "short-float", "%d -> %.9g", a[i], f[i]); CHECK(f[i] >= -1 && f[i] < 1, "range", "%d -> %.9g", a[i], f[i]); frac = true; sat = true; } src_float_to_short_array(f.get(), b.get(), (int)n); for (long i = 0; i < n; i++) CHECK(a[i] == b[i], "round-trip", "%d -> %.9g -> %d", a[i], f[i], b[i]);
	} else { // int -> float: nearest; int -> float -> int within half a step
		std::unique_ptr<int[]> a(new int[n]), b(new int[n]); std::unique_ptr<float[]> f(new float[n + 1]); for (long i = 0; i < n; i++) { u64 q = rng.next(); a[i] = style == 3 ? (int)((q & 1 ? -2147483648ll : 2147483647ll - 200) + (long)((q >> 8) % 200)) : style == 1 ? (int)(((int64_t)(q >> 32)) >> (q % 31)) : (int)(int32_t)q; } f[n] = sentinel(); src_int_to_float_array(a.get(), f.get(), (int)n); CHECK(is_sentinel(f[n]), "overrun", "element %ld written", n); src_float_to_int_array(f.get(), b.get(), (int)n);
		for (long i = 0; i < n; i++) { double v = a[i] / 2147483648.0; float w = (float)v; CHECK(f[i] == w, "int-float", "%d -> %.9g, expected %.9g", a[i], f[i], w); CHECK(f[i] >= -1 && f[i] <= 1, "range", "%d -> %.9g", a[i], f[i]); double d = (double)b[i] - a[i]; if (d) sat = true; frac = true; CHECK(std::fabs(d) <= std::max(0.0, std::fabs((double)a[i]) * 6e-8), "round-trip", "%d -> %.9g -> %d", a[i], f[i], b[i]); if (std::abs((long)a[i]) <= (1 << 24)) CHECK(d == 0, "round-trip", "%d -> %.9g -> %d", a[i], f[i], b[i]); } }
	// order is kept: sorted input gives sorted output
	if (what < 2 && n > 1) { Vec v((size_t)n); for (auto &x : v) x = anyf(what ? 2147483648.0 : 32768); std::sort(v.begin(), v.end()); if (what == 0) { std::vector<short> o(n); src_float_to_short_array(v.data(), o.data(), (int)n); for (long i = 1; i < n; i++) CHECK(o[i - 1] <= o[i], "order", "%.9g -> %d but %.9g -> %d", v[i - 1], o[i - 1], v[i], o[i]); } else { std::vector<int> o(n); src_float_to_int_array(v.data(), o.data(), (int)n); for (long i = 1; i < n; i++) CHECK(o[i - 1] <= o[i], "order", "%.9g -> %d but %.9g -> %d", v[i - 1], o[i - 1], v[i], o[i]); } }
	s.label(what == 0 ? "float to short" : what == 1 ? "float to int" : what == 2 ? "short" : "int"); if (sat) s.label("saturated or inexact"); if (n > 1 && (sat || frac)) s.nontrivial();
}

// ---- P25: allocation failures
void p25_alloc(Src &s)
{	CHECK(alloc_ctl.active, "setup", "allocator wrapping is not active"); int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(5) ? 128 : 8); int what = s.weighted({3, 3, 2, 3}); long at = s.range(0, 5); double r = gen_ratio(s, 0.2, 5); s.note("%s channels=%d call %d allocation %ld fails", conv_name(conv), ch, what, at); s.label(what == 0 ? "src_new" : what == 1 ? "src_clone" : what == 2 ? "src_callback_new" : "src_simple");
	Vec x = make_sig(Sig{4, s.below(1000), 1}, 300, ch); State orig = make_state(conv, ch), twin = make_state(conv, ch); Vec pre1, pre2; process_call(orig.p, ch, x.data(), 200, 150, r, 0, &pre1); process_call(twin.p, ch, x.data(), 200, 150, r, 0, &pre2); CbFeed fd; Vec cx(10 * ch); fd.sig = &cx; fd.ch = ch; memset(&fd.pl, 0, sizeof fd.pl);
	SRC_STATE *q = 0; int e = -9; Vec ob((size_t)100 * ch, sentinel()); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.data_out = ob.data(); d.input_frames = 300; d.output_frames = 100; d.src_ratio = r; bool noerr = s.chance(15);
	alloc_ctl.count = 0; alloc_ctl.live = 0; alloc_ctl.failed = 0; alloc_ctl.fail_at = at; alloc_ctl.track = 1;
	if (what == 0) q = src_new(conv, ch, noerr ? 0 : &e); else if (what == 1) q = src_clone(orig.p, noerr ? 0 : &e); else if (what == 2) q = src_callback_new(feed_cb, conv, ch, noerr ? 0 : &e, &fd); else e = src_simple(&d, conv, ch);
	alloc_ctl.track = 0; alloc_ctl.fail_at = -1; long failed = alloc_ctl.failed, live = alloc_ctl.live;
	if (failed) {
		s.label("failed"); if (what < 3) { CHECK(!q, "failure", "a state in spite of a failed allocation"); if (!noerr) CHECK(e == E_MALLOC, "failure", "error %d for a failed allocation", e); } else { CHECK(e == E_MALLOC, "failure", "src_simple returned %d for a failed allocation", e); for (float f : ob) CHECK(is_sentinel(f), "failure", "output written"); }
		CHECK(live == 0, "leak", "%ld blocks still allocated after the failure", live); s.nontrivial();
	} else {
		if (what < 3) { CHECK(q, "new", "no state"); if (!noerr) CHECK(e == 0, "new", "error %d", e); alloc_ctl.track = 0; src_delete(q); } else CHECK(e == 0, "simple", "error %d", e);
		CHECK(alloc_ctl.live == 0, "leak", "%ld blocks still allocated at the end", alloc_ctl.live);
	}
	// the original is not affected
	Vec a, b; Res u = process_call(orig.p, ch, x.data(), 300, 400, r, 1, &a), v = process_call(twin.p, ch, x.data(), 300, 400, r, 1, &b); CHECK(u.err == 0 && u.used == v.used && u.gen == v.gen && (a.empty() || memcmp(a.data(), b.data(), a.size() * 4) == 0), "effect", "the failure changed another converter");
}

// ---- P29: everything is given back, converting does not use up memory
void p29_leaks(Src &s)
{	CHECK(alloc_ctl.active, "setup", "allocator wrapping is not active"); int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(5) ? 128 : 8), n = (int)s.loglen(1, 30); Vec x = make_sig(Sig{4, s.below(1000), 1}, 400, ch); Vec ob((size_t)300 * ch); std::vector<SRC_STATE *> all; CbFeed fd; Vec cx = make_sig(Sig{4, 3, 1}, 3000, ch); long grown = 0; int kinds = 0; s.note("%s channels=%d", conv_name(conv), ch); s.label(conv_name(conv));
	struct Feed { float *d; long n; } feed{cx.data(), 40}; auto cb = [](void *u, float **p) -> long { Feed &f = *(Feed *)u; *p = f.d; return f.n; };
	alloc_ctl.live = 0; alloc_ctl.count = 0; alloc_ctl.fail_at = -1; std::vector<bool> iscb;
	for (int i = 0; i < n; i++) {
		int k = s.weighted({3, 2, 6, 2, 2, 2, 2, 2}); SRC_STATE *q = all.empty() ? 0 : all[s.below(all.size())]; size_t qi = 0; for (size_t z = 0; z < all.size(); z++) if (all[z] == q) qi = z; int e = 0; long l0, c0; kinds |= 1 << k;
		switch (k) {
		case 0: alloc_ctl.track = 1; q = src_new(conv, ch, &e); alloc_ctl.track = 0; CHECK(q, "new", "no state"); all.push_back(q); iscb.push_back(false); s.note("new"); break;
		case 1: if (q) { alloc_ctl.track = 1; SRC_STATE *c = src_clone(q, &e); alloc_ctl.track = 0; CHECK(c, "clone", "no state"); all.push_back(c); iscb.push_back(iscb[qi]); s.note("clone"); } break;
		case 2: if (q) { l0 = alloc_ctl.live; c0 = alloc_ctl.count; SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.input_frames = s.range(0, 400); d.data_out = ob.data(); d.output_frames = s.range(0, 300); d.src_ratio = gen_ratio(s, 0.1, 10); d.end_of_input = s.chance(10); long want = iscb[qi] ? s.range(0, 300) : 0; alloc_ctl.track = 1; if (iscb[qi]) src_callback_read(q, d.src_ratio, want, ob.data()); else e = src_process(q, &d); alloc_ctl.track = 0; CHECK(e == 0, "error", "%d", e); grown += alloc_ctl.live - l0; (void)c0; s.note(iscb[qi] ? "read" : "process"); } break;
		case 3: if (q) { alloc_ctl.track = 1; src_reset(q); src_set_ratio(q, 1.5); alloc_ctl.track = 0; s.note("reset"); } break;
		case 4: if (q) { alloc_ctl.track = 1; src_delete(q); alloc_ctl.track = 0; all.erase(all.begin() + (long)qi); iscb.erase(iscb.begin() + (long)qi); s.note("delete"); } break;
		case 5: { SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.input_frames = 400; d.data_out = ob.data(); d.output_frames = 300; int bad = (int)s.below(5); d.src_ratio = bad == 1 ? 0 : 0.7; if (bad == 2) d.data_in = 0; if (bad == 4) d.data_out = const_cast<float *>(d.data_in) + 1; l0 = alloc_ctl.live; alloc_ctl.track = 1; e = src_simple(&d, bad == 3 ? 77 : conv, ch); alloc_ctl.track = 0; CHECK((e == 0) == (bad == 0), "simple", "src_simple returned %d", e); CHECK(alloc_ctl.live == l0, "leak", "src_simple (case %d) left %ld blocks", bad, alloc_ctl.live - l0); s.note("simple %d", bad); break; }
		case 6: l0 = alloc_ctl.live; alloc_ctl.track = 1; q = src_new(s.pick({-1, 9, conv}), s.pick({0, -1}), &e); CHECK(!q, "new", "a state for bad arguments"); q = src_new(FAST, 100000, &e); src_delete(q); q = src_callback_new(0, conv, ch, &e, 0); q = src_callback_new(cb, 55, ch, &e, &feed); alloc_ctl.track = 0; CHECK(alloc_ctl.live == l0, "leak", "rejected construction left %ld blocks", alloc_ctl.live - l0); s.note("bad new"); break;
		default: alloc_ctl.track = 1; q = src_callback_new(cb, conv, ch, &e, &feed); alloc_ctl.track = 0; CHECK(q, "new", "no state"); all.push_back(q); iscb.push_back(true); s.note("callback_new"); break;
		}
		CHECK(grown == 0, "growth", "converting left %ld more blocks allocated", grown);
	}
	size_t made = all.size(); alloc_ctl.track = 1; while (!all.empty()) { src_delete(all.back()); all.pop_back(); } alloc_ctl.track = 0; CHECK(alloc_ctl.live == 0, "leak", "%ld blocks still allocated after every converter was deleted", alloc_ctl.live);
	if (made && (kinds & 4)) s.nontrivial();
}

// ---- P27: sizes beyond 2^31 samples
void p27_large(Src &s)
{	int conv = s.weighted({3, 3, 3, 3}); conv = conv == 0 ? LIN : conv == 1 ? ZOH : conv == 2 ? FAST : MED; int ch = s.pick({1, 2, 3, 6, 8, 4, 5}); bool bigin = s.chance(70), bigout = !bigin || s.chance(40), sinc = is_sinc(conv); double r = gen_ratio(s, 0.01, 20); long extra = s.loglen(0, 1 << 20); long L = (1L << 31) / ch + extra; int mult = s.weighted({4, 2}) ? 2 : 1; L *= mult; // samples >= 2^31 or 2^32
	if (s.chance(25)) L = (1L << (s.chance(50) ? 31 : 32)) / ch - s.range(0, 3);
	bool through = bigin && !sinc && s.chance(s.tier ? 60 : 15); if (through) { r = 1 / s.pick({256.0, 255.9, 200.0, 128.0}); if (L * ch > (3L << 30)) L = (3L << 30) / ch; }
	long small_in = s.loglen(50, 30000), small_out = s.loglen(1, 3000); long nin = bigin ? L : small_in, nout = bigout ? (1L << (s.chance(50) ? 31 : 32)) / ch + s.loglen(0, 1 << 20) - 3 : through ? (long)(nin * r) + 10 : small_out; if (bigin && bigout && !through) { nin = small_in + 7; }
	s.note("%s channels=%d ratio=%.9g input_frames=%ld output_frames=%ld%s", conv_name(conv), ch, r, nin, nout, through ? " all of it" : ""); s.label(conv_name(conv)); s.label(nin * ch >= (1L << 31) ? "2^31 input samples" : "large output room");
	auto map = [&](long frames) -> float * { void *p = mmap(0, (size_t)frames * ch * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? 0 : (float *)p; };
	struct Map { float *p; size_t n; ~Map() { if (p) munmap(p, n); } } in{map(nin), (size_t)nin * ch * 4 + 4096}, out{map(nout), (size_t)nout * ch * 4 + 4096}; if (!in.p || !out.p) throw Discard();
	if (s.chance(20)) { // the overlap test with such sizes; nothing but the edges is ever touched
		bool first = s.chance(50); long big = L * ch, small = s.loglen(1, 2000) * ch, gap = s.weighted({3, 3, 3}); gap = gap == 0 ? 0 : gap == 1 ? -s.loglen(1, 1000) : -(s.chance(50) ? std::min(big, 1L << 31) : big / 2 + s.range(0, 1000)); bool bigfirst = s.chance(60); long room = big + small + 8192; // floats
		struct M2 { float *p; size_t n; ~M2() { if (p) munmap(p, n); } } m{(float *)mmap(0, (size_t)room * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), (size_t)room * 4}; if (m.p == MAP_FAILED) { m.p = 0; throw Discard(); }
		float *b = bigfirst ? m.p : m.p + small + 1024, *a = bigfirst ? m.p + big + gap : b - small - gap; if (a < m.p) a = m.p; bool ov = a < b + big && b < a + small; SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = first ? b : a; d.input_frames = (first ? big : small) / ch; d.data_out = first ? a : b; d.output_frames = (first ? small : big) / ch; d.src_ratio = r;
		State st = make_state(conv, ch); int e = src_process(st.p, &d); s.label("overlap of huge regions"); s.note("%s region first, %s huge, gap %ld", bigfirst ? "huge" : "small", first ? "input" : "output", gap); CHECK(e == (ov ? E_OVERLAP : 0), "overlap", "input %ld samples, output %ld samples, %s: returned %d", (first ? big : small), (first ? small : big), ov ? "overlapping" : "apart", e);
		if (!ov) CHECK(d.input_frames_used >= 0 && d.input_frames_used <= d.input_frames && d.output_frames_gen >= 0 && d.output_frames_gen <= d.output_frames, "accounting", "used %ld, generated %ld", d.input_frames_used, d.output_frames_gen); s.nontrivial(); return;
	}
	long head = std::min(nin, 40000L); Rng rng{s.below(1u << 20)}; auto fillr = [&](long a, long b) { for (long i = std::max(0L, a) * ch; i < std::min(nin, b) * ch; i++) in.p[i] = (float)(2 * rng.unit() - 1); };
	fillr(0, head); std::vector<long> spots; if (through) { for (long t : {(1L << 31) / ch, (1L << 30) / ch, nin - 600, (1L << 29) / ch}) { fillr(t - 600, t + 600); spots.push_back(t); } }
	State st = make_state(conv, ch); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = in.p; d.data_out = out.p; d.input_frames = nin; d.output_frames = nout; d.src_ratio = r; d.end_of_input = !bigin || through;
	bool simple = (through || !bigin) && s.chance(40); int e = simple ? src_simple(&d, conv, ch) : src_process(st.p, &d); CHECK(e == 0, "error", "returned %d (%s)", e, src_strerror(e)); long used = d.input_frames_used, gen = d.output_frames_gen; CHECK(used >= 0 && used <= nin && gen >= 0 && gen <= nout, "accounting", "used %ld, generated %ld", used, gen); CHECK(used == nin || gen == nout || loose_end(conv, r, nin - used, used, gen), "stall", "used %ld of %ld, generated %ld of %ld", used, nin, gen, nout);
	double step = 1.0 / r; ld eps0 = exact_step(step) ? 0 : 1e-9L; long hw = (long)(sinc ? half_frames(conv, r) + 4 : 4); long seen = 0;
	auto check = [&](long k) { if (k < 0 || k >= gen) return; ld p = (ld)k * step, eps = eps0 > 0 ? eps0 + 6e-14L * k : 0; long b = (long)p, lo = std::max(0L, b - hw), hi = std::min(nin, b + hw + 2); Vec x((size_t)(hi - lo)); for (int c = 0; c < ch; c++) { for (long i = lo; i < hi; i++) x[i - lo] = in.p[i * ch + c]; float got = out.p[k * ch + c], w = 0; double want = 0, tol = 0; bool ok = conv == ZOH ? zoh_ok(got, x, 1, 0, hi - lo, p - lo, eps, &w) : conv == LIN ? lin_ok(got, x, 1, 0, hi - lo, p - lo, eps, &w) : sinc_ok(got, x, 1, 0, hi - lo, conv, r, p - lo, 1e-9L, &want, &tol); if (!sinc) want = w; CHECK(ok, "value", "output frame %ld (input position %.6Lf) channel %d is %.9g, expected %.9g", k, p, c, got, want); } seen++; };
	for (long k = 0; k < std::min(gen, 40L); k++) { check(k); } for (long k = 0; k < 20; k++) { check(std::min(gen - 1, 2000L) - k); check((long)(rng.next() % (u64)std::max(1L, std::min(gen, 20000L)))); } for (long t : spots) for (long k = -3; k <= 3; k++) check((long)(t * r) + k); if (through || !bigin) for (long k = 0; k < 5; k++) check(gen - 1 - k);
	if (through || !bigin) { CHECK(used == nin || loose_end(conv, r, nin - used, used, gen), "unused", "%ld of %ld used", used, nin); CHECK(fabsl(gen - (ld)nin * r) <= 1 + 1e-3L, "length", "%ld frames for %ld", gen, nin); }
	if (seen > 3) s.nontrivial(); if (through) s.label("all of it converted");
}
