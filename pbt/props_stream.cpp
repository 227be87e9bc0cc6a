// P01-P07, P28: whole streams through the three interfaces
#include "common.hpp"
#include "props.hpp"
#include <climits>

static Vec mono_of(const Vec &x, int ch, int c) { Vec v(x.size() / ch); for (size_t i = 0; i < v.size(); i++) v[i] = x[i * ch + c]; return v; }

// ---- P01: any contract-abiding call sequence stays inside memory and defined behaviour (ASan + UBSan build)
struct Slot { State st; int conv = 0; bool cb = false; std::unique_ptr<CbFeed> fd; std::unique_ptr<Vec> sig; };
void p01_sequences(Src &s)
{	Slot slot[3]; int nops = (int)s.loglen(1, 60); double budget = 6e6; bool big = false, flush = false, vary = false, clone = false; 
	double lastr = 1;
	for (int op = 0; op < nops; op++) {
		Slot &q = slot[s.weighted({6, 2, 1})];
		int what = s.weighted({30, 14, 6, 6, 5, 4, 4, 3, 3});
		if (!q.st.p && what < 2) what = 2;
		if (q.cb && what == 0) what = 1; if (!q.cb && what == 1) what = 0;
		auto ratio = [&]() { int k = s.weighted({50, 25, 25}); if (k == 0) return lastr; if (k == 1) return lastr = gen_ratio(s); return lastr = s.pick({1.0, 1 / 256.0, 256.0, 0.5, 2.0, 1 / 255.0, 1 / 100.0, 3.7}); };
		switch (what) {
		case 0: { // process
			double r = ratio(); int ch = q.st.ch; double per = (is_sinc(q.conv) ? 2 * half_frames(q.conv, 1) / std::min(1.0, r) : 4) * ch;
			if (is_sinc(q.conv)) per = 2 * half_frames(q.conv, 1 / 256.0) * ch * (r < 1 ? 1.0 : 0.05);
			long mo = std::max(2L, std::min(20000L / ch, (long)(400000 / per) + (long)(budget / per / 8)));
			long mi = std::max(4L, 40000L / ch);
			long ni = s.weighted({2, 8, 2}) == 0 ? 0 : s.loglen(0, mi), no = s.weighted({1, 8, 2}) == 0 ? 0 : s.loglen(0, mo);
			int eoi = s.chance(20); Sig g = gen_sig(s, true); Vec x = make_sig(g, ni, ch); bool null_in = ni == 0 && s.chance(50);
			s.note("process %s ch=%d in=%ld out=%ld r=%.17g eoi=%d sig=%s%s", conv_name(q.conv), ch, ni, no, r, eoi, sig_name(g), null_in ? " null" : "");
			Res v = process_call(q.st.p, ch, x.data(), ni, no, r, eoi, 0, null_in);
			CHECK(v.err == 0, "error", "src_process returned %d", v.err);
			budget -= per * v.gen; if (ni * ch > 4000) big = true; if (eoi) flush = true; break; }
		case 1: { // callback_read
			double r = ratio(); int ch = q.st.ch; double per = (is_sinc(q.conv) ? 2 * half_frames(q.conv, r < 1 ? 1 / 256. : 1) : 4) * ch;
			long mo = std::max(2L, std::min(8000L / ch, (long)(budget / per / 8))); long no = s.loglen(0, mo);
			s.note("callback_read %s ch=%d out=%ld r=%.17g", conv_name(q.conv), ch, no, r);
			std::unique_ptr<float[]> o(new float[no * ch]); long n = src_callback_read(q.st.p, r, no, o.get());
			CHECK(n >= 0 && n <= no, "accounting", "src_callback_read returned %ld of %ld", n, no);
			budget -= per * n; flush |= n < no; break; }
		case 2: { // new
			int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(10) ? 128 : 8); q = Slot(); q.conv = conv;
			if (conv == MED && ch > 16) ch = 16;
			if (s.chance(35)) {
				q.sig.reset(new Vec(make_sig(gen_sig(s, true), s.loglen(0, 30000 / ch), ch))); q.fd.reset(new CbFeed); q.fd->sig = q.sig.get(); q.fd->ch = ch; q.fd->pl = gen_plan(s, (long)q.sig->size() / ch, 1); q.fd->null_at_end = s.chance(40);
				int e = 0; q.st = State(src_callback_new(feed_cb, conv, ch, &e, q.fd.get()), ch); q.cb = true; CHECK(q.st.p && !e, "new", "src_callback_new gave %d", e);
				s.note("callback_new %s ch=%d frames=%ld", conv_name(conv), ch, (long)q.sig->size() / ch);
			} else { q.st = make_state(conv, ch); s.note("new %s ch=%d", conv_name(conv), ch); }
			lastr = gen_ratio(s); break; }
		case 3: if (q.st.p) { s.note("reset"); CHECK(src_reset(q.st.p) == 0, "error", "src_reset failed"); if (q.fd && s.chance(50)) q.fd->pos = 0; } break;
		case 4: if (q.st.p) { double r = ratio(); s.note("set_ratio %.17g", r); CHECK(src_set_ratio(q.st.p, r) == 0, "error", "src_set_ratio failed"); vary = true; } break;
		case 5: { Slot &d = slot[s.below(3)]; if (q.st.p && !q.cb && &d != &q) { int e = -1; SRC_STATE *c = src_clone(q.st.p, &e); CHECK(c && !e, "clone", "src_clone gave %d", e); d = Slot(); d.st = State(c, q.st.ch); d.conv = q.conv; clone = true; s.note("clone"); } break; }
		case 6: s.note("delete"); q = Slot(); break;
		case 7: { // simple
			Cfg c = gen_cfg(s, true, true, 8, 4e5); s.note("simple"); note_cfg(s, c); Vec x = make_sig(c.sig, c.N, c.ch); long room = s.loglen(0, (long)(c.N * c.r) + 20);
			std::unique_ptr<float[]> ib(new float[x.size()]), ob(new float[room * c.ch]); if (x.size()) memcpy(ib.get(), x.data(), x.size() * 4);
			SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = ib.get(); d.data_out = ob.get(); d.input_frames = c.N; d.output_frames = room; d.src_ratio = c.r;
			int e = src_simple(&d, c.conv, c.ch); CHECK(e == 0, "error", "src_simple returned %d", e); break; }
		default: { // conversions
			long n = s.loglen(0, 300); Sig g = gen_sig(s, true); Vec x = make_sig(g, n, 1); std::unique_ptr<float[]> f(new float[n]); std::unique_ptr<short[]> sh(new short[n]); std::unique_ptr<int[]> in(new int[n]);
			if (n) memcpy(f.get(), x.data(), n * 4);
			src_float_to_short_array(f.get(), sh.get(), (int)n); src_float_to_int_array(f.get(), in.get(), (int)n); src_short_to_float_array(sh.get(), f.get(), (int)n); src_int_to_float_array(in.get(), f.get(), (int)n); s.note("convert %ld", n); break; }
		}
	}
	if (big) s.label("large blocks"); if (flush) s.label("end of input"); if (vary) s.label("set_ratio"); if (clone) s.label("clone");
	if (nops >= 4 && (flush || vary || clone || big)) s.nontrivial();
}
// streams at the extremes of ratio and channel count, same build
void p01_streams(Src &s)
{	Cfg c = gen_cfg(s, true, true, 128, 1.5e6); if (c.conv == MED && c.ch > 32) c.ch = 32; note_cfg(s, c); label_cfg(s, c);
	Sig w = c.sig; if (s.chance(20)) w.kind = 8; Vec x = make_sig(w, c.N, c.ch); State st = make_state(c.conv, c.ch);
	Run r = run_stream(st.p, c.conv, c.ch, x, c.r, c.plan); if (r.gen > 2 || r.used > 2) s.nontrivial();
	if (s.chance(30)) run_simple(c.conv, c.ch, x, c.r, s.pick({8L, 0L, 100L}));
}

// ---- P02: accounting
void p02_accounting(Src &s)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(14) ? 128 : 12); double r = gen_ratio(s); State st = make_state(conv, ch);
	int n = (int)s.loglen(1, 50); double budget = 6e6; bool partial_in = false, partial_out = false; long tin = 0, tout = 0;
	s.note("%s channels=%d", conv_name(conv), ch);
	for (int i = 0; i < n && budget > 0; i++) {
		if (s.chance(25)) r = gen_ratio(s);
		if (s.chance(8)) { src_set_ratio(st.p, gen_ratio(s)); s.note("set_ratio"); }
		if (s.chance(4)) { src_reset(st.p); s.note("reset"); }
		double per = is_sinc(conv) ? 2 * half_frames(conv, r < 1 ? 1 / 64. : 1) * ch : 4 * ch;
		long ni = s.weighted({1, 9}) ? s.loglen(0, std::max(4L, 30000L / ch)) : 0, no = s.weighted({1, 9}) ? s.loglen(0, std::max(3L, std::min(30000L / ch, (long)(budget / per)))) : 0; int eoi = s.chance(10);
		Sig g = gen_sig(s, true); Vec x = make_sig(g, ni, ch); s.note("in=%ld out=%ld r=%.17g eoi=%d", ni, no, r, eoi);
		Res q = process_call(st.p, ch, x.data(), ni, no, r, eoi, 0, ni == 0 && s.chance(30));
		CHECK(q.err == 0, "error", "src_process returned %d", q.err);
		budget -= per * q.gen + ni * ch; partial_in |= q.used > 0 && q.used < ni; partial_out |= q.gen > 0 && q.gen < no; tin += q.used; tout += q.gen;
	}
	s.label(conv_name(conv)); if (partial_in) s.label("input partly used"); if (partial_out) s.label("output partly filled");
	if (partial_in && partial_out) s.label("both partial in one history");
	if (tout > 0 && (partial_in || partial_out)) s.nontrivial();
}
void p02_simple_cb(Src &s)
{	Cfg c = gen_cfg(s, true, true, 16, 1e6); note_cfg(s, c); label_cfg(s, c); Vec x = make_sig(c.sig, c.N, c.ch);
	if (s.chance(50)) { // src_simple with too little or ample room
		long full = (long)(c.N * c.r) + 4, room = s.chance(50) ? s.loglen(0, full) : full + s.range(0, 50);
		std::unique_ptr<float[]> ib(new float[x.size()]), ob(new float[room * c.ch]); if (x.size()) memcpy(ib.get(), x.data(), x.size() * 4);
		for (long i = 0; i < room * c.ch; i++) ob[i] = sentinel();
		SRC_DATA d; memset(&d, 0x33, sizeof d); d.data_in = ib.get(); d.data_out = ob.get(); d.input_frames = c.N; d.output_frames = room; d.src_ratio = c.r; SRC_DATA d0 = d;
		int e = src_simple(&d, c.conv, c.ch); s.note("src_simple room=%ld", room); CHECK(e == 0, "error", "src_simple returned %d", e);
		CHECK(d.input_frames_used >= 0 && d.input_frames_used <= c.N && d.output_frames_gen >= 0 && d.output_frames_gen <= room, "accounting", "src_simple used %ld of %ld, generated %ld of %ld", d.input_frames_used, c.N, d.output_frames_gen, room);
		for (long i = 0; i < room * c.ch; i++) CHECK(is_sentinel(ob[i]) == (i >= d.output_frames_gen * c.ch), "written", "sample %ld of %ld generated frames (%d channels) is%s written", i, d.output_frames_gen, c.ch, is_sentinel(ob[i]) ? " not" : "");
		CHECK(x.empty() || memcmp(ib.get(), x.data(), x.size() * 4) == 0, "input-changed", "src_simple changed its input");
		CHECK(d.data_in == d0.data_in && d.data_out == d0.data_out && d.input_frames == c.N && d.output_frames == room && d.src_ratio == c.r, "fields", "src_simple changed a request field");
		long lo, hi; count_range(c.conv, c.ch, c.r, c.N, &lo, &hi); if (room < lo) CHECK(d.output_frames_gen == room, "stall", "src_simple filled %ld of %ld frames with %ld to come", d.output_frames_gen, room, lo);
	} else {
		CbFeed fd; fd.sig = &x; fd.ch = c.ch; fd.pl = c.plan; int e; State st(src_callback_new(feed_cb, c.conv, c.ch, &e, &fd), c.ch); CHECK(st.p, "new", "src_callback_new failed");
		Plan op = gen_plan(s, c.N, c.r); run_callback(st.p, fd, c.conv, c.r, op); s.label("callback");
	}
	if (c.N > 4) s.nontrivial();
}

// ---- P03: progress and termination
void p03_progress(Src &s)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(14) ? 128 : 10); bool vari = s.chance(35); double r = gen_ratio(s);
	long N = gen_frames(s, conv, ch, vari ? 4.0 : r, 2e6); Sig g = gen_sig(s); Vec x = make_sig(g, N, ch); State st = make_state(conv, ch);
	if (!vari) {
		Plan p = gen_plan(s, N, r); Cfg c{conv, ch, r, N, g, p}; note_cfg(s, c); label_cfg(s, c);
		Run run = run_stream(st.p, conv, ch, x, r, p);   // checks: every call uses all input or fills the output, the flush ends
		CHECK(run.finished && run.used == N, "unused", "%ld of %ld frames used at the end of the flush", run.used, N);
		// once finished, more flushing gives nothing and no error
		for (int i = 0; i < 3; i++) { long no = s.loglen(1, 500); Res q = process_call(st.p, ch, 0, 0, no, r, 1, 0, s.chance(50)); CHECK(q.err == 0 && q.gen == 0, "after-end", "call after the end of the stream: error %d, %ld frames", q.err, q.gen); }
		if (run.calls > 2 && run.gen > 4) s.nontrivial();
		return;
	}
	s.note("varying ratio %s channels=%d frames=%ld", conv_name(conv), ch, N); s.label("varying ratio"); s.label(conv_name(conv));
	long pos = 0, calls = 0; double budget = 8e6;
	while (pos < N && budget > 0) {
		if (s.chance(60)) { double lo = s.chance(20) ? 1 / 256. : 0.1; r = gen_ratio(s, lo, s.chance(20) ? 256 : 10); }
		if (s.chance(15)) src_set_ratio(st.p, gen_ratio(s, 0.1, 10));
		long ni = std::min(N - pos, s.loglen(1, N)), no = s.loglen(1, 4000 / ch + 2);
		Res q = process_call(st.p, ch, x.data() + pos * ch, ni, no, r, 0, 0); s.note("in=%ld out=%ld r=%.6g -> %ld,%ld", ni, no, r, q.used, q.gen);
		CHECK(q.err == 0, "error", "src_process returned %d", q.err);
		CHECK(q.used > 0 || q.gen > 0, "stall", "neither input (%ld offered) used nor output (%ld wanted) generated", ni, no);
		pos += q.used; calls++; budget -= (is_sinc(conv) ? 2. * q.gen * half_frames(conv, 0.05) * ch : q.gen * ch) + 1000 + ni * ch;
		if (calls > 400) break;
	}
	long gen = 0; for (int i = 0;; i++) { Res q = process_call(st.p, ch, 0, 0, 2000, r, 1, 0, true); CHECK(q.err == 0, "error", "flush returned %d", q.err); gen += q.gen; if (q.gen < 2000) break; CHECK(i < 4000, "endless", "the flush does not end"); }
	CHECK(gen <= (long)((2 * half_frames(conv, 1 / 256.) + 20000) * 256), "endless", "%ld frames from the flush", gen);
	if (calls > 2) s.nontrivial();
}

// ---- P04: length of the output
void p04_length(Src &s)
{	Cfg c = gen_cfg(s, true, true, s.chance(14) ? 128 : 8, 3e6); note_cfg(s, c); label_cfg(s, c); Vec x = make_sig(c.sig, c.N, c.ch); Run run; int api = s.weighted({4, 3, 3});
	if (api == 0) { State st = make_state(c.conv, c.ch); run = run_stream(st.p, c.conv, c.ch, x, c.r, c.plan); }
	else if (api == 1) run = run_simple(c.conv, c.ch, x, c.r);
	else { CbFeed fd; fd.sig = &x; fd.ch = c.ch; fd.pl = c.plan; fd.null_at_end = c.plan.eoi == 1; State st(src_callback_new(feed_cb, c.conv, c.ch, 0, &fd), c.ch); CHECK(st.p, "new", "src_callback_new failed"); run = run_callback(st.p, fd, c.conv, c.r, gen_plan(s, c.N, c.r)); }
	s.note("api=%d -> %ld frames", api, run.gen); s.label(api == 0 ? "process" : api == 1 ? "simple" : "callback");
	CHECK(run.used == c.N || loose_end(c.conv, c.r, c.N - run.used, run.used, run.gen), "unused", "%ld of %ld input frames used", run.used, c.N);
	ld v = (ld)c.N * c.r;
	CHECK(fabsl(run.gen - v) <= 1 + 1e-6L, "length", "%ld output frames for %ld input frames at ratio %.17g (%.6Lf)", run.gen, c.N, c.r, v);
	long lo, hi; count_range(c.conv, c.ch, c.r, c.N, &lo, &hi);
	CHECK(run.gen >= lo && run.gen <= hi, "length", "%ld output frames for %ld input frames at ratio %.17g, not in %ld..%ld", run.gen, c.N, c.r, lo, hi);
	if (c.N >= 3 && run.gen >= 2) s.nontrivial();
}

// ---- P05: the cut into calls does not matter
void p05_chunks(Src &s)
{	Cfg c = gen_cfg(s, true, true, s.chance(14) ? 128 : 8, 2.5e6); if (!c.plan.kind) { c.plan.kind = 2; c.plan.in_blk = s.loglen(std::max(1L, c.N / 3000), c.N + 1); c.plan.out_blk = s.loglen(std::max(1L, (long)(c.N * c.r) / 3000), (long)(c.N * c.r) + 8); }
	note_cfg(s, c); label_cfg(s, c); Vec x = make_sig(c.sig, c.N, c.ch);
	Plan one; memset(&one, 0, sizeof one); State a = make_state(c.conv, c.ch), b = make_state(c.conv, c.ch);
	Run ra = run_stream(a.p, c.conv, c.ch, x, c.r, one), rb = run_stream(b.p, c.conv, c.ch, x, c.r, c.plan);
	s.note("%ld calls", rb.calls);
	CHECK(ra.used == c.N && rb.used == c.N, "unused", "%ld and %ld of %ld frames used", ra.used, rb.used, c.N);
	same_stream("chunks", "in several calls against one call", c.conv, c.ch, c.r, ra.out, rb.out, c.N, x);
	if (rb.calls >= 3 && ra.gen >= 3 && c.sig.kind) s.nontrivial();
}

// ---- P06: the three interfaces agree
void p06_apis(Src &s)
{	Cfg c = gen_cfg(s, true, true, s.chance(14) ? 128 : 8, 2e6); note_cfg(s, c); label_cfg(s, c); Vec x = make_sig(c.sig, c.N, c.ch);
	State a = make_state(c.conv, c.ch); Run full = run_stream(a.p, c.conv, c.ch, x, c.r, c.plan), simple = run_simple(c.conv, c.ch, x, c.r, s.pick({8L, 200L}));
	same_stream("simple", "src_simple against src_process", c.conv, c.ch, c.r, full.out, simple.out, c.N, x);
	CbFeed fd; fd.sig = &x; fd.ch = c.ch; fd.pl = gen_plan(s, c.N, c.r); fd.null_at_end = s.chance(30); int e = -1; State st(src_callback_new(feed_cb, c.conv, c.ch, &e, &fd), c.ch); CHECK(st.p && e == 0, "new", "src_callback_new gave error %d", e);
	Plan op = gen_plan(s, c.N, c.r); s.note("callback blocks [%s] reads [%s]", plan_text(fd.pl).c_str(), plan_text(op).c_str());
	Run cb = run_callback(st.p, fd, c.conv, c.r, op);
	CHECK(cb.used == c.N, "unused", "the callback API asked for %ld of %ld frames", cb.used, c.N);
	same_stream("callback", "src_callback_read against src_process", c.conv, c.ch, c.r, full.out, cb.out, c.N, x);
	if (fd.calls > 2 && full.gen >= 3 && c.sig.kind) s.nontrivial();
}

// ---- P07: channels do not influence each other
void p07_channels(Src &s)
{	Cfg c = gen_cfg(s, true, true, 128, 2e6); if (c.ch == 1) c.ch = s.pick({2, 3, 4, 5, 6, 7, 8}); note_cfg(s, c); label_cfg(s, c);
	if (c.sig.kind == 1 || c.sig.kind == 0) c.sig.kind = 9;
	Vec x = make_sig(c.sig, c.N, c.ch); int lone = s.chance(30) ? (int)s.below(c.ch) : -1;
	if (lone >= 0) { for (long i = 0; i < c.N; i++) for (int k = 0; k < c.ch; k++) if (k != lone) x[i * c.ch + k] = 0; s.label("one live channel"); }
	if (s.chance(15)) { int bad = (int)s.below(c.ch); for (long i = 0; i < c.N; i += 3) x[i * c.ch + bad] = i & 1 ? NAN : INFINITY; s.label("one non-finite channel"); s.note("NaN in channel %d", bad); }
	State m = make_state(c.conv, c.ch); Run all = run_stream(m.p, c.conv, c.ch, x, c.r, c.plan);
	int todo = c.ch <= 8 ? c.ch : 4; Rng pick{c.sig.seed + 5};
	for (int i = 0; i < todo; i++) {
		int k = c.ch <= 8 ? i : i == 0 ? 0 : i == 1 ? c.ch - 1 : (int)(pick.next() % c.ch); Vec y = mono_of(x, c.ch, k);
		State o = make_state(c.conv, 1); Run one = run_stream(o.p, c.conv, 1, y, c.r, c.plan); Vec got = mono_of(all.out, c.ch, k);
		long n = std::min(one.gen, all.gen); CHECK(labs(one.gen - all.gen) <= 1, "channels", "%ld frames with %d channels, %ld with one", all.gen, c.ch, one.gen);
		one.out.resize(n); got.resize(n);
		char w[80]; snprintf(w, sizeof w, "channel %d of %d against the same signal alone", k, c.ch); same_stream("channels", w, c.conv, 1, c.r, one.out, got, c.N, y);
	}
	if (all.gen >= 3) s.nontrivial();
}

// ---- P28: no drift over long streams
void p28_drift(Src &s)
{	int conv = s.weighted({4, 4, 1, 1}); conv = conv == 0 ? LIN : conv == 1 ? ZOH : conv == 2 ? FAST : MED; int ch = s.pick({1, 2, 3, 6, 4, 8}); double r = gen_ratio(s, is_sinc(conv) ? 0.02 : 1 / 256., is_sinc(conv) ? 8 : 64);
	if (s.chance(60)) r = s.pick({48000. / 44100, 44100. / 48000, 44100. / 96000, 0.999999, 1.0000001, 1 / 3., 3.0000001, 0.7071067811865476, 1.2599210498948732});
	double work = (s.tier ? 4e7 : 4e6) * (is_sinc(conv) ? 0.06 : 1); long N = (long)(work / ch / std::max(1.0, r)); N = s.range(N / 2, N);
	s.note("%s channels=%d ratio=%.17g frames=%ld", conv_name(conv), ch, r, N); s.label(conv_name(conv));
	// a signal whose value at frame n is a hash of n: any slip shows. Kept procedurally, fed in blocks.
	auto val = [&](long n, int c) { u64 z = (u64)(n * 131 + c + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; return (float)((double)(z >> 40) / 8388608.0 - 1.0); };
	State st = make_state(conv, ch); long pos = 0, gen = 0; long blk = s.chance(50) ? s.loglen(500, 40000) : s.loglen(std::max(2L, N / 40000), 500); double calls = 2.0 * (double)N / blk, dens = std::min(1.0, (is_sinc(conv) ? 1500 : 20000) / (3 * calls)); s.note("blocks up to %ld", blk); if (calls > 2000) s.label("over 2000 calls"); Rng rng{s.below(1u << 20) + 1};
	double step = 1.0 / r; ld eps = exact_step(step) ? 0 : 1e-8L; long checked = 0; long hw = (long)half_frames(conv, r) + 4;
	long win0 = -1; Vec win; // window of the input kept for the reference model
	for (;;) {
		long ni = std::min(N - pos, 1 + (long)(rng.next() % (u64)blk)), no = 1 + (long)(rng.next() % (u64)((double)blk * r + 10)); Vec in((size_t)ni * ch), out;
		for (long i = 0; i < ni; i++) for (int c = 0; c < ch; c++) in[i * ch + c] = val(pos + i, c);
		int eoi = pos + ni == N; Res q = process_call(st.p, ch, in.data(), ni, no, r, eoi, &out, false, false); CHECK(q.err == 0, "error", "src_process returned %d", q.err);
		// sample a few of the outputs of this call
		for (int t = 0; t < 3 && q.gen > 0 && rng.unit() < dens; t++) {
			long k = gen + (t == 0 ? 0 : (long)(rng.next() % (u64)q.gen)); int c = (int)(rng.next() % ch); float got = out[(k - gen) * ch + c]; ld p = (ld)k * step; long b = (long)p;
			long lo = std::max(0L, b - hw), hi = std::min(N, b + hw + 2); if (!is_sinc(conv)) { lo = std::max(0L, b - 3); hi = std::min(N, b + 3); }
			Vec x((size_t)(hi - lo)); for (long i = lo; i < hi; i++) x[i - lo] = val(i, c);
			bool ok; double want = 0, tol = 0; float w = 0;
			if (conv == ZOH) { ok = zoh_ok(got, x, 1, 0, hi - lo, p - lo, eps, &w); want = w; }
			else if (conv == LIN) { ok = lin_ok(got, x, 1, 0, hi - lo, p - lo, eps, &w); want = w; }
			else ok = sinc_ok(got, x, 1, 0, hi - lo, conv, r, p - lo, 1e-9L, &want, &tol);
			CHECK(ok, "drift", "output frame %ld (input position %.9Lf) channel %d is %.9g, expected %.9g", k, p, c, got, want); checked++;
		}
		pos += q.used; gen += q.gen; if (eoi && pos == N && q.gen < no) break; CHECK(q.used > 0 || q.gen > 0, "stall", "no progress at %ld", pos);
	}
	ld v = (ld)N * r; CHECK(fabsl(gen - v) <= 1 + 1e-6L, "length", "%ld frames for %ld at ratio %.17g", gen, N, r);
	if (checked > 20) s.nontrivial(); s.note("checked %ld of %ld outputs", checked, gen); (void)win0;
}

// the same over very many tiny calls (more than 2^16 of them), in the full and in the callback interface
static float hashval(long n, int c) { u64 z = (u64)(n * 131 + c + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; return (float)((double)(z >> 40) / 8388608.0 - 1.0); }
void p28_calls(Src &s)
{	int conv = s.weighted({5, 5, 2, 1}); conv = conv == 0 ? LIN : conv == 1 ? ZOH : conv == 2 ? FAST : MED; bool sinc = is_sinc(conv); int ch = s.pick({1, 2, 3, 4, 6, 5}); double r = s.chance(50) ? gen_ratio(s, sinc ? 0.5 : 0.2, sinc ? 2 : 4) : s.pick({48000. / 44100, 44100. / 48000, 0.5, 1.0, 2.0, 1 / 3., 0.999999, 1.0000001, 0.7071067811865476});
	long want = s.range(66000, s.tier ? 400000 : 140000), inb = s.pick({1, 1, 2, 3}), outb = s.pick({1, 1, 2, 3}); bool callback = s.chance(40); long calls = 0, idle = 0; double step = 1 / r; ld eps = exact_step(step) ? 0 : 1e-8L; long hw = sinc ? (long)half_frames(conv, r) + 4 : 3, checked = 0, gen = 0; Rng rng{s.below(1u << 20) + 1};
	s.note("%s channels=%d ratio=%.17g %s, %ld calls with up to %ld frames in and %ld out", conv_name(conv), ch, r, callback ? "callback" : "process", want, inb, outb); s.label(conv_name(conv)); s.label(callback ? "callback" : "process");
	struct Feed { int ch; long pos, blk, calls, last; float buf[3 * 6]; } fd{ch, 0, inb, 0, LONG_MAX, {}};
	auto cb = [](void *u, float **p) -> long { Feed &f = *(Feed *)u; f.calls++; long n = std::min(f.blk, f.last - f.pos); for (long i = 0; i < n; i++) for (int c = 0; c < f.ch; c++) f.buf[i * f.ch + c] = hashval(f.pos + i, c); f.pos += n; *p = f.buf; return n; };
	State st; if (callback) { st = State(src_callback_new(cb, conv, ch, 0, &fd), ch); CHECK(st.p, "new", "no state"); } else st = make_state(conv, ch);
	auto check = [&](const float *o, long n, long N, bool all) { for (long k = gen; k < gen + n; k++) { if (sinc && !all && (long)(rng.next() % (u64)(400))) continue; ld p = (ld)k * step; long b = (long)p, lo = std::max(0L, b - hw), hi = std::min(N, b + hw + 2); Vec x((size_t)std::max(0L, hi - lo)); int c0 = (int)(long)(rng.next() % (u64)(ch));
			for (long i = lo; i < hi; i++) { x[i - lo] = hashval(i, c0); } float got = o[(k - gen) * ch + c0], w = 0; double ws = 0, tol = 0; bool ok = conv == ZOH ? zoh_ok(got, x, 1, 0, hi - lo, p - lo, eps, &w) : conv == LIN ? lin_ok(got, x, 1, 0, hi - lo, p - lo, eps, &w) : sinc_ok(got, x, 1, 0, hi - lo, conv, r, p - lo, 1e-9L, &ws, &tol);
			CHECK(ok, "drift", "after %ld calls output frame %ld (input position %.9Lf) channel %d is %.9g, expected %.9g", calls, k, p, c0, got, sinc ? ws : w); checked++; } };
	float o[3 * 6], x[3 * 6]; long pos = 0, shown = 0, N = LONG_MAX / 4;
	for (;; calls++) {
		long n, no = 1 + (long)(rng.next() % (u64)(outb)); if (calls == want) fd.last = N = callback ? fd.pos : shown;
		if (callback) { n = src_callback_read(st.p, r, no, o); CHECK(n >= 0 && n <= no && src_error(st.p) == 0, "accounting", "read %ld of %ld frames, error %d, in call %ld", n, no, src_error(st.p), calls); check(o, n, N, N < LONG_MAX / 4); gen += n; if (n < no) { CHECK(N < LONG_MAX / 4, "short-read", "%ld of %ld frames in call %ld, before the end", n, no, calls); break; } CHECK(calls < want + 100000, "stall", "no end"); continue; }
		long ni = std::min(N - pos, 1 + (long)(rng.next() % (u64)(inb))); shown = std::max(shown, pos + ni); for (long i = 0; i < ni; i++) for (int c = 0; c < ch; c++) x[i * ch + c] = hashval(pos + i, c);
		SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x; d.data_out = o; d.input_frames = ni; d.output_frames = no; d.src_ratio = r; d.end_of_input = pos + ni == N; int e = src_process(st.p, &d); CHECK(e == 0 && d.input_frames_used >= 0 && d.input_frames_used <= ni && d.output_frames_gen >= 0 && d.output_frames_gen <= no, "accounting", "call %ld: error %d, used %ld of %ld, generated %ld of %ld", calls, e, d.input_frames_used, ni, d.output_frames_gen, no);
		check(o, d.output_frames_gen, N, N < LONG_MAX / 4); gen += d.output_frames_gen; pos += d.input_frames_used; idle = d.input_frames_used || d.output_frames_gen ? 0 : idle + 1; if (pos == N && d.output_frames_gen < no) break; CHECK(idle < 4, "stall", "no progress in call %ld", calls);
	}
	long total = callback ? fd.pos : pos; ld v = (ld)total * r; CHECK(fabsl(gen - v) <= 1 + 1e-6L, "length", "%ld frames for %ld at ratio %.17g after %ld calls", gen, total, r, calls);
	s.note("%ld frames in, %ld out, %ld checked", total, gen, checked); if (checked > 20 && calls > 65536) s.nontrivial();
}
