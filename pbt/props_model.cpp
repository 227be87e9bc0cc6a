// P08-P15: what the samples are
#include "common.hpp"
#include "props.hpp"

static void check_simple_model(Src &s, int conv)
{	int ch = gen_channels(s, conv, s.chance(30) ? 128 : 8); double r = gen_ratio(s); long N = gen_frames(s, conv, ch, r, 4e5); Sig g = gen_sig(s, true); Plan p = gen_plan(s, N, r);
	Cfg c{conv, ch, r, N, g, p}; note_cfg(s, c); label_cfg(s, c); Vec x = make_sig(g, N, ch); Run run; int api = s.weighted({6, 2, 2});
	if (api == 0) { State st = make_state(conv, ch); run = run_stream(st.p, conv, ch, x, r, p); }
	else if (api == 1) run = run_simple(conv, ch, x, r);
	else { CbFeed fd; fd.sig = &x; fd.ch = ch; fd.pl = p; State st(src_callback_new(feed_cb, conv, ch, 0, &fd), ch); CHECK(st.p, "new", "no state"); run = run_callback(st.p, fd, conv, r, gen_plan(s, N, r)); }
	long lo, hi; count_range(conv, ch, r, N, &lo, &hi);
	CHECK(run.gen >= lo && run.gen <= hi, "count", "%ld output frames, the model has %ld..%ld", run.gen, lo, hi);
	double step = 1.0 / r; bool ex = exact_step(step); if (ex) s.label("exact positions");
	if (ex && N && (api == 1 || (api == 0 && p.kind == 0))) CHECK(run.gen == hi, "count", "%ld output frames with room for more, the model has %ld", run.gen, hi);
	for (long k = 0; k < run.gen; k++) {
		ld pos = (ld)k * step, eps = ex ? 0 : 1e-10L + 6e-14L * k;
		for (int q = 0; q < ch; q++) { float got = run.out[k * ch + q], want = 0; bool ok = conv == ZOH ? zoh_ok(got, x, ch, q, N, pos, eps, &want) : lin_ok(got, x, ch, q, N, pos, eps, &want);
			CHECK(ok, "value", "output frame %ld (input position %.12Lf) channel %d is %.9g, the model has %.9g", k, pos, q, got, want); }
	}
	if (run.gen >= 3 && N >= 3 && g.kind > 1) s.nontrivial();
}
void p08_zoh(Src &s) { check_simple_model(s, ZOH); }
void p09_linear(Src &s) { check_simple_model(s, LIN); }

// ---- P10: the sinc converters against direct convolution with the filter table
void p10_sinc(Src &s)
{	Cfg c = gen_cfg(s, true, false, s.chance(14) ? 128 : 8, 2.5e6); if (c.sig.kind < 2) c.sig.kind = 3; if (s.chance(6)) { c.sig.peak = ldexp(1.0, s.pick({100, -100, 60, -126, 40})); s.label(c.sig.peak > 1 ? "huge values" : "tiny values"); } note_cfg(s, c); label_cfg(s, c); s.label(sig_name(c.sig)); Vec x = make_sig(c.sig, c.N, c.ch);
	if (s.chance(4)) { s.note("with negative zeros"); s.label("negative zeros"); Rng z{c.sig.seed + 5}; for (auto &q : x) if (z.next() % 3 == 0) q = -0.0f; }
	Run run; int api = s.weighted({7, 2, 1});
	if (api == 0) { State st = make_state(c.conv, c.ch); run = run_stream(st.p, c.conv, c.ch, x, c.r, c.plan); }
	else if (api == 1) run = run_simple(c.conv, c.ch, x, c.r);
	else { CbFeed fd; fd.sig = &x; fd.ch = c.ch; fd.pl = c.plan; fd.null_at_end = s.chance(50); State st(src_callback_new(feed_cb, c.conv, c.ch, 0, &fd), c.ch); CHECK(st.p, "new", "no state"); run = run_callback(st.p, fd, c.conv, c.r, gen_plan(s, c.N, c.r)); }
	double step = 1.0 / c.r; Rng rng{c.sig.seed ^ 77}; double taps = 2 * half_frames(c.conv, c.r); long most = (long)std::max(60.0, 1.2e6 / taps), done = 0;
	ld v = (ld)c.N * c.r; CHECK(fabsl(run.gen - v) <= 1 + 1e-6L, "count", "%ld frames for %ld at ratio %.17g", run.gen, c.N, c.r);
	auto one = [&](long k, int q) {
		ld pos = (ld)k * step, eps = exact_step(step) ? 0 : 1e-11L + 6e-14L * k; double want = 0, tol = 0; float got = run.out[k * c.ch + q];
		CHECK(sinc_ok(got, x, c.ch, q, c.N, c.conv, c.r, pos, eps, &want, &tol), "value", "output frame %ld (input position %.12Lf) channel %d is %.9g, the convolution gives %.9g (tolerance %.3g)", k, pos, q, got, want, tol); done++;
	};
	if (run.gen * c.ch <= most) for (long k = 0; k < run.gen; k++) for (int q = 0; q < c.ch; q++) one(k, q);
	else { for (long k = 0; k < std::min(run.gen, 12L); k++) { one(k, (int)(rng.next() % c.ch)); one(run.gen - 1 - k, (int)(rng.next() % c.ch)); } for (long i = 0; i < most; i++) one((long)(rng.next() % (u64)run.gen), (int)(rng.next() % c.ch)); }
	if (done >= 3) s.nontrivial();
}

// ---- P11: linearity, shift invariance, symmetry, unity gain
void p11_lti(Src &s)
{	Cfg c = gen_cfg(s, true, true, 8, 1e6); int what = s.weighted({3, 3, 3, 3, 2}); bool sinc = is_sinc(c.conv);
	auto run = [&](const Vec &x) { State st = make_state(c.conv, c.ch); return run_stream(st.p, c.conv, c.ch, x, c.r, c.plan); };
	if (what == 0) { // scaling by a power of two, and by -1
		Vec x = make_sig(c.sig, c.N, c.ch); int e = (int)s.range(-20, 20); bool neg = s.chance(40); double f = ldexp(neg ? -1 : 1, e); Vec y = x; for (auto &v : y) v = (float)(v * f);
		note_cfg(s, c); s.note("scaled by %g", f); s.label("scaling"); Run a = run(x), b = run(y); CHECK(a.gen == b.gen, "scaling", "%ld against %ld frames", a.gen, b.gen);
		for (size_t i = 0; i < a.out.size(); i++) { double w = a.out[i] * f; CHECK(std::fabs(b.out[i] - w) <= 2e-7 * std::fabs(w) + 3e-38 * std::max(1.0, std::fabs(f)), "scaling", "frame %ld: %.9g for the signal, %.9g for %g times the signal", (long)i / c.ch, a.out[i], b.out[i], f); }
		if (a.gen > 2 && c.sig.kind) s.nontrivial();
	} else if (what == 1) { // superposition
		auto grid = [&](u64 seed) { Vec v((size_t)c.N * c.ch); Rng r{seed}; int sp = 1 + (int)(r.next() % 20); for (auto &q : v) q = r.next() % sp ? 0 : (float)((long)(r.next() % 4096) - 2048) / 2048; return v; };
		u64 s1 = s.below(1u << 20), s2 = s.below(1u << 20); Vec x = grid(s1 + 1), y = grid(s2 + 99), z = x; for (size_t i = 0; i < z.size(); i++) z[i] += y[i];
		note_cfg(s, c); s.note("sum of two signals"); s.label("superposition"); Run a = run(x), b = run(y), d = run(z); CHECK(a.gen == b.gen && a.gen == d.gen, "superposition", "%ld, %ld, %ld frames", a.gen, b.gen, d.gen);
		for (size_t i = 0; i < a.out.size(); i++) { double w = (double)a.out[i] + b.out[i]; CHECK(std::fabs(d.out[i] - w) <= 1.3e-7 * (std::fabs(a.out[i]) + std::fabs(b.out[i]) + std::fabs(w)) + 1e-13, "superposition", "frame %ld: %.9g + %.9g against %.9g for the sum", (long)i / c.ch, a.out[i], b.out[i], d.out[i]); }
		if (a.gen > 2) s.nontrivial();
	} else if (what == 2) { // shift: delay by D input frames = E output frames
		int p = (int)s.range(1, 16), q = s.pick({1, 2, 4, 8, 3, 5, 7, 16}); c.r = (double)p / q; if (c.N > 4000) c.N = 4000; long m = s.range(1, 40), D = q * m, E = (long)p * m; long lead = 2;
		Vec x = make_sig(c.sig, c.N, c.ch); for (long i = 0; i < lead * c.ch && i < (long)x.size(); i++) x[i] = 0; Vec y((size_t)D * c.ch, 0.f); y.insert(y.end(), x.begin(), x.end());
		c.plan = gen_plan(s, c.N, c.r); note_cfg(s, c); s.note("shift by %ld -> %ld", D, E); s.label("shift"); Run a = run(x), b = run(y);
		CHECK(labs(b.gen - a.gen - E) <= 1, "shift", "%ld frames, %ld when delayed by %ld frames of output", a.gen, b.gen, E); double pk = 0; for (float v : x) pk = std::max(pk, (double)std::fabs(v));
		for (long k = 0; k < std::min(a.gen, b.gen - E); k++) for (int h = 0; h < c.ch; h++) { double u = a.out[k * c.ch + h], v = b.out[(k + E) * c.ch + h]; if (u == v) continue; double tol = sinc ? 2e-5 * pk : 1e-6 * pk; if (c.conv == ZOH && !exact_step(1 / c.r)) { ld pos = (ld)k / c.r; if (fabsl(pos - roundl(pos)) < 1e-9L) continue; tol = 0; } CHECK(std::fabs(u - v) <= tol, "shift", "frame %ld channel %d: %.9g, delayed %.9g", k, h, u, v); }
		if (a.gen > 4 && c.sig.kind) s.nontrivial();
	} else if (what == 3) { // a constant stays that constant
		c.sig.kind = 1; if (c.sig.peak < 1e-3) c.sig.peak = 1; long need = (long)(2.2 * half_frames(c.conv, c.r)) + 8; if (c.N < need) c.N = need; if (c.N * std::max(1.0, c.r) > 40000) { c.r = 1.5; c.N = std::max(400L, std::min(c.N, 3000L)); }
		c.plan = gen_plan(s, c.N, c.r); Vec x = make_sig(c.sig, c.N, c.ch); note_cfg(s, c); s.label("dc"); Run a = run(x); double h = half_frames(c.conv, c.r) + 2; long seen = 0;
		for (long k = 0; k < a.gen; k++) { double pos = k / c.r; if (sinc && (pos < h || pos > c.N - h)) continue; seen++; for (int q = 0; q < c.ch; q++) { double w = x[q]; CHECK(std::fabs(a.out[k * c.ch + q] - w) <= (sinc ? 3e-4 : 2e-7) * std::fabs(w), "dc", "frame %ld channel %d is %.9g for a constant %.9g", k, q, a.out[k * c.ch + q], w); } }
		if (seen > 0) s.nontrivial();
	} else { // symmetric filter: time reversal, at integer ratios where both grids coincide
		if (c.conv == ZOH || c.conv == LIN) c.conv = FAST; int m = (int)s.range(1, 12); c.r = m; c.N = s.range(2, std::max(3L, std::min(2000L, (long)(40000 / m / c.ch)))); c.plan = gen_plan(s, c.N, c.r); Vec x = make_sig(c.sig, c.N, c.ch), y = x; for (long i = 0; i < c.N; i++) for (int q = 0; q < c.ch; q++) y[i * c.ch + q] = x[(c.N - 1 - i) * c.ch + q];
		note_cfg(s, c); s.label("reversal"); Run a = run(x), b = run(y); double pk = 0; for (float v : x) pk = std::max(pk, (double)std::fabs(v)); long top = (c.N - 1) * m; CHECK(a.gen > top && b.gen > top, "reversal", "only %ld frames", a.gen);
		for (long k = 0; k <= top; k++) for (int q = 0; q < c.ch; q++) { double u = a.out[k * c.ch + q], v = b.out[(top - k) * c.ch + q]; CHECK(std::fabs(u - v) <= 2e-5 * pk, "reversal", "frame %ld channel %d is %.9g, in the reversed signal %.9g", k, q, u, v); }
		if (c.sig.kind > 1) s.nontrivial();
	}
}

// ---- P12: bounded support, bounded latency, recovery from non-finite input
void p12_local(Src &s)
{	Cfg c = gen_cfg(s, true, true, s.chance(14) ? 128 : 6, 1.5e6); if (c.N < 8) c.N = 8 + c.N; Vec x = make_sig(c.sig, c.N, c.ch), y = x; bool sinc = is_sinc(c.conv);
	long a = s.range(0, c.N - 1), b = s.weighted({4, 4, 2}) == 0 ? a : std::min(c.N - 1, a + s.loglen(0, c.N / 4 + 1)); int how = s.weighted({4, 2, 2, 2}); Rng rng{c.sig.seed + 3};
	for (long i = a; i <= b; i++) for (int q = 0; q < c.ch; q++) { float &v = y[i * c.ch + q]; v = how == 0 ? v + (float)(c.sig.peak * (1 + rng.unit())) : how == 1 ? NAN : how == 2 ? (rng.next() & 1 ? INFINITY : -INFINITY) : 1e30f; }
	note_cfg(s, c); s.note("frames %ld..%ld replaced by %s", a, b, how == 0 ? "other values" : how == 1 ? "NaN" : how == 2 ? "Inf" : "1e30"); label_cfg(s, c); s.label(how == 0 ? "finite change" : "non-finite or huge change");
	State p = make_state(c.conv, c.ch), q = make_state(c.conv, c.ch); Run u = run_stream(p.p, c.conv, c.ch, x, c.r, c.plan), v = run_stream(q.p, c.conv, c.ch, y, c.r, c.plan);
	CHECK(u.gen == v.gen, "locality", "%ld and %ld frames", u.gen, v.gen); double step = 1.0 / c.r; long touched = 0, outside = 0; double h = sinc ? half_frames(c.conv, c.r) + 1 : 0;
	for (long k = 0; k < u.gen; k++) {
		double pos = k * step, lo = sinc ? a - h : a == 0 ? -1 : a - 1e-9, hi = sinc ? b + h : b + 2 + 1e-9; if (c.conv == ZOH && a > 0) lo = a + 1 - 1e-9;
		for (int z = 0; z < c.ch; z++) { bool same = biteq(u.out[k * c.ch + z], v.out[k * c.ch + z]) || u.out[k * c.ch + z] == v.out[k * c.ch + z]; if (pos < lo || pos > hi) { outside++; CHECK(same, "locality", "frame %ld (input position %.6f) channel %d went from %.9g to %.9g, but only input frames %ld..%ld changed", k, pos, z, u.out[k * c.ch + z], v.out[k * c.ch + z], a, b); } else touched += !same; }
	}
	if (c.r >= 1 && u.gen > 0 && !(a == c.N - 1 && !sinc && c.r < 2)) {
		// every input frame matters when no output position skips it
		bool last = !sinc && (a + 1) * c.r > u.gen - 1 - 1e-6; if (!last) CHECK(touched > 0, "ignored", "changing input frames %ld..%ld changed no output at ratio %.9g", a, b, c.r); }
	// latency: once the input up to the half filter is there the output has to come
	{ State w = make_state(c.conv, c.ch); long pos = 0, gen = 0, lim = 0; while (pos < c.N && lim++ < 300) { long ni = std::min(c.N - pos, s.loglen(1, std::max(1L, c.N / 8))), no = (long)(c.N * c.r) + 16; Res g = process_call(w.p, c.ch, x.data() + pos * c.ch, ni, no - gen, c.r, 0, 0); CHECK(g.err == 0, "error", "%d", g.err); pos += g.used; gen += g.gen; double next = gen * step; CHECK(pos - next <= (sinc ? h + 4 : 2), "latency", "%ld frames taken, next output at input position %.6f not generated", pos, next); CHECK(g.used == ni || loose_end(c.conv, c.r, ni - g.used, pos, gen), "latency", "input left over with room in the output"); } }
	if (touched > 0 && outside > 0) s.nontrivial();
}

// ---- P14/P15: varying the ratio
struct Acc { long i = 0; ld f = 0; ld operator+=(ld d) { f += d; long k = (long)f; i += k; f -= k; return i + f; } }; // a sum of steps that keeps its precision at large positions
static void vari(Src &s, bool steps)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(14) ? 128 : 8); bool sinc = is_sinc(conv), wide = !sinc || s.chance(60), rise = sinc && wide && s.chance(30); /* what a sinc converter keeps of the past when its buffer comes round is enough for ratios that only rise */ double rlo = sinc && !wide ? 1 : 1 / 256., rhi = s.chance(30) ? 256 : 12;
	double cap = sinc ? (wide && !rise ? 255. * half_frames(conv, 1) : 60000) : 60000; double budget = sinc ? 1.2e6 : 6e5;
	long N = s.loglen(2, (long)std::min(cap, std::max(300., budget / (sinc ? 40 * ch : 4 * ch)))); if (sinc && (rise || !wide) && ch <= 4 && s.chance(8)) N = (long)(3 * 256 * half_frames(conv, 1) * (0.9 + 0.8 * s.unit()));
	Sig g = gen_sig(s); if (g.kind < 2) g.kind = 4; Vec x = make_sig(g, N, ch); State st = make_state(conv, ch);
	s.note("%s channels=%d frames=%ld signal=%s/%llu", conv_name(conv), ch, N, sig_name(g), (unsigned long long)g.seed); s.label(conv_name(conv)); if (sinc) s.label(rise ? "sinc rising ratio" : wide ? "sinc any ratio" : "sinc ratio >= 1"); if (sinc && N > 3 * 256 * half_frames(conv, 1)) s.label("input longer than the internal buffer");
	bool edge = s.chance(15); if (edge) s.label("limits of the ratio");
	auto gr = [&](double lo, double hi) { if (edge && s.chance(40)) return std::min(hi, std::max(lo, s.pick({1 / 256., 256., 1., 1 / 255., 1 / 256.}))); return gen_ratio(s, lo, hi); };
	double last = 0, r = rise ? gr(rlo, s.chance(50) ? 1.0 : 0.2) : gr(rlo, rhi); auto low = [&] { return rise ? std::max(last, r) : rlo; }; Acc acc; ld pos = 0, eps = 1e-12L, laststep = 0; double unsure = 0, rerr = 0; /* of the ratio: ignored tiny changes, rounding of a ramp */ long fed = 0, gen = 0, ramps = 0, nsteps = 0, calls = 0; Rng rng{g.seed + 1}; double work = 0; const double WMAX = s.tier ? 2e7 : 5e6;
	auto check = [&](long j, const float *o, double rj) {
		if (sinc) { double per = 2 * half_frames(conv, rj); int todo = work < WMAX / 4 ? std::min(ch, 2) : work < WMAX ? (rng.next() % 4 == 0) : 0; while (todo--) { int q = (int)(rng.next() % ch); work += per; double want = 0, tol = 0; CHECK(sinc_ok(o[q], x, ch, q, N, conv, rj, pos, eps, &want, &tol, unsure + rerr), "value", "output frame %ld (input position %.9Lf, ratio %.12g) channel %d is %.9g, the model has %.9g", j, pos, rj, q, o[q], want); } }
		else for (int q = 0; q < ch; q++) { float want = 0; bool ok = conv == ZOH ? zoh_ok(o[q], x, ch, q, N, pos, eps, &want) : lin_ok(o[q], x, ch, q, N, pos, eps, &want); CHECK(ok, "value", "output frame %ld (input position %.9Lf, ratio %.12g) channel %d is %.9g, the model has %.9g", j, pos, rj, q, o[q], want); }
	};
	double total_work = 0; bool done = false, ended = false;
	if (s.chance(15)) { // the callback interface, with one block of data so that each read is one conversion
		s.note("callback mode"); s.label("callback"); CbFeed fd; fd.sig = &x; fd.ch = ch; memset(&fd.pl, 0, sizeof fd.pl); State cb(src_callback_new(feed_cb, conv, ch, 0, &fd), ch); CHECK(cb.p, "new", "no state");
		for (; calls < 200 && total_work < 6 * budget; calls++) {
			bool did = false; if (s.chance(steps ? 60 : 15)) { double n = gr(low(), rhi); if (std::fabs(n - last) > 1e-9) { CHECK(src_set_ratio(cb.p, n) == 0, "error", "src_set_ratio(%.17g)", n); last = r = n; did = true; unsure = rerr = 0; nsteps++; s.note("set_ratio %.9g", n); } }
			if (!did || s.chance(20)) if (s.chance(steps ? 15 : 60)) { double n = s.chance(60) ? std::min(rhi, std::max(low(), r * (0.7 + 0.6 * s.unit()))) : gr(low(), rhi); if (std::fabs(n - last) > 1e-9) r = n; }
			long no = s.loglen(1, std::max(4L, 6000L / ch)); double target = r, from = last > 0 ? last : target; bool tiny = std::fabs(from - target) <= 1e-9, ramp = !tiny; if (tiny && from != target) unsure += std::fabs(from - target); if (ramp) rerr = std::max(rerr, std::max(from, target) * 6e-16);
			ld p = pos, e = (sinc ? half_frames(conv, std::min(from, target)) : 1) + 8 + 2 / std::min(from, target); for (long j = 0; j < no; j++) p += 1.0L / (ramp ? from + (double)(j * ch) * (target - from) / (double)(no * ch) : from); if (p + e >= N) break;
			Vec o((size_t)no * ch, sentinel()); long n = src_callback_read(cb.p, target, no, o.data()); s.note("read %ld ratio %.9g->%.9g: %ld", no, from, target, n); CHECK(n == no && src_error(cb.p) == 0, "count", "src_callback_read returned %ld of %ld frames at input position %.6Lf of %ld, src_error %d", n, no, pos, N, src_error(cb.p));
			double rj = from; for (long j = 0; j < n; j++) { if (ramp) rj = from + (double)(j * ch) * (target - from) / (double)(no * ch); check(gen + j, o.data() + j * ch, rj); pos = (acc += 1.0L / rj); eps += 6e-16L + 3e-16L / rj + (unsure + rerr) / rj / rj; total_work += sinc ? 2 * half_frames(conv, rj) * ch : ch; }
			if (ramp && n > 1) ramps++; last = rj; gen += n; }
		if (ramps) s.label("ramps"); if (nsteps) s.label("steps"); if ((steps ? nsteps : ramps) >= 1 && gen > 8) s.nontrivial(); return;
	}
	while (!done && calls < 300) {
		bool flush = fed == N; double target = r; bool did = false;
		if (!flush) {
			if (s.chance(steps ? 60 : 15)) { double n = gr(ended ? std::max(low(), last) : low(), rhi); if (std::fabs(n - last) > 1e-9) { if (s.chance(12)) { double n0 = gr(ended ? std::max(low(), last) : low(), rhi); CHECK(src_set_ratio(st.p, n0) == 0, "error", "src_set_ratio(%.17g)", n0); s.note("set_ratio %.9g", n0); s.label("set twice"); } CHECK(src_set_ratio(st.p, n) == 0, "error", "src_set_ratio(%.17g)", n); last = n; r = n; did = true; unsure = rerr = 0; nsteps++; s.note("set_ratio %.9g", n); } }
			if (!did || s.chance(20)) if (s.chance(steps ? 15 : 60)) { double n = s.chance(60) ? std::min(rhi, std::max(low(), r * (0.7 + 0.6 * s.unit()))) : gr(low(), rhi); if (std::fabs(n - last) > 1e-9 && !(ended && n < std::max(last, r))) r = n; }
			target = r;
		} else { if (sinc && last > 0 && s.chance(20)) { double n = gr(std::max(rlo, last), rhi); if (n - last > 1e-9) { CHECK(src_set_ratio(st.p, n) == 0, "error", "src_set_ratio(%.17g)", n); last = n; nsteps++; unsure = rerr = 0; s.note("set_ratio %.9g while flushing", n); s.label("step while flushing"); } } target = r = last > 0 ? last : r; }
		long ni = flush ? 0 : std::min(N - fed, s.loglen(1, N)), no = flush ? (long)((N - pos) * target) + 8 : s.loglen(1, std::max(4L, 6000L / ch)); if (no < 1) no = 1; if (flush && no > 200000 / ch) no = 200000 / ch; if (flush && s.chance(40)) no = s.loglen(1, no); if (!flush && fed + ni == N && s.chance(40)) ended = true; if (ended) { ni = N - fed; s.label("end announced with data"); }
		double from = last > 0 ? last : target; bool tiny = std::fabs(from - target) <= 1e-9, ramp = !tiny; if (tiny && from != target) unsure += std::fabs(from - target); if (ramp) rerr = std::max(rerr, std::max(from, target) * 6e-16); /* the converters may ignore a tiny difference */ Vec out;
		Res q = process_call(st.p, ch, x.data() + fed * ch, ni, no, target, flush || ended, &out, flush && s.chance(50)); calls++;
		s.note("in=%ld out=%ld ratio %.9g->%.9g: %ld,%ld", ni, no, from, target, q.used, q.gen); CHECK(q.err == 0, "error", "src_process returned %d", q.err);
		double rj = from;
		for (long j = 0; j < q.gen; j++) { if (ramp) rj = from + (double)(j * ch) * (target - from) / (double)(no * ch); check(gen + j, out.data() + j * ch, rj); pos = (acc += 1.0L / rj); laststep = 1.0L / rj; eps += 6e-16L + 3e-16L / rj + (unsure + rerr) / rj / rj; total_work += sinc ? 2 * half_frames(conv, rj) * ch : ch; }
		if (ramp && q.gen > 1) ramps++;
		last = rj; fed += q.used; gen += q.gen;
		if (!flush) { double rm = std::min(from, target); double h = sinc ? half_frames(conv, rm) + 5 : 2 + 1 / rm; if (!sinc) CHECK(q.used == ni || q.gen == no || (conv == LIN && ni - q.used == 1 && fabsl(pos - (fed + 1)) < 1e-8L), "stall", "used %ld of %ld, generated %ld of %ld", q.used, ni, q.gen, no); if (q.gen < no) CHECK((double)(fed - pos) <= h + 1 / rm || (sinc && q.used < ni), "starved", "output stopped at input position %.6Lf with %ld frames taken", pos, fed); }
		else { double left = (double)(N - pos); if (q.gen < no) { CHECK(left <= 1 / target + 1 + 1e-6 || gen == 0, "tail", "the flush ended at input position %.6Lf of %ld, ratio %.9g", pos, N, target); CHECK(pos <= N + std::max(1 / target, (double)laststep) + 1 + 1e-6, "tail", "the flush ran to input position %.6Lf of %ld", pos, N); done = true; } }
		if (!flush && (total_work > 6 * budget)) { break; }
	}
	if (done) s.label("flushed"); if (ramps) s.label("ramps"); if (nsteps) s.label("steps");
	if ((steps ? nsteps : ramps) >= 1 && gen > 8) s.nontrivial();
}
void p14_ramp(Src &s) { vari(s, false); }
void p15_step(Src &s) { vari(s, true); }

// ---- P13: pass band, stop band and noise of the sinc converters (their documented bandwidth and SNR)
void p13_quality(Src &s)
{	int conv = gen_conv(s, true, false), ch = gen_channels(s, conv, 6); double r; Plan pl;
	switch (s.weighted({5, 3, 2, 2})) { case 0: r = gen_ratio(s, 1 / 8., 8); break; case 3: r = 0.95 + 0.1 * s.unit(); break; case 1: r = gen_ratio(s, 1 / 3., 3); break; default: r = gen_ratio(s, 1 / 100., 64); }
	double bw = conv == FAST ? 0.80 : 0.90, db = conv == FAST ? 91.5 : 109.5 /* documented 97 and 121 for the ratios of the project's own tables; the worst ratio is up to 9 dB below */, nyq = std::min(1.0, r); bool stop = r < 0.9995 && s.chance(40);
	double h = half_frames(conv, r) + 2; long want = s.range(120, 400); double low = 0.02; // outputs to measure
	long N = (long)(2 * h + want / r) + 4; if ((double)N * ch > 200000) throw Discard();
	double lo = stop ? (conv == FAST ? 1.0005 : 1.008) * nyq : low * nyq, hi = stop ? (s.chance(30) ? std::min(1.0, 1.003 * lo) : 1.0) : bw * nyq; if (lo >= hi) throw Discard();
	double w[6], ph[6], f; long first = (long)(h * r) + 1, last = (long)((N - h) * r) - 1; Vec x((size_t)N * ch);
	for (int c = 0; c < ch; c++) { f = lo + (hi - lo) * (s.chance(15) ? 1.0 : s.unit()); w[c] = M_PI * f; ph[c] = s.unit() * 6.28; }
	for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) x[i * ch + c] = (float)(0.9 * sin(w[c] * i + ph[c]));
	pl = gen_plan(s, N, r); s.note("%s channels=%d ratio=%.12g frames=%ld %s band, first channel at %.5f of the lower Nyquist frequency, plan=[%s]", conv_name(conv), ch, r, N, stop ? "stop" : "pass", w[0] / M_PI / nyq, plan_text(pl).c_str());
	s.label(conv_name(conv)); s.label(stop ? "stop band" : "pass band"); s.label(r > 1 ? "up" : "down");
	State st = make_state(conv, ch); Run run = run_stream(st.p, conv, ch, x, r, pl); last = std::min(last, run.gen - 1); if (last - first < 60) throw Discard();
	for (int c = 0; c < ch; c++) {
		double cc = 0, ss = 0, cs = 0, yc = 0, ys = 0, peak = 0; auto pos = [&](long k) { return w[c] * ((double)k / r) + ph[c]; };
		for (long k = first; k <= last; k++) { double y = run.out[k * ch + c], a = sin(pos(k)), b = cos(pos(k)); ss += a * a; cc += b * b; cs += a * b; ys += y * a; yc += y * b; peak += y * y; }
		if (stop) { peak = sqrt(2 * peak / (last - first + 1)); double att = -20 * log10(std::max(peak, 1e-12) / 0.9); s.note("attenuation %.1f dB", att); CHECK(att >= db, "stop-band", "channel %d: a sine at %.5f of the output Nyquist frequency comes through at -%.1f dB", c, w[c] / M_PI / nyq, att); continue; }
		double det = ss * cc - cs * cs; if (std::fabs(det) < 1) throw Discard();
		double A = (ys * cc - yc * cs) / det, B = (yc * ss - ys * cs) / det, res = 0; for (long k = first; k <= last; k++) { double d = run.out[k * ch + c] - A * sin(pos(k)) - B * cos(pos(k)); res += d * d; }
		double gain = 20 * log10(hypot(A, B) / 0.9), shift = atan2(B, A), snr = -10 * log10(std::max(res / (last - first + 1), 1e-24) / (0.405)); s.note("gain %.5f dB, phase %.2g, SNR %.1f dB", gain, shift, snr);
		double rel = w[c] / M_PI / nyq; CHECK(gain <= 0.01 && gain >= (rel <= bw - 0.15 + (conv == MED ? 0.08 : 0) ? -0.01 : -3.0), "gain", "channel %d: gain %.4f dB at %.5f of the lower Nyquist frequency", c, gain, w[c] / M_PI / nyq);
		CHECK(std::fabs(shift) <= 5e-5, "phase", "channel %d: phase shift of %.3g rad at %.5f of the lower Nyquist frequency", c, shift, w[c] / M_PI / nyq);
		CHECK(snr >= db, "snr", "channel %d: signal to noise ratio %.1f dB at %.5f of the lower Nyquist frequency", c, snr, w[c] / M_PI / nyq);
	}
	s.nontrivial();
}

// ---- P32: conversions compose
static Vec leg(Src &s, int conv, int ch, const Vec &x, double r)
{	long N = (long)x.size() / ch; Plan pl = gen_plan(s, N, r); int via = s.weighted({6, 2, 2}); s.note("%s by %.9g through %s [%s]", conv_name(conv), r, via == 0 ? "process" : via == 1 ? "simple" : "callback", plan_text(pl).c_str());
	if (via == 1) return run_simple(conv, ch, x, r).out;
	if (via == 0) { State st = make_state(conv, ch); return run_stream(st.p, conv, ch, x, r, pl).out; }
	CbFeed fd; fd.sig = &x; fd.ch = ch; fd.pl = pl; int e = 0; State st(src_callback_new(feed_cb, conv, ch, &e, &fd), ch); CHECK(st.p, "new", "src_callback_new gave %d", e); return run_callback(st.p, fd, conv, r, gen_plan(s, N, r)).out;
}
void p32_compose(Src &s)
{	int conv = gen_conv(s, true, false), ch = gen_channels(s, conv, 6), kind = s.weighted({5, 4, 3}); // up or down and back; two steps against the signal itself; the two converters against each other
	double r = gen_ratio(s, 1 / 12., 12), r2 = kind == 0 ? 1 / r : gen_ratio(s, 1 / 4., 4); if (r * r2 < 1 / 40. || r * r2 > 24) throw Discard(); int conv2 = kind == 2 ? (conv == FAST ? MED : FAST) : s.chance(30) ? gen_conv(s, true, false) : conv;
	bool fast = conv == FAST || conv2 == FAST; double nyq = std::min(1.0, std::min(r, kind == 2 ? r : r * r2)), edge = (fast ? 0.65 : 0.83) * nyq, h1 = half_frames(conv, r) + 2, h2 = kind == 2 ? half_frames(conv2, r) + 2 : (half_frames(conv2, r2) + 2) / r, ends = kind == 2 ? std::max(h1, h2) : h1 + h2;
	long want = s.range(60, 300), N = (long)(2 * ends + want / std::min(1.0, kind == 2 ? r : r * r2)) + 4; if ((double)N * ch * std::max(1.0, r) > 150000) throw Discard();
	int tones = (int)s.range(1, 4); std::vector<double> w(tones * ch), ph(tones * ch); for (auto &v : w) v = M_PI * edge * (s.chance(20) ? 1.0 : s.unit()); for (auto &v : ph) v = 6.28 * s.unit();
	auto value = [&](int c, double t) { double v = 0; for (int k = 0; k < tones; k++) v += sin(w[c * tones + k] * t + ph[c * tones + k]); return v * 0.9 / tones; };
	Vec x((size_t)N * ch); for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) x[i * ch + c] = (float)value(c, (double)i);
	s.note("%s channels=%d frames=%ld, %d tones up to %.4f of the lowest Nyquist frequency", kind == 0 ? "there and back" : kind == 1 ? "two steps" : "two converters", ch, N, tones, edge / nyq); s.label(kind == 0 ? "there and back" : kind == 1 ? "two steps" : "two converters"); s.label(r > 1 ? "up first" : "down first");
	Vec a = leg(s, conv, ch, x, r), b = leg(s, conv2, ch, kind == 2 ? x : a, kind == 2 ? r : r2); double step = kind == 2 ? 1 / r : 1 / r / r2; long n = 0, first = (long)(ends / step) + 1, last = std::min((long)b.size() / ch, (long)((N - ends) / step)) - 1; if (kind == 2) last = std::min(last, (long)a.size() / ch - 1);
	double worst = 0; int wc = 0; long wk = 0;
	for (long k = first; k <= last; k++, n++) for (int c = 0; c < ch; c++) { double v = kind == 2 ? a[k * ch + c] : kind == 0 ? x[k * ch + c] : value(c, k * step), d = std::fabs(b[k * ch + c] - v); if (!(d <= worst)) { worst = d; wc = c; wk = k; } }
	s.note("largest error %.3g", worst); CHECK(worst <= (fast ? 1.5e-4 : 2e-5), "compose", "%s: frame %ld channel %d is off by %.3g", kind == 0 ? "there and back" : kind == 1 ? "two steps" : "two converters", wk, wc, worst);
	if (n > 20) s.nontrivial();
}
