#include "common.hpp"

typedef float coeff_t;
namespace ref {
#include "tables/ref_fastest.h"
#include "tables/ref_mid.h"
}
const Table &table(int conv)
{	static const Table f = {ref::fastest_coeffs.coeffs, (int)(sizeof ref::fastest_coeffs.coeffs / 4) - 2, ref::fastest_coeffs.increment};
	static const Table m = {ref::slow_mid_qual_coeffs.coeffs, (int)(sizeof ref::slow_mid_qual_coeffs.coeffs / 4) - 2, ref::slow_mid_qual_coeffs.increment};
	return conv == FAST ? f : m;
}
double half_frames(int conv, double r)
{	if (conv == ZOH || conv == LIN) return 2;
	const Table &t = table(conv); double c = (t.half_len + 2.0) / t.inc; return r < 1 ? c / r : c;
}
const char *conv_name(int c) { static const char *n[] = {"best", "medium", "fastest", "zoh", "linear"}; return c >= 0 && c < 5 ? n[c] : "?"; }

int gen_conv(Src &s, bool sinc, bool simple)
{	if (sinc && simple) return s.pick({LIN, ZOH, FAST, MED});
	if (simple) return s.pick({LIN, ZOH});
	return s.pick({FAST, FAST, MED});
}
int gen_channels(Src &s, int conv, int maxch)
{	int c;
	switch (s.weighted({50, 20, 20, 10})) {
	case 0: c = s.pick({1, 2, 4, 6, 3}); break;
	case 1: c = (int)s.range(1, 8); break;
	case 2: c = (int)s.range(7, 20); break;
	default: c = s.chance(60) ? s.pick({128, 8, 16, 32, 64, 127, 33, 31, 24, 48, 12, 96, 10, 100, 65}) : (int)s.range(1, 128); break;
	}
	(void)conv;
	return c > maxch ? 1 + c % maxch : c;
}
double gen_ratio(Src &s, double lo, double hi)
{	double r = 1;
	switch (s.weighted({6, 14, 18, 14, 26, 8, 8, 6})) {
	case 0: r = 1; break;
	case 1: r = ldexp(1.0, (int)s.range(0, 16) - 8); break;
	case 2: { double p = (double)s.range(1, 20), q = (double)s.range(1, 20); r = p / q; break; }
	case 3: { static const double sr[] = {8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 192000}; r = sr[s.below(12)] / sr[s.below(12)]; break; }
	case 4: r = exp(s.unit() * log(hi / lo) + log(lo)); break;
	case 5: { double d = ldexp(1.0, -(int)s.range(1, 50)); r = s.chance(50) ? 1 + d : 1 - d; break; }
	case 6: r = s.pick({1 / 256.0, 256.0, std::nextafter(1 / 256.0, 1), std::nextafter(256.0, 1), 1 / 255.9, 1 / 250.0, 1 / 240.0, 1 / 200.0, 1 / 191.0, 255.5, 1 / 128.0, 128.0}); break;
	default: { double n = (double)s.range(2, 255); r = s.chance(50) ? 1 / n : n; if (s.chance(30)) r *= 1 + ldexp((double)s.range(1, 9), -30); } break;
	}
	if (!(r >= lo)) r = lo; if (r > hi) r = hi;
	return r;
}
const char *sig_name(const Sig &g)
{	static const char *n[] = {"zero", "dc", "ramp", "impulses", "noise", "sine", "square", "mixed", "wild", "per-channel"}; return n[g.kind]; }
Sig gen_sig(Src &s, bool wild)
{	Sig g; g.kind = s.weighted({2, 5, 14, 24, 22, 10, 6, 12, wild ? 10 : 0, 8}); g.seed = s.below(1u << 30); g.peak = ldexp(1.0, (int)s.pick({0, 0, 0, -3, -12, 5, 20, -40})); return g; }
Vec make_sig(const Sig &g, long N, int ch)
{	Vec v((size_t)N * ch); Rng r{g.seed * 7919 + 13}; r.next();
	auto set = [&](long i, int c, double x) { v[(size_t)i * ch + c] = (float)(x * g.peak); };
	double base = r.unit();
	switch (g.kind) {
	case 0: break;
	case 1: for (int c = 0; c < ch; c++) { double d = 2 * r.unit() - 1; for (long i = 0; i < N; i++) set(i, c, d); } break;
	case 2: for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) set(i, c, ((double)((i * 7 + c * 13 + (long)(base * 1000)) % 8191) - 4095) / 4096.0 ); break;
	case 3: { long gap = 1 + (long)(exp(r.unit() * 7)); for (int c = 0; c < ch; c++) for (long i = (long)(r.unit() * gap * 0.5); i < N; i += 1 + (long)(r.unit() * 2 * gap)) set(i, c, (r.next() & 1 ? 1 : -1) * exp(-12 * r.unit())); break; }
	case 4: for (auto &x : v) x = (float)((2 * r.unit() - 1) * g.peak); break;
	case 5: for (int c = 0; c < ch; c++) { double f = r.unit() * 3.1, p = r.unit() * 6; for (long i = 0; i < N; i++) set(i, c, sin(f * (double)i + p)); } break;
	case 6: { long h = 1 + (long)(r.unit() * 40); for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) set(i, c, ((i + c) / h) & 1 ? 1 : -1); break; }
	case 7: for (auto &x : v) x = (float)((r.next() & 1 ? 1 : -1) * exp(-30 * r.unit()) * g.peak); break;
	case 8: for (auto &x : v) { u64 q = r.next(); switch (q % 12) { case 0: x = INFINITY; break; case 1: x = -INFINITY; break; case 2: x = NAN; break; case 3: x = 3.4e38f; break; case 4: x = 1e-44f; break; case 5: x = -0.0f; break; case 6: { uint32_t u = (uint32_t)(q >> 32); memcpy(&x, &u, 4); break; } default: x = (float)(2 * r.unit() - 1); } if (is_sentinel(x)) x = 0; } break;
	default: for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) set(i, c, c + 1 + (double)(i % 1024) / 1024); break;
	}
	return v;
}
Plan gen_plan(Src &s, long N, double ratio, bool allow_zero)
{	Plan p; p.kind = s.weighted({20, 35, 45}); p.in_blk = p.out_blk = 0; p.seed = 0; p.eoi = 0; p.zeros = false;
	long M = (long)(N * ratio) + 10;
	if (p.kind) {
		// avoid absurd call counts: the block has to be at least a 4000th of the stream
		long li = std::max<long>(1, N / 4000), lo = std::max<long>(1, M / 4000);
		p.in_blk = s.weighted({8, 2, 1}) == 0 ? s.loglen(li, std::max<long>(li, N)) : s.pick({li, li + 1, std::max(li, N)});
		p.out_blk = s.weighted({8, 2, 1}) == 0 ? s.loglen(lo, std::max<long>(lo, M)) : s.pick({M + 64, lo, lo + 1});
		p.seed = s.below(1u << 20); p.zeros = allow_zero && s.chance(30);
	}
	p.eoi = s.weighted({5, 3, 2});
	return p;
}
std::string plan_text(const Plan &p)
{	char b[160]; snprintf(b, sizeof b, "%s in=%ld out=%ld seed=%llu eoi=%s%s", p.kind == 0 ? "one-call" : p.kind == 1 ? "fixed" : "varying", p.in_blk, p.out_blk, (unsigned long long)p.seed, p.eoi == 0 ? "with-data" : p.eoi == 1 ? "late-null" : "late-ptr", p.zeros ? " zeros" : ""); return b; }
static long blk(Rng &r, long b, const Plan &p)
{	if (p.kind == 1) { if (p.zeros && r.next() % 5 == 0) return 0; return b; }
	u64 q = r.next(); if (p.zeros && q % 5 == 0) return 0;
	switch ((q >> 8) % 4) { case 0: return 1 + (long)((q >> 16) % (u64)b); case 1: return b; case 2: return 1 + (long)(exp(r.unit() * log((double)b + 1)) - 1); default: return 1 + (long)((q >> 16) % (u64)(2 * b)); }
}

State make_state(int conv, int ch)
{	int e = -77; SRC_STATE *p = src_new(conv, ch, &e);
	CHECK(p && e == 0, "new", "src_new (%s, %d) gave %p, error %d", conv_name(conv), ch, (void *)p, e);
	return State(p, ch);
}
Res process_call(SRC_STATE *st, int ch, const float *in, long nin, long nout, double r, int eoi, Vec *out, bool null_in, bool strict)
{	std::unique_ptr<float[]> ib(null_in ? nullptr : new float[nin * ch]), ob(new float[nout * ch + (strict ? 0 : 0)]);
	if (nin > 0) memcpy(ib.get(), in, sizeof(float) * nin * ch);
	float sv = sentinel(); for (long i = 0; i < nout * ch; i++) ob[i] = sv;
	SRC_DATA d; memset(&d, 0x5a, sizeof d);
	d.data_in = ib.get(); d.data_out = ob.get(); d.input_frames = nin; d.output_frames = nout; d.end_of_input = eoi; d.src_ratio = r;
	SRC_DATA d0 = d;
	tick(); int e = src_process(st, &d);
	Res res{e, d.input_frames_used, d.output_frames_gen};
	if (e) return res;
	CHECK(res.used >= 0 && res.used <= nin, "accounting", "input_frames_used %ld of %ld", res.used, nin);
	CHECK(res.gen >= 0 && res.gen <= nout, "accounting", "output_frames_gen %ld of %ld", res.gen, nout);
	for (long i = 0; i < res.gen * ch; i++) CHECK(!is_sentinel(ob[i]), "unwritten", "output sample %ld of %ld generated frames was not written", i, res.gen);
	if (strict) {
		for (long i = res.gen * ch; i < nout * ch; i++) CHECK(is_sentinel(ob[i]), "overrun", "output sample %ld written, only %ld frames of %d channels generated", i, res.gen, ch);
		CHECK(nin == 0 || memcmp(ib.get(), in, sizeof(float) * nin * ch) == 0, "input-changed", "the input buffer was modified");
		CHECK(d.data_in == d0.data_in && d.data_out == d0.data_out && d.input_frames == nin && d.output_frames == nout && d.end_of_input == eoi && d.src_ratio == r, "fields", "a request field of SRC_DATA was changed");
	}
	if (out) out->insert(out->end(), ob.get(), ob.get() + res.gen * ch);
	return res;
}
// The linear converter may leave its last input frame when the next output falls on the end of
// the input but for rounding: nothing is lost, the next call takes it.
bool loose_end(int conv, double r, long left, long used, long gen)
{	return conv == LIN && left == 1 && !exact_step(1.0 / r) && fabsl((ld)gen * (1.0 / r) - (used + 1)) < 1e-8L; }
Run run_stream(SRC_STATE *st, int conv, int ch, const Vec &sig, double r, const Plan &pl, bool finish)
{	Run run; long N = (long)(sig.size() / ch), pos = 0; Rng rng{pl.seed * 31 + 7}; rng.next();
	long lo, hi; count_range(conv, ch, r, N, &lo, &hi); long cap = hi + 64;
	run.out.reserve((size_t)(hi + 8) * ch);
	long limit = 40 + (pl.kind ? 8 * (N / std::max(1L, pl.in_blk) + 1) + 8 * (cap / std::max(1L, pl.out_blk) + 1) + 4000 : 20);
	limit += N + cap; double touched = 0;
	for (;;) {
		long rest = N - pos, ni = rest, no = cap - run.gen;
		if (pl.kind && touched < 1.5e8) { ni = std::min(rest, blk(rng, pl.in_blk, pl)); no = blk(rng, pl.out_blk, pl); } // past that many samples handed over, the rest goes in one call
		int eoi = (pos + ni == N) && (pl.eoi == 0 || (rest == 0));
		bool null_in = ni == 0 && (eoi ? pl.eoi == 1 : (pl.seed & 1) != 0);
		if (no < 1 && (!pl.zeros || touched >= 1.5e8)) no = 1;
		touched += (double)(ni + no) * ch;
		Res q = process_call(st, ch, sig.data() + pos * ch, ni, no, r, eoi, &run.out, null_in);
		run.calls++;
		CHECK(q.err == 0, "error", "src_process returned %d in call %ld", q.err, run.calls);
		pos += q.used; run.used += q.used; run.gen += q.gen;
		CHECK(q.used == ni || q.gen == no || loose_end(conv, r, ni - q.used, run.used, run.gen), "stall", "call %ld used %ld of %ld and generated %ld of %ld frames", run.calls, q.used, ni, q.gen, no);
		CHECK(run.gen <= hi + 32, "endless", "%ld frames generated for %ld input frames at ratio %.17g", run.gen, N, r);
		if (!finish && pos == N) break;
		if (pos == N && eoi && q.gen < no) { run.finished = true; break; }
		CHECK(run.calls <= limit, "stall", "no end after %ld calls, %ld of %ld used, %ld generated", run.calls, pos, N, run.gen);
	}
	return run;
}
Run run_simple(int conv, int ch, const Vec &sig, double r, long room)
{	Run run; long N = (long)(sig.size() / ch), lo, hi; count_range(conv, ch, r, N, &lo, &hi);
	std::unique_ptr<float[]> ib(new float[sig.size()]), ob(new float[(hi + room) * ch]); memcpy(ib.get(), sig.data(), sig.size() * 4);
	float sv = sentinel(); for (long i = 0; i < (hi + room) * ch; i++) ob[i] = sv;
	SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = ib.get(); d.data_out = ob.get(); d.input_frames = N; d.output_frames = hi + room; d.src_ratio = r;
	tick(); int e = src_simple(&d, conv, ch);
	CHECK(e == 0, "error", "src_simple returned %d", e);
	run.used = d.input_frames_used; run.gen = d.output_frames_gen; run.calls = 1; run.finished = true;
	CHECK(run.gen >= 0 && run.gen <= hi + room && run.used >= 0 && run.used <= N, "accounting", "src_simple used %ld of %ld, generated %ld of %ld", run.used, N, run.gen, hi + room);
	for (long i = run.gen * ch; i < (hi + room) * ch; i++) CHECK(is_sentinel(ob[i]), "overrun", "src_simple wrote sample %ld after %ld frames", i, run.gen);
	run.out.assign(ob.get(), ob.get() + run.gen * ch);
	return run;
}
long feed_cb(void *user, float **data)
{	CbFeed &f = *(CbFeed *)user;
	if (!user || f.magic != 0x5eedf00d12345678ull) fail_now("user-data", "the callback got %p as its user data", user);
	long N = (long)(f.sig->size() / f.ch); f.calls++;
	if (f.calls > 4 * N + 100000) fail_now("callback-loop", "%ld calls of the callback for %ld frames", f.calls, N);
	if (f.room_last && (!f.reading || !is_sentinel(*f.room_last))) fail_now("greedy", "the callback was called with the whole output made");
	// the previous block is gone as soon as more data is asked for
	if (f.blk) { for (long i = 0; i < f.last_n * f.ch; i++) f.blk[i] = sentinel(); free(f.blk); f.blk = 0; }
	long rest = N - f.pos;
	if (rest == 0) { f.zero_calls++; if (f.null_at_end) *data = 0; f.last_n = 0; return 0; }
	Rng r{f.pl.seed * 131 + (u64)f.k++ * 977}; r.next(); Plan q = f.pl; q.zeros = false;
	long n = f.pl.kind ? std::min(rest, blk(r, f.pl.in_blk, q)) : rest;
	f.blk = (float *)malloc(n * f.ch * sizeof(float)); memcpy(f.blk, f.sig->data() + f.pos * f.ch, n * f.ch * 4);
	f.pos += n; f.last_n = n; f.nmax = std::max(f.nmax, n); *data = f.blk; return n;
}
Run run_callback(SRC_STATE *st, CbFeed &fd, int conv, double r, const Plan &op)
{	Run run; int ch = fd.ch; long N = (long)(fd.sig->size() / ch), lo, hi; count_range(conv, ch, r, N, &lo, &hi); Rng rng{op.seed * 17 + 3}; rng.next();
	long cap = hi + 64;
	for (;;) {
		long no = op.kind ? blk(rng, op.out_blk, op) : cap;
		std::unique_ptr<float[]> ob(new float[no * ch]); float sv = sentinel(); for (long i = 0; i < no * ch; i++) ob[i] = sv;
		fd.room_last = no > 0 ? ob.get() + no * ch - 1 : 0; fd.reading = true; long n = src_callback_read(st, r, no, ob.get()); run.calls++; fd.room_last = 0;
		CHECK(n >= 0 && n <= no, "accounting", "src_callback_read returned %ld for %ld frames", n, no);
		CHECK(src_error(st) == 0, "error", "src_error is %d after src_callback_read", src_error(st));
		for (long i = 0; i < n * ch; i++) CHECK(!is_sentinel(ob[i]), "unwritten", "output sample %ld of %ld frames was not written", i, n);
		for (long i = n * ch; i < no * ch; i++) CHECK(is_sentinel(ob[i]), "overrun", "output sample %ld written, %ld frames returned", i, n);
		run.out.insert(run.out.end(), ob.get(), ob.get() + n * ch); run.gen += n;
		CHECK(run.gen <= hi + 32, "endless", "%ld frames for %ld input frames at ratio %.17g", run.gen, N, r);
		if (no > 0 && n < no) { CHECK(fd.zero_calls > 0, "short-read", "%ld of %ld frames returned before the callback reported the end", n, no); run.finished = true; break; }
		CHECK(run.calls < 100000 + 2 * cap, "stall", "no end of the callback stream");
	}
	run.used = fd.pos; return run;
}

bool exact_step(double step) { double m = step * 1073741824.0; return step >= 1.0 / 256 && step <= 256 && m == floor(m); }

static inline float at(const Vec &x, int ch, int c, long i) { return x[(size_t)i * ch + c]; }
static bool near_f(double got, double want, double tol) { if (std::isnan(want)) return std::isnan(got); if (std::isinf(want)) return got == want; return std::fabs(got - want) <= tol; }

bool zoh_ok(float got, const Vec &x, int ch, int c, long N, ld p, ld eps, float *want)
{	long a = (long)floorl(p - eps), b = (long)floorl(p + eps);
	for (long n = b; n >= a; n--) { long i = n - 1; if (i < 0) i = 0; if (i >= N) i = N - 1; float w = at(x, ch, c, i); if (want) *want = w; if (biteq(w, got)) return true; }
	return false;
}
bool lin_ok(float got, const Vec &x, int ch, int c, long N, ld p, ld eps, float *want)
{	long n0 = (long)floorl(p - eps), n1 = (long)floorl(p + eps);
	for (long n = n1; n >= n0; n--) {
		if (n >= N) { if (n == n0) n = N - 1; else continue; }
		double a = at(x, ch, c, n > 0 ? n - 1 : 0), b = at(x, ch, c, n < 0 ? 0 : n); double f = (double)(p - n);
		double v = a + f * (b - a); float w = (float)v; if (want) *want = w;
		double slope = std::fabs(b - a); if (n != n0 || n != n1) slope += std::fabs(a) + std::fabs(b) + fin(n + 1 < N ? std::fabs(at(x, ch, c, n + 1)) : 0);
		double tol = 1.3e-7 * std::fabs(v) + slope * ((double)eps + 4e-16) * 1.5 + 4e-16 * (std::fabs(a) + std::fabs(b)) + 2e-45;
		if (near_f(got, w, tol)) return true;
		if (!std::isfinite(a) || !std::isfinite(b)) { if (!std::isfinite(got) || f == 0 || f < 1e-9) return true; }
	}
	return false;
}
double sinc_ref(const Vec &x, int ch, int c, long N, const Table &t, double r, long base, int32_t start, int32_t inc, double *mag)
{	double finc = t.inc * (r < 1 ? r : 1.0); int64_t maxi = (int64_t)t.half_len << 12;
	double sum = 0, m = 0;
	auto tap = [&](int64_t fi, long n) { if (n < 0 || n >= N) return; int ix = (int)(fi >> 12); double fr = (double)(fi & 4095) / 4096.0; double di = (double)t.c[ix + 1] - t.c[ix], co = t.c[ix] + fr * di; double v = x[(size_t)n * ch + c]; sum += co * v; m += std::fabs(v) * (std::fabs(co) * 1e-11 + std::fabs(di) * 6.5e-8); };
	int64_t fi = start; long n = base;
	if (n - N > 0) { long k = n - (N - 1); fi += k * (int64_t)inc; n -= k; }
	for (; fi <= maxi && n >= 0; fi += inc, n--) tap(fi, n);
	fi = (int64_t)inc - start; n = base + 1; if (fi < 0) { fi = 0; }
	if (n < 0) { fi += (-n) * (int64_t)inc; n = 0; }
	for (; fi <= maxi && n < N; fi += inc, n++) tap(fi, n);
	double sc = finc / t.inc; if (mag) *mag = m * sc; return sum * sc;
}
bool sinc_ok(float got, const Vec &x, int ch, int c, long N, int conv, double r, ld p, ld eps, double *want, double *tolout, double runsure)
{	const Table &t = table(conv); double finc = t.inc * (r < 1 ? r : 1.0);
	long base = (long)floorl(p); ld fr = p - base; ld ph = fr * finc * 4096.0L; ld w = eps * finc * 4096.0L + 1e-6L;
	bool ok = false; double best = INFINITY;
	// the step through the filter is rounded: both neighbours where the ratio is not known well enough to tell
	double fe = r < 1 + runsure ? runsure * t.inc * 4096.0 : 0; int32_t inc0 = (int32_t)lrint(finc * 4096.0 - fe), inc1 = (int32_t)lrint(std::min(finc * 4096.0 + fe, t.inc * 4096.0));
	w += fe; long s0 = lrintl(ph - w), s1 = lrintl(ph + w);
	for (int32_t inc = inc0; inc <= inc1 && !ok; inc++)
	for (long st = s0; st <= s1; st++) {
		long b = base; long s = st; if (s < 0) { b--; s += inc; } if (s > inc) { b++; s -= inc; }
		double mag, v = sinc_ref(x, ch, c, N, t, r, b, (int32_t)s, inc, &mag);
		double tol = 1.2e-7 * std::fabs(v) + mag + 1e-44; // rounding of the result, of the table differences and of the sums
		double d = std::fabs(got - v); if (d < best) { best = d; if (want) *want = v; if (tolout) *tolout = tol; }
		if (d <= tol) { ok = true; break; }
		if (!std::isfinite(v)) { ok = !std::isfinite(got); }
	}
	return ok;
}
void count_range(int conv, int ch, double r, long N, long *lo, long *hi)
{	ld step = 1.0 / r; ld e = exact_step((double)step) ? 0 : 1e-9L + 1e-13L * N;
	if (N == 0) { *lo = *hi = 0; return; }
	auto fl = [](ld v) { return (long)floorl(v); };
	// ZOH: k*step < N; the frame at k*step == N is there when the call that takes the last input has room for it
	if (conv == ZOH) { *lo = (long)ceill((N - e) / step); *hi = fl((N + e) / step) + 1; }
	else if (conv == LIN) { *lo = (long)ceill((N - e) / step); *hi = (long)ceill((N + e) / step); } // k*step < N
	else { // within one frame of N*r in both directions
		ld v = (ld)N * r; *lo = std::max(0L, (long)ceill(v - 1 - e * r - 1e-9L)); *hi = (long)floorl(v + 1 + e * r + 1e-9L); }
	(void)ch;
}
void same_stream(const char *cls, const char *what, int conv, int ch, double r, const Vec &a, const Vec &b, long N, const Vec &x)
{	long na = (long)a.size() / ch, nb = (long)b.size() / ch; double step = 1.0 / r; bool ex = exact_step(step); ld eps = ex ? 0 : 1e-9L;
	long slack = is_sinc(conv) || (ex && conv != ZOH) ? 0 : 1;
	if (slack && na != nb) { ld p = (ld)std::min(na, nb) * step; if (fabsl(p - N) > 1e-8L) slack = 0; }
	CHECK(labs(na - nb) <= slack, cls, "%s: %ld frames against %ld", what, nb, na);
	long n = std::min(na, nb); double pk = 0; if (is_sinc(conv)) for (float v : x) if (std::isfinite(v)) pk = std::max(pk, (double)std::fabs(v));
	for (long k = 0; k < n; k++) for (int c = 0; c < ch; c++) {
		float u = a[k * ch + c], v = b[k * ch + c];
		if (biteq(u, v) || u == v || (std::isnan(u) && std::isnan(v))) continue;
		if (is_sinc(conv)) { if (std::fabs((double)u - v) <= 1e-6 * std::fabs(u) + (strcmp(cls, "channels") ? 1e-13 : 1e-9) * pk + 1e-44) continue; }
		else {
			ld p = (ld)k * step; ld d = fabsl(p - roundl(p));
			if (conv == ZOH) { if (eps > 0 && d < eps) continue; }
			else { long q = (long)p; double sl = 0; for (long i = q - 2; i <= q + 1; i++) if (i >= 0 && i < N) sl += std::fabs(at(x, ch, c, i)); if (std::fabs((double)u - v) <= 1.5e-7 * std::fabs(u) + 2 * sl * ((double)eps + 1e-15) + 2e-45) continue; if (!std::isfinite(sl) && d < eps) continue; }
		}
		fail(cls, "%s: frame %ld channel %d is %.9g, expected %.9g", what, k, c, v, u);
	}
}
long gen_frames(Src &s, int conv, int ch, double r, double budget)
{	double per = is_sinc(conv) ? 2 * half_frames(conv, 1) : 4;
	double lim = budget / (per * ch * std::max(1.0, r)); if (lim > 120000) lim = 120000; if (lim < 3) lim = 3;
	long hi = (long)lim;
	if (is_sinc(conv) && s.chance(9)) { // the end of the input near the end of the internal buffer
		const Table &t = table(conv); double B = 3 * std::floor((t.half_len + 2.0) / t.inc * 256 + 1.5) + 5, h = std::floor(half_frames(conv, r) + 0.5) + 1;
		long n = (long)((B - 2 * h) * (double)s.range(1, 3)) + (s.chance(60) ? s.range(0, 16) - 10 : s.range(0, (long)h + 8)); if (n >= 1 && n <= 3 * hi && n * per * ch * std::max(1.0, r) < 6e6) return n;
	}
	switch (ch > 24 ? s.weighted({45, 12, 6, 19, 18}) : s.weighted({60, 12, 6, 19, 3})) {
	case 4: { // a really long one, as far as it can be afforded
		double m = std::max(6 * budget, is_sinc(conv) ? 1.2e7 : ch > 24 ? 8e6 : 2e6) / (per * ch * std::max(1.0, r)); if (m > 420000) m = 420000; if (m > hi) return s.range(hi, (long)m); return hi; }
	case 0: return s.loglen(1, std::min(hi, 3000L));
	case 1: return s.range(0, std::min(hi, 6L));
	case 2: return std::min(hi, s.range(1, 64));
	default: return s.loglen(std::min(hi, 1000L), hi);
	}
}
Cfg gen_cfg(Src &s, bool sinc, bool simple, int maxch, double budget)
{	Cfg c; c.conv = gen_conv(s, sinc, simple); c.ch = gen_channels(s, c.conv, maxch); c.r = gen_ratio(s); c.N = gen_frames(s, c.conv, c.ch, c.r, budget); c.sig = gen_sig(s); c.plan = gen_plan(s, c.N, c.r); return c; }
void note_cfg(Src &s, const Cfg &c)
{	s.note("%s channels=%d ratio=%.17g frames=%ld signal=%s/%llu*%g plan=[%s]", conv_name(c.conv), c.ch, c.r, c.N, sig_name(c.sig), (unsigned long long)c.sig.seed, c.sig.peak, plan_text(c.plan).c_str()); }
void label_cfg(Src &s, const Cfg &c)
{	s.label(conv_name(c.conv)); s.label(c.ch == 1 ? "mono" : c.ch == 2 ? "stereo" : c.ch == 4 ? "quad" : c.ch == 6 ? "six" : "other channels");
	s.label(c.r == 1 ? "ratio 1" : c.r > 1 ? "up" : c.r < 1 / 190. ? "down below 1/190" : "down");
	if (is_sinc(c.conv) && c.N > 3 * 256 * half_frames(c.conv, 1)) s.label("input longer than the internal buffer");
	if (c.plan.kind) s.label("chunked"); if (c.plan.zeros) s.label("with zero-length calls"); if (c.plan.eoi) s.label("late end of input");
}
AllocCtl alloc_ctl;
