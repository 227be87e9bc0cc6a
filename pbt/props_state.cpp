// P16-P22, P24, P26: state, errors, callbacks, isolation
#include "common.hpp"
#include "props.hpp"
#include <thread>
#include <functional>
#include <limits>

// ---- scripts of calls that can be replayed on several states
struct Op { int kind; long ni, no; double r; int eoi; Sig sig; bool null_in; long rep; };
struct Rec { int kind, err; long used, gen; Vec out; };
// how often to do something over and over: small counters wrap at such numbers
static long repeats(Src &s, bool cheap = true)
{	int k = s.weighted({5, 4, 1}); return k == 0 ? s.loglen(2, 1000) : k == 1 ? s.pick({256, 255, 257, 254, 512, 128, 1024}) : cheap ? s.pick({65536, 65535, 65537}) : 256; }
static std::vector<Op> gen_script(Src &s, int conv, int ch, int maxops, double budget)
{	std::vector<Op> v; int n = (int)s.loglen(1, maxops); double r = gen_ratio(s); long big = s.chance(2) ? 10 : 1; if (big > 1) budget *= 4;
	for (int i = 0; i < n && budget > 0; i++) {
		Op o; memset(&o, 0, sizeof o); o.kind = s.weighted({160, 20, 12, 8, 3}); if (o.kind == 4) o.rep = repeats(s);
		if (s.chance(25)) r = s.chance(60) ? gen_ratio(s, 0.2, 8) : gen_ratio(s);
		o.r = r; o.sig = gen_sig(s); if (o.sig.kind < 2 && s.chance(70)) o.sig.kind = 4;
		double per = is_sinc(conv) ? 2 * half_frames(conv, std::min(r, 0.05)) * ch : 4 * ch; if (r >= 1 && is_sinc(conv)) per /= 8;
		o.ni = s.weighted({8, 1}) ? 0 : s.loglen(0, std::max(3L, big * 12000L / ch)); o.no = s.weighted({9, 1}) ? 0 : s.loglen(0, std::max(3L, std::min(big * 8000L / ch, (long)(budget / per)))); o.eoi = s.chance(8); o.null_in = o.ni == 0 && s.chance(30);
		budget -= per * o.no * 0.5 + o.ni * ch; v.push_back(o);
	}
	return v;
}
static Rec apply(SRC_STATE *st, int ch, const Op &o)
{	Rec c; c.kind = o.kind; c.err = 0; c.used = c.gen = 0;
	switch (o.kind) {
	case 0: { Vec x = make_sig(o.sig, o.ni, ch); Res q = process_call(st, ch, x.data(), o.ni, o.no, o.r, o.eoi, &c.out, o.null_in, false); c.err = q.err; c.used = q.used; c.gen = q.gen; CHECK(q.err == 0, "error", "src_process returned %d", q.err); break; }
	case 1: c.err = src_set_ratio(st, o.r); break;
	case 2: { SRC_DATA d; memset(&d, 0, sizeof d); d.src_ratio = -1; float f[2] = {0}; d.data_in = f; c.err = src_process(st, &d); break; } // rejected
	case 3: c.err = src_process(st, 0); break;                                              // rejected
	default: { SRC_DATA d; memset(&d, 0, sizeof d); d.src_ratio = o.null_in ? -1 : o.r; for (long i = 0; i < o.rep; i++) c.err |= o.eoi ? src_set_ratio(st, o.r) : src_process(st, &d); break; } // many calls that do nothing
	}
	return c;
}
static void same_rec(const char *cls, const char *what, size_t i, const Rec &a, const Rec &b)
{	CHECK(a.err == b.err, cls, "%s, call %zu: error %d, expected %d", what, i, b.err, a.err);
	CHECK(a.used == b.used && a.gen == b.gen, cls, "%s, call %zu: used %ld generated %ld, expected %ld and %ld", what, i, b.used, b.gen, a.used, a.gen);
	for (size_t k = 0; k < a.out.size(); k++) CHECK(biteq(a.out[k], b.out[k]) || a.out[k] == b.out[k] || (std::isnan(a.out[k]) && std::isnan(b.out[k])), cls, "%s, call %zu: sample %zu is %.9g, expected %.9g", what, i, k, b.out[k], a.out[k]);
}
static void note_script(Src &s, const char *name, const std::vector<Op> &v)
{	s.note("%s:", name); for (auto &o : v) { if (o.kind == 0) s.note("process in=%ld out=%ld r=%.9g eoi=%d sig=%s", o.ni, o.no, o.r, o.eoi, sig_name(o.sig)); else if (o.kind == 4) s.note("%ld empty %s %.9g", o.rep, o.eoi ? "set_ratio" : "process", o.null_in ? -1 : o.r); else s.note(o.kind == 1 ? "set_ratio %.9g" : "rejected call", o.r); } }
// an operation that takes the buffer of a sinc converter round at least once, or most of the way
static Op gen_walk(Src &s, int conv, int ch)
{	Op o; memset(&o, 0, sizeof o); double len = is_sinc(conv) ? 3 * 256 * half_frames(conv, 1) : 5000; o.sig = gen_sig(s); if (o.sig.kind < 2) { o.sig.kind = 4; } o.r = gen_ratio(s, 0.2, 1.2); o.ni = (long)(len * (0.5 + 2 * s.unit())) / (ch > 4 ? ch : 1) + 1; o.no = (long)((double)o.ni * o.r) + 10; return o; }

// ---- P16: reset is as good as new
void p16_reset(Src &s)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(14) ? 128 : 8);
	s.note("%s channels=%d", conv_name(conv), ch); s.label(conv_name(conv));
	if (s.chance(30)) { // callback mode
		Vec x = make_sig(gen_sig(s), gen_frames(s, conv, ch, 4, 5e5), ch); bool wide = s.chance(15); auto gr = [&](double hi) { return wide ? gen_ratio(s) : gen_ratio(s, 0.05, hi); }; double r1 = gr(20), r2 = gr(8); CbFeed fd; fd.sig = &x; fd.ch = ch; fd.pl = gen_plan(s, (long)x.size() / ch, 1);
		State st(src_callback_new(feed_cb, conv, ch, 0, &fd), ch); CHECK(st.p, "new", "no state"); int k = (int)s.loglen(0, 12); long got = 0; int errs = 0;
		for (int i = 0; i < k; i++) { long no = s.loglen(1, 3000 / ch + 2); Vec o((size_t)no * ch); if (s.chance(10)) { src_callback_read(st.p, 0, no, o.data()); errs++; } else { got += src_callback_read(st.p, r1, no, o.data()); } if (s.chance(20)) r1 = gr(20); }
		if (s.below(50) == 40) { long many = repeats(s, !is_sinc(conv)) - 1; s.note("%ld resets in a row", many + 1); s.label("resets in a row"); for (long i = 0; i < many; i++) src_reset(st.p); }
		int e = src_reset(st.p); CHECK(e == 0 && src_error(st.p) == 0, "reset", "src_reset returned %d, src_error is %d", e, src_error(st.p));
		if (s.chance(20)) { int more = (int)s.loglen(1, 12); s.note("%d more resets with reads between", more); s.label("several resets"); Vec o((size_t)64 * ch);
			for (int i = 0; i < more; i++) { if (s.chance(80)) src_callback_read(st.p, gr(8), s.loglen(1, 64), o.data()); if (s.chance(30)) { fd.pos = 0; fd.k = 0; } e = src_reset(st.p); CHECK(e == 0 && src_error(st.p) == 0, "reset", "src_reset returned %d, src_error is %d", e, src_error(st.p)); } }
		Vec y = make_sig(gen_sig(s), gen_frames(s, conv, ch, r2, 5e5), ch); Plan in = gen_plan(s, (long)y.size() / ch, 1), op = gen_plan(s, (long)y.size() / ch, r2);
		fd.sig = &y; fd.pos = 0; fd.k = 0; fd.calls = fd.zero_calls = 0; fd.pl = in; CbFeed f2; f2.sig = &y; f2.ch = ch; f2.pl = in; State fresh(src_callback_new(feed_cb, conv, ch, 0, &f2), ch);
		s.note("callback mode, %d reads, %ld frames, then ratio %.9g", k, got, r2); s.label("callback"); Run a = run_callback(fresh.p, f2, conv, r2, op), b = run_callback(st.p, fd, conv, r2, op);
		Rec ra{0, 0, a.used, a.gen, a.out}, rb{0, 0, b.used, b.gen, b.out}; same_rec("reset", "after reset in callback mode", 0, ra, rb); if (got > 2 && a.gen > 2) s.nontrivial(); return;
	}
	State st = make_state(conv, ch), fresh = make_state(conv, ch); auto h = gen_script(s, conv, ch, 10, 2e6), v = gen_script(s, conv, ch, 10, 2e6); note_script(s, "history", h); note_script(s, "then", v); long hg = 0, vg = 0; bool eoi = false;
	for (auto &o : h) { hg += apply(st.p, ch, o).used; eoi |= o.eoi; }
	if (s.below(25) == 20) { Op w = gen_walk(s, conv, ch); note_script(s, "long history", {w}); hg += apply(st.p, ch, w).used; s.label("round the buffer"); if (s.chance(70)) { Op t; memset(&t, 0, sizeof t); t.r = gen_ratio(s, 1 / 256., 0.1); t.ni = s.loglen(1, 6000 / ch + 1); t.no = s.loglen(1, 20); t.sig.kind = 4; v.insert(v.begin(), t); note_script(s, "first then", {t}); } }
	if (s.chance(15)) { Vec o(8 * ch); src_callback_read(st.p, 1, 8, o.data()); s.label("error pending"); }
	if (s.chance(10)) { State c(src_clone(st.p, 0), ch); CHECK(c.p, "clone", "no clone"); std::swap(st.p, c.p); s.note("it is a clone that gets reset"); s.label("a clone"); }
	if (s.below(6000) == 5000) { long many = s.range(65530, 70000); s.note("%ld resets with small calls between", many); s.label("over 65530 resets"); Vec x((size_t)ch * 4, 0.5f), o((size_t)ch * 4); int every = (int)s.loglen(1, 800); double r = gen_ratio(s, 0.5, 2);
		for (long i = 0; i < many; i++) { if (i % every == 0) { SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.data_out = o.data(); d.input_frames = d.output_frames = 1 + i % 4; d.src_ratio = r; d.end_of_input = i & 1; src_process(st.p, &d); } if (src_reset(st.p)) fail("reset", "src_reset failed"); } }
	if (s.below(50) == 40) { long many = repeats(s, !is_sinc(conv)) - 1; s.note("%ld resets in a row", many + 1); s.label("resets in a row"); for (long i = 0; i < many; i++) src_reset(st.p); }
	int e = src_reset(st.p); CHECK(e == 0 && src_error(st.p) == 0, "reset", "src_reset returned %d, src_error is %d", e, src_error(st.p));
	CHECK(src_get_channels(st.p) == ch, "reset", "%d channels after src_reset", src_get_channels(st.p)); if (s.chance(20)) src_reset(st.p);
	if (s.chance(20)) { int more = (int)s.loglen(1, 12); s.note("%d more resets with calls between", more); s.label("several resets");
		for (int i = 0; i < more; i++) { if (s.chance(85)) { auto w = gen_script(s, conv, ch, 3, more > 4 ? 5e4 : 3e5); note_script(s, "between", w); for (auto &o : w) apply(st.p, ch, o); } e = src_reset(st.p); CHECK(e == 0 && src_error(st.p) == 0, "reset", "src_reset returned %d, src_error is %d", e, src_error(st.p)); } }
	for (size_t i = 0; i < v.size(); i++) { Rec a = apply(fresh.p, ch, v[i]), b = apply(st.p, ch, v[i]); same_rec("reset", "after reset against a new converter", i, a, b); vg += a.gen; }
	if (eoi) s.label("reset after end of input"); if (hg > 0 && vg > 2) s.nontrivial();
}

// ---- P17: clones
void p17_clone(Src &s)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(14) ? 128 : 8); s.note("%s channels=%d", conv_name(conv), ch); s.label(conv_name(conv));
	if (s.chance(30)) { // callback mode: all copies share the user data, so the feed is switched around every read
		Vec x = make_sig(gen_sig(s), gen_frames(s, conv, ch, 4, 6e5), ch); if (x.empty()) throw Discard(); bool wide = s.chance(15); auto gr = [&] { return wide ? gen_ratio(s) : gen_ratio(s, 0.05, 12); }; double r = gr(); struct Sh { const Vec *x; int ch; long pos; long blk; long calls; } cur{&x, ch, 0, s.loglen(1, (long)x.size() / ch + 1), 0};
		auto cb = [](void *u, float **d) -> long { Sh &q = *(Sh *)u; q.calls++; long n = std::min(q.blk, (long)q.x->size() / q.ch - q.pos); *d = const_cast<float *>(q.x->data() + q.pos * q.ch); q.pos += n; return n; };
		State a(src_callback_new(cb, conv, ch, 0, &cur), ch), shadow(src_callback_new(cb, conv, ch, 0, &cur), ch); CHECK(a.p && shadow.p, "new", "no state"); long pa = 0, psh = 0, pb = 0; std::vector<std::pair<long, double>> hist;
		auto read = [&](SRC_STATE *st, long &pos, long no, double rr) { Rec c; c.kind = 0; c.err = 0; c.used = 0; cur.pos = pos; c.out.assign((size_t)no * ch, sentinel()); c.gen = src_callback_read(st, rr, no, c.out.data()); pos = cur.pos; c.err = src_error(st); return c; };
		int k = (int)s.loglen(0, 8); for (int i = 0; i < k; i++) { long no = s.loglen(1, 2000 / ch + 2); if (s.chance(20)) r = gr(); Rec u = read(a.p, pa, no, r), v = read(shadow.p, psh, no, r); same_rec("determinism", "two equal converters", i, u, v); }
		if (s.chance(30)) { float f[8]; double bad = s.pick({0.0, 1e3, -1.0}); if (src_callback_read(a.p, bad, 1, f) || src_callback_read(shadow.p, bad, 1, f)) fail("determinism", "a read with a bad ratio made output"); s.label("error pending"); }
		int e = -1; State b(src_clone(a.p, &e), ch); CHECK(b.p && e == 0, "clone", "src_clone gave %p, error %d", (void *)b.p, e); pb = pa; s.label("callback"); CHECK(src_error(b.p) == src_error(shadow.p) && src_error(a.p) == src_error(shadow.p), "clone", "src_error of the original is %d, of its clone %d, expected %d", src_error(a.p), src_error(b.p), src_error(shadow.p)); s.note("callback mode, %d reads before the clone", k); long tot = 0; bool order = s.chance(50);
		int m = (int)s.loglen(1, 8); for (int i = 0; i < m; i++) { long no = s.loglen(1, 2000 / ch + 2); if (s.chance(20)) r = gr(); Rec w = read(shadow.p, psh, no, r); Rec u = order ? read(a.p, pa, no, r) : read(b.p, pb, no, r), v = order ? read(b.p, pb, no, r) : read(a.p, pa, no, r); same_rec("clone", "first of original and clone", i, w, u); same_rec("clone", "second of original and clone", i, w, v); CHECK(pa == psh && pb == psh, "clone", "input taken: %ld and %ld, expected %ld", pa, pb, psh); tot += w.gen; }
		if (k && tot > 2) s.nontrivial(); return;
	}
	State a = make_state(conv, ch), sa = make_state(conv, ch), sb = make_state(conv, ch); auto h = gen_script(s, conv, ch, 10, 1.5e6); note_script(s, "history", h); long hu = 0;
	for (size_t i = 0; i < h.size(); i++) { Rec x = apply(a.p, ch, h[i]), y = apply(sa.p, ch, h[i]); apply(sb.p, ch, h[i]); same_rec("determinism", "two equal converters", i, x, y); hu += x.used; }
	if (s.chance(25)) { Vec f((size_t)ch); src_callback_read(a.p, 1, 1, f.data()); src_callback_read(sa.p, 1, 1, f.data()); src_callback_read(sb.p, 1, 1, f.data()); s.label("error pending"); }
	if (s.below(60) == 50) { Op w = gen_walk(s, conv, ch); note_script(s, "long history", {w}); Rec x = apply(a.p, ch, w); apply(sa.p, ch, w); apply(sb.p, ch, w); hu += x.used; s.label("round the buffer"); }
	int e = -1; State b(src_clone(a.p, s.chance(80) ? &e : 0), ch); CHECK(b.p && e <= 0, "clone", "src_clone gave %p, error %d", (void *)b.p, e);
	CHECK(src_get_channels(b.p) == ch && src_error(b.p) == src_error(sa.p) && src_error(a.p) == src_error(sa.p), "clone", "clone has %d channels and error %d, the original error %d", src_get_channels(b.p), src_error(b.p), src_error(a.p));
	if (ch <= 2 && s.below(3000) == 2000) { long many = is_sinc(conv) ? s.range(300, 3000) : s.range(65530, 67000); s.note("%ld clones in a row", many); s.label("very many clones"); for (long i = 0; i < many; i++) { State c(src_clone(b.p, 0), ch); CHECK(c.p, "clone", "no clone"); if (i & 1) std::swap(b.p, c.p); } }
	if (s.chance(15)) { State c(src_clone(b.p, 0), ch); CHECK(c.p, "clone", "no clone of a clone"); if (s.chance(50)) { s.note("a clone of the clone replaces the clone"); std::swap(b.p, c.p); } else { s.note("a clone of the clone replaces the original"); std::swap(a.p, c.p); } s.label("clone of a clone"); }
	if (s.chance(12)) { int more = (int)s.loglen(1, 8); s.note("%d generations of clones, each made of the one before", more); s.label("generations");
		for (int i = 0; i < more; i++) { bool first = s.chance(70); State c(src_clone(b.p, 0), ch); CHECK(c.p, "clone", "no clone of a clone"); std::swap(b.p, c.p); if (first) c = State(); /* c is the parent now */
			auto w = gen_script(s, conv, ch, 3, more > 3 ? 5e4 : 2e5); note_script(s, "between", w); for (size_t j = 0; j < w.size(); j++) { Rec x = apply(sb.p, ch, w[j]), y = apply(b.p, ch, w[j]); same_rec("clone", "a later generation", j, x, y); } } }
	auto va = gen_script(s, conv, ch, 6, 1e6); bool same = s.chance(40); auto vb = same ? va : gen_script(s, conv, ch, 6, 1e6); note_script(s, "original", va); if (!same) note_script(s, "clone", vb); else s.note("clone: the same");
	int death = s.weighted({6, 2, 2}); size_t ia = 0, ib = 0; long g = 0; if (death) s.label("one of the two deleted");
	while (ia < va.size() || ib < vb.size()) {
		bool da = ib >= vb.size() || (ia < va.size() && s.chance(50));
		if (da) { if (a.p) { Rec x = apply(sa.p, ch, va[ia]), y = apply(a.p, ch, va[ia]); same_rec("clone", "the original", ia, x, y); g += x.gen; } ia++; if (death == 1 && ia == va.size() / 2 + 1 && a.p) { a = State(); } }
		else { if (b.p) { Rec x = apply(sb.p, ch, vb[ib]), y = apply(b.p, ch, vb[ib]); same_rec("clone", "the clone", ib, x, y); g += x.gen; } ib++; if (death == 2 && ib == vb.size() / 2 + 1 && b.p) { b = State(); } }
	}
	if (s.chance(25) && a.p && b.p) { bool orig = s.chance(50); SRC_STATE *rs = orig ? a.p : b.p, *other = orig ? b.p : a.p, *osh = orig ? sb.p : sa.p; src_reset(rs); s.note("then a reset of the %s", orig ? "original" : "clone"); State fresh = make_state(conv, ch); auto w = gen_script(s, conv, ch, 3, 2e5); note_script(s, "after it", w);
		for (size_t k = 0; k < w.size(); k++) { Rec x = apply(osh, ch, w[k]), y = apply(other, ch, w[k]); same_rec("clone", "after a reset of the other one", k, x, y); Rec u = apply(fresh.p, ch, w[k]), v = apply(rs, ch, w[k]); same_rec("clone", "the one that was reset, against a new converter", k, u, v); } }
	if (hu > 0 && g > 2) s.nontrivial();
}

// ---- P18: which ratios are accepted
static double any_double(Src &s)
{	double d; u64 u;
	switch (s.weighted({3, 3, 3, 2, 3})) {
	case 0: { double b = s.chance(50) ? 256.0 : 1 / 256.0; memcpy(&u, &b, 8); long k = s.range(0, 40) - 20; u += (u64)k; memcpy(&d, &u, 8); return s.chance(10) ? -d : d; }
	case 1: return s.pick({0.0, -0.0, -1.0, (double)INFINITY, (double)-INFINITY, (double)NAN, -(double)NAN, 5e-324, 1e-310, 1e308, 257.0, 1 / 257.0, 256.5, 1 / 256.01, -256.0, -1 / 256.0, 1e-20, 65536.0});
	case 2: return gen_ratio(s);
	case 3: u = s.bits(); memcpy(&d, &u, 8); return d;
	default: return exp((s.unit() - 0.5) * 24);
	}
}
void p18_ratio(Src &s)
{	int conv = gen_conv(s), ch = (int)s.range(1, 4); State st = make_state(conv, ch), twin = make_state(conv, ch); int n = (int)s.loglen(2, 20); bool good = false, bad = false;
	Vec x = make_sig(Sig{4, 5, 1}, 64, ch); CbFeed fd, fd2; Vec cx = make_sig(Sig{4, 6, 1}, 5000, ch); fd.sig = fd2.sig = &cx; fd.ch = fd2.ch = ch; memset(&fd.pl, 0, sizeof(Plan)); fd.pl.kind = 1; fd.pl.in_blk = 50; fd2.pl = fd.pl; State cb(src_callback_new(feed_cb, conv, ch, 0, &fd), ch), cb2(src_callback_new(feed_cb, conv, ch, 0, &fd2), ch);
	s.note("%s channels=%d", conv_name(conv), ch);
	for (int i = 0; i < n; i++) {
		double r = any_double(s); bool valid = r >= 1.0 / 256 && r <= 256.0; good |= valid; bad |= !valid; s.note("%.17g", r);
		int v = src_is_valid_ratio(r); CHECK((v != 0) == valid, "valid", "src_is_valid_ratio (%.17g) is %d", r, v);
		int how = s.weighted({4, 3, 3, 3});
		if (how == 0) {
			long ni = s.weighted({3, 2, 5}), no; ni = ni == 0 ? 64 : ni == 1 ? 0 : s.range(0, 64); no = s.weighted({3, 2, 5}); no = no == 0 ? 32 : no == 1 ? 0 : s.range(0, 32); int eoi = s.chance(10);
			Vec ob(32 * ch, sentinel()); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = !ni && s.chance(50) ? 0 : x.data(); d.data_out = !no && s.chance(50) ? 0 : ob.data(); d.input_frames = ni; d.output_frames = no; d.src_ratio = r; d.end_of_input = eoi; d.input_frames_used = 4711; d.output_frames_gen = 815; s.note("process in=%ld%s out=%ld%s eoi=%d", ni, d.data_in ? "" : " (NULL)", no, d.data_out ? "" : " (NULL)", eoi);
			int e = src_process(st.p, &d); CHECK(e == (valid ? 0 : E_RATIO), "process", "src_process with ratio %.17g, %ld input frames and room for %ld returned %d", r, ni, no, e);
			if (!valid) { for (float f : ob) CHECK(is_sentinel(f), "process", "rejected ratio %.17g, but output written", r); }
			else { Vec out; Res q = process_call(twin.p, ch, x.data(), ni, no, r, eoi, &out); CHECK(q.err == 0 && q.used == d.input_frames_used && q.gen == d.output_frames_gen, "process", "rejected ratios changed the stream: used %ld generated %ld, expected %ld and %ld", d.input_frames_used, d.output_frames_gen, q.used, q.gen); for (size_t k = 0; k < out.size(); k++) CHECK(biteq(out[k], ob[k]), "process", "rejected ratios changed the stream"); }
		} else if (how == 1) {
			int e = src_set_ratio(st.p, r); CHECK(e == (valid ? 0 : E_RATIO), "set_ratio", "src_set_ratio (%.17g) returned %d", r, e); if (valid) src_set_ratio(twin.p, r);
		} else if (how == 2) {
			Vec ob(64 * ch, sentinel()), o2(64 * ch, sentinel()); long calls = fd.calls; long m = src_callback_read(cb.p, r, 16, ob.data());
			if (!valid) { CHECK(m == 0 && src_error(cb.p) == E_RATIO, "callback", "src_callback_read with ratio %.17g returned %ld, src_error %d", r, m, src_error(cb.p)); CHECK(fd.calls == calls, "callback", "the callback was called for a rejected ratio"); for (float f : ob) CHECK(is_sentinel(f), "callback", "rejected ratio, but output written"); }
			else { long m2 = src_callback_read(cb2.p, r, 16, o2.data()); CHECK(m == m2 && memcmp(ob.data(), o2.data(), ob.size() * 4) == 0, "callback", "src_callback_read with ratio %.17g gave %ld frames, %ld expected, or other samples", r, m, m2); }
		} else {
			Vec ob(40 * ch, sentinel()); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.data_out = ob.data(); d.input_frames = s.chance(50) ? 20 : s.range(0, 20); d.output_frames = s.chance(50) ? 40 : s.range(0, 40); if (!d.input_frames && s.chance(50)) d.data_in = 0; if (!d.output_frames && s.chance(50)) d.data_out = 0; d.src_ratio = r; int e = src_simple(&d, conv, ch); CHECK(e == (valid ? 0 : E_RATIO), "simple", "src_simple with ratio %.17g returned %d", r, e); if (!valid) for (float f : ob) CHECK(is_sentinel(f), "simple", "rejected ratio, but output written");
		}
	}
	if (good && bad) s.nontrivial(); s.label(conv_name(conv));
}

// a converter that was made works, however many channels it has: all channels carry the same signal and must agree
static void wide_works(Src &s, SRC_STATE *q, int ch)
{	if (!s.chance(20)) return;
	Vec m = make_sig(Sig{4, s.below(1000), 1}, 80, 1), x(80 * (size_t)ch), o; for (size_t i = 0; i < x.size(); i++) x[i] = m[i / ch]; long g = 0;
	for (int k = 0; k < 2; k++) { Vec part; Res r = process_call(q, ch, x.data(), 80, 60, 1.25, 0, &part); CHECK(r.err == 0, "channels", "src_process with %d channels returned %d", ch, r.err); o.insert(o.end(), part.begin(), part.end()); g += r.gen; }
	for (long i = 0; i < g; i++) for (int c = 1; c < ch; c++) CHECK(biteq(o[i * ch], o[i * ch + c]), "channels", "with %d channels of the same signal, frame %ld is %.9g in channel 0 and %.9g in channel %d", ch, i, o[i * ch], o[i * ch + c], c);
	s.label("more than 128 channels");
}

// ---- P19: bad arguments give the documented error and change nothing
void p19_args(Src &s)
{	int conv = gen_conv(s), ch = (int)s.range(1, 8); State st = make_state(conv, ch), twin = make_state(conv, ch); auto v = gen_script(s, conv, ch, 8, 5e5); s.note("%s channels=%d", conv_name(conv), ch); int bad = 0; long gen = 0; Vec x = make_sig(Sig{4, 9, 1}, 40, ch);
	for (size_t i = 0; i < v.size(); i++) {
		while (s.chance(60)) {
			bad++; SRC_DATA d; memset(&d, 0, sizeof d); Vec ob(30 * ch, sentinel()); d.data_in = x.data(); d.data_out = ob.data(); d.input_frames = 40; d.output_frames = 30; d.src_ratio = 1.5; d.end_of_input = s.chance(30); if (s.chance(50)) { d.input_frames = s.range(0, 40); d.output_frames = s.range(0, 30); } SRC_DATA d0 = d; int e = 0; bool touched = false; int k = (int)s.below(22); s.note("bad call %d", k);
			switch (k) {
			case 0: e = src_process(0, &d); CHECK(e == E_BAD_STATE, "null-state", "src_process (NULL) returned %d", e); break;
			case 1: e = src_process(st.p, 0); CHECK(e == E_BAD_DATA, "null-data", "src_process with no SRC_DATA returned %d", e); break;
			case 2: d.data_in = 0; if (!d.input_frames) d.input_frames = 1; if (!d.output_frames && s.chance(50)) d.data_out = 0; d0 = d; e = src_process(st.p, &d); CHECK(e == E_BAD_PTR, "null-in", "src_process without input pointer returned %d", e); break;
			case 3: d.data_out = 0; if (!d.output_frames) d.output_frames = 1; if (!d.input_frames && s.chance(50)) d.data_in = 0; d0 = d; e = src_process(st.p, &d); CHECK(e == E_BAD_PTR, "null-out", "src_process without output pointer returned %d", e); break;
			case 4: d.src_ratio = s.pick({0.0, -1.0, 300.0, (double)NAN, 1 / 300.}); d0 = d; e = src_process(st.p, &d); CHECK(e == E_RATIO, "ratio", "src_process with ratio %g returned %d", d.src_ratio, e); if (std::isnan(d.src_ratio)) d.src_ratio = d0.src_ratio = 0; break;
			case 5: { d.input_frames = -s.loglen(1, 1L << 40); d.output_frames = -s.loglen(1, 1L << 40); d.end_of_input = 0; State o = make_state(conv, ch); e = src_process(o.p, &d); CHECK(e == 0 && d.input_frames_used == 0 && d.output_frames_gen == 0, "negative", "src_process with negative sizes: error %d, used %ld, generated %ld", e, d.input_frames_used, d.output_frames_gen); d = d0; break; }
			case 6: { int c2 = s.pick({-1, 5, 6, 100, -2147483647 - 1, 2147483647, (int)s.range(5, 1000), -(int)s.range(1, 1000)}); int er = -5; SRC_STATE *q = src_new(c2, ch, &er); CHECK(!q && er == E_BAD_CONV, "converter", "src_new with converter %d gave %p, error %d", c2, (void *)q, er); q = src_new(c2, ch, 0); CHECK(!q, "converter", "src_new with converter %d gave a state", c2); er = src_simple(&d, c2, ch); CHECK(er == E_BAD_CONV, "converter", "src_simple with converter %d returned %d", c2, er); er = -5; CbFeed f; q = src_callback_new(feed_cb, c2, ch, &er, &f); CHECK(!q && er == E_BAD_CONV, "converter", "src_callback_new with converter %d gave %p, error %d", c2, (void *)q, er); break; }
			case 7: { int c2 = s.pick({0, -1, -2, -2147483647 - 1, -(int)s.range(1, 100000)}); int er = -5; SRC_STATE *q = src_new(conv, c2, &er); CHECK(!q && er == E_CHAN, "channels", "src_new with %d channels gave %p, error %d", c2, (void *)q, er); q = src_new(conv, c2, 0); CHECK(!q, "channels", "src_new with %d channels gave a state", c2); er = src_simple(&d, conv, c2); CHECK(er == E_CHAN, "channels", "src_simple with %d channels returned %d", c2, er); er = -5; CbFeed f; q = src_callback_new(feed_cb, conv, c2, &er, &f); CHECK(!q && er == E_CHAN, "channels", "src_callback_new with %d channels gave %p, error %d", c2, (void *)q, er); break; }
			case 8: e = src_simple(0, conv, ch); CHECK(e == E_BAD_DATA, "simple-null", "src_simple (NULL) returned %d", e); break;
			case 9: { SRC_DATA q = d; if (s.chance(50)) { q.data_in = 0; if (!q.input_frames) q.input_frames = 1; } else { q.data_out = 0; if (!q.output_frames) q.output_frames = 1; } e = src_simple(&q, conv, ch); CHECK(e == E_BAD_PTR, "simple-null", "src_simple with a NULL buffer returned %d", e); break; }
			case 10: { int er = -5; SRC_STATE *q = src_callback_new(0, conv, ch, &er, 0); CHECK(!q && er == E_BAD_CB, "callback", "src_callback_new without function gave %p, error %d", (void *)q, er); q = src_callback_new(0, conv, ch, 0, 0); CHECK(!q, "callback", "src_callback_new without function gave a state"); break; }
			case 11: e = src_set_ratio(0, 1.0); CHECK(e == E_BAD_STATE, "null-state", "src_set_ratio (NULL) returned %d", e); break;
			case 12: e = src_set_ratio(st.p, s.pick({0.0, -2.0, 257.0, (double)NAN, (double)INFINITY, 0.0039})); CHECK(e == E_RATIO, "ratio", "src_set_ratio with a bad ratio returned %d", e); break;
			case 13: e = src_reset(0); CHECK(e == E_BAD_STATE, "null-state", "src_reset (NULL) returned %d", e); break;
			case 14: e = src_get_channels(0); CHECK(e == -E_BAD_STATE, "null-state", "src_get_channels (NULL) returned %d", e); break;
			case 15: e = src_error(0); CHECK(e == 0, "null-state", "src_error (NULL) returned %d", e); CHECK(src_delete(0) == 0, "null-state", "src_delete (NULL) is not NULL"); break;
			case 16: { int er = -5; SRC_STATE *q = src_clone(0, &er); CHECK(!q && er == E_BAD_STATE, "null-state", "src_clone (NULL) gave %p, error %d", (void *)q, er); CHECK(!src_clone(0, 0), "null-state", "src_clone (NULL) gave a state"); break; }
			case 17: { long n = src_callback_read(0, 1.0, 10, ob.data()); CHECK(n == 0, "null-state", "src_callback_read (NULL) returned %ld", n); break; }
			case 18: { int c2 = s.pick({129, 130, 200, 1000}); int er = -5; SRC_STATE *q = src_new(s.chance(50) ? FAST : MED, c2, &er); CHECK(q ? er == 0 && src_get_channels(q) == c2 : er == E_CHAN, "channels", "src_new with %d channels gave %p, error %d", c2, (void *)q, er); if (q) wide_works(s, q, c2); src_delete(q); q = src_new(s.chance(50) ? ZOH : LIN, c2, &er); CHECK(q && er == 0 && src_get_channels(q) == c2, "channels", "src_new with %d channels gave %p, error %d", c2, (void *)q, er); wide_works(s, q, c2); src_delete(q); break; }
			case 19: { int er = -5; SRC_STATE *q = src_new(conv, ch, &er); CHECK(q && er == 0 && src_error(q) == 0 && src_get_channels(q) == ch, "new", "src_new gave %p, error %d", (void *)q, er); CHECK(src_delete(q) == 0, "new", "src_delete is not NULL"); er = -5; CbFeed f; q = src_callback_new(feed_cb, conv, ch, &er, &f); CHECK(q && er == 0 && src_error(q) == 0 && src_get_channels(q) == ch, "new", "src_callback_new gave %p, error %d", (void *)q, er); src_delete(q); q = src_new(conv, ch, 0); CHECK(q, "new", "src_new without error pointer failed"); src_delete(q); break; }
			case 20: { Vec both(x); both.resize(x.size() + 40 * ch, 0.f); Vec b4 = both; d.data_in = both.data(); d.data_out = both.data() + s.range(0, 39) * ch; d.input_frames = d.output_frames = 40; d.src_ratio = gen_ratio(s); e = src_process(st.p, &d); CHECK(e == E_OVERLAP, "overlap", "src_process with overlapping buffers returned %d", e); CHECK(!memcmp(b4.data(), both.data(), both.size() * 4), "written", "src_process with overlapping buffers wrote to them"); d = d0; break; }
			default: { CbFeed f; Vec e0(1 * ch); f.sig = &e0; f.ch = ch; memset(&f.pl, 0, sizeof f.pl); State q(src_callback_new(feed_cb, conv, ch, 0, &f), ch); long n = src_callback_read(q.p, 1.0, 4, 0); CHECK(n == 0 && src_error(q.p) == E_BAD_PTR, "null-out", "src_callback_read without buffer returned %ld, src_error %d", n, src_error(q.p)); break; }
			}
			if (!touched) for (float f : ob) CHECK(is_sentinel(f), "written", "rejected call %d wrote output", k);
			if (k <= 4) CHECK(memcmp(&d, &d0, sizeof d) == 0, "fields", "rejected call %d changed SRC_DATA", k);
			CHECK(src_strerror(e < 0 ? -e : e) != 0, "text", "no text for error %d", e);
		}
		Rec a = apply(twin.p, ch, v[i]), b = apply(st.p, ch, v[i]); same_rec("effect", "stream with rejected calls in between", i, a, b); gen += a.gen;
	}
	if (bad && gen > 2) s.nontrivial();
}

// ---- P20: overlapping buffers
void p20_overlap(Src &s)
{	int conv = gen_conv(s), ch = (int)s.range(1, 6); State st = make_state(conv, ch), twin = make_state(conv, ch); int n = (int)s.loglen(1, 14); long A = 4000; std::unique_ptr<float[]> arena(new float[A]); double r = gen_ratio(s, 0.1, 10); bool hit = false, adj = false, ok = false; s.note("%s channels=%d r=%.9g", conv_name(conv), ch, r);
	for (int i = 0; i < n; i++) {
		long ni = s.loglen(1, 200), no = s.loglen(1, 200), in, out; if (s.chance(15)) (s.chance(50) ? ni : no) = 0; long li = ni * ch, lo = no * ch;
		switch (s.weighted({3, 2, 2, 3, 2})) {
		case 0: in = 1300; out = in + li + s.range(0, 2) - 1; break;                    // around the end of the input
		case 1: out = 1300; in = out + lo + s.range(0, 2) - 1; break;                   // around the end of the output
		case 2: in = out = 1300; break;
		case 3: in = 1300; out = in + s.range(0, li + lo) - lo; break;
		default: in = s.range(0, 1200); out = s.range(1, 1400) + 1200; break;
		}
		if ((!ni || !no) && s.chance(60)) { in = 1300; out = in + (s.chance(50) ? li + s.range(0, 2 * ch) : -lo - s.range(0, 2 * ch)); }
		if (in < 0 || out < 0 || in + li > A || out + lo > A) continue;
		if (!ni && in >= out && in < out + lo) continue; // an empty region inside the other one: left open
		if (!no && out >= in && out < in + li) continue;
		bool ov = in < out + lo && out < in + li; Vec x = make_sig(Sig{4, s.below(1000), 1}, ni, ch); float sv = sentinel();
		for (long k = 0; k < lo; k++) arena[out + k] = sv; memcpy(&arena[in], x.data(), li * 4); Vec before(arena.get(), arena.get() + A);
		for (long k = 0; k < A; k++) if (!(k >= in && k < in + li) && !(k >= out && k < out + lo)) arena[k] = sv; before.assign(arena.get(), arena.get() + A);
		SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = &arena[in]; d.data_out = &arena[out]; d.input_frames = ni || s.chance(50) ? ni : -s.loglen(1, 1000000); d.output_frames = no || s.chance(50) ? no : -s.loglen(1, 1000000); d.src_ratio = ov && s.chance(50) ? gen_ratio(s, 0.1, 10) : r; d.end_of_input = ov && s.chance(30); if (!ni || !no) s.label("empty region"); s.note("in %ld+%ld out %ld+%ld", in, li, out, lo);
		bool simple = s.chance(20); int e = simple ? src_simple(&d, conv, ch) : src_process(st.p, &d); adj |= !ov && (in == out + lo || out == in + li);
		CHECK(e == (ov ? E_OVERLAP : 0), ov ? "missed" : "false", "input floats %ld..%ld, output floats %ld..%ld: returned %d", in, in + li - 1, out, out + lo - 1, e);
		for (long k = 0; k < A; k++) if (ov || k < out || k >= out + d.output_frames_gen * ch) CHECK(biteq(arena[k], before[k]), "written", "float %ld changed (output is %ld..%ld, %ld generated)", k, out, out + lo - 1, ov ? 0 : d.output_frames_gen);
		if (ov) { hit = true; continue; } ok = true; if (simple) continue;
		Vec o2; Res q = process_call(twin.p, ch, x.data(), ni, no, r, 0, &o2); CHECK(q.used == d.input_frames_used && q.gen == d.output_frames_gen && (o2.empty() || memcmp(o2.data(), &arena[out], o2.size() * 4) == 0), "effect", "rejected overlaps changed the stream");
	}
	if (adj) s.label("adjacent"); if (hit && ok) s.nontrivial(); if (hit) s.label("overlap");
}

// ---- P21: the callback gets its data through, in order, once, whatever the block sizes and ratio steps
void p21_feed(Src &s)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(5) ? 128 : 8); bool sinc = is_sinc(conv), wide = !sinc || s.chance(40); double rlo = wide ? 0.02 : 1, r = gen_ratio(s, rlo, 12); bool steps = s.chance(60);
	long N = s.loglen(1, (long)std::min(wide && sinc ? 255. * half_frames(conv, 1) : 40000., 8e5 / (sinc ? 2 * half_frames(conv, 1) * ch * 3 : 12 * ch))); Sig g = gen_sig(s); if (g.kind < 2) g.kind = 4; Vec x = make_sig(g, N, ch);
	CbFeed fd; fd.sig = &x; fd.ch = ch; fd.pl = gen_plan(s, N, 1); fd.null_at_end = s.chance(30); int e = -1; State cb(src_callback_new(feed_cb, conv, ch, &e, &fd), ch); CHECK(cb.p && e == 0, "new", "src_callback_new gave error %d", e); State tw = make_state(conv, ch);
	s.note("%s channels=%d frames=%ld signal=%s/%llu blocks [%s]", conv_name(conv), ch, N, sig_name(g), (unsigned long long)g.seed, plan_text(fd.pl).c_str()); s.label(conv_name(conv));
	long used = 0, gen = 0, reads = 0, nsteps = 0; ld pos = 0, eps = 1e-9L; double rmin = r;
	for (;; reads++) {
		if (steps && used < N && s.chance(30)) { r = gen_ratio(s, rlo, 12); src_set_ratio(cb.p, r); src_set_ratio(tw.p, r); nsteps++; s.note("set_ratio %.9g", r); rmin = std::min(rmin, r); }
		if (s.chance(5)) { State c(src_clone(cb.p, 0), ch); CHECK(c.p, "new", "no clone"); std::swap(c.p, cb.p); s.note("continued with a clone"); s.label("clone"); }
		long no = s.loglen(1, (long)(N * r / 3) + 40); if (reads > 300) no = (long)(N * r) + 100;
		Vec a((size_t)no * ch, sentinel()), b; long c0 = fd.calls, zero0 = fd.zero_calls; fd.reading = true; fd.room_last = &a[(size_t)no * ch - 1]; long n = src_callback_read(cb.p, r, no, a.data()); fd.room_last = 0; CHECK(n >= 0 && n <= no, "accounting", "returned %ld for %ld", n, no); CHECK(src_error(cb.p) == 0, "error", "src_error %d", src_error(cb.p));
		Res q = process_call(tw.p, ch, x.data() + used * ch, N - used, no, r, 1, &b); CHECK(q.err == 0, "error", "%d", q.err); used += q.used; long got = q.gen; int guard = 0;
		while (got < no && (q.used > 0 || q.gen > 0)) { q = process_call(tw.p, ch, x.data() + used * ch, N - used, no - got, r, 1, &b); used += q.used; got += q.gen; CHECK(guard++ < 1000, "stall", "twin"); }
		s.note("read %ld -> %ld", no, n);
		long dn = labs(n - got); bool last = n < no || got < no; bool nearend = !sinc && last && (conv == ZOH || !exact_step(1 / r));
		CHECK(dn == 0 || (nearend && dn == 1), "count", "read %ld of %ld frames returned %ld, the same stream through src_process %ld", reads, no, n, got);
		for (long k = 0; k < std::min(n, got); k++) { for (int c = 0; c < ch; c++) { float u = b[k * ch + c], v = a[k * ch + c]; if (biteq(u, v) || u == v) continue; ld d = fabsl(pos - roundl(pos)); double tol = 1.5e-7 * std::fabs(u) + 1e-45; bool okk;
				if (conv == ZOH) okk = d < eps; else if (conv == LIN) { long p = (long)pos; double sl = 0; for (long i = p - 2; i <= p + 1; i++) if (i >= 0 && i < N) sl += std::fabs(x[i * ch + c]); okk = std::fabs((double)u - v) <= tol + sl * 1e-8; } else okk = std::fabs((double)u - v) <= 1e-6 * std::fabs(u) + 1e-44;
				CHECK(okk, "value", "read %ld frame %ld channel %d is %.9g, through src_process %.9g", reads, k, c, v, u); } pos += 1 / (ld)r; eps += 1e-13L; }
		for (long k = n * ch; k < no * ch; k++) CHECK(is_sentinel(a[k]), "overrun", "sample %ld written, %ld frames returned", k, n);
		gen += n;
		// data is asked for only when it is needed
		double ahead = (double)(fd.pos - pos), lim = (sinc ? half_frames(conv, rmin) + 6 : 3) + 1 / rmin + fd.nmax + (sinc ? 3 * 256 * half_frames(conv, 1) : 0);
		CHECK(ahead <= lim, "greedy", "%ld frames asked for at input position %.3Lf", fd.pos, pos);
		if (n < no) { CHECK(fd.zero_calls > 0, "short-read", "%ld of %ld frames before the end", n, no); break; }
		CHECK(zero0 == 0 || reads < 100000, "endless", "no end"); (void)c0;
	}
	CHECK(fd.pos == N, "unused", "the callback was asked for %ld of %ld frames", fd.pos, N);
	if (nsteps) s.label("ratio steps"); if (fd.calls > 3 && reads >= 2) s.nontrivial();
}

// the same with ratios that change by ramps: the position in the signal, which is the value of the samples, never jumps
void p21_ramp(Src &s)
{	int conv = gen_conv(s), ch = gen_channels(s, conv, 8); bool sinc = is_sinc(conv); double lo = sinc ? 1 : 0.05, r = gen_ratio(s, lo, 8); long N = s.loglen(20, sinc ? 3000 : 12000); Vec x((size_t)N * ch); for (long i = 0; i < N; i++) for (int c = 0; c < ch; c++) x[i * ch + c] = (float)(i * (c + 1));
	CbFeed fd; fd.sig = &x; fd.ch = ch; fd.pl = gen_plan(s, N, 1); fd.null_at_end = s.chance(30); State cb(src_callback_new(feed_cb, conv, ch, 0, &fd), ch); CHECK(cb.p, "new", "no state"); s.note("ramps, %s channels=%d frames=%ld blocks [%s]", conv_name(conv), ch, N, plan_text(fd.pl).c_str()); s.label(conv_name(conv)); s.label("ramps");
	long gen = 0, reads = 0, ramps = 0; ld smin = 0, smax = 0; double last = r, m = half_frames(conv, 1) + 3; Vec prev(ch); bool have = false; double bmin = r, bmax = r, pmin = r, pmax = r; bool pinned = true;
	for (;; reads++) {
		bool change = s.chance(40); double t = change ? s.chance(50) ? gen_ratio(s, lo, 8) : std::max(lo, r * (0.5 + s.unit())) : r; if (t > 8) t = 8; if (change && s.chance(25)) { src_set_ratio(cb.p, t); bmin = bmax = t; pinned = true; } if (t != r) pinned = false;
		bmin = std::min(bmin, t); bmax = std::max(bmax, t); r = t; long no = s.loglen(1, (long)(N * r / 3) + 40); if (reads > 100) no = (long)(N * 8) + 100; Vec o((size_t)no * ch, sentinel()); fd.reading = true; fd.room_last = &o[(size_t)no * ch - 1]; long n = src_callback_read(cb.p, r, no, o.data()); fd.room_last = 0; s.note("read %ld at %.9g -> %ld", no, r, n); CHECK(n >= 0 && n <= no && src_error(cb.p) == 0, "accounting", "returned %ld for %ld, src_error %d", n, no, src_error(cb.p)); ramps += bmin < bmax;
		for (long k = 0; k < n; k++) {
			double d1 = 1 / (k ? bmax : pmax), d2 = 1 / (k ? bmin : pmin); // the step to this frame
			for (int c = 0; c < ch; c++) { double v = o[k * ch + c] / (double)(c + 1); if (have) { double p = prev[c], d = v - p; bool in = sinc ? smin > m && smax < N - m : true; double tol = sinc ? 0.2 + 2e-3 * std::fabs(v) : 1e-5 * (1 + v); if (in) CHECK(d <= (conv == ZOH ? std::ceil(d2 + 1e-6) : d2) + tol && (d >= (conv == ZOH ? std::floor(d1 - 1e-6) : d1) - tol || (!sinc && p < 3)), "jump", "frame %ld of the read, channel %d: the position went from %.6f to %.6f, the ratios are %.9g to %.9g", k, c, p, v, 1 / d2, 1 / d1); } prev[c] = (float)v; }
			have = true; smin += 1 / bmax; smax += 1 / bmin; }
		pmin = bmin; pmax = bmax; gen += n; if (n < no) { CHECK(fd.zero_calls > 0, "short-read", "%ld of %ld frames before the end", n, no); break; }
		last = r; if (pinned) bmin = bmax = r; (void)last; if (s.chance(50)) { src_set_ratio(cb.p, r); bmin = bmax = r; pinned = true; }
	}
	CHECK(fd.pos == N, "unused", "the callback was asked for %ld of %ld frames", fd.pos, N); CHECK(N >= smin - 2 - 1 / lo && N <= smax + 2 + 1 / lo, "length", "%ld frames for %ld, from %.2Lf to %.2Lf expected to be covered", gen, N, smin, smax);
	if (ramps && fd.calls > 2 && gen > 10) s.nontrivial();
}

// ---- P22: modes do not mix, callback errors are reported, nothing hangs
void p22_mode(Src &s)
{	int conv = gen_conv(s), ch = (int)s.range(1, 6); double r = gen_ratio(s, 0.05, 20); s.note("%s channels=%d r=%.9g", conv_name(conv), ch, r); s.label(conv_name(conv));
	Vec x = make_sig(Sig{4, s.below(1000), 1}, s.loglen(1, 4000 / ch), ch); long N = (long)x.size() / ch;
	if (s.chance(35)) { // a callback which reports the end and later has data again
		struct B { float *d; long blk, k, end, n, ch; } b{x.data(), std::max(1L, N / (1 + (long)s.below(10))), 0, s.range(0, 6), N, ch}; int again = (int)s.range(1, 4); b.end += 0; s.note("data after the end, block %ld", b.blk); s.label("data after the end");
		auto f = [](void *u, float **d) -> long { B &q = *(B *)u; q.k++; if (q.k > 200000) fail_now("callback-loop", "the callback was called %ld times", q.k); if (q.k == q.end + 1) return 0; *d = q.d; return q.blk; };
		State st(src_callback_new(f, conv, ch, 0, &b), ch); CHECK(st.p, "new", "no state"); long tot = 0;
		for (int i = 0; i < 6 + again; i++) { long no = s.loglen(1, 2000); Vec o((size_t)no * ch, sentinel()); long n = src_callback_read(st.p, r, no, o.data()); CHECK(n >= 0 && n <= no, "accounting", "returned %ld of %ld", n, no); tot += n; if (n < no && src_error(st.p)) { CHECK(src_strerror(src_error(st.p)), "text", "no text for error %d", src_error(st.p)); } for (long k = n * ch; k < no * ch && n > 0; k++) CHECK(is_sentinel(o[k]), "overrun", "sample %ld written, %ld frames returned", k, n); }
		CHECK(src_reset(st.p) == 0 && src_error(st.p) == 0, "reset", "error %d after src_reset", src_error(st.p)); b.k = 100; Vec o(64 * ch); long n = src_callback_read(st.p, 1.0, 64, o.data()); CHECK(n == 64 && src_error(st.p) == 0, "reset", "%ld of 64 frames after src_reset, error %d", n, src_error(st.p));
		s.nontrivial(); return;
	}
	if (s.chance(25)) { // reads into the supplied data itself are refused, and nothing else happens
		struct A { float *d; long n, ch, blk, pos; } a{0, N, ch, s.loglen(1, N), 0}, b; Vec y = x; a.d = x.data(); b = a; b.d = y.data(); s.note("reads into the data of the callback, block %ld", a.blk); s.label("read into the callback data"); auto f = [](void *u, float **d) -> long { A &q = *(A *)u; long n = std::min(q.blk, q.n - q.pos); *d = q.d + q.pos * q.ch; q.pos += n; return n; };
		State st(src_callback_new(f, conv, ch, 0, &a), ch), tw(src_callback_new(f, conv, ch, 0, &b), ch); CHECK(st.p && tw.p, "new", "no state"); int m = (int)s.loglen(1, 12); long g = 0; int hit = 0; double rr = r; bool clean = true;
		for (int i = 0; i < m; i++) {
			if (s.chance(40)) { // the whole arena as output room: overlaps whatever block is pending or comes next
				if (a.pos < N) { long n = src_callback_read(st.p, s.chance(50) ? gen_ratio(s, 0.05, 20) : rr, N, x.data()); int e = src_error(st.p); CHECK(n == 0 && e == E_OVERLAP, "overlap", "src_callback_read into the data of the callback returned %ld, src_error %d", n, e); CHECK(x == y, "written", "a refused read wrote to its buffer"); hit++; s.note("overlap"); }
				SRC_DATA d; memset(&d, 0, sizeof d); float z[40] = {0}; d.data_in = z; d.src_ratio = 1; int e = src_process(st.p, &d); CHECK(e == E_BAD_MODE, "mode", "src_process in callback mode returned %d", e);
				if (s.chance(20)) { src_reset(st.p); src_reset(tw.p); a.pos = b.pos = 0; CHECK(src_error(st.p) == 0, "reset", "error %d after src_reset", src_error(st.p)); s.note("reset"); clean = true; }
			} else { long no = s.loglen(1, 400); Vec u((size_t)no * ch, sentinel()), v = u; if (s.chance(20)) rr = gen_ratio(s, 0.05, 20); long p = src_callback_read(st.p, rr, no, u.data()), q = src_callback_read(tw.p, rr, no, v.data()); CHECK(p == q && !memcmp(u.data(), v.data(), u.size() * 4), "effect", "after refused reads src_callback_read gave %ld frames, %ld expected, or other samples", p, q); g += p; s.note("read %ld -> %ld", no, p); }
		}
		(void)clean; if (hit && g) s.nontrivial(); return;
	}
	CbFeed fd, f2; fd.sig = f2.sig = &x; fd.ch = f2.ch = ch; fd.pl = f2.pl = gen_plan(s, N, 1); State cb(src_callback_new(feed_cb, conv, ch, 0, &fd), ch), cb2(src_callback_new(feed_cb, conv, ch, 0, &f2), ch), pr = make_state(conv, ch), pr2 = make_state(conv, ch); CHECK(cb.p && cb2.p, "new", "no state"); int n = (int)s.loglen(1, 20), bad = 0; long g = 0;
	for (int i = 0; i < n; i++) {
		Vec o(50 * ch, sentinel()), o2(50 * ch, sentinel()); long c0 = fd.calls; bool untouched = true;
		switch (s.below(8)) {
		case 0: { SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.input_frames = N; d.data_out = o.data(); d.output_frames = 50; d.src_ratio = r; int e = src_process(cb.p, &d); CHECK(e == E_BAD_MODE, "mode", "src_process in callback mode returned %d", e); s.note("process on callback state"); bad++; break; }
		case 1: { long k = src_callback_read(pr.p, r, 50, o.data()); CHECK(k == 0 && src_error(pr.p) == E_BAD_MODE, "mode", "src_callback_read in process mode returned %ld, src_error %d", k, src_error(pr.p)); s.note("read on process state"); bad++; break; }
		case 2: { int e0 = src_error(cb.p); long k = src_callback_read(cb.p, s.chance(70) ? r : 0.0, s.pick({0L, -1L, -1000000000000L, (long)(-9223372036854775807L - 1)}), o.data()); CHECK(k == 0 && src_error(cb.p) == e0, "frames", "src_callback_read of no frames returned %ld and changed the error from %d to %d", k, e0, src_error(cb.p)); s.note("read of no frames"); bad++; break; }
		case 3: { double q = s.pick({0.0, 257.0, -1.0, (double)NAN, 1 / 257.0}); long k = src_callback_read(cb.p, q, 50, o.data()); CHECK(k == 0 && src_error(cb.p) == E_RATIO, "ratio", "src_callback_read with ratio %g returned %ld, src_error %d", q, k, src_error(cb.p)); s.note("read with ratio %g", q); bad++; break; }
		case 4: { Vec y = make_sig(Sig{4, (u64)i, 1}, 30, ch), u, v; Res p = process_call(pr.p, ch, y.data(), 30, 40, r, 0, &u), q = process_call(pr2.p, ch, y.data(), 30, 40, r, 0, &v); CHECK(p.err == 0 && q.err == 0 && p.used == q.used && p.gen == q.gen && (u.empty() || memcmp(u.data(), v.data(), u.size() * 4) == 0), "effect", "a rejected src_callback_read changed the stream"); s.note("process"); break; }
		default: { long no = s.range(1, 50); long a = src_callback_read(cb.p, r, no, o.data()), b = src_callback_read(cb2.p, r, no, o2.data()); CHECK(a == b && memcmp(o.data(), o2.data(), o.size() * 4) == 0, "effect", "after rejected calls src_callback_read gave %ld frames, %ld expected, or other samples", a, b); g += a; untouched = false; s.note("read %ld", no); }
		}
		if (untouched) { for (float f : o) CHECK(is_sentinel(f), "written", "a rejected call wrote output"); CHECK(fd.calls == c0, "called", "a rejected call invoked the callback"); }
	}
	if (bad && g) s.nontrivial();
}

// ---- P24: names and texts
void p24_names(Src &s)
{	int n = (int)s.range(1, 12); bool in = false, out = false;
	for (int i = 0; i < n; i++) {
		int k; switch (s.weighted({5, 3, 2, 2})) { case 0: k = (int)s.range(0, 4); break; case 1: k = (int)s.range(0, 12) - 4; break; case 2: k = (int)s.range(5, 100000); break; default: k = (int)(int32_t)s.below(1ull << 32); }
		const char *a = src_get_name(k), *d = src_get_description(k); int e = -3; SRC_STATE *st = src_new(k, 1, &e); bool have = st != 0; src_delete(st); s.note("converter %d: %s", k, a ? a : "-");
		CHECK(!a == !d, "names", "converter %d has %s name and %s description", k, a ? "a" : "no", d ? "a" : "no"); CHECK(have == (e == 0), "new", "src_new gave error %d", e);
		if (have) { CHECK(a && *a && *d, "names", "converter %d works but has no name", k); in = true; } if (!a) { CHECK(!have && e == E_BAD_CONV, "names", "converter %d has no name, src_new gave error %d", k, e); out = true; }
		CHECK((a != 0) == (k >= 0 && k <= 4), "names", "name of converter %d is %s", k, a ? a : "NULL");
		if (k >= 1 && k <= 4) CHECK(have, "new", "converter %d is not available", k);
		if (a) { CHECK(a == src_get_name(k) || !strcmp(a, src_get_name(k)), "names", "the name of %d changes", k); for (int o = 0; o <= 4; o++) if (o != k) { const char *b = src_get_name(o); CHECK(b && strcmp(a, b), "names", "converters %d and %d have the same name", k, o); CHECK(strcmp(d, src_get_description(o)), "names", "converters %d and %d have the same description", k, o); }
			static const char *kw[] = {"best", "medium", "fastest", "zero order hold", "linear"}; std::string l = std::string(a) + " " + d; for (auto &c : l) c = (char)tolower(c); CHECK(l.find(kw[k]) != std::string::npos, "names", "converter %d is called %s, %s", k, a, d); }
		int m = (int)s.range(0, 60) - 15; if (s.chance(10)) m = (int)(int32_t)s.below(1ull << 32); const char *t = src_strerror(m); CHECK((m >= 0 && m <= 23) ? t != 0 && *t : t == 0, "text", "src_strerror (%d) is %s", m, t ? t : "NULL");
		if (t) { for (int o = 0; o <= 23; o++) if (o != m) CHECK(strcmp(t, src_strerror(o)), "text", "errors %d and %d have the same text", m, o); }
		static const struct { int e; const char *w; } known[] = {{0, "No error"}, {1, "Malloc"}, {2, "SRC_STATE pointer is NULL"}, {3, "SRC_DATA pointer is NULL"}, {4, "data_out or SRC_DATA->data_in is NULL"}, {6, "ratio"}, {10, "converter"}, {11, "Channel count"}, {16, "overlap"}, {17, "callback"}, {18, "mode"}}; for (auto &q : known) if (q.e == m) CHECK(strstr(t, q.w), "text", "text of error %d is %s", m, t);
	}
	const char *v = src_get_version(); CHECK(v && strstr(v, "samplerate-") && v == src_get_version(), "version", "version is %s", v ? v : "NULL");
	if (in && out) s.nontrivial();
}

// ---- P26: converters do not influence each other
struct Job { int conv, ch; std::vector<Op> v; std::vector<Rec> want; };
static std::vector<Job> gen_jobs(Src &s, double budget, int most)
{	std::vector<Job> j((size_t)s.range(2, most)); for (auto &q : j) { q.conv = gen_conv(s); q.ch = gen_channels(s, q.conv, 8); q.v = gen_script(s, q.conv, q.ch, 8, budget); State st = make_state(q.conv, q.ch); for (auto &o : q.v) q.want.push_back(apply(st.p, q.ch, o)); s.note("%s channels=%d calls=%zu", conv_name(q.conv), q.ch, q.v.size()); s.label(conv_name(q.conv)); } return j; }
// a chain of callback converters: the callback of one reads from the next, and uses others besides
struct Link { SRC_STATE *src; double r; long blk; int ch; bool end; Vec buf; std::vector<Vec> *log; const std::vector<Vec> *give; size_t at; SRC_STATE *other; Src *s; std::vector<Rec> *orec; const std::vector<Op> *oops; size_t oat; int conv; };
static long link_cb(void *u, float **d)
{	Link &l = *(Link *)u; long n;
	if (l.give) { if (l.at >= l.give->size()) return 0; l.buf = (*l.give)[l.at++]; *d = l.buf.data(); return (long)l.buf.size() / l.ch; }
	if (l.other && l.oat < l.oops->size()) { l.orec->push_back(apply(l.other, l.ch, (*l.oops)[l.oat++])); if (l.oat % 3 == 1) { float t[6] = {1, 2, 3}; SRC_DATA q; memset(&q, 0, sizeof q); q.data_in = t; q.input_frames = 2; q.data_out = t + 3; q.output_frames = 2; q.src_ratio = 1.5; src_simple(&q, l.conv, 1); SRC_STATE *c = src_clone(l.other, 0); src_reset(c); src_delete(c); } }
	l.buf.assign((size_t)l.blk * l.ch, 0); tick(); n = src_callback_read(l.src, l.r, l.blk, l.buf.data()); l.buf.resize((size_t)std::max(0L, n) * l.ch); l.log->push_back(l.buf); *d = l.buf.data(); return n;
}
static void chain(Src &s)
{	int ch = gen_channels(s, LIN, 6), c1 = gen_conv(s), c2 = s.chance(50) ? c1 : gen_conv(s), c3 = gen_conv(s); double r1 = gen_ratio(s, 0.2, 6), r2 = gen_ratio(s, 0.2, 6); Vec x = make_sig(gen_sig(s), gen_frames(s, std::min(c1, c2), ch, r1 * r2 + 1, 3e5), ch); Plan pl = gen_plan(s, (long)x.size() / ch, 1); auto ops = gen_script(s, c3, ch, 8, 3e5); std::vector<Rec> orec; bool other = s.chance(60);
	s.note("chain: %s by %.9g, then %s by %.9g, channels=%d frames=%ld", conv_name(c1), r1, conv_name(c2), r2, ch, (long)x.size() / ch); s.label("chain of callbacks"); if (other) { s.label("others used inside a callback"); note_script(s, "inside", ops); }
	CbFeed fd; fd.sig = &x; fd.ch = ch; fd.pl = pl; State a(src_callback_new(feed_cb, c1, ch, 0, &fd), ch), o = make_state(c3, ch); std::vector<Vec> blocks; Link l{a.p, r1, s.loglen(1, 2000 / ch + 2), ch, false, {}, &blocks, 0, 0, other ? o.p : 0, &s, &orec, &ops, 0, c3}; State b(src_callback_new(link_cb, c2, ch, 0, &l), ch); CHECK(a.p && b.p, "new", "no state");
	std::vector<Vec> outs; long room = s.loglen(1, 3000 / ch + 2), total = 0; int ends = 0; for (long i = 0; i < 3000 && ends < 2; i++) { Vec q((size_t)room * ch); tick(); long n = src_callback_read(b.p, r2, room, q.data()); CHECK(n >= 0 && n <= room, "accounting", "src_callback_read returned %ld", n); q.resize((size_t)n * ch); outs.push_back(q); total += n; ends += n < room; if (total * ch > 200000) break; }
	// the same reads again, each converter alone
	CbFeed f2; f2.sig = &x; f2.ch = ch; f2.pl = pl; State a2(src_callback_new(feed_cb, c1, ch, 0, &f2), ch), o2 = make_state(c3, ch); for (size_t i = 0; i < blocks.size(); i++) { Vec q((size_t)l.blk * ch); tick(); long n = src_callback_read(a2.p, r1, l.blk, q.data()); q.resize((size_t)n * ch); Rec w{0, 0, 0, n, q}, g{0, 0, 0, (long)blocks[i].size() / ch, blocks[i]}; same_rec("isolation", "read inside the callback of another converter", i, w, g); }
	Link m = l; m.give = &blocks; m.at = 0; State b2(src_callback_new(link_cb, c2, ch, 0, &m), ch); for (size_t i = 0; i < outs.size(); i++) { Vec q((size_t)room * ch); tick(); long n = src_callback_read(b2.p, r2, room, q.data()); q.resize((size_t)std::max(0L, n) * ch); Rec w{0, 0, 0, n, q}, g{0, 0, 0, (long)outs[i].size() / ch, outs[i]}; same_rec("isolation", "read whose callback uses other converters", i, w, g); }
	for (size_t i = 0; i < orec.size(); i++) same_rec("isolation", "call inside the callback of another converter", i, apply(o2.p, ch, ops[i]), orec[i]);
	if (blocks.size() > 2 && total > 2) s.nontrivial();
}
// many converters alive at once, born and deleted in random order, each with one of a few jobs
static void crowd(Src &s)
{	auto j = gen_jobs(s, 3e4, 4); long m = s.loglen(6, 600), live = 0, most = 0, steps = 0, g = 0; std::vector<State> st((size_t)m); std::vector<size_t> job((size_t)m), at((size_t)m); Rng rng{s.below(1u << 20) + 1}; s.note("up to %ld converters alive at once", m); s.label("many converters");
	while (steps < m * 6 && g < 400000) { size_t k = rng.next() % (u64)m; steps++;
		if (!st[k].p) { job[k] = rng.next() % j.size(); at[k] = 0; st[k] = make_state(j[job[k]].conv, j[job[k]].ch); most = std::max(most, ++live); continue; }
		auto &q = j[job[k]]; if (at[k] == q.v.size() || rng.next() % 40 == 0) { st[k] = State(); live--; continue; }
		Rec r = apply(st[k].p, q.ch, q.v[at[k]]); same_rec("isolation", "among many other converters", at[k], q.want[at[k]], r); at[k]++; g += r.gen; }
	s.note("%ld at most", most); if (most > 5 && g > 2) s.nontrivial();
}
void p26_isolation(Src &s)
{	if (s.chance(25)) { chain(s); return; }
	if (s.below(60) == 50) { crowd(s); return; }
	auto j = gen_jobs(s, 1e6, 5); std::vector<State> st; std::vector<size_t> at(j.size(), 0); for (auto &q : j) st.push_back(make_state(q.conv, q.ch)); size_t left = 0; for (auto &q : j) left += q.v.size(); long sw = 0; size_t lastj = 99; long g = 0;
	while (left) { size_t k = s.below(j.size()); while (at[k] >= j[k].v.size()) k = (k + 1) % j.size(); Rec r = apply(st[k].p, j[k].ch, j[k].v[at[k]]); same_rec("isolation", "interleaved with other converters", at[k], j[k].want[at[k]], r); g += r.gen; at[k]++; left--; sw += k != lastj; lastj = k; if (s.chance(10)) { State junk = make_state(j[k].conv, 1 + (int)s.below(3)); } }
	if (sw > 2 && g > 2) s.nontrivial();
}
// threads that use clones of one converter, or the callback and simple interfaces
static void family(Src &s)
{	int n = (int)s.range(2, 4), kind = s.weighted({5, 3, 2}); std::vector<std::function<std::vector<Rec>()>> task; std::vector<std::vector<Rec>> want; std::vector<State> made; long g = 0;
	if (kind == 0) {
		int conv = gen_conv(s), ch = gen_channels(s, conv, 8); auto h = gen_script(s, conv, ch, 5, 2e5); State p = make_state(conv, ch); for (auto &o : h) apply(p.p, ch, o); s.note("%d threads with clones of one converter, %s channels=%d", n, conv_name(conv), ch); note_script(s, "before", h); s.label("clones of one converter"); s.label(conv_name(conv));
		std::vector<std::vector<Op>> ops; for (int k = 0; k < n; k++) ops.push_back(gen_script(s, conv, ch, 5, 2e5));
		for (int round = 0; round < 2; round++) for (int k = 0; k < n; k++) { SRC_STATE *q = src_clone(k == 1 && !made.empty() ? made.back().p : p.p, 0); CHECK(q, "clone", "no clone"); if (round) made.emplace_back(q, ch); else { State c(q, ch); std::vector<Rec> w; for (auto &o : ops[k]) w.push_back(apply(c.p, ch, o)); want.push_back(w); } }
		made.push_back(std::move(p)); // the original dies in a thread of its own
		for (int k = 0; k < n; k++) { SRC_STATE **q = &made[k].p; auto v = ops[k]; task.push_back([=] { std::vector<Rec> w; for (auto &o : v) w.push_back(apply(*q, ch, o)); SRC_STATE *c = src_clone(*q, 0); src_reset(*q); src_delete(*q); src_delete(c); *q = 0; return w; }); }
		task.push_back([&made] { src_delete(made.back().p); made.back().p = 0; return std::vector<Rec>(); }); want.push_back({});
	} else for (int k = 0; k < n; k++) {
		int conv = gen_conv(s), ch = gen_channels(s, conv, 8); double r = gen_ratio(s, 0.1, 8); auto x = std::make_shared<Vec>(make_sig(gen_sig(s), gen_frames(s, conv, ch, r, 1e5), ch)); Plan pl = gen_plan(s, (long)x->size() / ch, 1), op = gen_plan(s, (long)x->size() / ch, r); s.note("%s thread: %s channels=%d ratio=%.9g frames=%ld", kind == 1 ? "callback" : "simple", conv_name(conv), ch, r, (long)x->size() / ch); s.label(kind == 1 ? "callback threads" : "simple threads"); s.label(conv_name(conv));
		task.push_back([=] { if (kind == 2) { Run q = run_simple(conv, ch, *x, r); return std::vector<Rec>{Rec{0, 0, q.used, q.gen, q.out}}; } CbFeed fd; fd.sig = x.get(); fd.ch = ch; fd.pl = pl; State st(src_callback_new(feed_cb, conv, ch, 0, &fd), ch); Run q = run_callback(st.p, fd, conv, r, op); return std::vector<Rec>{Rec{0, 0, q.used, q.gen, q.out}}; }); want.push_back(task.back()());
	}
	std::vector<std::string> bad(task.size()); std::vector<std::thread> t; for (size_t k = 0; k < task.size(); k++) t.emplace_back([&, k] { try { auto got = task[k](); for (size_t i = 0; i < got.size(); i++) same_rec("threads", "in a thread", i, want[k][i], got[i]); } catch (Fail &f) { bad[k] = f.msg; } });
	for (auto &x : t) x.join(); for (auto &b : bad) if (!b.empty()) fail("threads", "%s", b.c_str()); for (auto &w : want) for (auto &q : w) g += q.gen; if (g > 2) s.nontrivial();
}
void p26_threads(Src &s)
{	if (s.chance(40)) { family(s); return; }
	auto j = gen_jobs(s, 3e5, 5); std::vector<std::string> bad(j.size()); std::vector<std::thread> t; long g = 0; bool names = s.chance(50);
	for (size_t k = 0; k < j.size(); k++) t.emplace_back([&, k] { try { State st = make_state(j[k].conv, j[k].ch); for (size_t i = 0; i < j[k].v.size(); i++) { Rec r = apply(st.p, j[k].ch, j[k].v[i]); same_rec("threads", "in a thread", i, j[k].want[i], r); if (names) { src_get_name((int)i); src_strerror((int)i); src_is_valid_ratio(1.0); short sh[8] = {1, -2, 3}; float f[8]; int in[8]; src_short_to_float_array(sh, f, 8); src_float_to_int_array(f, in, 8); } } State c(src_clone(st.p, 0), j[k].ch); src_reset(st.p); } catch (Fail &f) { bad[k] = f.msg; } });
	for (auto &x : t) x.join(); for (auto &b : bad) if (!b.empty()) fail("threads", "%s", b.c_str());
	for (auto &q : j) for (auto &r : q.want) g += r.gen; if (g > 2) s.nontrivial();
}
void p26_fill(Src &s)
{	CHECK(alloc_ctl.active, "setup", "allocator wrapping is not active"); int conv = gen_conv(s), ch = gen_channels(s, conv, 8); auto v = gen_script(s, conv, ch, 8, 1e6); std::vector<Rec> want; s.note("%s channels=%d", conv_name(conv), ch); note_script(s, "calls", v); s.label(conv_name(conv)); size_t cl = s.below(v.size() + 1); long g = 0;
	for (int fill = 0; fill < 4; fill++) { alloc_ctl.fill = fill == 0 ? 0 : fill == 1 ? 2 : fill == 2 ? 3 : 9; State st = make_state(conv, ch); for (size_t i = 0; i < v.size(); i++) { if (i == cl) { State c(src_clone(st.p, 0), ch); std::swap(c.p, st.p); } Rec r = apply(st.p, ch, v[i]); if (fill == 0) { want.push_back(r); g += r.gen; } else same_rec("fill", "with other bytes in fresh memory", i, want[i], r); } }
	alloc_ctl.fill = 0; if (g > 2) s.nontrivial();
}
