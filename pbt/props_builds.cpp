// P30: the same calls on the library as built by other compilers and options
#include "common.hpp"
#include "props.hpp"
#include <dlfcn.h>
#include <climits>

struct Api {
	decltype(&src_new) nw; decltype(&src_clone) clone; decltype(&src_callback_new) cbnew; decltype(&src_delete) del; decltype(&src_process) process; decltype(&src_callback_read) cbread; decltype(&src_simple) simple;
	decltype(&src_get_name) name; decltype(&src_get_description) desc; decltype(&src_get_version) version; decltype(&src_set_ratio) set; decltype(&src_get_channels) channels; decltype(&src_reset) reset; decltype(&src_is_valid_ratio) valid; decltype(&src_error) error; decltype(&src_strerror) strerr;
	decltype(&src_short_to_float_array) s2f; decltype(&src_float_to_short_array) f2s; decltype(&src_int_to_float_array) i2f; decltype(&src_float_to_int_array) f2i; std::string what;
};
static const std::vector<Api> &apis()
{	static std::vector<Api> v;
	if (v.empty()) {
		v.push_back({src_new, src_clone, src_callback_new, src_delete, src_process, src_callback_read, src_simple, src_get_name, src_get_description, src_get_version, src_set_ratio, src_get_channels, src_reset, src_is_valid_ratio, src_error, src_strerror, src_short_to_float_array, src_float_to_short_array, src_int_to_float_array, src_float_to_int_array, "static gcc -O2"});
		const char *e = getenv("PBT_ALT"); std::string s = e ? e : "";
		for (size_t p = 0; p < s.size();) { // what=path:what=path
			size_t q = s.find(':', p); if (q == std::string::npos) q = s.size(); std::string one = s.substr(p, q - p); p = q + 1; size_t eq = one.find('='); Api a; a.what = one.substr(0, eq);
			void *h = dlopen(one.c_str() + eq + 1, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
			auto get = [&](auto &f, const char *n) { f = (std::remove_reference_t<decltype(f)>)dlsym(h, n); if (!f) fail("exports", "the shared library (%s) does not export %s", a.what.c_str(), n); };
			get(a.nw, "src_new"); get(a.clone, "src_clone"); get(a.cbnew, "src_callback_new"); get(a.del, "src_delete"); get(a.process, "src_process"); get(a.cbread, "src_callback_read"); get(a.simple, "src_simple"); get(a.name, "src_get_name"); get(a.desc, "src_get_description"); get(a.version, "src_get_version"); get(a.set, "src_set_ratio"); get(a.channels, "src_get_channels"); get(a.reset, "src_reset"); get(a.valid, "src_is_valid_ratio"); get(a.error, "src_error"); get(a.strerr, "src_strerror"); get(a.s2f, "src_short_to_float_array"); get(a.f2s, "src_float_to_short_array"); get(a.i2f, "src_int_to_float_array"); get(a.f2i, "src_float_to_int_array");
			v.push_back(a);
		}
		if (v.size() < 2) { fprintf(stderr, "no other builds given\n"); exit(2); }
	}
	return v;
}
static bool seq(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
struct Feed { const Vec *x; int ch; long pos, blk, calls; };
static long give(void *u, float **d)
{	Feed &f = *(Feed *)u; f.calls++; long n = std::min(f.blk, (long)f.x->size() / f.ch - f.pos); if (n <= 0) return 0; *d = const_cast<float *>(f.x->data() + f.pos * f.ch); f.pos += n; return n; }

struct Step { int kind; long ni, no; double r; int eoi; Sig sig; bool null_in; };
struct Rep { long a = 0, b = 0, c = 0, d = 0; Vec out; };
static void same(const Rep &w, const Rep &g, const char *step, size_t i, const char *build)
{	CHECK(w.a == g.a && w.b == g.b && w.c == g.c && w.d == g.d, "differs", "step %zu (%s): %ld %ld %ld %ld in the default build, %ld %ld %ld %ld in %s", i, step, w.a, w.b, w.c, w.d, g.a, g.b, g.c, g.d, build);
	for (size_t k = 0; k < w.out.size(); k++) CHECK(biteq(w.out[k], g.out[k]) || w.out[k] == g.out[k] || (std::isnan(w.out[k]) && std::isnan(g.out[k]) && is_sentinel(w.out[k]) == is_sentinel(g.out[k])), "differs", "step %zu (%s): sample %zu is %.9g in the default build, %.9g in %s", i, step, k, w.out[k], g.out[k], build); }

void p30_streams(Src &s)
{	auto &v = apis(); int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(14) ? 128 : 8); bool cb = s.chance(25); s.note("%s channels=%d%s", conv_name(conv), ch, cb ? " callback" : ""); s.label(conv_name(conv)); if (cb) s.label("callback"); label_cfg(s, Cfg{conv, ch, 1.5, 1, Sig{4, 1, 1}, Plan{}});
	std::vector<Step> st; int n = (int)s.loglen(1, 12); double r = gen_ratio(s), budget = 1.2e6; Vec x = make_sig(gen_sig(s, true), cb ? gen_frames(s, conv, ch, 3, 4e5) : 0, ch); Feed f0{&x, ch, 0, s.loglen(1, 3000), 0};
	for (int i = 0; i < n && budget > 0; i++) {
		Step o; memset((void *)&o, 0, sizeof o); o.kind = s.weighted({76, 8, 4, 4, 8}); if (s.chance(25)) r = s.chance(60) ? gen_ratio(s, 0.2, 8) : gen_ratio(s); o.r = r; o.sig = gen_sig(s, true);
		double per = (is_sinc(conv) ? 2 * half_frames(conv, std::min(r, 1.0)) : 4) * ch; o.ni = s.weighted({8, 1}) ? 0 : s.loglen(0, std::max(3L, 12000L / ch)); o.no = s.weighted({9, 1}) ? 0 : s.loglen(0, std::max(3L, std::min(8000L / ch, (long)(budget / per)))); o.eoi = s.chance(8); o.null_in = o.ni == 0 && s.chance(30); budget -= per * o.no * 0.5 + o.ni * ch; st.push_back(o);
		static const char *kn[] = {"process", "set_ratio", "reset", "clone", "simple"}; s.note("%s in=%ld out=%ld r=%.9g eoi=%d sig=%s", kn[o.kind], o.ni, o.no, o.r, o.eoi, sig_name(o.sig));
	}
	std::vector<std::vector<Rep>> all; long gen = 0;
	for (auto &a : v) {
		std::vector<Rep> out; Feed f = f0; int e = -1; SRC_STATE *p = cb ? a.cbnew(give, conv, ch, &e, &f) : a.nw(conv, ch, &e); { Rep q; q.a = p != 0; q.b = e; q.c = p ? a.channels(p) : 0; out.push_back(q); }
		for (auto &o : st) { Rep q; if (!p) break; tick();
			if (o.kind == 0 && cb) { q.out.assign((size_t)o.no * ch, sentinel()); q.a = a.cbread(p, o.r, o.no, q.out.data()); q.b = a.error(p); q.c = f.pos; q.d = f.calls; }
			else if (o.kind == 0 || o.kind == 4) { Vec in = make_sig(o.sig, o.ni, ch); q.out.assign((size_t)o.no * ch, sentinel()); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = o.null_in ? 0 : in.data(); d.input_frames = o.ni; d.data_out = q.out.data(); d.output_frames = o.no; d.src_ratio = o.r; d.end_of_input = o.eoi; q.a = o.kind == 4 ? a.simple(&d, conv, ch) : a.process(p, &d); q.b = d.input_frames_used; q.c = d.output_frames_gen; q.d = a.error(p); }
			else if (o.kind == 1) q.a = a.set(p, o.r);
			else if (o.kind == 2) { q.a = a.reset(p); q.b = a.error(p); }
			else { int e2 = -1; SRC_STATE *c = a.clone(p, &e2); q.a = c != 0; q.b = e2; if (c) { a.del(p); p = c; } }
			out.push_back(std::move(q)); }
		if (p) a.del(p); all.push_back(std::move(out));
	}
	static const char *kn[] = {"process", "set_ratio", "reset", "clone", "simple"};
	for (size_t k = 1; k < all.size(); k++) for (size_t i = 0; i < all[0].size(); i++) { CHECK(i < all[k].size(), "differs", "no converter in %s", v[k].what.c_str()); same(all[0][i], all[k][i], i ? kn[st[i - 1].kind] : "new", i, v[k].what.c_str()); }
	for (size_t i = 1; i < all[0].size(); i++) if (st[i - 1].kind == 0) gen += cb ? all[0][i].a : all[0][i].c;
	if (gen > 2) s.nontrivial();
}
void p30_rest(Src &s)
{	auto &v = apis(); int n = (int)s.loglen(1, 60); bool sat = false, inexact = false;
	std::vector<float> f; std::vector<int> iv; std::vector<short> sv;
	for (int i = 0; i < n; i++) { float x; switch (s.weighted({3, 3, 2, 2})) { case 0: x = (float)(2 * s.unit() - 1); break; case 1: { double g = s.chance(50) ? 32768 : 2147483648.0; x = (float)(((double)s.range(-40000, 40000) + s.pick({0.0, 0.5, 0.25, 0.49999})) / g * s.pick({1.0, 1.0, 65536.0})); break; } case 2: { uint32_t u = (uint32_t)s.bits(); memcpy(&x, &u, 4); if (std::isnan(x)) x = 0; break; } default: x = s.pick({1.0f, -1.0f, 0.99999994f, -0.99999994f, 0.0f, -0.0f, 1e-40f, 32767.f / 32768, 32767.5f / 32768, 3e38f, INFINITY, -INFINITY}); } f.push_back(x); sat |= std::fabs(x) >= 1; inexact |= x * 32768 != std::floor(x * 32768); iv.push_back((int)s.bits()); sv.push_back((short)s.bits()); }
	int num = s.chance(80) ? (int)s.range(-3, 40) : (int)s.bits(); double r = s.chance(50) ? gen_ratio(s) : s.pick({256.0, 1 / 256.0, 256.00000000000006, 0.0039062499999999996, 0.0, -1.0, (double)NAN, (double)INFINITY, 1e300, 1e-300}); int cc = s.chance(70) ? (int)s.range(-2, 140) : (int)s.bits(), kind = s.chance(80) ? (int)s.range(-1, 6) : (int)s.bits(); if (kind > 2 && cc > 200) cc = 200;
	s.note("%d values, number %d, ratio %.17g, src_new (%d, %d)", n, num, r, kind, cc);
	std::vector<short> ws; std::vector<int> wi; std::vector<float> wf, wg; int we = 0; bool wp = false;
	for (size_t k = 0; k < v.size(); k++) { auto &a = v[k]; auto &m = v[0]; const char *b = a.what.c_str(); tick();
		std::vector<short> os(n); std::vector<int> oi(n); Vec of(n), og(n); a.f2s(f.data(), os.data(), n); a.f2i(f.data(), oi.data(), n); a.s2f(sv.data(), of.data(), n); a.i2f(iv.data(), og.data(), n);
		int e = -1; SRC_STATE *p = a.nw(kind, cc, &e); bool have = p != 0; if (p) a.del(p);
		if (!k) { ws = os; wi = oi; wf = of; wg = og; we = e; wp = have; continue; }
		for (int i = 0; i < n; i++) { CHECK(os[i] == ws[i], "differs", "%.9g becomes short %d, in %s %d", f[i], ws[i], b, os[i]); CHECK(oi[i] == wi[i], "differs", "%.9g becomes int %d, in %s %d", f[i], wi[i], b, oi[i]); CHECK(biteq(of[i], wf[i]), "differs", "short %d becomes %.9g, in %s %.9g", sv[i], wf[i], b, of[i]); CHECK(biteq(og[i], wg[i]), "differs", "int %d becomes %.9g, in %s %.9g", iv[i], wg[i], b, og[i]); }
		CHECK(seq(a.name(num), m.name(num)) && seq(a.desc(num), m.desc(num)) && seq(a.strerr(num), m.strerr(num)) && seq(a.version(), m.version()), "differs", "the texts for %d differ in %s", num, b);
		CHECK(a.valid(r) == m.valid(r), "differs", "src_is_valid_ratio (%.17g) is %d, in %s %d", r, m.valid(r), b, a.valid(r)); CHECK(have == wp && e == we, "differs", "src_new (%d, %d) gives %s and error %d, in %s %s and %d", kind, cc, wp ? "a state" : "NULL", we, b, have ? "a state" : "NULL", e);
	}
	if (sat && inexact && n > 3) s.nontrivial();
}
