// P31: calls keep to the converter and leave the process alone
#include "common.hpp"
#include "props.hpp"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <climits>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <xmmintrin.h>
extern char **environ;
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

static const char *at = "";      // the call under way
static void on_sys(int, siginfo_t *i, void *) { syscall_gate = 0; fail_now("system call", "%s made system call %d", at, i->si_syscall); }
static bool gate_works()
{	static int w = -1;
	if (w < 0) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_sys; a.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &a, 0); w = prctl(PR_SET_SYSCALL_USER_DISPATCH, 1L, 0L, 0L, &syscall_gate) == 0; }
	return w;
}
static uint16_t x87() { uint16_t c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
enum { MXCSR_CTL = 0xffc0 };

struct World { // what a library has no business to change
	std::string env, loc, cwd; int fds = 0, threads = 0; mode_t um = 0; struct sigaction act[65]; sigset_t mask;
	static int entries(const char *d) { int n = 0; DIR *q = opendir(d); if (!q) return -1; while (readdir(q)) n++; closedir(q); return n; }
	World()
	{	for (char **e = environ; e && *e; e++) { env += *e; env += '\n'; } loc = setlocale(LC_ALL, 0); char b[PATH_MAX]; cwd = getcwd(b, sizeof b) ? b : ""; fds = entries("/proc/self/fd"); threads = entries("/proc/self/task"); um = umask(0); umask(um);
		memset(act, 0, sizeof act); for (int i = 1; i < 65; i++) sigaction(i, 0, &act[i]); sigprocmask(SIG_SETMASK, 0, &mask); }
	void same(const World &b) const
	{	CHECK(env == b.env, "process state", "the environment changed"); CHECK(loc == b.loc, "process state", "the locale changed from %s to %s", loc.c_str(), b.loc.c_str()); CHECK(cwd == b.cwd, "process state", "the working directory changed"); CHECK(fds == b.fds, "process state", "%d open files before, %d after", fds, b.fds); CHECK(threads == b.threads, "process state", "%d threads before, %d after", threads, b.threads); CHECK(um == b.um, "process state", "the umask changed");
		for (int i = 1; i < 65; i++) CHECK(act[i].sa_handler == b.act[i].sa_handler && act[i].sa_flags == b.act[i].sa_flags, "process state", "the handling of signal %d changed", i); for (int i = 1; i < 65; i++) CHECK(sigismember(&mask, i) == sigismember(&b.mask, i), "process state", "the signal mask changed"); }
};
struct Quiet { // standard output and error go to a file that has to stay empty
	int fd, o1, o2; bool done = false;
	Quiet() { fflush(stdout); fflush(stderr); fd = memfd_create("out", 0); o1 = dup(1); o2 = dup(2); dup2(fd, 1); dup2(fd, 2); }
	long end() { fflush(stdout); fflush(stderr); struct stat t; fstat(fd, &t); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); close(fd); done = true; return (long)t.st_size; }
	~Quiet() { if (!done) end(); }
};
struct PFeed { const float *x; int ch; long left, blk; };
static long give(void *u, float **d) { PFeed &f = *(PFeed *)u; long n = f.blk < f.left ? f.blk : f.left; *d = const_cast<float *>(f.x); f.left -= n; return n; }

void p31_process(Src &s)
{	CHECK(alloc_ctl.active, "setup", "allocator wrapping is not active"); bool gate = gate_works(); s.label(gate ? "system calls watched" : "system calls not watched (no kernel support)");
	int conv = gen_conv(s), ch = gen_channels(s, conv, s.chance(10) ? 128 : 8), n = (int)s.loglen(1, 25); bool cb = s.chance(30), wild = s.chance(15); int mode = s.weighted({6, 3, 1, 2}), dir = mode == 3 ? s.pick({FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) : FE_TONEAREST; // of the FPU: default, FTZ and DAZ, exceptions unmasked that cannot occur
	if (wild && mode == 2) mode = 0;
	long most = std::max(3L, 6000L / ch); Vec x = make_sig(wild ? gen_sig(s, true) : Sig{s.pick({4, 2, 0, 5}), s.below(1000), 1}, most, ch), ob((size_t)most * ch, 0), y((size_t)2 * most * ch, 0); if (wild) for (auto v : x) if (!std::isfinite(v)) { s.label("not finite"); break; }
	PFeed f{x.data(), ch, s.loglen(0, 8 * most), s.range(1, most)}; std::vector<short> sh(64); std::vector<int> iv(64); s.note("%s channels=%d%s%s", conv_name(conv), ch, cb ? " callback" : "", mode == 1 ? " flush to zero" : mode == 2 ? " exceptions unmasked" : mode == 3 ? " other rounding" : ""); s.label(conv_name(conv)); if (cb) s.label("callback"); if (mode) s.label(mode == 1 ? "flush to zero" : mode == 2 ? "exceptions unmasked" : "other rounding mode");
	long streams = 0, made = 0; double r = gen_ratio(s), budget = 1.5e6; srand(42); int first = rand(); srand(42); srand48(7); double d48 = drand48(); srand48(7);
	World before; unsigned csr0 = _mm_getcsr(); uint16_t cw0 = x87(), cwin = cw0; if (mode == 3) { fesetround(dir); cwin = x87(); fesetround(FE_TONEAREST); } long flags = 0; SRC_STATE *st = 0; std::string bad;
	struct Restore { unsigned c; SRC_STATE *&st; ~Restore() { syscall_gate = 0; alloc_ctl.track = 0; fesetround(FE_TONEAREST); _mm_setcsr(c); if (st) src_delete(st); } } restore{csr0, st}; // before anything else looks at floats
	alloc_ctl.count = alloc_ctl.live = alloc_ctl.frees = 0; alloc_ctl.fail_at = -1; long size;
	{	Quiet q;
		auto call = [&](const char *what, bool strict, auto fn) { // strict: neither system calls nor the allocator
			unsigned csr = (csr0 & ~0x3fu) | (mode == 1 ? 0x8040u : 0); if (mode == 2) csr &= ~(unsigned)((_MM_EXCEPT_INVALID | _MM_EXCEPT_DIV_ZERO) << 7);
			at = what; long c0 = alloc_ctl.count, l0 = alloc_ctl.live; tick(); if (mode == 3) { fesetround(dir); csr |= _mm_getcsr() & _MM_ROUND_MASK; } _mm_setcsr(csr); alloc_ctl.track = 1; if (strict && gate) syscall_gate = 1;
			fn();
			syscall_gate = 0; alloc_ctl.track = 0; unsigned now = _mm_getcsr(); uint16_t cw = x87(); if (mode == 3) fesetround(FE_TONEAREST); _mm_setcsr(csr0);
			if (bad.empty() && (now & MXCSR_CTL) != (csr & MXCSR_CTL)) { char b[200]; snprintf(b, sizeof b, "%s changed the floating-point control register from %x to %x", what, csr & MXCSR_CTL, now & MXCSR_CTL); bad = b; }
			if (bad.empty() && cw != cwin) { bad = std::string(what) + " changed the x87 control word"; }
			if (bad.empty() && !wild && (now & (_MM_EXCEPT_INVALID | _MM_EXCEPT_DIV_ZERO))) { bad = std::string(what) + " raised a floating-point exception (invalid or division by zero)"; }
			if (bad.empty() && strict && (alloc_ctl.count != c0 || alloc_ctl.live != l0)) { bad = std::string(what) + " used the allocator"; }
			flags |= now; };
		int e = 0; call(cb ? "src_callback_new" : "src_new", false, [&] { st = cb ? src_callback_new(give, conv, ch, &e, &f) : src_new(conv, ch, &e); });
		for (int i = 0; i < n && st && bad.empty(); i++) {
			if (s.chance(25)) r = s.chance(60) ? gen_ratio(s, 0.2, 8) : gen_ratio(s);
			double per = (is_sinc(conv) ? 2 * half_frames(conv, std::min(r, 1.0)) : 4) * ch; long cap = std::max(2L, std::min(most, (long)(budget / 4 / per)));
			switch (s.weighted({14, 2, 2, 2, 3, 2, 2, 1})) {
			case 0: { long no = s.loglen(0, cap), ni = s.weighted({7, 1}) ? 0 : s.loglen(0, most);
				if (cb) { long g = 0; call("src_callback_read", true, [&] { g = src_callback_read(st, r, no, ob.data()); }); s.note("read %ld at %.9g: %ld", no, r, g); streams++; made += g; budget -= g * per; break; }
				SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.input_frames = ni; d.data_out = ob.data(); d.output_frames = no; d.src_ratio = r; d.end_of_input = s.chance(12); call("src_process", true, [&] { e = src_process(st, &d); }); s.note("process %ld to %ld at %.9g: %ld %ld", ni, no, r, d.input_frames_used, d.output_frames_gen); streams++; made += d.output_frames_gen; budget -= d.output_frames_gen * per; break; }
			case 1: { double t = s.chance(70) ? gen_ratio(s) : s.pick({0.0, -1.0, 257.0, mode == 2 ? 300.0 : (double)NAN}); call("src_set_ratio", true, [&] { if (std::isnan(t)) { unsigned k = _mm_getcsr(); src_set_ratio(st, t); _mm_setcsr((_mm_getcsr() & ~0x3fu) | (k & 0x3fu)); } else src_set_ratio(st, t); }); s.note("set_ratio %g", t); break; }
			case 2: call("src_reset", true, [&] { src_reset(st); }); s.note("reset"); break;
			case 3: { SRC_STATE *c = 0; call("src_clone", false, [&] { c = src_clone(st, &e); }); if (c) { call("src_delete", false, [&] { src_delete(st); }); st = c; } s.note("clone"); break; }
			case 4: { int k = (int)s.below(9); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.input_frames = 3; d.data_out = ob.data(); d.output_frames = 3; d.src_ratio = r; if (k == 0) d.src_ratio = 0; if (k == 1) d.data_in = 0; if (k == 2) d.data_out = 0; if (k == 3) d.data_out = x.data() + (int)s.range(0, 3 * ch - 1); if (k == 6) { d.data_out = x.data(); d.data_in = x.data() + (int)s.range(0, 3 * ch - 1); } if (k == 4) d.input_frames = d.output_frames = -1;
				if (k == 7) call("src_simple on bad data", false, [&] { SRC_DATA w = d; w.data_in = 0; src_simple(0, conv, ch); src_simple(&w, conv, 0); });
				else if (k == 8) { float *own = x.data(); if (cb) call("src_callback_read into the callback's data", true, [&] { src_callback_read(st, r, 2, own); }); }
				else if (cb ? s.chance(50) : s.chance(15)) call("a bad src_callback_read", true, [&] { src_callback_read(k & 1 ? st : 0, k == 0 ? 0 : r, k == 1 ? -5 : 0, k == 2 ? 0 : ob.data()); });
				else call("a bad src_process", true, [&] { src_process(k == 5 ? 0 : st, k == 5 ? 0 : &d); }); s.note("bad call %d", k); break; }
			case 5: { long no = s.loglen(1, cap); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.input_frames = s.loglen(0, most / 4 + 1); d.data_out = ob.data(); d.output_frames = no; d.src_ratio = s.chance(10) ? 0 : r; call("src_simple", false, [&] { src_simple(&d, s.chance(90) ? conv : 99, ch); }); s.note("simple"); budget -= no * per; break; }
			case 6: { int k = (int)s.range(-2, 30); call("a sample conversion", true, [&] { src_float_to_short_array(ob.data(), sh.data(), std::min<int>(64, (int)ob.size())); src_float_to_int_array(x.data(), iv.data(), std::min<int>(64, (int)x.size())); src_short_to_float_array(sh.data(), y.data(), std::min<int>(64, (int)y.size())); src_int_to_float_array(iv.data(), y.data(), std::min<int>(64, (int)y.size())); });
				call("a query", true, [&] { src_get_name(k); src_get_description(k); src_strerror(k); src_strerror(src_error(st)); src_get_version(); src_is_valid_ratio(r); src_get_channels(st); src_error(0); }); s.note("conversions, queries"); break; }
			default: { int k = (int)s.below(4); SRC_STATE *b = 0; call("a refused constructor", false, [&] { b = k == 0 ? src_new(77, ch, &e) : k == 1 ? src_new(conv, 0, &e) : k == 2 ? src_callback_new(0, conv, ch, &e, 0) : src_clone(0, &e); }); if (b) src_delete(b); s.note("bad constructor %d", k); }
			}
		}
		call("src_delete", false, [&] { src_delete(st); st = 0; });
		size = q.end();
	}
	CHECK(bad.empty(), "process state", "%s", bad.c_str()); CHECK(size == 0, "prints", "%ld bytes were written to standard output or error", size);
	World after; before.same(after); CHECK(rand() == first && drand48() == d48, "process state", "the state of the random number generators changed");
	if (streams > 2 && made > 0) s.nontrivial();
}
