#include "engine.hpp"
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <filesystem>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>

enum { CAP = 1 << 15, NLABEL = 96, NSAMPLE = 4 };
enum { ST_RUN = 0, ST_DONE = 1, ST_FAIL = 2, ST_HANG = 3, ST_DISCARD = 4 };

struct Shared {
	volatile long cur; volatile int status;
	volatile long nchoice; u64 choice[CAP];
	char cls[128], msg[4096], note[8192]; volatile long notelen;
	volatile long evals, discards, nontriv;
	struct { char name[56]; long n; } label[NLABEL];
	int nsample; char sample[NSAMPLE][2048];
	volatile long nhash; volatile time_t beat; volatile int isnt;
};

static Shared *S;                 // of this process
static u64 *H;                    // hashes of non-trivial cases of this process
static long HCAP;
static Rng gen_rng;
static bool replaying, wrap_choices; static const std::vector<u64> *rep;
static int cpu_limit = 20;
static std::vector<std::pair<int,int>> dummy;

void fail(const char *cls, const char *fmt, ...)
{	char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	throw Fail{cls, b};
}
static void set_fail(int st, const char *cls, const char *msg)
{	snprintf(S->cls, sizeof S->cls, "%s", cls); snprintf(S->msg, sizeof S->msg, "%s", msg); S->status = st; }
void fail_now(const char *cls, const char *fmt, ...)
{	char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	set_fail(ST_FAIL, cls, b); _exit(1);
}
static u64 draw(u64 n)
{	long i = S->nchoice; u64 v;
	if (i >= CAP) return 0;
	if (replaying) { v = i < (long)rep->size() ? (*rep)[i] : wrap_choices ? gen_rng.next() : 0; if (n && v >= n) v = wrap_choices ? v % n : n - 1; }
	else { v = gen_rng.next(); if (n) v = (u64)(((unsigned __int128)v * n) >> 64); }
	S->choice[i] = v; S->nchoice = i + 1;
	return v;
}
u64 Src::below(u64 n) { return n == 1 ? 0 : draw(n); }
long Src::range(long lo, long hi) { return hi <= lo ? lo : lo + (long)below((u64)(hi - lo) + 1); }
bool Src::chance(int percent) { return below(100) >= (u64)(100 - percent); }
int Src::weighted(std::initializer_list<int> w)
{	long t = 0; for (int x : w) t += x; long v = (long)below(t); int i = 0;
	for (int x : w) { if (v < x) return i; v -= x; i++; } return 0;
}
long Src::loglen(long lo, long hi)
{	if (hi <= lo) return lo;
	double m = log((double)(hi - lo) + 1);
	u64 raw = below(1u << 30); double u = (double)raw * (1.0 / (1u << 30));
	long v = lo + (long)(exp(u * m) - 1 + 0.5 * u);
	if (v > 4 && (raw & 7) == 7) { // sizes people use: every eighth choice moves to the nearest of them, or next to it
		static const std::vector<long> nice = [] { std::vector<long> l; for (int k = 2; k < 40; k++) l.push_back(1L << k); for (long t = 1; t < 1000000000; t *= 10) for (long q : {10L, 20L, 50L}) l.push_back(q * t); for (long q : {441L, 480L, 882L, 960L, 1152L, 1920L, 2205L, 4410L, 4800L, 22050L, 44100L, 48000L, 96000L}) l.push_back(q); std::sort(l.begin(), l.end()); return l; }();
		size_t i = std::lower_bound(nice.begin(), nice.end(), v) - nice.begin(); long n = nice[i]; if (i > 0 && v - nice[i - 1] < n - v) n = nice[i - 1];
		switch ((raw >> 3) & 7) { case 6: n++; break; case 7: n--; break; }
		if (n >= lo && n <= hi) v = n;
	}
	return v > hi ? hi : v;
}
void Src::nontrivial() { S->isnt = 1; }
void Src::label(const char *name)
{	for (int i = 0; i < NLABEL; i++) {
		if (!S->label[i].name[0]) snprintf(S->label[i].name, sizeof S->label[i].name, "%s", name);
		if (!strcmp(S->label[i].name, name)) { S->label[i].n++; return; }
	}
}
void Src::note(const char *fmt, ...)
{	char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	long l = (long)strlen(b), o = S->notelen;
	if (verbose) printf("  %s\n", b);
	if (o + l + 3 < (long)sizeof S->note) { memcpy(S->note + o, b, l); S->note[o + l] = ';'; S->note[o + l + 1] = ' '; S->note[o + l + 2] = 0; S->notelen = o + l + 2; }
}
volatile char syscall_gate = 0; // P31: while 1, a system call of this process is an event
static void on_cpu(int) { syscall_gate = 0; set_fail(ST_HANG, "hang", "the call did not return within the CPU limit of a case"); _exit(3); }
static void arm(int sec)
{	struct itimerval t = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &t, 0); }
void tick() { arm(cpu_limit); }

static int run_one(const Prop &p, Src &s)
{	S->nchoice = 0; S->notelen = 0; S->note[0] = 0; S->isnt = 0; S->beat = time(0);
	arm(cpu_limit);
	int r = 0;
	try { p.fn(s); }
	catch (Fail &f) { set_fail(ST_FAIL, f.cls.c_str(), f.msg.c_str()); r = 1; }
	catch (Discard &) { r = 2; }
	catch (std::bad_alloc &) { r = 2; }
	return r;
}
static u64 hash_case()
{	u64 h = 1469598103934665603ull; for (long i = 0; i < S->nchoice; i++) { h ^= S->choice[i]; h *= 1099511628211ull; h ^= h >> 29; } return h; }

static void worker(const Prop &p, u64 seed, int tier, long w, long J, long n, bool verbose = false)
{	u64 ph = 5381; for (const char *c = p.name; *c; c++) ph = ph * 33 + (unsigned char)*c;
	replaying = false;
	for (long i = w; i < n; i += J) {
		Rng r{seed * 0x9E3779B97F4A7C15ull ^ ph * 0xD1B54A32D192ED03ull}; r.next();
		gen_rng.s = r.next() ^ ((u64)i * 0xA24BAED4963EE407ull); gen_rng.next();
		Src s; s.tier = tier; s.verbose = verbose && i + J >= n; S->cur = i;
		int rc = run_one(p, s);
		if (rc == 1) _exit(1);
		if (rc == 2) { S->discards++; continue; }
		S->evals++;
		if (S->isnt) {
			S->nontriv++; if (S->nhash < HCAP) H[S->nhash++] = hash_case();
			if (S->nsample < NSAMPLE && (S->nontriv == 1 || S->nontriv == 10 || S->nontriv == 100 || S->nontriv == 1000))
				snprintf(S->sample[S->nsample++], sizeof S->sample[0], "case %ld: %s", i, S->note);
		}
	}
	arm(0);
	S->status = ST_DONE; _exit(0);
}

// coverage-guided search: libFuzzer mutates the choice sequence, eight bytes per choice
extern "C" int LLVMFuzzerRunDriver(int *, char ***, int (*)(const uint8_t *, size_t)) __attribute__((weak));
extern "C" size_t LLVMFuzzerMutate(uint8_t *, size_t, size_t) __attribute__((weak));
enum { FUZZ_SEEDS = 150, FUZZ_LEN = 1500 };
static const Prop *fz_p; static long fz_runs; static int fz_tier; static std::vector<u64> fz_choice;
static int fuzz_one(const uint8_t *d, size_t len)
{	fz_choice.resize(len / 8); if (len >= 8) memcpy(fz_choice.data(), d, len / 8 * 8);
	gen_rng.s = 1; for (u64 v : fz_choice) gen_rng.s = (gen_rng.s ^ v) * 1099511628211ull; gen_rng.next(); // what follows the given choices
	Src s; s.tier = fz_tier; S->cur++;
	int rc = run_one(*fz_p, s);
	if (rc == 1) _exit(1);
	if (rc == 2) S->discards++;
	else { S->evals++; if (S->isnt) { S->nontriv++; if (S->nhash < HCAP) H[S->nhash++] = hash_case(); } }
	if (S->evals + S->discards >= fz_runs) { arm(0); S->status = ST_DONE; _exit(0); }
	return 0;
}
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t len, size_t cap, unsigned seed)
{	Rng r{seed * 0x9E3779B97F4A7C15ull}; r.next();
	std::vector<u64> c(len / 8); if (len >= 8) memcpy(c.data(), d, len / 8 * 8);
	if (c.empty()) c.push_back(r.next());
	for (int k = 1 + (int)(r.next() % 3); k > 0; k--) {
		size_t n = c.size(), i = r.next() % n, j = r.next() % n, m = 1 + r.next() % std::min<size_t>(8, n);
		switch (r.next() % 12) {
			case 0: case 1: c[i] = r.next(); break;
			case 2: c[i] = r.next() % 16; break;
			case 3: case 4: c[i] += 1 + r.next() % 3; break;
			case 5: c[i] -= 1 + r.next() % 3; break;
			case 6: c[i] += 1ull << (r.next() % 32); break;
			case 7: c[i] -= 1ull << (r.next() % 32); break;
			case 8: c[i] = c[j]; break;
			case 9: if (n > 1) c.erase(c.begin() + i, c.begin() + std::min(n, i + m)); break;
			case 10: { std::vector<u64> b(c.begin() + j, c.begin() + std::min(n, j + m)); c.insert(c.begin() + i, b.begin(), b.end()); break; }
			case 11: if (r.next() & 1) c.insert(c.begin() + i, r.next()); else LLVMFuzzerMutate((uint8_t *)&c[i], 8, 8); break;
		}
		if (c.empty()) c.push_back(0);
	}
	size_t n = std::min(c.size(), cap / 8); memcpy(d, c.data(), n * 8); return n * 8;
}
extern "C" size_t LLVMFuzzerCustomCrossOver(const uint8_t *a, size_t la, const uint8_t *b, size_t lb, uint8_t *out, size_t cap, unsigned seed)
{	Rng r{seed * 0xD1B54A32D192ED03ull}; r.next(); la /= 8; lb /= 8;
	size_t i = r.next() % (la + 1), j = r.next() % (lb + 1), n = std::min(cap / 8, i + lb - j);
	memcpy(out, a, std::min(i, n) * 8); if (n > i) memcpy(out + i * 8, b + j * 8, (n - i) * 8); return n * 8;
}
static std::string errpath;
static std::string fuzz_dir(long w) { return errpath + ".fuzz" + std::to_string(w); }
static void fuzz_worker(const Prop &p, u64 seed, int tier, long w, long runs)
{	std::string dir = fuzz_dir(w); if (mkdir(dir.c_str(), 0700)) { perror(dir.c_str()); _exit(2); }
	u64 ph = 5381; for (const char *c = p.name; *c; c++) ph = ph * 33 + (unsigned char)*c;
	std::string list;
	for (int i = 0; i < FUZZ_SEEDS; i++) { // starting points: random cases
		gen_rng.s = seed * 0x9E3779B97F4A7C15ull + ph + (u64)(w + 1) * 0xA24BAED4963EE407ull + i * 77; gen_rng.next();
		replaying = false; Src s; s.tier = tier; S->cur = i;
		int rc = run_one(p, s); if (rc == 1) _exit(1);
		if (rc == 2 || S->nchoice > FUZZ_LEN) continue;
		S->evals++;
		std::string f = dir + "/" + std::to_string(i); FILE *o = fopen(f.c_str(), "w"); if (!o) _exit(2);
		fwrite(S->choice, 8, S->nchoice, o); fclose(o); if (!list.empty()) list += ","; list += f;
	}
	replaying = wrap_choices = true; rep = &fz_choice; fz_p = &p; fz_runs = runs; fz_tier = tier;
	std::vector<std::string> a = {"pbt", "-seed=" + std::to_string((seed * 1000003 + ph + w * 7919) % 2000000000 + 1), "-seed_inputs=" + list, "-max_len=" + std::to_string(FUZZ_LEN * 8), "-len_control=0", "-reduce_inputs=0", "-use_value_profile=1", "-timeout=100000", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-runs=-1", "-artifact_prefix=" + dir + "/"};
	for (const char *h : {"abrt", "segv", "bus", "ill", "fpe", "int", "term", "xfsz", "usr1", "usr2"}) a.push_back(std::string("-handle_") + h + "=0");
	static std::vector<char *> av; for (auto &x : a) av.push_back(strdup(x.c_str())); av.push_back(0);
	int ac = (int)av.size() - 1; char **v = av.data();
	LLVMFuzzerRunDriver(&ac, &v, fuzz_one); _exit(2);
}

struct Outcome { bool failed = false, infra = false; std::string cls, msg, note; std::vector<u64> used; };

static std::string tail(const std::string &path, const char *want)
{	FILE *f = fopen(path.c_str(), "r"); if (!f) return ""; std::string r; char b[2000]; int n = 0;
	while (fgets(b, sizeof b, f) && n < 12) { if (n || !want || strstr(b, want) || strstr(b, "runtime error") || strstr(b, "Assertion") || strstr(b, "ERROR:")) { r += b; n++; } }
	fclose(f); return r.substr(0, 1500);
}
static std::string crash_class(int st, const std::string &log)
{	const char *kinds[] = {"heap-buffer-overflow", "heap-use-after-free", "stack-buffer-overflow", "global-buffer-overflow", "double-free", "LeakSanitizer", "data race", "runtime error", "Assertion", "SEGV", "allocation-size-too-big", "attempting free"};
	for (const char *k : kinds) if (log.find(k) != std::string::npos) return std::string("crash: ") + k;
	char b[64]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "crash: exit %d", WEXITSTATUS(st));
	return b;
}
static Outcome outcome_of(Shared *sh, int st, const std::string &err)
{	Outcome o; o.note = sh->note; o.used.assign(sh->choice, sh->choice + sh->nchoice);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.infra = true; return o; }
	o.failed = true;
	if (sh->status == ST_FAIL || sh->status == ST_HANG) { o.cls = sh->cls; o.msg = sh->msg; }
	else { std::string log = tail(err, "==ERROR"); o.cls = crash_class(st, log); o.msg = log; }
	return o;
}
static Shared *new_shared()
{	void *m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); exit(2); } return (Shared *)m; }
static void redirect(const std::string &path)
{	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); } }

static Outcome try_case(const Prop &p, const std::vector<u64> &c, int tier, int cpu, bool verbose = false)
{	static Shared *sh = new_shared();
	Outcome o;
	for (int attempt = 0; attempt < 2; attempt++) {
		memset((void *)sh, 0, offsetof(Shared, choice)); sh->nchoice = 0; sh->notelen = 0; sh->note[0] = 0; sh->status = 0;
		std::string err = errpath + ".try";
		fflush(0);
		pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); S = sh; H = 0; HCAP = 0; cpu_limit = cpu; signal(SIGPROF, on_cpu);
			redirect(err); replaying = true; rep = &c; Src s; s.tier = tier; s.verbose = verbose;
			int r = run_one(p, s); arm(0); fflush(stdout); _exit(r == 1 ? 1 : 0);
		}
		int st = 0; time_t t0 = time(0);
		while (waitpid(pid, &st, WNOHANG) == 0) { usleep(300); if (time(0) - t0 > 240 + cpu) { kill(pid, SIGKILL); waitpid(pid, &st, 0); Outcome h; h.failed = true; h.cls = "hang"; h.msg = "no end (wall clock)"; h.used = c; return h; } }
		o = outcome_of(sh, st, err); unlink(err.c_str());
		if (!o.infra) break;
	}
	return o;
}

// the failure needs the cases this worker ran before it: run those again first
static Outcome try_prefix(const Prop &p, u64 seed, int tier, long w, long J, long upto, bool verbose = false)
{	Shared *sh = new_shared(); std::string err = errpath + ".try"; fflush(0); pid_t pid = fork();
	if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); S = sh; H = 0; HCAP = 0; signal(SIGPROF, on_cpu); redirect(err); worker(p, seed, tier, w, J, upto + 1, verbose); }
	int st = 0; waitpid(pid, &st, 0); Outcome o = outcome_of(sh, st, err); unlink(err.c_str()); munmap(sh, sizeof *sh); return o;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Outcome shrink(const Prop &p, Outcome best, int tier, double budget, long &tries)
{	double end = now() + budget; int cpu = best.cls == "hang" ? 4 : cpu_limit;
	auto better = [&](const std::vector<u64> &c) -> bool {
		if (now() > end) return false;
		tries++;
		Outcome o = try_case(p, c, tier, cpu);
		if (!o.failed || o.cls != best.cls) return false;
		if (o.used.size() > best.used.size()) return false;
		if (o.used.size() == best.used.size() && !(o.used < best.used)) return false;
		best = o; return true;
	};
	bool any = true;
	while (any && now() < end) {
		any = false;
		for (size_t blk = std::max<size_t>(1, best.used.size() / 2); blk >= 1 && now() < end; blk /= 2) {
			for (size_t i = 0; i + blk <= best.used.size() && now() < end;) {
				std::vector<u64> c = best.used; c.erase(c.begin() + i, c.begin() + i + blk);
				if (better(c)) { any = true; continue; }
				c = best.used; bool nz = false; for (size_t k = i; k < i + blk; k++) { nz |= c[k] != 0; c[k] = 0; }
				if (nz && better(c)) any = true;
				i += blk;
			}
			if (blk == 1) break;
		}
		for (size_t i = 0; i < best.used.size() && now() < end; i++) {
			u64 hi = best.used[i], lo = 0;
			if (!hi) continue;
			while (lo < hi && now() < end) {
				u64 mid = lo + (hi - lo) / 2; std::vector<u64> c = best.used; if (i >= c.size()) break; c[i] = mid;
				if (better(c)) { any = true; if (i >= best.used.size()) break; hi = std::min<u64>(mid, best.used[i]); } else lo = mid + 1;
			}
		}
	}
	return best;
}

static std::string jstr(const std::string &s)
{	std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static std::string as_variant;
static const char *variant_of(const Prop &p) { return as_variant.empty() ? p.variant : as_variant.c_str(); }
static bool write_replay(const std::string &path, const Prop &p, int tier, u64 seed, long idx, const Outcome &o, long J)
{	FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
	fprintf(f, "property %s\ncheck %s\nvariant %s\ntier %d\nseed %llu\ncase %ld\nclass %s\n", p.id, p.name, variant_of(p), tier, (unsigned long long)seed, idx, o.cls.c_str());
	std::string m = o.msg; std::replace(m.begin(), m.end(), '\n', '|'); fprintf(f, "message %s\n", m.c_str()); if (J) fprintf(f, "prefix %ld %ld %ld\n", idx % J, J, idx);
	std::string n = o.note; std::replace(n.begin(), n.end(), '\n', '|'); fprintf(f, "decoded %s\nchoices", n.c_str());
	for (u64 v : o.used) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); fclose(f); return true;
}

static int do_replay(const char *path)
{	FILE *f = fopen(path, "r"); if (!f) { perror(path); return 2; }
	std::string id; int tier = 0; u64 seed = 1; long pw = -1, pj = 1, pi = 0; std::vector<u64> c; char *line = 0; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		if (!strncmp(line, "check ", 6)) { id = line + 6; while (!id.empty() && id.back() <= ' ') id.pop_back(); }
		else if (!strncmp(line, "tier ", 5)) tier = atoi(line + 5);
		else if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, 0, 10);
		else if (!strncmp(line, "prefix ", 7)) sscanf(line + 7, "%ld %ld %ld", &pw, &pj, &pi);
		else if (!strncmp(line, "choices", 7)) { char *q = line + 7, *e; for (;;) { u64 v = strtoull(q, &e, 10); if (e == q) break; c.push_back(v); q = e; } }
	}
	fclose(f);
	for (int i = 0; i < nprops; i++) if (id == props[i].name) {
		cpu_limit = props[i].cpu_limit; errpath = std::string("/tmp/pbt-replay-") + std::to_string(getpid());
		Outcome o = pw >= 0 ? try_prefix(props[i], seed, tier, pw, pj, pi, true) : try_case(props[i], c, tier, cpu_limit, true);
		if (o.failed) { printf("FAILS class=%s\n%s\n", o.cls.c_str(), o.msg.c_str()); return 1; }
		printf("passes%s\n", o.infra ? " (infrastructure problem)" : ""); return 0;
	}
	fprintf(stderr, "unknown property in replay file\n"); return 2;
}

int main(int argc, char **argv)
{	std::string id, out, rdir = "."; int tier = 0; u64 seed = 1; long n = -1; int J = 8; long fuzz = 0; double scale = 1, deadline = 600, shrink_s = 30;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() -> const char * { return ++i < argc ? argv[i] : ""; };
		if (a == "--replay") return do_replay(nx());
		else if (a == "--list") { for (int k = 0; k < nprops; k++) printf("%s %s %s\n", props[k].id, props[k].name, props[k].variant); return 0; }
		else if (a == "--tier") tier = !strcmp(nx(), "thorough"); else if (a == "--seed") seed = strtoull(nx(), 0, 10);
		else if (a == "--cases") n = atol(nx()); else if (a == "--scale") scale = atof(nx()); else if (a == "--jobs") J = atoi(nx());
		else if (a == "--variant") as_variant = nx(); else if (a == "--fuzz") fuzz = atol(nx()); else if (a == "--out") out = nx(); else if (a == "--replays") rdir = nx(); else if (a == "--deadline") deadline = atof(nx());
		else if (a == "--shrink") shrink_s = atof(nx()); else id = a;
	}
	if (fuzz && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1) execv("/proc/self/exe", argv); // repeatable: what libFuzzer compares includes addresses
	const Prop *p = 0; for (int k = 0; k < nprops; k++) if (id == props[k].name) p = &props[k];
	if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
	if (n < 0) n = (long)((tier ? p->thorough : p->quick) * scale + 0.5); if (fuzz) n = fuzz; if (n < 1) n = 1;
	cpu_limit = p->cpu_limit; if (J > n) J = (int)n;
	errpath = std::string("/tmp/pbt-") + p->name + "-" + std::to_string(getpid());
	signal(SIGPROF, on_cpu);
	double t0 = now();
	std::vector<Shared *> sh(J); std::vector<u64 *> hs(J); std::vector<pid_t> pid(J); std::vector<bool> live(J, true); std::vector<int> tries_w(J, 0);
	HCAP = n / J + 2;
	auto spawn = [&](int w) {
		fflush(0);
		pid[w] = fork();
		if (pid[w] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); S = sh[w]; H = hs[w]; redirect(errpath + "." + std::to_string(w)); if (fuzz) fuzz_worker(*p, seed, tier, w, n / J + 1); else worker(*p, seed, tier, w, J, n); }
	};
	for (int w = 0; w < J; w++) { sh[w] = new_shared(); hs[w] = (u64 *)mmap(0, HCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); spawn(w); }
	Outcome bad; long badcase = -1; int nlive = J; bool timeout = false;
	while (nlive > 0 && badcase < 0) {
		int st; pid_t q = waitpid(-1, &st, WNOHANG);
		if (q > 0) {
			for (int w = 0; w < J; w++) if (pid[w] == q && live[w]) {
				live[w] = false; nlive--;
				Outcome o = outcome_of(sh[w], st, errpath + "." + std::to_string(w));
				if (sh[w]->status == ST_DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				if (o.infra) { fprintf(stderr, "worker %d killed; giving its remaining cases up\n", w); timeout = true; }
				else if (o.failed) { bad = o; badcase = sh[w]->cur; }
			}
		} else {
			usleep(2000);
			if (now() - t0 > deadline) { timeout = true; break; }
			time_t tn = time(0);
			for (int w = 0; w < J; w++) if (live[w] && sh[w]->beat && tn - sh[w]->beat > 240 + cpu_limit) { bad.failed = true; bad.cls = "hang"; bad.msg = "a case did not end (wall clock)"; bad.used.assign(sh[w]->choice, sh[w]->choice + sh[w]->nchoice); bad.note = sh[w]->note; badcase = sh[w]->cur; break; }
		}
	}
	for (int w = 0; w < J; w++) if (live[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], 0, 0); }
	for (int w = 0; w < J; w++) unlink((errpath + "." + std::to_string(w)).c_str());
	if (fuzz) for (int w = 0; w < J; w++) { std::error_code ec; std::filesystem::remove_all(fuzz_dir(w), ec); }
	long evals = 0, disc = 0, nt = 0; std::unordered_set<u64> dist; std::map<std::string, long> lab; std::vector<std::string> samples;
	for (int w = 0; w < J; w++) {
		evals += sh[w]->evals; disc += sh[w]->discards; nt += sh[w]->nontriv;
		for (long i = 0; i < sh[w]->nhash; i++) dist.insert(hs[w][i]);
		for (int i = 0; i < NLABEL && sh[w]->label[i].name[0]; i++) lab[sh[w]->label[i].name] += sh[w]->label[i].n;
		for (int i = 0; i < sh[w]->nsample && samples.size() < 12; i++) samples.push_back(sh[w]->sample[i]);
	}
	std::string replay; bool violated = false; long stries = 0; int rep_ok = 0;
	if (badcase >= 0) {
		violated = true; evals++;
		Outcome first = bad;
		Outcome again = try_case(*p, bad.used, tier, cpu_limit);
		long pre = 0;
		if (again.failed) { if (again.cls != bad.cls) bad = again; bad = shrink(*p, bad, tier, shrink_s, stries); }
		for (int k = 0; k < 3; k++) if (try_case(*p, bad.used, tier, cpu_limit).failed) rep_ok++;
		if (!rep_ok && !fuzz) { // alone it passes: does it fail after the cases before it?
			pre = J; for (int k = 0; k < 3; k++) if (try_prefix(*p, seed, tier, badcase % J, J, badcase).failed) rep_ok++;
		}
		u64 h = 0; for (u64 v : bad.used) h = h * 1099511628211ull + v + 1; char b[64]; snprintf(b, sizeof b, "%s-%08llx.replay", p->name, (unsigned long long)(h & 0xffffffffu));
		replay = rdir + "/" + b; write_replay(replay, *p, tier, seed, badcase, bad, pre); if (!rep_ok) { printf("not reproduced, ignored as inconclusive: check=%s case=%ld class=%s %s\n", p->name, badcase, bad.cls.c_str(), bad.msg.c_str()); violated = false; timeout = true; }
		if (violated) printf("violated: check=%s case=%ld class=%s shrink_runs=%ld replays=%d/3\n", p->name, badcase, bad.cls.c_str(), stries, rep_ok);
		if (violated) printf("message: %s\n", bad.msg.c_str()); printf("case: %s\n", bad.note.c_str());
	}
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!f) { perror(out.c_str()); return 2; }
	fprintf(f, "{\"property\":%s,\"check\":%s,\"variant\":%s,\"tier\":%d,\"seed\":%llu,\"planned\":%ld,\"evaluations\":%ld,\"discarded\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%ld,\"complete\":%s,\"rule\":%s,\"labels\":{",
		jstr(p->id).c_str(), jstr(p->name).c_str(), jstr(variant_of(*p)).c_str(), tier, (unsigned long long)seed, n, evals, disc, nt, (long)dist.size(), timeout ? "false" : "true", jstr(p->rule).c_str());
	bool c0 = false; for (auto &l : lab) { fprintf(f, "%s%s:%ld", c0 ? "," : "", jstr(l.first).c_str(), l.second); c0 = true; }
	fprintf(f, "},\"samples\":["); c0 = false; for (auto &s : samples) { fprintf(f, "%s%s", c0 ? "," : "", jstr(s).c_str()); c0 = true; }
	fprintf(f, "],\"wall_s\":%.3f,\"violated\":%s,\"class\":%s,\"message\":%s,\"replay\":%s,\"replays_ok\":%d,\"shrink_runs\":%ld}\n", now() - t0, violated ? "true" : "false", jstr(bad.cls).c_str(), jstr(bad.msg).c_str(), jstr(replay).c_str(), rep_ok, stries);
	if (f != stdout) fclose(f);
	return violated ? 1 : 0;
}
