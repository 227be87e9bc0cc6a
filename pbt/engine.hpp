// Small property-based testing engine: recorded choice sequences, forked
// workers, crash and hang capture, shrinking on the choice sequence, replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <initializer_list>

typedef uint64_t u64;

struct Fail { std::string cls, msg; };   // thrown by a property: the oracle says no
struct Discard {};                        // thrown by a property: case outside the domain

[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) fail(cls, __VA_ARGS__); } while (0)

struct Rng { u64 s; u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); } };

// The source of every random decision of a case. Zero is the simplest choice.
struct Src {
	u64 below(u64 n);                          // uniform 0 .. n-1
	long range(long lo, long hi);              // uniform lo .. hi, lo simplest
	long loglen(long lo, long hi);             // log-uniform lo .. hi, lo simplest
	bool chance(int percent);                  // false simplest
	u64 bits() { return below(0); }            // 64 random bits
	double unit() { return (double)below(1u << 30) * (1.0 / (1u << 30)); }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	int weighted(std::initializer_list<int> w); // index, first simplest
	// per case bookkeeping
	void nontrivial();
	void label(const char *name);
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	int tier = 0;                              // 0 quick, 1 thorough
	bool verbose = false;                      // replay: notes are printed
};

struct Prop {
	const char *id, *name;     // property, and the name of this check of it
	void (*fn)(Src &);
	long quick, thorough;      // number of cases on a plain build
	const char *variant;       // build it runs with: plain, asan, tsan, wrap
	int cpu_limit;             // CPU seconds one case may take
	const char *rule;
};
extern const Prop props[];
extern const int nprops;

void tick();   // before a call of the library: the CPU limit starts over

// die from inside a callback of the library (exceptions must not cross C frames)
[[noreturn]] void fail_now(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

extern volatile char syscall_gate; // see props_process.cpp
