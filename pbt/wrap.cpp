// Link-time replacement of the allocator calls of the library (and the harness).
#include "common.hpp"
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
static void *live[4096];
static int want(size_t n)
{	if (!alloc_ctl.track) return 0;
	long i = alloc_ctl.count++;
	if (i == alloc_ctl.fail_at) { alloc_ctl.failed++; return 1; }
	(void)n; return 0;
}
static void *took(void *p)
{	if (p && alloc_ctl.track) { for (auto &q : live) if (!q) { q = p; break; } alloc_ctl.live++; } return p; }
extern "C" void *__wrap_malloc(size_t n)
{	if (want(n)) return 0; void *p = __real_malloc(n); if (p && alloc_ctl.fill) { unsigned char *q = (unsigned char *)p; for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(alloc_ctl.fill * 37 + (alloc_ctl.fill > 3 ? i * 11 : 0)); } return took(p); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { if (want(a * b)) return 0; return took(__real_calloc(a, b)); }
extern "C" void *__wrap_realloc(void *o, size_t n) { if (want(n)) return 0; if (o) for (auto &q : live) if (q == o) { q = 0; alloc_ctl.live--; break; } return took(__real_realloc(o, n)); }
extern "C" void __wrap_free(void *p)
{	if (p && alloc_ctl.live > 0) for (auto &q : live) if (q == p) { q = 0; alloc_ctl.live--; alloc_ctl.frees++; break; }
	if (p && alloc_ctl.fill) { /* poison what can be poisoned: the first word area is the allocator's after free */ }
	__real_free(p); }
struct Init { Init() { alloc_ctl.active = 1; alloc_ctl.fail_at = -1; } }; static Init init_;
