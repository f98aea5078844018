/*
 * Books of the memory that the library holds: linked with --wrap for the allocation functions (the harness files
 * themselves are compiled to call the real ones).
 */
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

#define N (1 << 16)
static void *tab[N];
static long live;
static int busy;
#define LOCK() while (__sync_lock_test_and_set(&busy, 1)) sched_yield()
#define UNLOCK() __sync_lock_release(&busy)
static size_t slot(void *p) { return ((uintptr_t) p >> 4) * 2654435761u % N; }
static void note(void *p)
{
	if (!p) return;
	LOCK();
	size_t i = slot(p);
	while (tab[i] && tab[i] != (void *) 1) i = (i + 1) % N;
	tab[i] = p;
	live++;
	UNLOCK();
}
static int drop(void *p)
{
	int found = 0;
	LOCK();
	for (size_t i = slot(p); tab[i]; i = (i + 1) % N)
		if (tab[i] == p) { tab[i] = (void *) 1; live--; found = 1; break; }
	UNLOCK();
	return found;
}
long ledger_live(void) { return live; }
void ledger_start(void) { memset(tab, 0, sizeof tab); live = 0; }

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); note(p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); note(p); return p; }
void *__wrap_realloc(void *o, size_t n)
{
	int had = o && drop(o);
	void *p = __real_realloc(o, n);
	if (p) note(p); else if (had && n) note(o);
	return p;
}
void *__wrap_reallocarray(void *o, size_t n, size_t m) { return __wrap_realloc(o, n * m); }
void __wrap_free(void *p) { if (p) drop(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_vasprintf(char **o, const char *f, va_list a)
{
	va_list b;
	va_copy(b, a);
	int n = vsnprintf(NULL, 0, f, b);
	va_end(b);
	*o = __wrap_malloc(n + 1);
	return vsnprintf(*o, n + 1, f, a);
}
int __wrap_asprintf(char **o, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	int n = __wrap_vasprintf(o, f, a);
	va_end(a);
	return n;
}
int __wrap_posix_memalign(void **o, size_t al, size_t n) { *o = __wrap_malloc(n); return *o ? 0 : 12; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return __wrap_malloc(n); }
