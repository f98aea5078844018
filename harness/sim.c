#include "sim.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

#define MAXT 64
#define STACK (256 * 1024)
#define ARENA (48u << 20)

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);

enum { RUNNABLE, BLOCKED, DEAD };
struct task {
	void *sp, *stack;
	void (*fn)(void *);
	void *arg;
	void *(*pfn)(void *);
	void *ret;
	int state;
	const void *on;          /* what it waits for */
	const void *on_cond;     /* condition variable, if waiting for one */
	int64_t deadline;        /* INT64_MAX: none */
	bool timed_out;
	bool frozen;             /* not to run while anything else can */
	int prio;
	int group;
};
static struct task T[MAXT];
static int nt, cur;
static void *main_sp;
static struct sim_cfg C;
static uint64_t rng;
static int64_t now_ns;
uint64_t sim_steps;
int64_t sim_realtime_offset;
volatile int sim_quiet;
volatile int sim_region;
static int result;
static int running;
static uint64_t change_at[32];
static int low_prio;
static uint64_t th_access, th_sync, th_spur, th_freeze;
static int script_pos;
void (*sim_on_bad)(const char *, const void *, size_t, int);
void (*sim_on_join)(void);

static uint64_t rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1DULL;
}
uint64_t sim_rand(uint64_t n) { return (rnd() >> 16) % n; }
static uint64_t thr(double p) { return (uint64_t) (p * 4294967295.0); }
static bool coin(uint64_t t) { return t && (rnd() >> 32) < t; }

/* ------------------------------------------------------------------ arena */
static uint8_t *arena, *shadow;
static size_t used;
struct hdr { size_t size; int kind; short live, group; };
#define MAXG 32
static size_t live_n[MAXG][3];

void *sim_alloc(size_t n, int kind)
{
	size_t need = (sizeof(struct hdr) + n + 32 + 15) & ~(size_t) 15;
	if (used + need > ARENA) { fprintf(stderr, "arena exhausted\n"); exit(98); }
	struct hdr *h = (struct hdr *) (arena + used);
	h->size = n; h->kind = kind; h->live = 1; h->group = (short) (running ? T[cur].group : 0);
	uint8_t *p = (uint8_t *) (h + 1);
	__real_memset(shadow + (p - arena), kind, n);
	__real_memset(p, 0xA5, n);
	used += need;
	live_n[h->group][kind]++;
	return p;
}

void (*sim_on_free)(void *);
static bool in_arena(const void *p) { return (uint8_t *) p >= arena && (uint8_t *) p < arena + ARENA; }

void sim_release(void *p)
{
	struct hdr *h = (struct hdr *) p - 1;
	if (!in_arena(p) || !h->live || shadow[(uint8_t *) p - arena] == 0 && h->size) {
		if (sim_on_bad) sim_on_bad("bad free", p, 0, 2);
		return;
	}
	h->live = 0;
	live_n[h->group][h->kind]--;
	__real_memset(shadow + ((uint8_t *) p - arena), 0x80 | h->kind, h->size);
	__real_memset(p, 0xDD, h->size);
}

int sim_state(const void *p, size_t n)
{
	if (!in_arena(p)) return 0;
	size_t o = (uint8_t *) p - arena;
	for (size_t i = 0; i < n; i++) {
		if (shadow[o + i] & 0x80) return 2;
		if (!shadow[o + i]) return 1;
	}
	return 0;
}
size_t sim_live(int kind)
{
	if (running) return live_n[T[cur].group][kind];
	size_t n = 0;
	for (int g = 0; g < MAXG; g++) n += live_n[g][kind];
	return n;
}

static void chk(const char *what, const void *p, size_t n)
{
	if (in_arena(p)) {
		int s = sim_state(p, n);
		if (s && sim_on_bad) { sim_quiet++; sim_on_bad(what, p, n, s); sim_quiet--; }
	}
}

/* ------------------------------------------------------------------ scheduler */
__attribute__((naked, noinline)) static void sw(void **from, void *to)
{
	__asm__("push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
		"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
		"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");
}

static void finish(int r) { result = r; sw(&T[cur].sp, main_sp); }

static void tramp(void)
{
	struct task *t = &T[cur];
	if (t->pfn) t->ret = t->pfn(t->arg); else t->fn(t->arg);
	t = &T[cur];
	t->state = DEAD;
	for (int i = 0; i < nt; i++)
		if (T[i].state == BLOCKED && T[i].on == (void *) t) T[i].state = RUNNABLE;
	extern void sim_dispatch(void);
	sim_dispatch();
	abort();
}

static int spawn(void (*fn)(void *), void *(*pfn)(void *), void *arg)
{
	if (nt == MAXT) { fprintf(stderr, "too many tasks\n"); exit(98); }
	struct task *t = &T[nt];
	void *stk = t->stack;
	__real_memset(t, 0, sizeof *t);
	t->stack = stk ? stk : mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	t->fn = fn; t->pfn = pfn; t->arg = arg; t->deadline = INT64_MAX;
	t->group = running ? T[cur].group : 0;
	t->prio = 1000 + (int) sim_rand(1000000);
	uint64_t *sp = (uint64_t *) ((char *) t->stack + STACK - 64);
	*--sp = 0;
	*--sp = (uint64_t) tramp;
	for (int i = 0; i < 6; i++) *--sp = 0;
	t->sp = sp;
	t->state = RUNNABLE;
	return nt++;
}

/* Chooses the next task; never returns to a dead one. */
void sim_dispatch(void)
{
	int run[MAXT], n;
	for (;;) {
		n = 0;
		for (int i = 0; i < nt; i++) {
			if (T[i].state == BLOCKED && T[i].deadline <= now_ns) {
				T[i].state = RUNNABLE;
				T[i].timed_out = true;
			}
			if (T[i].state == BLOCKED && T[i].on_cond && coin(th_spur))
				T[i].state = RUNNABLE;
			if (T[i].state == RUNNABLE) run[n++] = i;
		}
		if (n) {
			int m = 0;
			for (int i = 0; i < n; i++) if (!T[run[i]].frozen) run[m++] = run[i];
			if (m) n = m;
			else T[run[sim_rand(n)]].frozen = false;
			if (!m) {   /* everybody else waits for something: one frozen task goes on */
				m = 0;
				for (int i = 0; i < n; i++) if (!T[run[i]].frozen) run[m++] = run[i];
				n = m;
			}
			break;
		}
		int64_t next = INT64_MAX;
		bool all = true;
		for (int i = 0; i < nt; i++) {
			if (T[i].state != DEAD) all = false;
			if (T[i].state == BLOCKED && T[i].deadline < next) next = T[i].deadline;
		}
		if (all) finish(SIM_DONE);
		if (next == INT64_MAX) finish(SIM_DEADLOCK);
		now_ns = next;
	}
	int pick;
	if (C.script) {   /* the next runnable task after the current one */
		pick = run[0];
		for (int i = n - 1; i >= 0; i--) if (run[i] > cur) pick = run[i];
	} else if (C.pct && sim_steps < 300000) {
		pick = run[0];
		for (int i = 1; i < n; i++) if (T[run[i]].prio > T[pick].prio) pick = run[i];
	} else
		pick = run[sim_rand(n)];
	if (pick != cur || T[cur].state == DEAD) {
		int old = cur, q = sim_quiet, rg = sim_region, en = errno;
		cur = pick;
		sim_quiet = 0;   /* these belong to the task */
		sim_region = 0;
		errno = 0;
		sw(&T[old].sp, T[pick].sp);
		errno = en;
		sim_quiet = q;
		sim_region = rg;
	}
}

static void step(void)
{
	if (++sim_steps > C.max_steps) finish(SIM_STEPS);
	if (C.pct)
		for (int i = 0; i < C.pct; i++)
			if (change_at[i] == sim_steps) { T[cur].prio = low_prio--; sim_dispatch(); }
}

/* Is a preemption due at this step? */
static bool forced(void)
{
	if (script_pos < C.nscript && (uint64_t) C.script[script_pos] <= sim_steps) { script_pos++; return true; }
	return false;
}

static bool freeze(void)
{
	if (C.freeze_region && !sim_region) return false;
	if (!coin(th_freeze)) return false;
	T[cur].frozen = true;
	sim_dispatch();
	T[cur].frozen = false;
	return true;
}

static void access_point(void)
{
	if (!running || sim_quiet) return;
	step();
	if (freeze()) return;
	if (!C.pct || sim_steps >= 300000) {
		if (C.script || coin(th_access)) { if (!C.script || forced()) sim_dispatch(); }
	}
}

void sim_point(void)
{
	if (!running) return;
	step();
	if (!sim_quiet && freeze()) return;
	if (C.pct && sim_steps < 300000) sim_dispatch();
	else if (C.script) { if (forced() || sim_steps >= 300000) sim_dispatch(); }
	else if (coin(th_sync) || sim_steps >= 300000) sim_dispatch();
}

static bool block(const void *on, int64_t deadline)   /* returns true if timed out */
{
	struct task *t = &T[cur];
	t->state = BLOCKED; t->on = on; t->deadline = deadline; t->timed_out = false;
	if (++sim_steps > C.max_steps) finish(SIM_STEPS);
	sim_dispatch();
	T[cur].on = NULL; T[cur].deadline = INT64_MAX;
	return T[cur].timed_out;
}
static void wake(const void *on, bool all)
{
	int c[MAXT], n = 0;
	for (int i = 0; i < nt; i++)
		if (T[i].state == BLOCKED && T[i].on == on) c[n++] = i;
	if (!n) return;
	if (all) for (int i = 0; i < n; i++) T[c[i]].state = RUNNABLE;
	else T[c[sim_rand(n)]].state = RUNNABLE;
}

static void mutex_reset(void);
void sim_start(const struct sim_cfg *c)
{
	if (!arena) {
		arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		shadow = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	__real_memset(shadow, 0, used);
	used = 0;
	__real_memset(live_n, 0, sizeof live_n);
	C = *c;
	rng = c->seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
	for (int i = 0; i < 8; i++) rnd();
	nt = 0; cur = 0; sim_steps = 0; now_ns = c->start_ns; low_prio = 900; script_pos = 0;
	th_access = thr(c->p_access); th_sync = thr(c->p_sync); th_spur = thr(c->p_spurious); th_freeze = thr(c->p_freeze);
	for (int i = 0; i < c->pct && i < 32; i++) change_at[i] = 1 + sim_rand(c->pct_len ? c->pct_len : 1);
	mutex_reset();
	sim_quiet = 0;
	sim_region = 0;
}
int sim_spawn(void (*fn)(void *), void *arg) { return spawn(fn, NULL, arg); }
int sim_run(void)
{
	running = 1;
	result = SIM_DONE;
	cur = 0;
	sw(&main_sp, T[0].sp);
	running = 0;
	return result;
}
int sim_self(void) { return cur; }
int sim_others_alive(void) { int n = 0; for (int i = 0; i < nt; i++) n += i != cur && T[i].group == T[cur].group && T[i].state != DEAD; return n; }
int sim_group(void) { return T[cur].group; }
void sim_set_group(int g) { T[cur].group = g % MAXG; }
bool sim_alive(int t) { return T[t].state != DEAD; }
void sim_sleep(int64_t ns) { static char key; block(&key, now_ns + (ns < 0 ? 0 : ns)); }
void sim_wait_flag(volatile int *f) { while (!*f) block((const void *) f, INT64_MAX); }
void sim_set_flag(volatile int *f) { *f = 1; wake((const void *) f, true); }
int64_t sim_now(void) { return now_ns; }

/* ------------------------------------------------------------------ pthread */
#define MAXM 4096
static struct { const void *a; int owner; int n; clockid_t clk; } M[MAXM];
static int nm;
static void mutex_reset(void) { nm = 0; }
static int mfind(const void *a)
{
	for (int i = nm - 1; i >= 0; i--) if (M[i].a == a) return i;
	if (nm == MAXM) { fprintf(stderr, "too many mutexes\n"); exit(98); }
	M[nm].a = a; M[nm].owner = -1; M[nm].n = 0; M[nm].clk = CLOCK_REALTIME;
	return nm++;
}

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{ chk("mutex init", m, sizeof *m); __real_memset(m, 0, sizeof *m); M[mfind(m)].owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { chk("mutex destroy", m, sizeof *m); return M[mfind(m)].owner >= 0 ? EBUSY : 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	sim_point();
	chk("mutex lock", m, sizeof *m);
	int i = mfind(m);
	if (!running) { M[i].owner = 0; return 0; }
	while (M[i].owner >= 0) block(m, INT64_MAX);
	M[i].owner = cur;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	sim_point();
	chk("mutex trylock", m, sizeof *m);
	int i = mfind(m);
	if (M[i].owner >= 0) return EBUSY;
	M[i].owner = running ? cur : 0;
	return 0;
}
static int64_t abs_ns(clockid_t c, const struct timespec *ts)
{
	int64_t v = ts->tv_sec * 1000000000LL + ts->tv_nsec;
	return c == CLOCK_REALTIME ? v - sim_realtime_offset : v;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	sim_point();
	int i = mfind(m);
	while (M[i].owner >= 0)
		if (block(m, abs_ns(CLOCK_REALTIME, ts)) && M[i].owner >= 0) return ETIMEDOUT;
	M[i].owner = cur;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	chk("mutex unlock", m, sizeof *m);
	int i = mfind(m);
	if (running && M[i].owner != cur) return EPERM;
	M[i].owner = -1;
	wake(m, true);
	sim_point();
	return 0;
}
int __wrap_pthread_condattr_init(pthread_condattr_t *a) { *(int *) a = CLOCK_REALTIME; return 0; }
int __wrap_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int __wrap_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL;
	*(int *) a = c;
	return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	chk("cond init", c, sizeof *c);
	__real_memset(c, 0, sizeof *c);
	M[mfind(c)].clk = a ? *(const int *) a : CLOCK_REALTIME;
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { chk("cond destroy", c, sizeof *c); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl)
{
	chk("cond wait", c, sizeof *c);
	int i = mfind(m);
	if (M[i].owner != cur) return EPERM;
	sim_point();
	M[i].owner = -1;
	wake(m, true);
	T[cur].on_cond = c;
	bool to;
	if (dl <= now_ns) { to = true; T[cur].on_cond = NULL; sim_point(); }
	else { to = block(c, dl); T[cur].on_cond = NULL; }
	while (M[i].owner >= 0) block(m, INT64_MAX);
	M[i].owner = cur;
	return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, INT64_MAX); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return cond_wait(c, m, abs_ns(M[mfind(c)].clk, ts));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return cond_wait(c, m, abs_ns(k, ts));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { sim_point(); chk("cond signal", c, sizeof *c); wake(c, false); sim_point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { sim_point(); chk("cond broadcast", c, sizeof *c); wake(c, true); sim_point(); return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int id = spawn(NULL, fn, arg);
	*t = id + 1;
	sim_point();
	return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret)
{
	if (sim_on_join) sim_on_join();
	sim_point();
	int id = (int) t - 1;
	if (id < 0 || id >= nt) return ESRCH;
	while (T[id].state != DEAD) block(&T[id], INT64_MAX);
	if (ret) *ret = T[id].ret;
	return 0;
}
int __wrap_pthread_detach(pthread_t t) { return 0; }
pthread_t __wrap_pthread_self(void) { return cur + 1; }
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return 0; }
int __wrap_sched_yield(void) { if (C.pct && running) T[cur].prio = low_prio--; if (running) { step(); sim_dispatch(); } return 0; }

int __wrap_sem_init(sem_t *s, int sh, unsigned v) { M[mfind(s)].n = (int) v; return 0; }
int __wrap_sem_destroy(sem_t *s) { return 0; }
int __wrap_sem_post(sem_t *s) { sim_point(); M[mfind(s)].n++; wake(s, false); return 0; }
int __wrap_sem_wait(sem_t *s) { sim_point(); int i = mfind(s); while (M[i].n <= 0) block(s, INT64_MAX); M[i].n--; return 0; }
int __wrap_sem_trywait(sem_t *s) { sim_point(); int i = mfind(s); if (M[i].n <= 0) { errno = EAGAIN; return -1; } M[i].n--; return 0; }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts)
{
	sim_point();
	int i = mfind(s);
	while (M[i].n <= 0)
		if (block(s, abs_ns(CLOCK_REALTIME, ts)) && M[i].n <= 0) { errno = ETIMEDOUT; return -1; }
	M[i].n--;
	return 0;
}

/* ------------------------------------------------------------------ clocks */
static void to_ts(int64_t v, struct timespec *ts) { ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	sim_point();
	to_ts(now_ns + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_realtime_offset : 0), ts);
	return 0;
}
int __wrap_clock_getres(clockid_t c, struct timespec *ts) { if (ts) to_ts(1, ts); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	sim_point();
	int64_t v = now_ns + sim_realtime_offset;
	tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000;
	return 0;
}
time_t __wrap_time(time_t *t) { sim_point(); time_t v = (now_ns + sim_realtime_offset) / 1000000000; if (t) *t = v; return v; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { sim_sleep(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	int64_t v = a->tv_sec * 1000000000LL + a->tv_nsec;
	if (fl & TIMER_ABSTIME) v = abs_ns(c, a) - now_ns;
	sim_sleep(v);
	return 0;
}
int __wrap_usleep(unsigned u) { sim_sleep(u * 1000LL); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep(s * 1000000000LL); return 0; }

/* ------------------------------------------------------------------ memory */
void *__wrap_malloc(size_t n) { return sim_alloc(n, SIM_LIB); }
void *__wrap_calloc(size_t n, size_t s)
{
	size_t t;
	if (__builtin_mul_overflow(n, s, &t)) return NULL;
	void *p = sim_alloc(t, SIM_LIB);
	__real_memset(p, 0, t);
	return p;
}
void *__wrap_realloc(void *p, size_t n)
{
	void *q = sim_alloc(n, SIM_LIB);
	if (p) {
		size_t o = ((struct hdr *) p - 1)->size;
		__real_memcpy(q, p, o < n ? o : n);
		sim_release(p);
	}
	return q;
}
void __wrap_free(void *p)
{
	if (!p) return;
	if (sim_on_free && in_arena(p)) sim_on_free(p);
	if (in_arena(p)) sim_release(p); else __real_free(p);
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
	chk("memcpy to", d, n); chk("memcpy from", s, n);
	if (!running || sim_quiet || n < 2) { access_point(); return __real_memcpy(d, s, n); }
	size_t h = n / 2;
	access_point();
	__real_memcpy(d, s, h);
	access_point();
	chk("memcpy to", d, n); chk("memcpy from", s, n);
	__real_memcpy((char *) d + h, (const char *) s + h, n - h);
	return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{ chk("memmove to", d, n); chk("memmove from", s, n); access_point(); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { chk("memset", d, n); access_point(); return __real_memset(d, c, n); }

void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define ACC(n) \
	void __tsan_read##n(void *p) { access_point(); chk("read", p, n); } \
	void __tsan_write##n(void *p) { access_point(); chk("write", p, n); } \
	void __tsan_unaligned_read##n(void *p) { access_point(); chk("read", p, n); } \
	void __tsan_unaligned_write##n(void *p) { access_point(); chk("write", p, n); } \
	void __tsan_volatile_read##n(void *p) { access_point(); chk("read", p, n); } \
	void __tsan_volatile_write##n(void *p) { access_point(); chk("write", p, n); } \
	void __tsan_unaligned_volatile_read##n(void *p) { access_point(); chk("read", p, n); } \
	void __tsan_unaligned_volatile_write##n(void *p) { access_point(); chk("write", p, n); } \
	void __tsan_read_write##n(void *p) { access_point(); chk("write", p, n); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { access_point(); chk("read", p, n); }
void __tsan_write_range(void *p, size_t n) { access_point(); chk("write", p, n); }
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_vptr_read(void *a) {}
#define AT(b, t) \
	t __tsan_atomic##b##_load(const volatile t *p, int o) { access_point(); chk("read", (void *) p, sizeof *p); return *p; } \
	void __tsan_atomic##b##_store(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); *p = v; access_point(); } \
	t __tsan_atomic##b##_exchange(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = v; return r; } \
	t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = r + v; return r; } \
	t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = r - v; return r; } \
	t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = r & v; return r; } \
	t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = r | v; return r; } \
	t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = r ^ v; return r; } \
	t __tsan_atomic##b##_fetch_nand(volatile t *p, t v, int o) { access_point(); chk("write", (void *) p, sizeof *p); t r = *p; *p = ~(r & v); return r; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) { access_point(); chk("write", (void *) p, sizeof *p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, o, f); } \
	t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t e, t v, int o, int f) { access_point(); t r = *p; if (r == e) *p = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { access_point(); }
void __tsan_atomic_signal_fence(int o) {}
