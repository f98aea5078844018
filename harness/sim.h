/*
 * A deterministic runtime for threaded library code: threads are coroutines, every memory access
 * (instrumented with -fsanitize=thread, whose run time is replaced by this one) and every pthread or
 * clock call is a scheduling point, time is virtual, and memory comes from an arena that knows what
 * is live. One seed is one schedule.
 */
#ifndef SIM_H
#define SIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

enum { SIM_LIB = 1, SIM_USER = 2 };             /* arena block kinds */
enum { SIM_DONE, SIM_DEADLOCK, SIM_STEPS };

struct sim_cfg {
	uint64_t seed;
	double p_access;      /* probability of a switch at a memory access */
	double p_sync;        /* probability of a switch at a synchronisation point */
	int pct;              /* >0: priority schedule with that many change points instead */
	unsigned pct_len;     /* assumed schedule length for placing change points */
	double p_spurious;    /* probability of a spurious wakeup at a scheduling decision */
	double p_freeze;      /* probability of suspending the task until all others wait */
	bool freeze_region;   /* ... only while it has sim_region set */
	int64_t start_ns;     /* virtual monotonic time at the start */
	uint64_t max_steps;
	const int *script; int nscript;   /* if set: switch tasks only when blocked and at these steps */
};

void sim_start(const struct sim_cfg *);
int sim_spawn(void (*fn)(void *), void *arg);   /* returns the task number */
int sim_run(void);                              /* runs until all tasks end; SIM_* */
int sim_self(void);
bool sim_alive(int task);
int sim_others_alive(void);                     /* ... of the same group */
int sim_group(void);                            /* groups are inherited by the threads a task creates */
void sim_set_group(int g);
void sim_point(void);                           /* synchronisation point */
void sim_sleep(int64_t ns);
void sim_wait_flag(volatile int *flag);         /* block until *flag != 0 (set by another task through sim_set_flag) */
void sim_set_flag(volatile int *flag);
int64_t sim_now(void);
uint64_t sim_rand(uint64_t n);
void *sim_alloc(size_t n, int kind);
void sim_release(void *p);                      /* frees an arena block of any kind */
int sim_state(const void *p, size_t n);         /* 0: all live, 1: outside any block, 2: freed */
size_t sim_live(int kind);                      /* live blocks of a kind (inside a task: allocated by its group) */
extern void (*sim_on_bad)(const char *what, const void *addr, size_t n, int state);
extern void (*sim_on_free)(void *);             /* called before memory of the arena is freed */
extern void (*sim_on_join)(void);               /* called in the joining task before a join */
extern uint64_t sim_steps;
extern int64_t sim_realtime_offset;
extern volatile int sim_region;                 /* per task */
extern volatile int sim_quiet;                  /* >0: harness code, no scheduling at accesses */
#endif
