/*
 * Runs one queue under one schedule of the simulated runtime. One line of stdin per run:
 *   ID IMPL SIZE ESIZE NPROD NITEMS RETRY NREM MODE SEED PACCESS PSYNC PCT START PREEMPTIONS FREEZE
 * PREEMPTIONS: - or comma separated steps (then the schedule is otherwise non-preemptive)
 * Prints "case ID", one line per event, "end".
 *   N ok             creation
 *   i TASK ITEM      insert begins       I TASK ok SPACE   it returns
 *   r 0              remove begins       R 0 ok ITEM COUNT
 */
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sim.h"
#include "libmy/my_queue.h"

extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
static const struct my_queue_ops *ops;
static struct my_queue *q;
static unsigned size, esize, nprod, nitems, retry, nrem, mode;
static volatile int producers_left;

static char out[1 << 20];
static size_t outlen;
#define LOG(...) (outlen += snprintf(out + outlen, sizeof out - outlen, __VA_ARGS__))

static void fill(uint8_t *b, unsigned id) { for (unsigned j = 0; j < esize; j++) b[j] = (uint8_t) (id * 7 + j * 13 + (id >> 5) * j + 1); }
static int ident(const uint8_t *b)
{
	uint8_t w[256];
	for (unsigned id = 1; id <= nprod * nitems; id++) {
		fill(w, id);
		if (!memcmp(w, b, esize)) return (int) id;
	}
	return -1;
}
static void bad(const char *what, const void *p, size_t n, int st)
{
	LOG("X %s\n", what);
}

static void producer(void *arg)
{
	unsigned me = (unsigned) (size_t) arg, seen = 0;
	uint8_t item[256];
	for (unsigned k = 0; k < nitems; k++) {
		unsigned id = (me - 1) * nitems + k + 1;
		for (unsigned a = 0; a <= retry; a++) {
			unsigned space = 77777;
			int want = mode & 1 ? 1 : (id + a) % 3 != 0;
			fill(item, id);
			LOG("i %u %u\n", me, id);
			bool ok = ops->insert(q, item, want ? &space : NULL);
			LOG("I %u %d %d\n", me, ok, want ? (int) space : -1);
			memset(item, 0xEE, sizeof item);
			if (ok) break;
			if (a) sim_point();
		}
		(void) seen;
	}
	producers_left--;
}

static void remove_one(bool *okp)
{
	uint8_t item[256];
	unsigned count = 77777;
	memset(item, 0, sizeof item);
	static unsigned n;
	int want = mode & 1 ? 1 : n++ % 3 != 0;
	LOG("r 0\n");
	bool ok = ops->remove(q, item, want ? &count : NULL);
	*okp = ok;
	LOG("R 0 %d %d %d\n", ok, ok ? ident(item) : 0, want ? (int) count : -1);
}

static void consumer(void *arg)
{
	bool ok;
	for (unsigned k = 0; k < nrem; k++) remove_one(&ok);
	while (producers_left > 0) sim_sleep(1000);
	do remove_one(&ok); while (ok);
}

static void rotate(unsigned k)   /* start with the indexes anywhere in the ring */
{
	uint8_t item[256] = {0};
	while (k--) { ops->insert(q, item, NULL); ops->remove(q, item, NULL); }
}

int main(void)
{
	char id[64], impl[16];
	double pa, ps, fz;
	unsigned long long seed;
	int pct, start;
	char pre[256];
	while (scanf("%63s %15s %u %u %u %u %u %u %u %llu %lf %lf %d %d %255s %lf", id, impl, &size, &esize, &nprod, &nitems, &retry, &nrem, &mode,
		     &seed, &pa, &ps, &pct, &start, pre, &fz) == 16) {
		struct sim_cfg c = { .seed = seed, .p_access = pa, .p_sync = ps, .p_freeze = fz, .pct = pct, .pct_len = 60 * nprod * nitems, .max_steps = 2000000, .start_ns = 1000000000 };
		int script[16], ns = 0;
		if (*pre != '-') {
			for (char *t = strtok(pre, ","); t && ns < 16; t = strtok(NULL, ",")) script[ns++] = atoi(t);
			c.script = script;
			c.nscript = ns;
		}
		alarm(60);   /* a run that does not end is as bad as one that crashes */
		outlen = 0;
		printf("case %s\n", id);
		fflush(stdout);
		sim_on_bad = bad;
		sim_start(&c);
		ops = !strcmp(impl, "mb") ? &my_queue_mb_ops : &my_queue_mutex_ops;
		q = ops->init(size, esize);
		LOG("N %d\n", q != NULL);
		if (q != NULL && nprod > 0) {
			rotate((unsigned) start);
			producers_left = (int) nprod;
			sim_spawn(consumer, NULL);
			for (unsigned p = 1; p <= nprod; p++) sim_spawn(producer, (void *) (size_t) p);
			int r = sim_run();
			if (r != SIM_DONE) LOG("X stuck\n");
		}
		if (q != NULL) ops->destroy(&q);
		if (sim_live(SIM_LIB)) LOG("X leak\n");
		fwrite(out, 1, outlen, stdout);
		printf("end\n");
		fflush(stdout);
	}
	return 0;
}
