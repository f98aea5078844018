/*
 * Whole lives of I/O thread objects and bare transports, with the books of ledger.c (see lib/memcheck.py).
 * One line per case: iothr MODEL QUEUES INSIZE OUTSIZE BATCH OPENFAILS WRITEFAIL BIDIR FRAMES PAUSE_MS
 */
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <fstrm.h>
#include "ledger.h"

static int openfails, bidir;
static long wfail, outpos, inpos;
static const uint8_t in[] = { 0,0,0,0, 0,0,0,12+2, 0,0,0,1, 0,0,0,1, 0,0,0,2, 'c','t', 0,0,0,0, 0,0,0,4, 0,0,0,5 };
static fstrm_res t_open(void *o) { if (openfails > 0) { openfails--; return fstrm_res_failure; } outpos = inpos = 0; return fstrm_res_success; }
static fstrm_res t_ok(void *o) { return fstrm_res_success; }
static fstrm_res t_read(void *o, void *b, size_t n)
{
	if (n > sizeof in - inpos) return fstrm_res_failure;
	memcpy(b, in + inpos, n);
	inpos += n;
	return fstrm_res_success;
}
static fstrm_res t_write(void *o, const struct iovec *v, int n)
{
	for (int i = 0; i < n; i++) outpos += v[i].iov_len;
	return wfail >= 0 && outpos > wfail ? fstrm_res_failure : fstrm_res_success;
}
/* Clocks that are not there. */
static volatile int noclock;
int __real_clock_gettime(clockid_t c, struct timespec *t);
int __real_clock_getres(clockid_t c, struct timespec *t);
int __real_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (noclock) { errno = EINVAL; return -1; } return __real_clock_gettime(c, t); }
int __wrap_clock_getres(clockid_t c, struct timespec *t) { if (noclock) { errno = EINVAL; return -1; } return __real_clock_getres(c, t); }
int __wrap_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { if (noclock) return EINVAL; return __real_pthread_condattr_setclock(a, c); }
static struct fstrm_rdwr *transport(void)
{
	struct fstrm_rdwr *r = fstrm_rdwr_init(&bidir);
	fstrm_rdwr_set_open(r, t_open);
	fstrm_rdwr_set_close(r, t_ok);
	if (openfails % 2 == 0) fstrm_rdwr_set_destroy(r, t_ok);
	fstrm_rdwr_set_write(r, t_write);
	if (bidir) fstrm_rdwr_set_read(r, t_read);
	return r;
}
int main(void)
{
	int id, model, nq, insize, outsize, batch, frames, pause;
	while (scanf("%d %d %d %d %d %d %d %ld %d %d %d", &id, &model, &nq, &insize, &outsize, &batch, &openfails, &wfail, &bidir, &frames, &pause) == 11) {
		alarm(60);   /* a run that does not end is as bad as one that crashes */
		printf("case %d\n", id);
		fflush(stdout);
		ledger_start();
		struct fstrm_rdwr *rd = transport();
		LEDGER("new rdwr");
		fstrm_rdwr_destroy(&rd);
		LEDGER("gone rdwr %d", rd == NULL);
		fstrm_rdwr_destroy(&rd);
		LEDGER("again");
		/* Creations that are refused: a transport that cannot do what is needed, a thread without a clock. */
		struct fstrm_reader_options *ro = fstrm_reader_options_init();
		LEDGER("new opts");
		fstrm_reader_options_add_content_type(ro, "ct", 2);
		LEDGER("call");
		for (int k = 0; k < 3; k++) {
			rd = fstrm_rdwr_init(&bidir);
			if (k < 2) fstrm_rdwr_set_write(rd, t_write);
			else fstrm_rdwr_set_read(rd, t_read);
			fstrm_rdwr_set_destroy(rd, t_ok);
			LEDGER("new rdwr");
			struct fstrm_reader *r = k < 2 ? fstrm_reader_init(k ? ro : NULL, &rd) : NULL;
			struct fstrm_writer *w = k < 2 ? NULL : fstrm_writer_init(NULL, &rd);
			LEDGER("refuse handle");
			if (r || w || !rd) printf("X not refused\n");
			fstrm_rdwr_destroy(&rd);
			LEDGER("gone rdwr %d", rd == NULL);
		}
		fstrm_reader_options_destroy(&ro);
		LEDGER("gone opts %d", ro == NULL);
		struct fstrm_writer_options *wo = fstrm_writer_options_init();
		LEDGER("new opts");
		fstrm_writer_options_add_content_type(wo, "ct", 2);
		LEDGER("call");
		rd = transport();
		LEDGER("new rdwr");
		struct fstrm_writer *w = fstrm_writer_init(wo, &rd);
		if (rd || !w) printf("X writer\n");
		LEDGER("call");
		fstrm_writer_options_destroy(&wo);
		LEDGER("gone opts %d", wo == NULL);
		struct fstrm_iothr_options *o = fstrm_iothr_options_init();
		LEDGER("new opts");
		fstrm_iothr_options_set_num_input_queues(o, nq);
		fstrm_iothr_options_set_input_queue_size(o, insize);
		fstrm_iothr_options_set_output_queue_size(o, outsize);
		fstrm_iothr_options_set_queue_notify_threshold(o, 1);
		fstrm_iothr_options_set_buffer_hint(o, batch);
		fstrm_iothr_options_set_flush_timeout(o, 1);
		fstrm_iothr_options_set_queue_model(o, model ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC);
		LEDGER("call");
		noclock = 1;
		struct fstrm_iothr *io = fstrm_iothr_init(o, &w);
		noclock = 0;
		if (io) printf("X thread without a clock\n");
		LEDGER("refuse iothr");
		io = fstrm_iothr_init(o, &w);
		if (w || !io) printf("X thread\n");
		for (int i = 0; i < frames && io; i++) {
			struct fstrm_iothr_queue *q = i % 3 ? fstrm_iothr_get_input_queue_idx(io, i % nq) : i < nq ? fstrm_iothr_get_input_queue(io) : NULL;
			if (q == NULL) q = fstrm_iothr_get_input_queue_idx(io, 0);
			char *p = malloc(9);
			memset(p, 'f', 9);
			if (fstrm_iothr_submit(io, q, p, 9, fstrm_free_wrapper, NULL) != fstrm_res_success) free(p);
		}
		usleep(pause * 1000);
		fstrm_iothr_destroy(&io);
		LEDGER("gone iothr %d", io == NULL);
		fstrm_iothr_destroy(&io);
		LEDGER("again");
		fstrm_iothr_options_destroy(&o);
		LEDGER("gone opts %d", o == NULL);
		LEDGER("end");
		printf("end\n");
		fflush(stdout);
	}
	return 0;
}
