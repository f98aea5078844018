/*
 * Several drivers as tasks of one simulated process: objects of all kinds in use at the same time, the
 * turn going to another task after any call and at any memory access inside the library. Input:
 *   run ID SEED P_ACCESS P_SYNC NPARTS
 *   part KIND BYTES    followed by that much input for the driver KIND (io1 io2 ctl1 ctl2 sock1 sock2 file1 file2 iothr1 iothr2)
 * Output: run ID, part KIND BYTES followed by what it printed, .., "over RESULT"
 */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <poll.h>
#include <unistd.h>
#include "sim.h"

#define KINDS(F) F(io1) F(io2) F(ctl1) F(ctl2) F(sock1) F(sock2) F(file1) F(file2) F(iothr1) F(iothr2)
#define DECL(k) int iso_main_##k(void);
KINDS(DECL)
static const struct { const char *name; int (*fn)(void); } kinds[] = {
#define ENT(k) { #k, iso_main_##k },
KINDS(ENT)
};
static struct part { int kind; FILE *in, *out; char *ib, *ob; size_t il, ol; } parts[16];
static int nparts;
static struct part *me(void)
{
	return &parts[sim_group() - 1];
}
FILE *iso_in(void) { return me()->in; }
FILE *iso_out(void) { return me()->out; }
int iso_flush(FILE *f) { sim_point(); return 0; }

/* System calls go to the simulated kernel of the task. */
#define TWO(ret, sysc, params, args) \
	ret __real_##sysc params; ret iso_##sysc##_sock1 params; ret iso_##sysc##_sock2 params; \
	ret __wrap_##sysc params { const char *k = nparts ? kinds[me()->kind].name : ""; \
		return !strcmp(k, "sock1") ? iso_##sysc##_sock1 args : !strcmp(k, "sock2") ? iso_##sysc##_sock2 args : __real_##sysc args; }
TWO(int, socket, (int a, int b, int c), (a, b, c))
TWO(int, connect, (int a, const struct sockaddr *b, socklen_t c), (a, b, c))
TWO(int, close, (int a), (a))
TWO(ssize_t, sendmsg, (int a, const struct msghdr *b, int c), (a, b, c))
TWO(ssize_t, writev, (int a, const struct iovec *b, int c), (a, b, c))
TWO(ssize_t, send, (int a, const void *b, size_t c, int d), (a, b, c, d))
TWO(ssize_t, sendto, (int a, const void *b, size_t c, int d, const struct sockaddr *e, socklen_t f), (a, b, c, d, e, f))
TWO(ssize_t, write, (int a, const void *b, size_t c), (a, b, c))
TWO(ssize_t, read, (int a, void *b, size_t c), (a, b, c))
TWO(ssize_t, recv, (int a, void *b, size_t c, int d), (a, b, c, d))
TWO(ssize_t, recvfrom, (int a, void *b, size_t c, int d, struct sockaddr *e, socklen_t *f), (a, b, c, d, e, f))
TWO(ssize_t, recvmsg, (int a, struct msghdr *b, int c), (a, b, c))
TWO(ssize_t, readv, (int a, const struct iovec *b, int c), (a, b, c))
TWO(int, setsockopt, (int a, int b, int c, const void *d, socklen_t e), (a, b, c, d, e))
TWO(int, getsockopt, (int a, int b, int c, void *d, socklen_t *e), (a, b, c, d, e))
TWO(int, shutdown, (int a, int b), (a, b))
TWO(int, poll, (struct pollfd *a, nfds_t b, int c), (a, b, c))
TWO(int, select, (int a, fd_set *b, fd_set *c, fd_set *d, struct timeval *e), (a, b, c, d, e))
int __real_fcntl(int, int, ...), iso_fcntl_sock1(int, int, ...), iso_fcntl_sock2(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	const char *k = nparts ? kinds[me()->kind].name : "";
	return !strcmp(k, "sock1") ? iso_fcntl_sock1(fd, cmd, a) : !strcmp(k, "sock2") ? iso_fcntl_sock2(fd, cmd, a) : __real_fcntl(fd, cmd, a);
}

/* The hooks of the simulated process go to the part at work. */
#define HOOKS(k) void (*iso_on_bad_##k)(const char *, const void *, size_t, int), (*iso_on_free_##k)(void *), (*iso_on_join_##k)(void);
HOOKS(iothr1) HOOKS(iothr2)
static int thr(void) { int g = sim_group(); return !g ? 0 : !strcmp(kinds[parts[g - 1].kind].name, "iothr1") ? 1 : !strcmp(kinds[parts[g - 1].kind].name, "iothr2") ? 2 : 0; }
struct fstrm_writer;
int iso_wv_iothr1(struct fstrm_writer *, const struct iovec *, int), iso_wv_iothr2(struct fstrm_writer *, const struct iovec *, int), __real_fstrm_writer_writev(struct fstrm_writer *, const struct iovec *, int);
int __wrap_fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *v, int n)
{
	int t = thr();
	return t == 1 ? iso_wv_iothr1(w, v, n) : t == 2 ? iso_wv_iothr2(w, v, n) : __real_fstrm_writer_writev(w, v, n);
}
static char what[200];
static void bad(const char *w, const void *a, size_t n, int st)
{
	int t = thr();
	if (t == 1 && iso_on_bad_iothr1) iso_on_bad_iothr1(w, a, n, st);
	else if (t == 2 && iso_on_bad_iothr2) iso_on_bad_iothr2(w, a, n, st);
	else snprintf(what, sizeof what, "%s", w);
}
static void on_free(void *p)
{
	int t = thr();
	if (t == 1 && iso_on_free_iothr1) iso_on_free_iothr1(p);
	if (t == 2 && iso_on_free_iothr2) iso_on_free_iothr2(p);
}
static void on_join(void)
{
	int t = thr();
	if (t == 1 && iso_on_join_iothr1) iso_on_join_iothr1();
	if (t == 2 && iso_on_join_iothr2) iso_on_join_iothr2();
}

static void task(void *arg)
{
	sim_set_group(1 + (int) ((struct part *) arg - parts));
	struct part *p = arg;
	kinds[p->kind].fn();
}

int main(void)
{
	char id[32], kind[32], line[256];
	unsigned long long seed;
	double pa, ps;
	int n;
	while (fgets(line, sizeof line, stdin)) {
		if (sscanf(line, "run %31s %llu %lf %lf %d", id, &seed, &pa, &ps, &n) != 5) return 98;
		alarm(60);
		printf("run %s\n", id);
		fflush(stdout);
		*what = 0;
		for (int i = 0; i < n; i++) {
			struct part *p = &parts[i];
			if (!fgets(line, sizeof line, stdin) || sscanf(line, "part %31s %zu", kind, &p->il) != 2) return 98;
			p->kind = -1;
			for (unsigned k = 0; k < sizeof kinds / sizeof *kinds; k++) if (!strcmp(kinds[k].name, kind)) p->kind = (int) k;
			p->ib = malloc(p->il + 1);
			if (p->kind < 0 || fread(p->ib, 1, p->il, stdin) != p->il) return 98;
			p->in = fmemopen(p->ib, p->il, "r");
			p->out = open_memstream(&p->ob, &p->ol);
		}
		struct sim_cfg c = { .seed = seed, .p_access = pa, .p_sync = ps, .max_steps = 100000000, .start_ns = 1000000000 };
		sim_on_bad = bad; sim_on_free = on_free; sim_on_join = on_join;
		iso_on_bad_iothr1 = iso_on_bad_iothr2 = NULL; iso_on_free_iothr1 = iso_on_free_iothr2 = NULL; iso_on_join_iothr1 = iso_on_join_iothr2 = NULL;
		sim_start(&c);
		for (int i = 0; i < n; i++) sim_spawn(task, &parts[i]);
		nparts = n;
		int r = sim_run();
		nparts = 0;
		sim_on_free = NULL;
		for (int i = 0; i < n; i++) {
			struct part *p = &parts[i];
			fclose(p->in);
			fclose(p->out);
			printf("part %s %zu\n", kinds[p->kind].name, p->ol);
			fwrite(p->ob, 1, p->ol, stdout);
			free(p->ib);
			free(p->ob);
		}
		printf("over %s\n", r == SIM_DEADLOCK ? "deadlock" : r == SIM_STEPS ? "no progress" : *what ? what : sim_live(SIM_LIB) ? "leak" : "ok");
		fflush(stdout);
	}
	return 0;
}
