/*
 * Runs TCP/Unix socket writers over a simulated kernel. One line of stdin per run, key=value tokens:
 *   id kind=tcp4|tcp6|unix addr= port= ct=0/1 ops=OP,OP.. (o open, w LEN+LEN.., c close, g query, d destroy)
 *   conns=PLAN/PLAN..: tokens separated by ';': S<errno> socket fails, I no SOCK_CLOEXEC, C<errno> connect fails,
 *     i<N> input ends after N bytes, x<errno> close reports an error, f<errno> fcntl fails (F<errno>: to set only), s<list> sends, r<list> reads; a list has
 *     items separated by '.': a number (at most so many bytes), i (EINTR), e<errno>, p repeats the next item
 *     forever; b<list> sends, q<list> reads by position: POS:ITEM (stop at POS and do ITEM; ':n' just stop)
 * or: init KIND ADDR PORT (creation only; ~ stands for NULL, @N for a path of N bytes)
 */
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/select.h>
#include <poll.h>
#include <unistd.h>
#include "fstrm.h"
#include "fstrm/tcp_writer.h"
#include "fstrm/unix_writer.h"
#include "ledger.h"

#define MAXFD 2048
static int FD0;   /* number of the first descriptor that a run gets (fd0=) */
struct plan { int sockerr, nocloexec, connerr, inlen, closeerr, fcntlerr, setonly; const char *s, *r, *b, *q; };
static struct plan plans[MAXFD];
static int nplans, attempt, nextfd;
static struct plan *of[MAXFD];          /* plan of a virtual descriptor */
static size_t inpos[MAXFD], outpos[MAXFD];
static int fl[MAXFD], closed[MAXFD];
static uint8_t in[64];
static size_t inlen;

static struct plan *P(int fd) { return fd >= FD0 && fd < FD0 + MAXFD ? of[fd - FD0] : NULL; }

/* The next item of a plan list: >0 a limit, 0 EINTR, <0 -errno. */
static long next(const char **s)
{
	if (*s == NULL || **s == 0 || **s == ';') return 1L << 40;
	const char *p = *s;
	long v;
	if (*p == 'p') {   /* repeat the single following item */
		const char *q = p + 1;
		return next(&q);
	}
	if (*p == 'i') { v = 0; p++; }
	else if (*p == 'e') v = -strtol(p + 1, (char **) &p, 10);
	else v = strtol(p, (char **) &p, 10);
	if (*p == '.') p++;
	*s = p;
	return v;
}
/* The same for a list of positions, given the current one. */
static long at(const char **s, size_t cur)
{
	while (*s && **s && **s != ';') {
		char *e;
		size_t pos = strtoul(*s, &e, 10);
		if (cur < pos) return (long) (pos - cur);
		const char *p = e + 1;   /* the item after ':' */
		int hit = cur == pos && *p != 'n';
		long v = *p == 'e' ? -strtol(p + 1, NULL, 10) : 0;
		while (*p && *p != '.' && *p != ';') p++;
		if (*p == '.') p++;
		*s = p;
		if (hit) return v;
	}
	return 1L << 40;
}
static long both(const char **s, const char **b, size_t cur)
{
	long v = at(b, cur);
	if (v <= 0) return v;
	long x = next(s);
	return x < v ? x : v;
}
static void hex(const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", b[i]); }

int __wrap_socket(int dom, int type, int proto)
{
	struct plan *p = &plans[attempt < nplans ? attempt : nplans - 1];
	if (p->nocloexec && type & SOCK_CLOEXEC) { printf("socket einval\n"); errno = EINVAL; return -1; }
	attempt++;
	if (p->sockerr) { printf(p->sockerr == EINVAL ? "socket einval\n" : "socket err\n"); errno = p->sockerr; return -1; }
	if (nextfd >= MAXFD) { fprintf(stderr, "too many descriptors\n"); exit(98); }
	int fd = nextfd++;
	of[fd] = p; inpos[fd] = outpos[fd] = 0; closed[fd] = 0; fl[fd] = 0;
	printf("socket %d %d %d %d\n", fd, dom, type & ~(SOCK_CLOEXEC | SOCK_NONBLOCK), proto);
	if (type & SOCK_NONBLOCK) printf("X nonblocking\n");
	if (type & SOCK_CLOEXEC) { fl[fd] = FD_CLOEXEC; printf("cloexec %d\n", fd); }
	return fd + FD0;
}
#define BADFD(name) if (!P(fd) || closed[fd - FD0]) { printf("badfd " name " %d\n", fd >= FD0 && fd < FD0 + MAXFD ? fd - FD0 : -1); errno = EBADF; return -1; }
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	BADFD("connect");
	printf("connect %d ", fd - FD0);
	char b[64] = "?";
	if (sa->sa_family == AF_INET && len == sizeof(struct sockaddr_in)) {
		const struct sockaddr_in *s = (const void *) sa;
		inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
		printf("%s|%d", b, ntohs(s->sin_port));
	} else if (sa->sa_family == AF_INET6 && len == sizeof(struct sockaddr_in6)) {
		const struct sockaddr_in6 *s = (const void *) sa;
		inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b);
		printf("%s|%d", b, ntohs(s->sin6_port));
	} else if (sa->sa_family == AF_UNIX && len > offsetof(struct sockaddr_un, sun_path)) {
		const struct sockaddr_un *s = (const void *) sa;
		size_t n = strnlen(s->sun_path, len - offsetof(struct sockaddr_un, sun_path));
		hex((const uint8_t *) s->sun_path, n);
	} else
		printf("?");
	int e = P(fd)->connerr;
	printf(" %s\n", e ? "err" : "ok");
	if (e) { errno = e; return -1; }
	return 0;
}
int __real_close(int);
int __wrap_close(int fd)
{
	if (fd >= 0 && fd < 3 && fd < FD0) { printf("badfd close -1\n"); errno = EBADF; return -1; }   /* never ours */
	BADFD("close");
	closed[fd - FD0] = 1;
	int e = P(fd)->closeerr;
	printf("close %d %s\n", fd - FD0, e ? "err" : "ok");
	if (e) { errno = e; return -1; }
	return 0;
}
/* A library that keeps calling without moving a byte never ends: no need to write down the rest. */
static int idle;
static void progress(size_t n)
{
	if (n) idle = 0;
	else if (++idle > 20000) { fflush(stdout); fprintf(stderr, "endless calls\n"); abort(); }
}
static ssize_t do_send(int fd, const struct iovec *iov, size_t cnt, int flags)
{
	progress(0);
	BADFD("send");
	if (cnt > 1024) { printf("snd %d %d err\n", fd - FD0, !!(flags & MSG_NOSIGNAL)); errno = EMSGSIZE; return -1; }
	long v = both(&P(fd)->s, &P(fd)->b, outpos[fd - FD0]);
	if (v <= 0) {
		printf("snd %d %d %s\n", fd - FD0, !!(flags & MSG_NOSIGNAL), v ? "err" : "intr");
		errno = v ? (int) -v : EINTR;
		return -1;
	}
	printf("snd %d %d ok ", fd - FD0, !!(flags & MSG_NOSIGNAL));
	size_t left = (size_t) v, done = 0;
	for (size_t i = 0; i < cnt && left; i++) {
		size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
		hex(iov[i].iov_base, n);
		left -= n;
		done += n;
	}
	putchar('\n');
	outpos[fd - FD0] += done;
	progress(done);
	return (ssize_t) done;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags) { return do_send(fd, m->msg_iov, m->msg_iovlen, flags); }
ssize_t __wrap_writev(int fd, const struct iovec *iov, int n) { return do_send(fd, iov, (size_t) n, 0); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) { struct iovec v = { (void *) b, n }; return do_send(fd, &v, 1, flags); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) { return __wrap_send(fd, b, n, flags); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return __wrap_send(fd, b, n, 0); }
static ssize_t do_recv(int fd, const struct iovec *iov, size_t cnt, int flags)
{
	progress(0);
	BADFD("recv");
	long v = both(&P(fd)->r, &P(fd)->q, inpos[fd - FD0]);
	if (v <= 0) {
		printf("rcv %d %s\n", fd - FD0, v ? "err" : "intr");
		errno = v ? (int) -v : EINTR;
		return -1;
	}
	size_t want = 0, done = 0, avail = (size_t) P(fd)->inlen < inlen ? (size_t) P(fd)->inlen : inlen;
	for (size_t i = 0; i < cnt; i++) want += iov[i].iov_len;
	if (want > (size_t) v) want = (size_t) v;
	for (size_t i = 0; i < cnt && want; i++)
		for (size_t j = 0; j < iov[i].iov_len && want && inpos[fd - FD0] + done < avail; j++, want--)
			((uint8_t *) iov[i].iov_base)[j] = in[inpos[fd - FD0] + done++];
	if (!(flags & MSG_PEEK)) inpos[fd - FD0] += done;
	progress(done);
	printf("rcv %d %s %zu\n", fd - FD0, done || !cnt ? "ok" : "eof", inpos[fd - FD0]);
	return (ssize_t) done;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { struct iovec v = { b, n }; return n ? do_recv(fd, &v, 1, 0) : 0; }
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) { struct iovec v = { b, n }; return n ? do_recv(fd, &v, 1, flags) : 0; }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) { return __wrap_recv(fd, b, n, flags); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int flags) { return do_recv(fd, m->msg_iov, m->msg_iovlen, flags); }
ssize_t __wrap_readv(int fd, const struct iovec *iov, int n) { return do_recv(fd, iov, (size_t) n, 0); }
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	BADFD("fcntl");
	if (P(fd)->fcntlerr && (cmd == F_SETFD || !P(fd)->setonly)) { errno = P(fd)->fcntlerr; return -1; }
	if (cmd == F_GETFD) return fl[fd - FD0];
	if (cmd == F_SETFD) {
		fl[fd - FD0] = (int) arg;
		printf("%s %d\n", arg & FD_CLOEXEC ? "cloexec" : "nocloexec", fd - FD0);
		return 0;
	}
	if (cmd == F_GETFL) return O_RDWR;
	if (cmd == F_SETFL) { if (arg & O_NONBLOCK) printf("X nonblocking\n"); return 0; }
	printf("X fcntl %d\n", cmd);
	errno = EINVAL;
	return -1;
}
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { BADFD("setsockopt"); return 0; }
int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { BADFD("getsockopt"); memset(v, 0, *n); return 0; }
int __wrap_shutdown(int fd, int how) { BADFD("shutdown"); return 0; }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int) n; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return n; }

static const char *rn(fstrm_res r) { return r == fstrm_res_success ? "ok" : r == fstrm_res_failure ? "fail" : r == fstrm_res_stop ? "stop" : r == fstrm_res_invalid ? "invalid" : "again"; }
static void fill(uint8_t *b, int id, size_t len) { for (size_t j = 0; j < len; j++) b[j] = (uint8_t) (j == 0 ? id : j == 1 ? id >> 8 : id * 31 + j * 7 + (j >> 8)); }
static void put(uint32_t v) { for (int i = 3; i >= 0; i--) in[inlen++] = (uint8_t) (v >> (8 * i)); }

static struct fstrm_writer *make(const char *kind, const char *addr, const char *port, struct fstrm_writer_options *wo)
{
	struct fstrm_writer *w;
	/* The strings belong to the caller, who may change them as soon as the setter returns. */
	char *a = addr ? strdup(addr) : NULL, *b = port ? strdup(port) : NULL;
	if (!strcmp(kind, "unix")) {
		struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
		fstrm_unix_writer_options_set_socket_path(o, "/nowhere");
		fstrm_unix_writer_options_set_socket_path(o, a);
		if (a) memset(a, 'z', strlen(a));
		free(a); free(b);
		LEDGER("new opts");
		w = fstrm_unix_writer_init(o, wo);
		LEDGER(w ? "new handle" : "refuse handle");
		fstrm_unix_writer_options_set_socket_path(o, "/elsewhere");
		fstrm_unix_writer_options_destroy(&o);
		LEDGER("gone opts %d", o == NULL);
		if (o) printf("X options pointer kept\n");
	} else {
		struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
		fstrm_tcp_writer_options_set_socket_address(o, "10.9.8.7");
		fstrm_tcp_writer_options_set_socket_port(o, "999");
		fstrm_tcp_writer_options_set_socket_address(o, a);
		fstrm_tcp_writer_options_set_socket_port(o, b);
		if (a) memset(a, '9', strlen(a));
		if (b) memset(b, '9', strlen(b));
		free(a); free(b);
		LEDGER("new opts");
		w = fstrm_tcp_writer_init(o, wo);
		LEDGER(w ? "new handle" : "refuse handle");
		fstrm_tcp_writer_options_set_socket_address(o, "10.9.8.6");
		fstrm_tcp_writer_options_set_socket_port(o, "998");
		fstrm_tcp_writer_options_destroy(&o);
		LEDGER("gone opts %d", o == NULL);
		if (o) printf("X options pointer kept\n");
	}
	return w;
}

int main(void)
{
	static char line[1 << 20];
	while (fgets(line, sizeof line, stdin)) {
		alarm(60);   /* a run that does not end is as bad as one that crashes */
		char *save = NULL, *kind = NULL, *addr = NULL, *port = NULL, *ops = NULL, *id = NULL;
		int ct = 0, nid = 0;
		if (!strncmp(line, "init ", 5)) {
			char k[16], a[8192], p[256];
			sscanf(line + 5, "%15s %8191s %255s", k, a, p);
			if (*a == '@') {
				int n = atoi(a + 1);
				memset(a, 'p', n);
				a[n] = 0;
			}
			if (ledger_live) printf("case -1\n");
			if (ledger_start) ledger_start();
			struct fstrm_writer *w = make(k, *a == '~' ? NULL : a, *p == '~' ? NULL : p, NULL);
			printf("init %d\n", w != NULL);
			if (w) {
				fstrm_writer_destroy(&w);
				LEDGER("gone handle %d", w == NULL);
			}
			LEDGER("end");
			if (ledger_live) printf("end\n");
			fflush(stdout);
			continue;
		}
		nplans = attempt = nextfd = idle = 0;
		FD0 = 5000;
		for (char *t = strtok_r(line, " \n", &save); t; t = strtok_r(NULL, " \n", &save)) {
			char *v = strchr(t, '=');
			if (!v) continue;
			*v++ = 0;
			if (!strcmp(t, "id")) id = v;
			else if (!strcmp(t, "kind")) kind = v;
			else if (!strcmp(t, "addr")) addr = v;
			else if (!strcmp(t, "port")) port = v;
			else if (!strcmp(t, "fd0")) FD0 = atoi(v);
			else if (!strcmp(t, "ct")) ct = atoi(v);
			else if (!strcmp(t, "ops")) ops = v;
			else if (!strcmp(t, "conns")) {
				char *s2 = NULL;
				for (char *u = strtok_r(v, "/", &s2); u && nplans < MAXFD; u = strtok_r(NULL, "/", &s2)) {
					struct plan *p = &plans[nplans++];
					memset(p, 0, sizeof *p);
					p->inlen = 1 << 20;
					char *s3 = NULL;
					for (char *x = strtok_r(u, ";", &s3); x; x = strtok_r(NULL, ";", &s3))
						switch (*x) {
						case 'S': p->sockerr = atoi(x + 1); break;
						case 'I': p->nocloexec = 1; break;
						case 'C': p->connerr = atoi(x + 1); break;
						case 'i': p->inlen = atoi(x + 1); break;
						case 'F': p->setonly = 1; /* fall through */
						case 'f': p->fcntlerr = atoi(x + 1); break;
						case 'x': p->closeerr = atoi(x + 1); break;
						case 's': p->s = x + 1; break;
						case 'r': p->r = x + 1; break;
						case 'b': p->b = x + 1; break;
						case 'q': p->q = x + 1; break;
						}
				}
			}
		}
		printf("case %s\n", id);
		fflush(stdout);
		inlen = 0;
		put(0); put(ct ? 14 : 4); put(FSTRM_CONTROL_ACCEPT);
		if (ct) { put(1); put(2); in[inlen++] = 'c'; in[inlen++] = 't'; }
		put(0); put(4); put(FSTRM_CONTROL_FINISH);
		for (int i = 0; i < 8; i++) in[inlen++] = 0x5a;   /* more than is asked for */
		if (ledger_start) ledger_start();
		struct fstrm_writer_options *wo = fstrm_writer_options_init();
		LEDGER("new opts");
		if (ct) fstrm_writer_options_add_content_type(wo, "ct", 2);
		struct fstrm_writer *w = make(kind, addr, port, wo);
		fstrm_writer_options_destroy(&wo);
		LEDGER("gone opts %d", wo == NULL);
		if (!w) printf("X creation refused\n");
		char *s4 = NULL;
		for (char *op = strtok_r(ops, ",", &s4); op && w; op = strtok_r(NULL, ",", &s4)) {
			if (*op == 'm') { LEDGER("mark"); continue; }
			fstrm_res r;
			if (*op == 'w') {
				static struct iovec iov[4096];
				int n = 0;
				printf("call w");
				for (char *q = op + 1; *q; ) {
					size_t l = strtoul(q, &q, 10);
					if (*q == '+') q++;
					if (l == 1 && nid >= 255) l = 2;
					iov[n].iov_base = malloc(l);
					iov[n].iov_len = l;
					fill(iov[n++].iov_base, ++nid, l);
					printf(" %d:%zu", nid, l);
				}
				putchar('\n');
				fflush(stdout);
				r = n == 1 ? fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len) : fstrm_writer_writev(w, iov, n);
				for (int i = 0; i < n; i++) free(iov[i].iov_base);
			} else {
				printf("call %c\n", *op);
				fflush(stdout);
				struct fstrm_control *c;
				r = *op == 'o' ? fstrm_writer_open(w) : *op == 'c' ? fstrm_writer_close(w) : *op == 'd' ? fstrm_writer_destroy(&w) : fstrm_writer_get_control(w, FSTRM_CONTROL_ACCEPT, &c);
			}
			printf("ret %s\n", rn(r));
			if (*op == 'd') {
				LEDGER("gone handle %d", w == NULL);
				if (ledger_live) { fstrm_writer_destroy(&w); LEDGER("again"); }
			} else
				LEDGER("call");
		}
		if (w) {
			printf("call d\n");
			fflush(stdout);
			printf("ret %s\n", rn(fstrm_writer_destroy(&w)));
			LEDGER("gone handle %d", w == NULL);
		}
		LEDGER("end");
		printf("end\n");
		fflush(stdout);
	}
	return 0;
}
