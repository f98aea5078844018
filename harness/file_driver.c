/*
 * Runs file readers and writers, each in a process of its own. argv: script, log, scratch directory.
 * A script line: id kind=w|r ct=0/1 path=P ops=.. [lim=N] [pre=N] [in=FILE] [std=file|pipe|pty] [chunk=N]
 *   [ck=PLAN] [bin=..]; path: "file" (a file in the scratch directory), "-" or a literal path;
 *   name: the file has this name (hex) and is given relative to the current directory;
 *   ops: o, wLEN+LEN.., r, R (read to the end), c, d; lim: RLIMIT_FSIZE; pre: the file exists with so many bytes;
 *   in: file with the content to read; std: what standard input/output is;
 *   ck: fopen() gives a stream with faults: w<N> writing stops after N bytes (W<N>: one error only), r<N> an
 *   error after reading N bytes, c closing fails, m<N> moves at most N bytes at a time
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "fstrm.h"
#include "ledger.h"
#undef LEDGER
#define LEDGER(...) LEDGER_TO(lg, __VA_ARGS__)

static FILE *lg;
static char *dir, target[4096];

static uint32_t crc32(const uint8_t *p, size_t n)
{
	static uint32_t T[256];
	if (!T[1])
		for (uint32_t i = 0; i < 256; i++) {
			uint32_t c = i;
			for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ c >> 1 : c >> 1;
			T[i] = c;
		}
	uint32_t c = ~0u;
	while (n--) c = T[(c ^ *p++) & 255] ^ c >> 8;
	return ~c;
}
static void fill(uint8_t *b, int id, size_t n)
{
	for (size_t j = 0; j < n; j++)
		b[j] = j == 0 ? id : j == 1 ? id >> 8 : (id * 31 + j * 7 + (j >> 8)) & 255;
}

/* ---- streams with faults ---------------------------------------------- */
static struct { int on, once, closefail; long wlim, rlim, max; uint8_t *d; size_t n, pos; int wr, open; } ck;
static ssize_t ck_read(void *c, char *b, size_t n)
{
	(void)c;
	if (ck.rlim >= 0 && (long)ck.pos >= ck.rlim) { errno = EIO; return -1; }
	size_t m = ck.n - ck.pos;
	if (ck.rlim >= 0 && m > (size_t)ck.rlim - ck.pos) m = ck.rlim - ck.pos;
	if (m > n) m = n;
	if (ck.max && m > (size_t)ck.max) m = ck.max;
	memcpy(b, ck.d + ck.pos, m);
	ck.pos += m;
	return m;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	(void)c;
	size_t m = n;
	if (ck.max && m > (size_t)ck.max) m = ck.max;
	if (ck.wlim >= 0 && (long)ck.n >= ck.wlim) {
		if (ck.once) ck.wlim = -1;
		errno = ENOSPC;
		return 0;
	}
	if (ck.wlim >= 0 && m > (size_t)ck.wlim - ck.n) m = ck.wlim - ck.n;
	ck.d = realloc(ck.d, ck.n + m + 1);
	memcpy(ck.d + ck.n, b, m);
	ck.n += m;
	return m;
}
static int ck_close(void *c) { (void)c; ck.open--; if (ck.closefail) { errno = EIO; return -1; } return 0; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{
	if (!ck.on || strcmp(p, target)) return __real_fopen(p, m);
	if (*m == 'w') { ck.n = 0; ck.wr = 1; }
	ck.pos = 0;
	ck.open++;
	cookie_io_functions_t f = { ck_read, ck_write, NULL, ck_close };
	return fopencookie(&ck, m, f);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }

static int nfds(void)
{
	DIR *d = opendir("/proc/self/fd");
	int n = 0;
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static void hexfile(void)
{
	fprintf(lg, "file ");
	if (ck.on) {
		for (size_t i = 0; i < ck.n; i++) fprintf(lg, "%02x", ck.d[i]);
	} else {
		FILE *f = __real_fopen(target, "r");
		static uint8_t b[65536];
		size_t n;
		if (!f) fprintf(lg, "none");
		else {
			while ((n = fread(b, 1, sizeof b, f)) > 0)
				for (size_t i = 0; i < n; i++) fprintf(lg, "%02x", b[i]);
			fclose(f);
		}
	}
	fprintf(lg, "\n");
	fflush(lg);
}
static void slurp(const char *p)
{
	FILE *f = __real_fopen(p, "r");
	if (!f) _exit(98);
	fseek(f, 0, SEEK_END);
	ck.n = ftell(f);
	rewind(f);
	ck.d = malloc(ck.n + 1);
	if (fread(ck.d, 1, ck.n, f) != ck.n) _exit(98);
	fclose(f);
}
static const char *rs(fstrm_res r) { return r == fstrm_res_success ? "ok" : r == fstrm_res_stop ? "stop" : r == fstrm_res_failure ? "fail" : "odd"; }

static void feed(int fd, const char *in, long chunk)
{
	slurp(in);
	for (size_t p = 0; p < ck.n; ) {
		size_t n = ck.n - p;
		if (chunk && n > (size_t)chunk) n = chunk;
		ssize_t r = write(fd, ck.d + p, n);
		if (r <= 0) break;
		p += r;
	}
	_exit(0);
}

static void run(char *line)
{
	char *save = NULL, kind = 'w', *path = "file", *ops = "", *in = NULL, *std = NULL, *ckp = NULL, *nm = NULL;
	long lim = -1, pre = -1, chunk = 0;
	int ct = 0, nid = 0, rfirst = 0;
	for (char *t = strtok_r(line, " \n", &save); t; t = strtok_r(NULL, " \n", &save)) {
		char *v = strchr(t, '=');
		if (!v) continue;
		*v++ = 0;
		if (!strcmp(t, "kind")) kind = *v;
		else if (!strcmp(t, "path")) path = v;
		else if (!strcmp(t, "ops")) ops = v;
		else if (!strcmp(t, "in")) in = v;
		else if (!strcmp(t, "std")) std = v;
		else if (!strcmp(t, "ck")) ckp = v;
		else if (!strcmp(t, "name")) nm = v;
		else if (!strcmp(t, "lim")) lim = atol(v);
		else if (!strcmp(t, "pre")) pre = atol(v);
		else if (!strcmp(t, "chunk")) chunk = atol(v);
		else if (!strcmp(t, "ct")) ct = atoi(v);
	}
	int snap = kind == 'w' && (!strcmp(path, "file") || !strcmp(path, "-"));
	snprintf(target, sizeof target, "%s/out", dir);
	unlink(target);
	if (kind == 'r' && in && !std && !ckp) snprintf(target, sizeof target, "%s", in);
	char rel[300] = "";
	if (nm) {   /* under this name (hex), in the current directory */
		for (char *q = nm; *q; q += 2) { unsigned x; sscanf(q, "%2x", &x); rel[(q - nm) / 2] = (char) x; }
		if (chdir(dir)) _exit(98);
		unlink(rel);
		if (kind == 'r' && symlink(target, rel)) _exit(98);
		if (kind == 'w') snprintf(target, sizeof target, "%s/%s", dir, rel);
	}
	if (pre >= 0) {
		FILE *f = __real_fopen(target, "w");
		for (long i = 0; i < pre; i++) putc('#', f);
		fclose(f);
	}
	char *name = *rel ? rel : !strcmp(path, "file") ? target : !strcmp(path, "empty") ? "" : path;
	if (!strcmp(path, "long")) { name = malloc(5000); memset(name, 'a', 4999); name[0] = '/'; name[4999] = 0; }
	if (ckp) {
		ck.on = 1; ck.wlim = ck.rlim = -1;
		for (char *p = ckp; *p; p++)
			switch (*p) {
			case 'W': ck.once = 1; /* fall through */
			case 'w': ck.wlim = strtol(p + 1, &p, 10); p--; break;
			case 'r': ck.rlim = strtol(p + 1, &p, 10); p--; break;
			case 'm': ck.max = strtol(p + 1, &p, 10); p--; break;
			case 'c': ck.closefail = 1; break;
			}
		if (in) slurp(in);
	}
	if (std && kind == 'w') {
		int fd = open(target, O_RDWR | O_CREAT | O_TRUNC, 0644);
		dup2(fd, 1);
		close(fd);
	} else if (std && !strcmp(std, "file")) {
		int fd = open(in, O_RDONLY);
		dup2(fd, 0);
		close(fd);
	} else if (std && !strcmp(std, "pipe")) {
		int p[2];
		if (pipe(p)) _exit(98);
		if (fork() == 0) { close(p[0]); feed(p[1], in, chunk); }
		close(p[1]);
		dup2(p[0], 0);
		close(p[0]);
	} else if (std && !strcmp(std, "pty")) {
		/* reading the master end fails with EIO when the other end is gone */
		int m = posix_openpt(O_RDWR | O_NOCTTY);
		if (m < 0 || grantpt(m) || unlockpt(m)) { fprintf(lg, "nopty\n"); fflush(lg); _exit(0); }
		int s = open(ptsname(m), O_RDWR | O_NOCTTY);
		struct termios tm;
		tcgetattr(s, &tm);
		cfmakeraw(&tm);
		tcsetattr(s, TCSANOW, &tm);
		if (fork() == 0) { close(m); feed(s, in, chunk); }
		close(s);
		dup2(m, 0);
		close(m);
	}
	if (lim >= 0) {
		signal(SIGXFSZ, SIG_IGN);
		/* the log is a pipe and so not affected */
		struct rlimit rl = { lim, lim };
		setrlimit(RLIMIT_FSIZE, &rl);
	}
	int fds0 = nfds();
	if (ledger_start) ledger_start();
	struct fstrm_file_options *fo = fstrm_file_options_init();
	LEDGER("new opts");
	struct fstrm_writer_options *wo = NULL;
	struct fstrm_reader_options *ro = NULL;
	struct fstrm_writer *w = NULL;
	struct fstrm_reader *r = NULL;
	char *copy = strdup(name);
	fstrm_file_options_set_file_path(fo, "/nonexistent/other");
	fstrm_file_options_set_file_path(fo, copy);
	memset(copy, '?', strlen(copy));
	free(copy);
	if (kind == 'w') {
		wo = fstrm_writer_options_init();
		LEDGER("new opts");
		if (ct) fstrm_writer_options_add_content_type(wo, "ct", 2);
		w = fstrm_file_writer_init(fo, wo);
		LEDGER(w ? "new handle" : "refuse handle");
		fstrm_writer_options_destroy(&wo);
		LEDGER("gone opts %d", wo == NULL);
	} else {
		ro = fstrm_reader_options_init();
		LEDGER("new opts");
		if (ct) fstrm_reader_options_add_content_type(ro, "ct", 2);
		r = fstrm_file_reader_init(fo, ro);
		LEDGER(r ? "new handle" : "refuse handle");
		fstrm_reader_options_destroy(&ro);
		LEDGER("gone opts %d", ro == NULL);
	}
	fstrm_file_options_set_file_path(fo, "/nonexistent/another");
	fstrm_file_options_destroy(&fo);
	LEDGER("gone opts %d", fo == NULL);
	if (!w && !r) { fprintf(lg, "X creation refused\n"); LEDGER("end"); fflush(lg); _exit(0); }
	if (snap) hexfile();
	char *s2 = NULL;
	for (char *op = strtok_r(ops, ",", &s2); op; op = rfirst ? op : strtok_r(NULL, ",", &s2)) {
		if (*op == 'm') { LEDGER("mark"); continue; }
		fstrm_res x;
		const uint8_t *data = NULL;
		size_t len = 0;
		if (*op == 'w') {
			static struct iovec iov[4096];
			int n = 0;
			fprintf(lg, "call w");
			for (char *q = op + 1; *q; ) {
				size_t l = strtoul(q, &q, 10);
				if (*q == '+') q++;
				if (l == 1 && nid >= 255) l = 2;
				iov[n].iov_base = malloc(l);
				iov[n].iov_len = l;
				fill(iov[n++].iov_base, ++nid, l);
				fprintf(lg, " %d:%zu", nid, l);
			}
			fprintf(lg, "\n");
			fflush(lg);
			x = n == 1 ? fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len) : fstrm_writer_writev(w, iov, n);
			for (int i = 0; i < n; i++) free(iov[i].iov_base);
		} else {
			rfirst = *op == 'R';
			fprintf(lg, "call %c\n", *op == 'R' ? 'r' : *op);
			fflush(lg);
			switch (*op) {
			case 'o': x = w ? fstrm_writer_open(w) : fstrm_reader_open(r); break;
			case 'c': x = w ? fstrm_writer_close(w) : fstrm_reader_close(r); break;
			case 'd': x = w ? fstrm_writer_destroy(&w) : fstrm_reader_destroy(&r); break;
			default: x = fstrm_reader_read(r, &data, &len); if (x != fstrm_res_success) rfirst = 0;
			}
		}
		if (data && x == fstrm_res_success) fprintf(lg, "ret ok %zu %08x\n", len, crc32(data, len));
		else fprintf(lg, "ret %s\n", rs(x));
		fflush(lg);
		if (snap) hexfile();
		if (*op == 'd') LEDGER("gone handle %d", !w && !r); else LEDGER("call");
		if (*op == 'c' || *op == 'd') {
			fprintf(lg, "fds %d\n", nfds() - fds0 > ck.open ? nfds() - fds0 : ck.open);
			if (*op == 'd') break;
		}
	}
	if (w || r) {
		if (w) fstrm_writer_destroy(&w);
		if (r) fstrm_reader_destroy(&r);
		LEDGER("gone handle %d", !w && !r);
	}
	LEDGER("end");
	fprintf(lg, "leak %d\n", nfds() - fds0 > ck.open ? nfds() - fds0 : ck.open);
	fflush(lg);
	_exit(0);
}

int main(int argc, char **argv)
{
	(void)argc;
	FILE *sc = __real_fopen(argv[1], "r");
	/* the log goes through a pipe to a process without limits */
	int p[2];
	if (!sc || pipe(p)) return 98;
	pid_t cat = fork();
	if (cat == 0) {
		close(p[1]);
		FILE *o = __real_fopen(argv[2], "w");
		static char b[65536];
		ssize_t n;
		while ((n = read(p[0], b, sizeof b)) > 0) fwrite(b, 1, n, o);
		fclose(o);
		_exit(0);
	}
	close(p[0]);
	lg = fdopen(p[1], "w");
	dir = argv[3];
	static char line[1 << 20];
	while (fgets(line, sizeof line, sc)) {
		fprintf(lg, "case %d\n", atoi(line));
		fflush(lg);
		pid_t c = fork();
		if (c == 0) {
			alarm(60);
			run(line);
		}
		int st;
		waitpid(c, &st, 0);
		fprintf(lg, "end %d\n", st);
		fflush(lg);
	}
	fclose(lg);
	waitpid(cat, NULL, 0);
	return 0;
}
