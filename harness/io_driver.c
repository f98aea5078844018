/*
 * Executes reader/writer scripts over a scripted transport (stdin), and prints the raw history of API
 * calls and transport operations (see lib/io.py, which turns it into events for IoRules.tla).
 *
 *   case ID / role w|r / bi 0|1 / ct HEX / max N
 *   pay ID HEX            a payload; ID 0 is "zero length", ids < 0 are inexpressible lengths
 *   conn OPEN CLOSE INEND WFAIL WRES INHEX   (the k-th successful or failed open uses the k-th conn)
 *   op NAME ARGS...
 *   run
 */
#include <unistd.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fstrm.h>
#include "ledger.h"

#define MAXC 600
#define MAXP 600

/* gap bytes (not stored, never looked at) follow the gapat-th byte of in, vlen counts them */
struct conn { fstrm_res open, close, inend, wres; long wfail; uint8_t *in; size_t inlen, gapat, gap, vlen; };
#define BIG (64u << 20)
static struct conn conns[MAXC];
static int nconn, cur;            /* cur: index of the connection in use, -1 before the first open */
static size_t inpos, outpos;
static struct { int id; uint8_t *p; size_t len; } pay[MAXP];
static int npay;

static const char *rn(fstrm_res r)
{
	switch (r) {
	case fstrm_res_success: return "ok";
	case fstrm_res_failure: return "fail";
	case fstrm_res_again: return "again";
	case fstrm_res_invalid: return "invalid";
	case fstrm_res_stop: return "stop";
	}
	return "other";
}

static fstrm_res rp(const char *s)
{
	if (!strcmp(s, "ok")) return fstrm_res_success;
	if (!strcmp(s, "again")) return fstrm_res_again;
	if (!strcmp(s, "invalid")) return fstrm_res_invalid;
	if (!strcmp(s, "stop")) return fstrm_res_stop;
	return fstrm_res_failure;
}

static uint8_t *unhex(const char *s, size_t *len)
{
	size_t n = *s == '-' ? 0 : strlen(s) / 2;
	uint8_t *b = malloc(n);
	for (size_t i = 0; i < n; i++) {
#define NIB(c) ((c) <= '9' ? (c) - '0' : (c) - 'a' + 10)
		b[i] = NIB(s[2 * i]) << 4 | NIB(s[2 * i + 1]);
	}
	*len = n;
	return b;
}

static void hex(const uint8_t *b, size_t n)
{
	static const char d[] = "0123456789abcdef";
	if (n == 0)
		putchar('-');
	for (size_t i = 0; i < n; i++) {
		putchar(d[b[i] >> 4]);
		putchar(d[b[i] & 15]);
	}
}

static int magic;
static void chk(void *obj) { if (obj != &magic) abort(); }

static fstrm_res t_open(void *obj)
{
	chk(obj);
	cur++;
	inpos = outpos = 0;
	fstrm_res r = cur < nconn ? conns[cur].open : fstrm_res_failure;
	printf("O %s %d\n", rn(r), cur);
	return r;
}

static fstrm_res t_close(void *obj)
{
	chk(obj);
	fstrm_res r = cur >= 0 && cur < nconn ? conns[cur].close : fstrm_res_success;
	printf("X %s\n", rn(r));
	return r;
}

static fstrm_res t_destroy(void *obj)
{
	chk(obj);
	printf("D\n");
	return fstrm_res_success;
}

static void take(struct conn *c, uint8_t *d, size_t count)
{
	size_t pos = inpos;
	while (count > 0) {
		size_t n = count;
		if (pos < c->gapat) {
			if (n > c->gapat - pos) n = c->gapat - pos;
			memcpy(d, c->in + pos, n);
		} else if (pos < c->gapat + c->gap) {
			if (n > c->gapat + c->gap - pos) n = c->gapat + c->gap - pos;
			/* touch it here and there: it must all be there */
			for (size_t k = 1; k < n; k *= 2) d[k - 1] = 0;
			d[n - 1] = 0;
		} else
			memcpy(d, c->in + pos - c->gap, n);
		pos += n; d += n; count -= n;
	}
}

static fstrm_res t_read(void *obj, void *data, size_t count)
{
	chk(obj);
	struct conn *c = cur >= 0 && cur < nconn ? &conns[cur] : NULL;
	if (c != NULL && count <= c->vlen - inpos) {
		take(c, data, count);
		printf("I ok %zu %zu\n", inpos, count);
		inpos += count;
		return fstrm_res_success;
	}
	fstrm_res r = c ? c->inend : fstrm_res_failure;
	if (c != NULL) {
		/* A short read may have filled part of the buffer. */
		take(c, data, c->vlen - inpos);
		printf("I %s %zu %zu\n", rn(r), inpos, count > 5000000000u ? (size_t) 5000000000u : count);
		inpos = c->vlen;
	} else
		printf("I %s 0 0\n", rn(r));
	return r;
}

static fstrm_res t_write(void *obj, const struct iovec *iov, int iovcnt)
{
	chk(obj);
	struct conn *c = cur >= 0 && cur < nconn ? &conns[cur] : NULL;
	long room = c && c->wfail >= 0 ? c->wfail - (long) outpos : -1;
	size_t total = 0;
	for (int i = 0; i < iovcnt; i++)
		total += iov[i].iov_len;
	bool fail = room >= 0 && total > (size_t) room;
	size_t left = fail ? (size_t) room : total;
	printf("W %s %d ", fail ? rn(c->wres) : "ok", iovcnt);
	if (left == 0)
		putchar('-');
	for (int i = 0; i < iovcnt && left > 0; i++) {
		size_t n = iov[i].iov_len < left ? iov[i].iov_len : left;
		if (n >= BIG) {   /* one of the payloads that nobody has to look at */
			int id = -1;
			for (int k = 0; k < npay; k++)
				if (pay[k].p == iov[i].iov_base && pay[k].len == n) id = pay[k].id;
			printf("#%d;", id);
		} else if (n)
			hex(iov[i].iov_base, n);
		left -= n;
	}
	putchar('\n');
	outpos += fail ? (size_t) room : total;
	return fail ? c->wres : fstrm_res_success;
}

static void show_control(const struct fstrm_control *c)
{
	fstrm_control_type t = 0;
	size_t n = 0;
	if (c == NULL) {
		printf(" NULL");
		return;
	}
	if (fstrm_control_get_type(c, &t) != fstrm_res_success)
		t = 0;
	printf(" %u", (unsigned) t);
	fstrm_control_get_num_field_content_type(c, &n);
	for (size_t i = 0; i < n; i++) {
		const uint8_t *p;
		size_t len;
		if (fstrm_control_get_field_content_type(c, i, &p, &len) == fstrm_res_success) {
			putchar(' ');
			hex(p, len);
		}
	}
}

static char line[1 << 23];

int main(void)
{
	char role = 'w';
	bool bi = false;
	struct fstrm_writer_options *wopt = NULL;
	struct fstrm_reader_options *ropt = NULL;
	static char *ops[20000];
	int nops = 0;

	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		char *a = strchr(line, ' ');
		if (a != NULL)
			*a++ = 0;
		if (!strcmp(line, "case")) {
			alarm(100);   /* a run that does not end is as bad as one that crashes */
			printf("case %s\n", a);
			fflush(stdout);
			nconn = npay = nops = 0;
			cur = -1;
			role = 'w';
			bi = false;
			if (ledger_start) ledger_start();
			wopt = fstrm_writer_options_init();
			LEDGER("new opts");
			ropt = fstrm_reader_options_init();
			LEDGER("new opts");
		} else if (!strcmp(line, "role")) {
			role = *a;
		} else if (!strcmp(line, "bi")) {
			bi = *a == '1';
		} else if (!strcmp(line, "ct")) {
			size_t n;
			uint8_t *b = unhex(a, &n);
			fstrm_res r1 = fstrm_writer_options_add_content_type(wopt, b, n);
			fstrm_res r2 = fstrm_reader_options_add_content_type(ropt, b, n);
			printf("A ct %s %s %zu\n", rn(r1), rn(r2), n);
			memset(b, 0xEE, n);
			free(b);
		} else if (!strcmp(line, "max")) {
			size_t n = strtoull(a, NULL, 10);
			printf("A max %s %zu\n", rn(fstrm_reader_options_set_max_frame_size(ropt, n)), n);
		} else if (!strcmp(line, "pay")) {
			int pos;
			sscanf(a, "%d %n", &pay[npay].id, &pos);
			if (a[pos] == '!') {   /* inexpressible length, tiny buffer */
				pay[npay].p = malloc(4);
				memset(pay[npay].p, 0x42, 4);
				pay[npay].len = strtoull(a + pos + 1, NULL, 10);
			} else if (a[pos] == '%') {   /* so long that nobody has to look at it */
				pay[npay].p = malloc(16);
				memset(pay[npay].p, 0x43, 16);
				pay[npay].len = strtoull(a + pos + 1, NULL, 10);
			} else
				pay[npay].p = unhex(a + pos, &pay[npay].len);
			npay++;
		} else if (!strcmp(line, "conn")) {
			struct conn *c = &conns[nconn++];
			char o[16], x[16], e[16], wr[16];
			int pos;
			sscanf(a, "%15s %15s %15s %ld %15s %n", o, x, e, &c->wfail, wr, &pos);
			c->open = rp(o);
			c->close = rp(x);
			c->inend = rp(e);
			c->wres = rp(wr);
			char *gap = strchr(a, '~');   /* HEX~GAP~HEX */
			c->gapat = c->gap = 0;
			if (gap) {
				*gap = 0;
				c->gapat = strlen(a + pos) / 2;
				char *rest;
				c->gap = strtoull(gap + 1, &rest, 10);
				memmove(gap, rest + 1, strlen(rest + 1) + 1);
			}
			c->in = unhex(a + pos, &c->inlen);
			c->vlen = c->inlen + c->gap;
		} else if (!strcmp(line, "op")) {
			int times = 1;
			if (!strncmp(a, "x", 1) && a[1] >= '0' && a[1] <= '9') {   /* xN OP: N times */
				times = atoi(a + 1);
				a = strchr(a, ' ') + 1;
			}
			while (times-- > 0)
				ops[nops++] = strdup(a);
		} else if (!strcmp(line, "run")) {
			struct fstrm_rdwr *rdwr = fstrm_rdwr_init(&magic);
			fstrm_rdwr_set_open(rdwr, t_open);
			fstrm_rdwr_set_close(rdwr, t_close);
			fstrm_rdwr_set_destroy(rdwr, t_destroy);
			if (role == 'r' || bi)
				fstrm_rdwr_set_read(rdwr, t_read);
			if (role == 'w' || bi)
				fstrm_rdwr_set_write(rdwr, t_write);
			/* Options may serve any number of objects. */
			struct fstrm_rdwr *bare[2] = { fstrm_rdwr_init(&magic), fstrm_rdwr_init(&magic) };
			fstrm_rdwr_set_write(bare[0], t_write);
			fstrm_rdwr_set_read(bare[1], t_read);
			struct fstrm_writer *w0 = fstrm_writer_init(wopt, &bare[0]), *w = NULL;
			struct fstrm_reader *r0 = fstrm_reader_init(ropt, &bare[1]), *r = NULL;
			if (nops % 2) { fstrm_writer_destroy(&w0); fstrm_reader_destroy(&r0); }
			LEDGER("call");
			if (role == 'w')
				w = fstrm_writer_init(wopt, &rdwr);
			else
				r = fstrm_reader_init(ropt, &rdwr);
			LEDGER(w || r ? "new handle" : "refuse handle");
			if (w0) fstrm_writer_destroy(&w0);
			if (r0) fstrm_reader_destroy(&r0);
			LEDGER("call");
			/* The options must have been copied. */
			fstrm_writer_options_add_content_type(wopt, "zzz", 3);
			fstrm_reader_options_add_content_type(ropt, "zzz", 3);
			LEDGER("call");
			fstrm_writer_options_destroy(&wopt);
			LEDGER("gone opts %d", wopt == NULL);
			fstrm_reader_options_destroy(&ropt);
			LEDGER("gone opts %d", ropt == NULL);
			if (w == NULL && r == NULL) {
				printf("A init NULL\n");
				nops = 0;
			}
			for (int i = 0; i < nops; i++) {
				char *op = ops[i], *arg = strchr(op, ' ');
				if (arg != NULL)
					*arg++ = 0;
				printf("C %s %s\n", op, arg ? arg : "");
				fflush(stdout);
				if (!strcmp(op, "open")) {
					fstrm_res res = w ? fstrm_writer_open(w) : fstrm_reader_open(r);
					printf("R %s\n", rn(res));
				} else if (!strcmp(op, "close")) {
					fstrm_res res = w ? fstrm_writer_close(w) : fstrm_reader_close(r);
					printf("R %s\n", rn(res));
				} else if (!strcmp(op, "destroy")) {
					fstrm_res res = w ? fstrm_writer_destroy(&w) : fstrm_reader_destroy(&r);
					printf("R %s\n", rn(res));
				} else if (!strcmp(op, "write") || !strcmp(op, "write1")) {
					static struct iovec iov[4096];
					struct iovec *v;
					int n = 0;
					int first = 0, count = 0, step = 0;
					if (arg[0] == '*') {   /* "*COUNT": the first payload COUNT times cycling through all */
						count = atoi(arg + 1);
						for (int k = 0; k < count; k++, n++) {
							iov[n].iov_base = pay[k % npay].p;
							iov[n].iov_len = pay[k % npay].len;
						}
					} else
						for (char *t = strtok(arg, " "); t; t = strtok(NULL, " "))
							for (int k = 0; k < npay; k++)
								if (pay[k].id == atoi(t)) {
									iov[n].iov_base = pay[k].p;
									iov[n++].iov_len = pay[k].len;
									break;
								}
					(void) first; (void) step;
					fstrm_res res;
					if (!strcmp(op, "write1")) {
						res = fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len);
					} else {
						v = malloc(n * sizeof *v);   /* exact, for the sanitizer */
						memcpy(v, iov, n * sizeof *v);
						res = fstrm_writer_writev(w, v, n);
						if (memcmp(v, iov, n * sizeof *v))
							printf("A iov-modified\n");
						free(v);
					}
					printf("R %s\n", rn(res));
				} else if (!strcmp(op, "get")) {
					fstrm_res res;
					int t = atoi(arg);
					if (w) {
						struct fstrm_control *c = NULL;
						res = fstrm_writer_get_control(w, (fstrm_control_type) t, &c);
						printf("R %s", rn(res));
						if (res == fstrm_res_success)
							show_control(c);
					} else {
						const struct fstrm_control *c = NULL;
						res = fstrm_reader_get_control(r, (fstrm_control_type) t, &c);
						printf("R %s", rn(res));
						if (res == fstrm_res_success)
							show_control(c);
					}
					putchar('\n');
				} else if (!strcmp(op, "read")) {
					const uint8_t *p = NULL;
					size_t n = 0;
					fstrm_res res = fstrm_reader_read(r, &p, &n);
					printf("R %s ", rn(res));
#ifdef ISO
					fflush(stdout);   /* others may move before we look at it */
#endif
					if (res == fstrm_res_success) {
						if (p == NULL)
							printf("NULL");
						else if (n >= BIG) {
							hex(p, 8);
							printf("+%zu", n);
						} else
							hex(p, n);
					}
					putchar('\n');
				}
				if (!strcmp(op, "destroy")) {
					LEDGER("gone handle %d", w == NULL && r == NULL);
					if (ledger_live) {
						if (role == 'w') fstrm_writer_destroy(&w); else fstrm_reader_destroy(&r);
						LEDGER("again");
					}
				} else
					LEDGER(!strcmp(op, "mark") ? "mark" : "call");
				fflush(stdout);
			}
			if (ledger_live && (w || r)) {
				fflush(stdout);
				if (w) fstrm_writer_destroy(&w); else fstrm_reader_destroy(&r);
				LEDGER("gone handle %d", w == NULL && r == NULL);
			}
			if (rdwr != NULL)
				fstrm_rdwr_destroy(&rdwr);
			LEDGER("end");
			for (int k = 0; k < npay; k++)
				free(pay[k].p);
			for (int k = 0; k < nops; k++)
				free(ops[k]);
			for (int k = 0; k < nconn; k++)
				free(conns[k].in);
			printf("end\n");
			fflush(stdout);
		}
	}
	return 0;
}
