/*
 * A writer and a reader joined by pipes of bounded capacity, run as two tasks of the simulated runtime.
 * One line of stdin per run: ID seed bi cap sessions maxframe implicit ps w=CTS r=CTS b=BATCHES
 * CTS: comma separated hex strings ("-": empty string, "none": no content types).
 * BATCHES: per session (separated by /) comma separated write calls, each "len+len+..." ("." for none).
 * Prints "case ID", event lines, "end".
 */
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sim.h"
#include "fstrm.h"

static char out[8 << 20];
static size_t outlen;
#define EV(...) do { sim_quiet++; outlen += snprintf(out + outlen, sizeof out - outlen, __VA_ARGS__); \
	out[outlen++] = '\n'; if (outlen > sizeof out - 8192) { fprintf(stderr, "log full\n"); exit(98); } sim_quiet--; } while (0)

struct pipe { uint8_t *b; size_t cap, head, n; int wopen, ropen; volatile int moved[2]; };
static struct pipe P[2][8];       /* [direction][connection]: 0 writer to reader, 1 back */
static int bi, sessions, implicit, maxframe;
static size_t cap;
struct end { int conn, open, side; };
static struct end E[2];
static struct fstrm_writer *w;
static struct fstrm_reader *r;
static char *batches[8];
static volatile int arrived[8][2];
static int nid;
static size_t idlen[4096];

static void fill(uint8_t *b, int id, size_t len) { for (size_t j = 0; j < len; j++) b[j] = (uint8_t) (j == 0 ? id : j == 1 ? id >> 8 : id * 31 + j * 7 + (j >> 8)); }
static void touch(struct pipe *p) { sim_set_flag(&p->moved[0]); sim_set_flag(&p->moved[1]); }
static void await(struct pipe *p, int side) { p->moved[side] = 0; sim_wait_flag(&p->moved[side]); }

static fstrm_res m_open(void *obj)
{
	struct end *e = obj;
	sim_quiet++;
	if (e->open) EV("X opened twice");
	e->open = 1;
	e->conn++;
	if (e->conn >= 8) { fprintf(stderr, "too many connections\n"); exit(98); }
	sim_quiet--;
	return fstrm_res_success;
}
static fstrm_res m_close(void *obj)
{
	struct end *e = obj;
	sim_quiet++;
	if (!e->open) EV("X closed twice");
	e->open = 0;
	P[e->side][e->conn].wopen = 0;
	P[!e->side][e->conn].ropen = 0;
	touch(&P[e->side][e->conn]);
	touch(&P[!e->side][e->conn]);
	sim_quiet--;
	return fstrm_res_success;
}
static fstrm_res m_read(void *obj, void *data, size_t n)
{
	struct end *e = obj;
	fstrm_res res = fstrm_res_success;
	sim_quiet++;
	struct pipe *p = &P[!e->side][e->conn];
	for (size_t i = 0; i < n; i++) {
		while (p->n == 0 && p->wopen) await(p, e->side);
		if (p->n == 0) { res = fstrm_res_stop; break; }
		((uint8_t *) data)[i] = p->b[p->head];
		p->head = (p->head + 1) % p->cap;
		p->n--;
		touch(p);
	}
	sim_quiet--;
	sim_point();
	return res;
}
static fstrm_res m_write(void *obj, const struct iovec *iov, int cnt)
{
	struct end *e = obj;
	fstrm_res res = fstrm_res_success;
	sim_quiet++;
	struct pipe *p = &P[e->side][e->conn];
	for (int k = 0; k < cnt && res == fstrm_res_success; k++)
		for (size_t i = 0; i < iov[k].iov_len; i++) {
			while (p->n == p->cap && p->ropen) await(p, e->side);
			if (!p->ropen) { res = fstrm_res_failure; break; }
			p->b[(p->head + p->n++) % p->cap] = ((uint8_t *) iov[k].iov_base)[i];
			touch(p);
		}
	sim_quiet--;
	sim_point();
	return res;
}
static struct fstrm_rdwr *transport(int side)
{
	struct fstrm_rdwr *x = fstrm_rdwr_init(&E[side]);
	fstrm_rdwr_set_open(x, m_open);
	fstrm_rdwr_set_close(x, m_close);
	if (bi || side == 0) fstrm_rdwr_set_write(x, m_write);
	if (bi || side == 1) fstrm_rdwr_set_read(x, m_read);
	return x;
}
static void show(const char *who, fstrm_res res, const struct fstrm_control *c)
{
	sim_quiet++;
	size_t n = 0;
	outlen += sprintf(out + outlen, "%s %d", who, res == fstrm_res_success);
	if (res == fstrm_res_success) {
		fstrm_control_get_num_field_content_type(c, &n);
		for (size_t i = 0; i < n; i++) {
			const uint8_t *p; size_t l;
			fstrm_control_get_field_content_type(c, i, &p, &l);
			outlen += sprintf(out + outlen, " .");
			for (size_t j = 0; j < l; j++) outlen += sprintf(out + outlen, "%02x", p[j]);
		}
	}
	out[outlen++] = '\n';
	sim_quiet--;
}
static void meet(int s, int side)
{
	if (arrived[s][!side]) {
		EV("over");
		if (s < sessions - 1) EV("sess");
	}
	sim_set_flag(&arrived[s][side]);
	sim_wait_flag(&arrived[s][!side]);
}

static void writer_task(void *arg)
{
	for (int s = 0; s < sessions; s++) {
		fstrm_res res;
		if (!(implicit & 1) || s) { res = fstrm_writer_open(w); EV("wo %d", res == fstrm_res_success); }
		else res = fstrm_res_success;
		if (res == fstrm_res_success && !(implicit & 4)) {
			struct fstrm_control *c = NULL;
			res = fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c);
			show("wg", res, c);
		}
		char buf[4096], *save = NULL;
		snprintf(buf, sizeof buf, "%s", batches[s] ? batches[s] : ".");
		for (char *t = strtok_r(buf, ",", &save); t && res == fstrm_res_success; t = strtok_r(NULL, ",", &save)) {
			static struct iovec iov[2048];
			int n = 0;
			sim_quiet++;
			outlen += sprintf(out + outlen, "wcall");
			for (char *q = t; *q && *q != '.'; ) {
				size_t l = strtoul(q, &q, 10);
				if (*q == '+') q++;
				int id = ++nid;
				if (l == 1 && id > 255) l = 2;   /* stay identifiable */
				idlen[id] = l;
				iov[n].iov_base = sim_alloc(l, SIM_USER);
				iov[n].iov_len = l;
				fill(iov[n++].iov_base, id, l);
				outlen += sprintf(out + outlen, " %d", id);
			}
			if (!n) outlen -= 5;   /* no call at all */
			else out[outlen++] = '\n';
			sim_quiet--;
			if (!n) continue;
			if (n == 1) res = fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len);
			else res = fstrm_writer_writev(w, iov, n);
			EV("wret %d", res == fstrm_res_success);
			for (int i = 0; i < n; i++) { sim_quiet++; sim_release(iov[i].iov_base); sim_quiet--; }
		}
		EV("wx");
		res = s == sessions - 1 && implicit & 8 ? fstrm_writer_destroy(&w) : fstrm_writer_close(w);
		EV("wc %d", res == fstrm_res_success);
		meet(s, 0);
	}
	if (w) fstrm_writer_destroy(&w);
}
static void reader_task(void *arg)
{
	for (int s = 0; s < sessions; s++) {
		fstrm_res res;
		if (!(implicit & 2) || s) { res = fstrm_reader_open(r); EV("ro %d", res == fstrm_res_success); }
		else res = fstrm_res_success;
		if (res == fstrm_res_success && !(implicit & 4)) {
			const struct fstrm_control *c = NULL;
			res = fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c);
			show("rg", res, c);
		}
		while (res == fstrm_res_success) {
			const uint8_t *p = NULL; size_t n = 0;
			res = fstrm_reader_read(r, &p, &n);
			int id = -1;
			if (res == fstrm_res_success && n) {
				id = p[0] | (n > 1 ? p[1] << 8 : 0);
				if (id < 1 || id > nid || idlen[id] != n) id = -1;
				else {
					sim_quiet++;
					uint8_t *x = malloc(n);
					fill(x, id, n);
					if (memcmp(x, p, n)) id = -1;
					free(x);
					sim_quiet--;
				}
			}
			EV("rr %s %d", res == fstrm_res_success ? "ok" : res == fstrm_res_stop ? "stop" : "fail", id);
		}
		res = s == sessions - 1 && implicit & 16 ? fstrm_reader_destroy(&r) : fstrm_reader_close(r);
		EV("rc %d", res == fstrm_res_success);
		meet(s, 1);
	}
	if (r) fstrm_reader_destroy(&r);
}
static void bad(const char *what, const void *p, size_t n, int st) { EV("X memory %s", what); }

static void add(char *v, struct fstrm_writer_options *wo, struct fstrm_reader_options *ro)
{
	if (!strcmp(v, "none")) return;
	char *save = NULL;
	for (char *t = strtok_r(v, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
		uint8_t b[256];
		size_t n = 0;
		for (char *q = t; *q && *q != '-'; q += 2) { unsigned x; sscanf(q, "%2x", &x); b[n++] = (uint8_t) x; }
		fstrm_res res = wo ? fstrm_writer_options_add_content_type(wo, b, n) : fstrm_reader_options_add_content_type(ro, b, n);
		if (res != fstrm_res_success) EV("X content type refused");
	}
}

int main(void)
{
	static char line[1 << 16];
	static uint8_t mem[2][8][70000];
	while (fgets(line, sizeof line, stdin)) {
		alarm(60);   /* a run that does not end is as bad as one that crashes */
		struct sim_cfg c = { .max_steps = 40000000, .start_ns = 1000000000LL };
		char id[32];
		static char wc[8192], rc[8192], bt[32768];
		unsigned long long seed;
		sscanf(line, "%31s %llu %d %zu %d %d %d %lf w=%8191s r=%8191s b=%32767s", id, &seed, &bi, &cap, &sessions, &maxframe, &implicit, &c.p_sync, wc, rc, bt);
		c.seed = seed;
		printf("case %s\n", id);
		fflush(stdout);
		outlen = 0; nid = 0;
		memset(batches, 0, sizeof batches);
		char *save = NULL;
		int k = 0;
		for (char *t = strtok_r(bt, "/", &save); t && k < 8; t = strtok_r(NULL, "/", &save)) batches[k++] = t;
		for (int d = 0; d < 2; d++)
			for (int i = 0; i < 8; i++) P[d][i] = (struct pipe) { mem[d][i], cap, 0, 0, 1, 1, { 0 } };
		memset((void *) arrived, 0, sizeof arrived);
		for (int s = 0; s < 2; s++) E[s] = (struct end) { -1, 0, s };
		sim_on_bad = bad;
		sim_on_join = NULL;
		sim_start(&c);
		struct fstrm_writer_options *wo = fstrm_writer_options_init();
		struct fstrm_reader_options *ro = fstrm_reader_options_init();
		add(wc, wo, NULL);
		add(rc, NULL, ro);
		if (maxframe && fstrm_reader_options_set_max_frame_size(ro, maxframe) != fstrm_res_success) EV("X option refused");
		struct fstrm_rdwr *a = transport(0), *b = transport(1);
		w = fstrm_writer_init(wo, &a);
		r = fstrm_reader_init(ro, &b);
		fstrm_writer_options_destroy(&wo);
		fstrm_reader_options_destroy(&ro);
		sim_spawn(writer_task, NULL);
		sim_spawn(reader_task, NULL);
		int res = sim_run();
		if (res == SIM_DEADLOCK) EV("X deadlock");
		if (res == SIM_STEPS) EV("X no progress");
		if (res == SIM_DONE && sim_live(SIM_LIB)) EV("X leak %zu", sim_live(SIM_LIB));
		fwrite(out, 1, outlen, stdout);
		printf("end\n");
		fflush(stdout);
	}
	return 0;
}
