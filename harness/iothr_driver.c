/*
 * Runs one I/O thread scenario under one schedule of the simulated runtime. One line of stdin per run,
 * key=value tokens (see lib/iothrcheck.py). Prints "case ID", one line per event, "end".
 * Every event line: CODE MS ARGS...
 *   init ok | xi IDX H | gc | gr H | gx IDX H
 *   sc ID Q LEN KIND | sr ID RES      submit called / returned (KIND: 1 callback, 2 none, 0 invalid)
 *   fr ID ARGS_OK                     release callback
 *   to | te OK | tc OPEN | td         transport open begins/ends, close, destroy
 *   c TYPE | d ID                     control / data frame completely written (ID -1: not a submitted one)
 *   wb ID... | wv FRAMES BYTES        a write call of the I/O thread begins / ends
 *   wf | rx                           transport write failed; a read failed
 *   fin                               FINISH completely read
 *   bb | be                           the transport starts/stops blocking the caller
 *   dc | dr ALIVE LEAKS               destroy called / returned
 *   X WHAT
 */
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sim.h"
#include "fstrm.h"

#define MAXC 16
#define MAXP 8
#define MAXF 20000
static char out[16 << 20];
static size_t outlen;
static int64_t epoch_s;      /* times are reported from there on */
static long ms(void) { return (long) (sim_now() / 1000000 - epoch_s * 1000); }
#define EV(code, ...) do { sim_quiet++; outlen += snprintf(out + outlen, sizeof out - outlen, code " %ld", ms()); \
	outlen += snprintf(out + outlen, sizeof out - outlen, " " __VA_ARGS__); out[outlen++] = '\n'; \
	if (outlen > sizeof out - 4096) { fprintf(stderr, "log full\n"); exit(98); } sim_quiet--; } while (0)

/* ------------------------------------------------------------ scenario */
struct conn { int open, delay, wfail, slow, bad, nofin, rdelay, gate, cdelay; };
static struct conn conns[MAXC];
static int nconns;
static char *prod[MAXP], *mainops, *sets;
static int nprod, race, all, bi, usect, cbq;
static unsigned opt_oq, opt_bh, opt_ft, opt_iq, opt_nq, opt_m, opt_nt, opt_ri, opt_def;
static struct fstrm_iothr *iothr;
static volatile int gate, done[MAXP], prods_gone;
static int prods_left;
static int nframes;
/* real: bytes of memory behind p (less than len for a huge frame, whose payload nobody needs to look at);
 * fd: what is passed as free_data (0 the frame, 1 the data, 2 NULL, 3 anything else), 4: fstrm_free_wrapper */
static struct frame { uint8_t *p; size_t len, real; int reentrant, fd; } F[MAXF];
#define MAXH 4096
static struct fstrm_iothr_queue *handles[MAXH];
static int nhandles;

static int handle(struct fstrm_iothr_queue *q)
{
	if (!q) return 0;
	for (int i = 0; i < nhandles; i++) if (handles[i] == q) return i + 1;
	if (nhandles < MAXH) handles[nhandles++] = q;
	return nhandles;
}

static void bad(const char *what, const void *p, size_t n, int st)
{
	for (int i = 1; i <= nframes; i++)
		if (F[i].p && (uint8_t *) p < F[i].p + F[i].real && (uint8_t *) p + (n ? n : 1) > F[i].p) {
			if (st == 2) { EV("uaf", "%d", i); return; }
			break;
		}
	EV("X", "memory %s", what);
}

static void fill(uint8_t *b, int id, size_t len)
{
	for (size_t j = 0; j < len; j++) b[j] = (uint8_t) (j == 0 ? id : j == 1 ? id >> 8 : id * 31 + j * 7 + (j >> 8));
}
static int ident(const uint8_t *b, size_t len)
{
	int id = b[0];
	if (len > 1) id |= b[1] << 8;
	if (id < 1 || id > nframes || F[id].len != len) return -1;
	uint8_t *w = malloc(len);
	fill(w, id, len);
	int ok = !memcmp(w, b, len);
	free(w);
	return ok ? id : -1;
}

#define HUGE_LEN 0x1000000
/* the huge frame whose payload this is: its number, -1 if its length is not intact, 0 if it is no huge frame */
static int huge(const struct iovec *v)
{
	if (v->iov_len < HUGE_LEN) return 0;
	for (int i = 1; i <= nframes; i++)
		if (F[i].p == v->iov_base) return F[i].len == v->iov_len && !sim_state(F[i].p, F[i].real) ? i : -1;
	return -1;
}
static size_t small(size_t b) { return b < 2000000000 ? b : 2000000000; }

/* ------------------------------------------------------------ transport */
static int attempt;           /* opens so far */
static int t_open, t_failed;
static size_t t_written;
static uint8_t *unit;         /* bytes of the unit being assembled */
static size_t unit_len, unit_cap;
static uint8_t in[512];
static size_t in_len, in_pos, fin_at;
static int in_call, call_frames;   /* within a wrapped write call */
static size_t call_bytes;

static struct conn *cur_conn(void) { return &conns[(attempt - 1 < nconns ? attempt - 1 : nconns - 1)]; }
static uint32_t be(const uint8_t *p) { return (uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void put(uint8_t *b, size_t *n, uint32_t v) { for (int i = 3; i >= 0; i--) b[(*n)++] = (uint8_t) (v >> (8 * i)); }
static void stall(int d)
{
	if (!d) return;
	EV("bb", "");
	sim_sleep(d * 1000000LL);
	EV("be", "");
}

static fstrm_res m_open(void *obj)
{
	sim_quiet++;
	attempt++;
	struct conn *c = cur_conn();
	EV("to", "");
	if (t_open) EV("X", "opened twice");
	if (c->gate) while (!gate) sim_wait_flag(&gate);
	if (c->delay) sim_sleep(c->delay * 1000000LL);
	t_failed = 0; t_written = 0; unit_len = 0;
	in_len = in_pos = 0;
	if (bi) {
		put(in, &in_len, 0);
		size_t lp = in_len;
		put(in, &in_len, 0);
		put(in, &in_len, c->bad == 1 ? FSTRM_CONTROL_READY : FSTRM_CONTROL_ACCEPT);
		if (usect) { put(in, &in_len, 1); put(in, &in_len, 2); in[in_len++] = c->bad == 2 ? 'z' : 'c'; in[in_len++] = 't'; }
		size_t l = in_len - 8;
		put(in, &lp, (uint32_t) l);
		if (c->bad == 3) in_len = 9;
		if (!c->nofin) { put(in, &in_len, 0); put(in, &in_len, 4); put(in, &in_len, FSTRM_CONTROL_FINISH); }
	}
	t_open = c->open;
	EV("te", "%d %d", c->open, !c->nofin);
	sim_quiet--;
	return c->open ? fstrm_res_success : fstrm_res_failure;
}

static fstrm_res m_close(void *obj)
{
	sim_quiet++;
	if (t_open && cur_conn()->cdelay) sim_sleep(cur_conn()->cdelay * 1000000LL);
	EV("tc", "%d", t_open);
	t_open = 0;
	sim_quiet--;
	return fstrm_res_success;
}

static fstrm_res m_destroy(void *obj) { EV("td", ""); return fstrm_res_success; }

static fstrm_res m_read(void *obj, void *data, size_t n)
{
	sim_quiet++;
	struct conn *c = cur_conn();
	fstrm_res r = fstrm_res_success;
	if (!t_open) EV("X", "read on closed transport");
	stall(c->rdelay);
	if (n > in_len - in_pos) {
		EV("rx", "");
		r = fstrm_res_stop;
	} else {
		memcpy(data, in + in_pos, n);
		in_pos += n;
		if (in_pos == in_len && !c->nofin && n) EV("fin", "");
	}
	sim_quiet--;
	return r;
}

static void parse(void)
{
	for (;;) {
		if (unit_len < 4) return;
		uint32_t l = be(unit);
		size_t total;
		if (l == 0) {
			if (unit_len < 8) return;
			l = be(unit + 4);
			total = 8 + (size_t) l;
			if (unit_len < total) return;
			EV("c", "%d", l >= 4 ? (int) be(unit + 8) : -1);
		} else {
			total = 4 + (size_t) l;
			if (unit_len < total) return;
			EV("d", "%d", ident(unit + 4, l));
			if (in_call) { call_frames++; call_bytes += total; }
		}
		memmove(unit, unit + total, unit_len - total);
		unit_len -= total;
	}
}

static fstrm_res m_write(void *obj, const struct iovec *iov, int n)
{
	sim_quiet++;
	struct conn *c = cur_conn();
	fstrm_res r = fstrm_res_success;
	int own = !in_call;
	if (!t_open) EV("X", "write on closed transport");
	if (own) { in_call = 1; call_frames = 0; call_bytes = 0; }
	stall(c->slow);
	for (int i = 0; i < n && r == fstrm_res_success; i++) {
		const uint8_t *p = iov[i].iov_base;
		size_t l = iov[i].iov_len;
		int hid = huge(&iov[i]);
		if (hid) {
			if (c->wfail >= 0 && t_written + l > (size_t) c->wfail) { t_written = (size_t) c->wfail; r = fstrm_res_failure; break; }
			if (unit_len != 4 || be(unit) != l) hid = -1;
			EV("d", "%d", hid);
			call_frames++; call_bytes += l + 4;
			unit_len = 0;
			t_written += l;
			continue;
		}
		if (sim_state(p, l)) bad("write from", p, l, sim_state(p, l));
		if (c->wfail >= 0 && t_written + l > (size_t) c->wfail) {
			l = c->wfail - t_written;
			r = fstrm_res_failure;
		}
		if (unit_len + l > unit_cap) { unit_cap = 2 * (unit_len + l); unit = realloc(unit, unit_cap); }
		memcpy(unit + unit_len, p, l);
		unit_len += l;
		t_written += l;
		parse();
	}
	if (r != fstrm_res_success) { t_failed = 1; EV("wf", ""); }
	if (own) { in_call = 0; if (call_frames) EV("wv", "%d %zu", call_frames, small(call_bytes)); }
	sim_quiet--;
	return r;
}

fstrm_res __real_fstrm_writer_writev(struct fstrm_writer *, const struct iovec *, int);
fstrm_res __wrap_fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int n)
{
	size_t b = 0;
	for (int i = 0; i < n; i++) b += iov[i].iov_len + 4;
	EV("wb", "%s", "");
	outlen--;
	for (int i = 0; i < n && i < 2000; i++) {
		int id = huge(&iov[i]);
		if (!id) id = sim_state(iov[i].iov_base, iov[i].iov_len) ? -1 : ident(iov[i].iov_base, iov[i].iov_len);
		outlen += snprintf(out + outlen, sizeof out - outlen, " %d", id);
	}
	out[outlen++] = '\n';
	in_call = 1;
	fstrm_res r = __real_fstrm_writer_writev(w, iov, n);
	in_call = 0;
	EV("wv", "%d %zu", n, small(b));
	return r;
}

/* ------------------------------------------------------------ producers */
static void release_cb(void *data, void *arg);
static void *free_arg(int id)
{
	switch (F[id].fd) {
	case 0: return &F[id];
	case 1: return F[id].p;
	case 3: return (void *) (size_t) id;
	default: return NULL;
	}
}
static int by_data(const void *p)
{
	static int last;
	if (!p) return 0;
	for (int k = 0; k <= nframes; k++) {
		int i = (last + k) % (nframes + 1);
		if (i && F[i].p == p) return last = i;
	}
	return 0;
}
/* somebody called free() on a buffer of ours: only fstrm_free_wrapper does that */
static void on_free(void *p)
{
	int id = by_data(p);
	if (id && F[id].fd == 4) EV("fr", "%d 1", id);
}
static fstrm_res submit(struct fstrm_iothr_queue *q, int h, size_t len, int kind, int reent, int again)
{
	int id = again;
	if (!id) {
		if (nframes + 1 >= MAXF) { fprintf(stderr, "too many frames\n"); exit(98); }
		id = ++nframes;
		if (len == 1 && id > 255) len = 2;   /* stay identifiable */
		F[id].len = len;
		F[id].real = len < HUGE_LEN ? len : 64;
		F[id].reentrant = reent;
		F[id].fd = kind < 10 ? 0 : kind - 10;
		sim_quiet++;
		F[id].p = sim_alloc(F[id].real, SIM_USER);
		fill(F[id].p, id, F[id].real);
		sim_quiet--;
	}
	if (kind >= 10) kind = 1;
	EV("sc", "%d %d %zu %d", id, h, small(len), kind);
	sim_region = 1;
	fstrm_res r = fstrm_iothr_submit(iothr, q, F[id].p, len, kind != 1 ? NULL : F[id].fd == 4 ? fstrm_free_wrapper : release_cb, kind == 1 ? free_arg(id) : NULL);
	sim_region = 0;
	EV("sr", "%d %d", id, r);
	return r;
}
static void invalid(struct fstrm_iothr_queue *q, int h, int k)
{
	static uint8_t dummy[4];
	size_t len = k == 0 ? 4 : k == 1 ? 0 : k == 2 ? 0xffffffffUL : k == 3 ? 0x100000000UL : k == 4 ? 0x100000004UL : 0x1ffffffffUL;
	int id = ++nframes;
	F[id].len = 0; F[id].p = NULL;
	EV("sc", "%d %d 0 0", id, h);
	fstrm_res r = fstrm_iothr_submit(iothr, q, k == 0 ? NULL : dummy, len, release_cb, &F[id]);
	EV("sr", "%d %d", id, r);
}
static void release_cb(void *data, void *arg)
{
	sim_quiet++;
	int id = by_data(data), ok = id && F[id].fd != 4 && arg == free_arg(id);
	struct frame *f = &F[id];
	EV("fr", "%d %d", id, ok);
	if (ok && sim_state(data, f->real) == 0) {
		uint8_t *w = malloc(f->real);
		fill(w, id, f->real);
		if (memcmp(w, data, f->real)) EV("X", "payload altered");
		free(w);
		sim_release(data);
	}
	sim_quiet--;
	if (ok && f->reentrant && cbq >= 0) {
		int q = sim_quiet;
		sim_quiet = 0;
		submit(handles[cbq], cbq + 1, 3 + id % 5, 1, f->reentrant - 1, 0);
		sim_quiet = q;
	}
}

static void run_ops(char *ops, int is_main)
{
	struct fstrm_iothr_queue *q = NULL;
	int h = 0;
	for (char *p = ops; *p; ) {
		char op = *p++;
		long a = strtol(p, &p, 10);
		if (*p == '.') p++;
		sim_point();
		switch (op) {
		case 'q':
			EV("gc", "");
			q = fstrm_iothr_get_input_queue(iothr);
			h = handle(q);
			EV("gr", "%d", h);
			break;
		case 'x':
			q = fstrm_iothr_get_input_queue_idx(iothr, (size_t) a);
			h = handle(q);
			EV("gx", "%ld %d", a, h);
			break;
		case 's': if (q) submit(q, h, (size_t) a, 1, 0, 0); break;
		case 'h': if (q) submit(q, h, (size_t) a, 1, 0, 0); break;
		case 'd': if (q) submit(q, h, (size_t) a, 11, 0, 0); break;
		case 'e': if (q) submit(q, h, (size_t) a, 12, 0, 0); break;
		case 'f': if (q) submit(q, h, (size_t) a, 13, 0, 0); break;
		case 'w': if (q) submit(q, h, (size_t) a, 14, 0, 0); break;
		case 'n': if (q) submit(q, h, (size_t) a, 2, 0, 0); break;
		case 'c': if (q) submit(q, h, (size_t) a, 1, 1, 0); break;
		case 'C': if (q) submit(q, h, (size_t) a, 1, 3, 0); break;
		case 'r':
			if (q) {
				fstrm_res r = submit(q, h, (size_t) a, 1, 0, 0);
				int id = nframes;
				for (int i = 0; i < 20 && r == fstrm_res_again; i++) {
					/* the payload is still ours: use a fresh attempt with the same data */
					sim_sleep(100000000);
					r = submit(q, h, (size_t) a, 1, 0, 0);
				}
				(void) id;
			}
			break;
		case 'v': if (q) invalid(q, h, (int) a); break;
		case 'z': sim_sleep(a * 1000000LL); break;
		case 'p': sim_point(); break;
		case 'j': sim_realtime_offset += a * 1000000000LL; break;
		case 'g': sim_set_flag(&gate); break;
		case 'W': while (prods_left > 0) sim_wait_flag(&prods_gone); break;
		default: fprintf(stderr, "bad op %c\n", op); exit(98);
		}
	}
}

static void producer(void *arg)
{
	run_ops(prod[(size_t) arg], 0);
	if (--prods_left == 0) sim_set_flag(&prods_gone);
}

static void on_join(void)
{
	while (prods_left > 0) sim_wait_flag(&prods_gone);
}

static void main_task(void *arg)
{
	struct fstrm_rdwr *rdwr = fstrm_rdwr_init(NULL);
	fstrm_rdwr_set_open(rdwr, m_open);
	fstrm_rdwr_set_close(rdwr, m_close);
	fstrm_rdwr_set_write(rdwr, m_write);
	fstrm_rdwr_set_destroy(rdwr, m_destroy);
	if (bi) fstrm_rdwr_set_read(rdwr, m_read);
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	if (usect) fstrm_writer_options_add_content_type(wo, "ct", 2);
	struct fstrm_writer *w = fstrm_writer_init(wo, &rdwr);
	fstrm_writer_options_destroy(&wo);
	struct fstrm_iothr_options *o = NULL;
	if (sets) {   /* a sequence of setter calls, reported */
		char *s2 = NULL;
		o = fstrm_iothr_options_init();
		for (char *u = strtok_r(sets, "/", &s2); u; u = strtok_r(NULL, "/", &s2)) {
			char *v = strchr(u, ':');
			*v++ = 0;
			unsigned x = (unsigned) strtoul(v, NULL, 10);
			fstrm_res r = !strcmp(u, "oq") ? fstrm_iothr_options_set_output_queue_size(o, x) :
				!strcmp(u, "bh") ? fstrm_iothr_options_set_buffer_hint(o, x) :
				!strcmp(u, "ft") ? fstrm_iothr_options_set_flush_timeout(o, x) :
				!strcmp(u, "iq") ? fstrm_iothr_options_set_input_queue_size(o, x) :
				!strcmp(u, "nq") ? fstrm_iothr_options_set_num_input_queues(o, x) :
				!strcmp(u, "m") ? fstrm_iothr_options_set_queue_model(o, (fstrm_iothr_queue_model) x) :
				!strcmp(u, "nt") ? fstrm_iothr_options_set_queue_notify_threshold(o, x) :
				fstrm_iothr_options_set_reopen_interval(o, x);
			EV("os", "%s %u %d", u, x, r);
		}
		opt_nq = 1000;
	} else if (!opt_def) {
		o = fstrm_iothr_options_init();
		int bad = 0;
		bad |= fstrm_iothr_options_set_output_queue_size(o, opt_oq);
		bad |= fstrm_iothr_options_set_buffer_hint(o, opt_bh);
		bad |= fstrm_iothr_options_set_flush_timeout(o, opt_ft);
		bad |= fstrm_iothr_options_set_input_queue_size(o, opt_iq);
		bad |= fstrm_iothr_options_set_num_input_queues(o, opt_nq);
		bad |= fstrm_iothr_options_set_queue_model(o, opt_m);
		bad |= fstrm_iothr_options_set_queue_notify_threshold(o, opt_nt);
		bad |= fstrm_iothr_options_set_reopen_interval(o, opt_ri);
		if (bad) EV("X", "option refused");
	}
	iothr = fstrm_iothr_init(o, &w);
	EV("init", "%d", iothr != NULL && w == NULL);
	if (o) {   /* later changes have no effect */
		fstrm_iothr_options_set_output_queue_size(o, 2);
		fstrm_iothr_options_set_buffer_hint(o, 65536);
		fstrm_iothr_options_set_flush_timeout(o, 600);
		fstrm_iothr_options_set_input_queue_size(o, 2);
		fstrm_iothr_options_set_num_input_queues(o, 1000);
		fstrm_iothr_options_set_reopen_interval(o, 600);
		fstrm_iothr_options_set_queue_notify_threshold(o, 4000000000U);
		fstrm_iothr_options_set_queue_model(o, FSTRM_IOTHR_QUEUE_MODEL_SPSC);
		fstrm_iothr_options_destroy(&o);
	}
	if (!iothr) return;
	if (opt_nq <= (all ? MAXH - 1 : 32)) {
		for (unsigned i = 0; i < opt_nq; i++) {
			struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue_idx(iothr, i);
			EV("gx", "%u %d", i, handle(q));
		}
		EV("gx", "%u %d", opt_nq, handle(fstrm_iothr_get_input_queue_idx(iothr, opt_nq)));
		EV("gx", "%u %d", 100000, handle(fstrm_iothr_get_input_queue_idx(iothr, (size_t) -1)));
		EV("gx", "%u %d", 100001, handle(fstrm_iothr_get_input_queue_idx(iothr, (size_t) 1 << 32)));
	}
	for (int i = 0; i < nprod; i++) sim_spawn(producer, (void *) (size_t) i);
	run_ops(mainops, 1);
	if (!race) while (prods_left > 0) sim_wait_flag(&prods_gone);
	sim_on_join = race ? on_join : NULL;
	EV("dc", "");
	fstrm_iothr_destroy(&iothr);
	EV("dr", "%d %zu", sim_others_alive(), sim_live(SIM_LIB));
	if (iothr) EV("X", "pointer not cleared");
}

static int num(const char *s, char k, int dflt)
{
	for (const char *p = s + 1; *p; p++) if (*p == k) return atoi(p + 1);
	return dflt;
}

int main(void)
{
	static char line[1 << 20];
	while (fgets(line, sizeof line, stdin)) {
		alarm(60);   /* a run that does not end is as bad as one that crashes */
		struct sim_cfg c = { .max_steps = 6000000, .start_ns = 5000000000LL };
		epoch_s = 0;
		char id[64] = "", *save = NULL;
		static int script[64];
		static char empty[] = "";
		nconns = nprod = race = all = bi = usect = opt_def = 0; cbq = -1; mainops = empty; sets = NULL;
		for (char *t = strtok_r(line, " \n", &save); t; t = strtok_r(NULL, " \n", &save)) {
			char *v = strchr(t, '=');
			if (!v) continue;
			*v++ = 0;
#define K(s) !strcmp(t, s)
			if (K("id")) snprintf(id, sizeof id, "%s", v);
			else if (K("seed")) c.seed = strtoull(v, NULL, 10);
			else if (K("pa")) c.p_access = atof(v);
			else if (K("ps")) c.p_sync = atof(v);
			else if (K("pct")) c.pct = atoi(v);
			else if (K("plen")) c.pct_len = (unsigned) atoi(v);
			else if (K("spur")) c.p_spurious = atof(v);
			else if (K("fz")) c.p_freeze = atof(v);
			else if (K("fzs")) c.freeze_region = atoi(v);
			else if (K("t0")) c.start_ns = strtoll(v, NULL, 10) * 1000000;
			else if (K("tb")) epoch_s = strtoll(v, NULL, 10);
			else if (K("roff")) sim_realtime_offset = strtoll(v, NULL, 10) * 1000000000;
			else if (K("oq")) opt_oq = (unsigned) atoi(v);
			else if (K("bh")) opt_bh = (unsigned) atoi(v);
			else if (K("ft")) opt_ft = (unsigned) atoi(v);
			else if (K("iq")) opt_iq = (unsigned) atoi(v);
			else if (K("nq")) opt_nq = (unsigned) atoi(v);
			else if (K("m")) opt_m = (unsigned) atoi(v);
			else if (K("nt")) opt_nt = (unsigned) atoi(v);
			else if (K("ri")) opt_ri = (unsigned) atoi(v);
			else if (K("def")) opt_def = (unsigned) atoi(v);
			else if (K("bi")) bi = atoi(v);
			else if (K("ct")) usect = atoi(v);
			else if (K("cbq")) cbq = atoi(v);
			else if (K("race")) race = atoi(v);
			else if (K("all")) all = atoi(v);
			else if (K("main")) mainops = v;
			else if (K("set")) sets = v;
			else if (K("prod")) {
				char *s2 = NULL;
				for (char *u = strtok_r(v, "/", &s2); u && nprod < MAXP; u = strtok_r(NULL, "/", &s2)) prod[nprod++] = u;
			} else if (K("pre")) {
				char *s2 = NULL;
				for (char *u = strtok_r(v, ",", &s2); u && c.nscript < 64; u = strtok_r(NULL, ",", &s2)) script[c.nscript++] = atoi(u);
				c.script = script;
			} else if (K("conns")) {
				char *s2 = NULL;
				for (char *u = strtok_r(v, ",", &s2); u && nconns < MAXC; u = strtok_r(NULL, ",", &s2)) {
					struct conn *n = &conns[nconns++];
					n->open = *u == 'O';
					n->delay = num(u, 'd', 0); n->wfail = num(u, 'w', -1); n->slow = num(u, 's', 0);
					n->bad = num(u, 'A', 0); n->nofin = num(u, 'n', 0); n->rdelay = num(u, 'h', 0); n->gate = num(u, 'G', 0);
					n->cdelay = num(u, 'k', 0);
				}
			}
		}
		c.start_ns += epoch_s * 1000000000;
		printf("case %s\n", id);
		fflush(stdout);
		outlen = 0;
		nframes = 0; nhandles = 0; gate = 0; prods_gone = 0; prods_left = nprod; attempt = 0; t_open = 0; in_call = 0; iothr = NULL;
		if (!nprod) prods_gone = 1;
		sim_on_bad = bad;
		sim_on_join = NULL;
		sim_on_free = on_free;
#ifdef ISO
		main_task(NULL);
		int r = SIM_DONE;
#else
		sim_start(&c);
		sim_spawn(main_task, NULL);
		int r = sim_run();
#endif
		if (r == SIM_DEADLOCK) EV("X", "deadlock");
		if (r == SIM_STEPS) EV("X", "no progress");
		fwrite(out, 1, outlen, stdout);
		printf("end %llu\n", (unsigned long long) sim_steps);
		fflush(stdout);
	}
	return 0;
}
