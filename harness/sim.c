/* P11-P17: the I/O thread and its queues under the deterministic simulator. */
#include "simcore.h"
#include "ref.h"
#include <fstrm.h>
#include <malloc.h>
#include "libmy/my_queue.h"
#ifdef H_MEM
#include "memacct.h"
#endif
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;

static bool h_leak_mode(const char *m) { return !strcmp(m, "P15"); }
#define V(tag, ...) do { if (!strcmp(h_mode, tag)) violation(__VA_ARGS__); } while (0)
static bool mode_is(const char *m) { return !strcmp(h_mode, m); }

static void sim_fatal(const char *kind, const char *msg)
{
	S.active = false;
	violation(kind, "%s (virtual time %.3f s, %" PRIu64 " steps)", msg, S.now / 1e9, S.steps);
	uint64_t p = h_progress[0];
	h_flush();
	h_progress[0] = p;
	_exit(97);
}

#define LONG_ONE_IN 3000
static uint64_t ev;		/* global event order */

/* ------------------------------------------------------------------ world */
typedef struct {
	int q, prod, cbkind;	/* cbkind: 0 counted and freed, 1 none, 2 fstrm_free_wrapper, 3 counted, without an argument */
	size_t len;
	uint8_t *data;
	fstrm_res res;
	bool returned, down_at_call;
	uint64_t t_call, t_ret, s_call, s_ret, op0;	/* op0: time spent in the transport until then */
	int nw, conn, wlog;	/* times seen on the wire */
	int ncb; uint64_t s_cb, t_cb;
	struct ctx *c;
} frec;
typedef struct { int conn; size_t off, len; uint64_t t0, t1, s0, s1, op1; bool failed; int frame; } wrec;
typedef struct {
	uint64_t t_open, s_open, s_up, t_up, t_fail, s_fail, t_close;
	bool open_ok, up, failed, closed, stop_seen, ready_ok;
	bb raw; size_t pos; int nctl; uint32_t ctl[8];
	const char *bad;
	bb rx; size_t rxpos;	/* what the peer sends */
	bool bad_accept;
} conn;
typedef struct { uint64_t t_call, t_ret; bool ok; } opt_t;
typedef struct {
	unsigned hint, flush, isize, nq, osize, thresh, reopen;
	int model;
} cfg;
typedef struct ctx {
	cfg g;
	struct fstrm_iothr *io;
	struct fstrm_iothr_queue *q[400];
	int nqh;
	struct fstrm_writer *w;
	bool bi, faults, tiny, small, huge;
	uint8_t ct[40]; size_t nct;
	/* transport */
	bool is_open, in_op, destroyed, t_destroyed, has_destroy;
	int ndestroy, cur;
	conn *k; int nk, maxk;
	wrec *w_; int nw, cw;
	uint64_t optime;		/* total virtual time spent in transport operations */
	int delay;			/* delay profile */
	uint64_t stall_at, stall_for;	/* the stall_at-th operation takes stall_for */
	unsigned nops;
	unsigned pwrite, popen, pread;	/* failure probabilities, per 1000 */
	uint64_t win[64]; int nwin;	/* outage windows: [win[2i], win[2i+1]) */
	uint64_t lastdown;
	int badacc;			/* peer answers READY wrongly, per 1000 */
	/* load */
	frec *f; int nf, maxf;
	int nprod;
	struct { int q, frames, gap, retry; struct ctx *c; int idx; pthread_t t; bool byidx; } p[8];
	uint64_t T0;			/* when the producers went idle */
	uint64_t optime_at_T0;
	uint64_t t_start, t_dcall, t_dret, s_dcall, s_dret, optime_at_d;
	int nagain, naccepted, ninvalid, refused_after;
	int io_fiber;
	uint64_t cbs;
	int nlate;
} ctx;
static ctx *W[2];

static void fill(uint8_t *p, size_t n, unsigned id, bool tiny)
{
	for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(id * 37 + i * 11 + (i >> 8) + 5);
	if (!tiny) {
		p[0] = 0xf5; p[1] = 0x7a;
		p[2] = id >> 24; p[3] = id >> 16; p[4] = id >> 8; p[5] = id;
	}
}
static bool in_outage(ctx *c, uint64_t t)
{
	for (int i = 0; i + 1 < c->nwin; i += 2) if (t >= c->win[i] && t < c->win[i + 1]) return true;
	return false;
}
static uint64_t op_delay(ctx *c)
{
	if (c->stall_for && c->nops == c->stall_at) return c->stall_for;
	switch (c->delay) {
	case 0: return 0;
	case 1: return rnd(50 * USEC);
	case 2: return rnd(3) ? 0 : rnd(50 * MSEC);
	case 3: return rnd(4) ? rnd(MSEC) : rnd(3 * SEC);
	default: return rnd(8) ? rnd(5 * MSEC) : rnd(20 * SEC);
	}
}
static uint64_t op_begin(ctx *c, const char *what)
{
	if (c->destroyed) V("P15", "activity-after-destroy", "%s called after fstrm_iothr_destroy returned", what);
	if (c->t_destroyed) V("P15", "activity-after-destroy", "%s called after the transport was destroyed", what);
	if (c->in_op) V("P15", "concurrent-op", "%s called while another transport operation is in progress", what);
	c->in_op = true;
	uint64_t t = S.now;
	for (unsigned i = rnd(3); i > 0; i--) sim_step();
	uint64_t d = op_delay(c);
	c->nops++;
	if (d) sim_sleep_ns(d);
	return t;
}
static void op_end(ctx *c, uint64_t t)
{
	sim_step();
	c->optime += S.now - t;
	c->in_op = false;
}
/* whatever a transport returns that is not success is a failure */
static fstrm_res t_bad(void)
{
	static const fstrm_res bad[] = { fstrm_res_failure, fstrm_res_failure, fstrm_res_failure, fstrm_res_stop, fstrm_res_again, fstrm_res_invalid };
	return bad[rnd(6)];
}
static fstrm_res t_open(void *o)
{
	ctx *c = o;
	if (c->nk >= c->maxk) { fprintf(stderr, "harness: too many connections\n"); _exit(99); }
	uint64_t s = ev++;
	conn *k = &c->k[c->nk];
	memset(k, 0, sizeof *k);
	k->t_open = S.now; k->s_open = s;
	if (c->is_open) V("P13", "double-open", "the transport was opened while open");
	int me = c->nk++;
	uint64_t t = op_begin(c, "open");
	if (c->faults && (in_outage(c, S.now) || rnd(1000) < c->popen)) {
		k->failed = true; k->t_fail = S.now; k->s_fail = ev++;
		op_end(c, t);
		return t_bad();
	}
	k->open_ok = true;
	c->cur = me;
	c->is_open = true;
	op_end(c, t);
	return fstrm_res_success;
}
static fstrm_res t_close(void *o)
{
	ctx *c = o;
	if (!c->is_open) V("P15", "close-not-open", "the transport was closed while not open");
	uint64_t t = op_begin(c, "close");
	c->is_open = false;
	if (c->nk) { c->k[c->cur].closed = true; c->k[c->cur].t_close = S.now; }
	bool fail = c->faults && rnd(1000) < c->pwrite;
	op_end(c, t);
	return fail ? t_bad() : fstrm_res_success;
}
static fstrm_res t_destroy(void *o)
{
	ctx *c = o;
	if (c->destroyed) V("P15", "activity-after-destroy", "transport destroyed after fstrm_iothr_destroy returned");
	if (c->is_open) V("P15", "destroyed-open", "the transport was destroyed while open");
	c->ndestroy++;
	c->t_destroyed = true;
	return fstrm_res_success;
}
static fstrm_res t_read(void *o, void *buf, size_t n)
{
	ctx *c = o;
	conn *k = &c->k[c->cur];
	uint64_t t = op_begin(c, "read");
	if (c->faults && (in_outage(c, S.now) || rnd(1000) < c->pread)) {
		if (!k->failed) { k->failed = true; k->t_fail = S.now; k->s_fail = ev++; }
		op_end(c, t);
		return t_bad();
	}
	/* the peer's side of the stream: ACCEPT, then FINISH */
	if (k->rx.n == 0) {
		if (c->nct) ref_ctl1(&k->rx, T_ACCEPT, (rbuf){ c->ct, c->nct }); else ref_ctl(&k->rx, T_ACCEPT);
		if (c->badacc && rnd(1000) < (unsigned)c->badacc) { k->rx.p[11] = 2; k->bad_accept = true; }
		ref_ctl(&k->rx, T_FINISH);
	}
	size_t m = k->rx.n - k->rxpos;
	if (m > n) m = n;
	memset(buf, 0, n);
	memcpy(buf, k->rx.p + k->rxpos, m);
	if (k->bad_accept && k->rxpos < 12 && k->rxpos + m >= 12 && !k->failed) { k->failed = true; k->t_fail = S.now; k->s_fail = ev++; }
	k->rxpos += m;
	op_end(c, t);
	return m == n ? fstrm_res_success : fstrm_res_failure;
}
static void parse(ctx *c, int ki, uint64_t t0, uint64_t s0, bool failed)
{
	conn *k = &c->k[ki];
	while (!k->bad && k->raw.n - k->pos >= 4) {
		uint8_t *p = k->raw.p + k->pos;
		size_t have = k->raw.n - k->pos, len = get32(p);
		if (k->stop_seen) { k->bad = "bytes after STOP"; break; }
		if (len == 0) {
			if (have < 8) break;
			size_t l = get32(p + 4);
			if (l > 512 || l < 4) { k->bad = "malformed control frame"; break; }
			if (have < 8 + l) break;
			rframe f;
			if (ref_dec(p + 8, l, &f) != RD_OK) { k->bad = "malformed control frame"; break; }
			static const uint32_t uni[] = { T_START, T_STOP }, bi[] = { T_READY, T_START, T_STOP };
			if (k->nctl > (c->bi ? 2 : 1) || (c->bi ? bi : uni)[k->nctl] != f.type) { k->bad = "control frame out of order"; break; }
			if (f.type != T_STOP && (f.nct != (c->nct ? 1 : 0) || (f.nct && !rb_eq(f.ct[0], (rbuf){ c->ct, c->nct })))) { k->bad = "wrong content type"; break; }
			if (f.type == T_START && !failed) { k->up = true; k->t_up = S.now; k->s_up = ev++; }
			if (f.type == T_STOP) k->stop_seen = true;
			k->ctl[k->nctl++] = f.type;
			k->pos += 8 + l;
			continue;
		}
		if (k->nctl != (c->bi ? 2 : 1)) { k->bad = "data outside of the stream"; break; }
		if (have < 4 + len) break;
		if (c->nw == c->cw) { c->cw = c->cw ? c->cw * 2 : 256; c->w_ = realloc(c->w_, c->cw * sizeof *c->w_); }
		c->w_[c->nw++] = (wrec){ .conn = ki, .off = k->pos + 4, .len = len, .t0 = t0, .t1 = S.now, .s0 = s0, .s1 = ev, .failed = failed, .frame = -1 };
		k->pos += 4 + len;
	}
}
static fstrm_res t_write(void *o, const struct iovec *iov, int cnt)
{
	ctx *c = o;
	conn *k = &c->k[c->cur];
	uint64_t s0 = ev++;
	uint64_t t = op_begin(c, "write");
	bool fail = c->faults && (in_outage(c, S.now) || rnd(1000) < c->pwrite);
	if (!c->is_open || k->closed) { V("P13", "write-not-open", "write on a transport that is not open"); c->in_op = false; return fstrm_res_failure; }
	if (k->failed) V("P13", "write-after-failure", "write on a connection after an operation on it failed");
	size_t old = k->raw.n;
	int fr = c->nw;
	for (int i = 0; i < cnt; i++) {
		bb_add(&k->raw, iov[i].iov_base, iov[i].iov_len);
		sim_step();
	}
	parse(c, c->cur, t, s0, fail);
	if ((unsigned)(c->nw - fr) > c->g.osize) V("P17", "output-queue", "%d frames in one write with an output queue of %u", c->nw - fr, c->g.osize);
	size_t many = 0;
	for (int i = fr; i + 1 < c->nw; i++) many += c->w_[i].len;
	if (many >= c->g.hint) V("P17", "buffer-hint", "a write of %d frames carries %zu bytes without the last of them, the buffer hint is %u", c->nw - fr, many, c->g.hint);
	uint64_t s1 = ev++;
	for (int i = fr; i < c->nw; i++) { c->w_[i].s1 = s1; c->w_[i].t1 = S.now; c->w_[i].op1 = c->optime + S.now - t; }
	if (fail) { k->failed = true; k->t_fail = S.now; k->s_fail = ev++; }
	else if (k->raw.n != k->pos && !k->bad) k->bad = "a write ended inside a frame";
	(void)old;
	op_end(c, t);
	return fail ? t_bad() : fstrm_res_success;
}

static void cb_free(void *data, void *arg)
{
	frec *f = arg;
	ctx *c = f->c;
	sim_step();
	c->cbs++;
	if (c->destroyed) V("P12", "late-callback", "release callback after fstrm_iothr_destroy returned");
	if (f->ncb++) { V("P12", "double-callback", "release callback invoked %d times for one frame", f->ncb); return; }
	f->s_cb = ev++; f->t_cb = S.now;
	if (data != f->data) { V("P12", "wrong-data", "release callback invoked with other data than submitted"); return; }
	free(data);
	sim_step();
}

/* the same, the frame is found by what lies in front of the data */
static void cb_free_noarg(void *data, void *arg)
{
	frec *f = *(frec **)((uint8_t *)data - 16);
	if (arg) V("P12", "wrong-data", "release callback invoked with an argument that was not given");
	if (f->data != data || f->ncb) { cb_free(data, f); return; }
	f->data -= 16;
	cb_free((uint8_t *)data - 16, f);
	f->data += 16;
	COUNT("callbacks-without-argument");
}

/* ------------------------------------------------------------------ producers */
static uint64_t gap(int k)
{
	switch (k) {
	case 0: return 0;
	case 1: return rnd(4) ? 0 : rnd(20 * USEC);
	case 2: return rnd(2) ? rnd(200 * USEC) : rnd(30 * MSEC);
	case 3: return rnd(3) ? rnd(10 * MSEC) : rnd(2 * SEC);
	default: return rnd(4) ? rnd(SEC) : rnd(10 * SEC);
	}
}
static size_t flen(ctx *c)
{
	size_t n;
	if (mode_is("P32")) return rrange(6, 200);
	if (c->small) return rrange(6, 30);
	switch (rnd(8)) {
	case 0: n = c->g.hint - 4 - rnd(4) + rnd(4); break;
	case 1: n = c->g.hint / 2 + rnd(9) - 4; break;
	case 2: n = rrange(6, 300); break;
	default: n = rrange(6, 40); break;
	}
	if (n > 3000 && rnd(4)) n = rrange(6, 3000);
	if (c->tiny) n = rrange(1, 12);
	else if (c->huge && rnd(12) == 0) {	/* more than 24 bits of length */
		c->huge = false;
		n = (1u << 24) - 2 + rnd(5) + (rnd(3) ? 0 : 1u << 20);
		COUNT("frames-of-16-mib");
	}
	return n < 6 && !c->tiny ? 6 : n;
}
static frec *submit(ctx *c, int q, int prod)
{
	if (c->nf >= c->maxf) return NULL;
	unsigned id = c->nf++;
	frec *f = &c->f[id];
	memset(f, 0, sizeof *f);
	f->c = c; f->q = q; f->prod = prod;
	f->cbkind = rnd(8) ? 0 : rrange(1, 3);
	f->len = flen(c);
	f->data = malloc(f->len + (f->cbkind == 3 ? 16 : 0));
	if (f->cbkind == 3) { *(frec **)f->data = f; f->data += 16; }
	fill(f->data, f->len, id, c->tiny);
	size_t len = f->len;
	void *data = f->data;
	int k = f->cbkind;
	f->t_call = S.now; f->s_call = ev++;
	fstrm_res r = fstrm_iothr_submit(c->io, c->q[q], data, len,
		k == 0 ? cb_free : k == 1 ? NULL : k == 3 ? cb_free_noarg : fstrm_free_wrapper, k == 0 ? (void *)f : k == 1 ? (void *)(uintptr_t)0x1234 : NULL);
	f->t_ret = S.now; f->s_ret = ev++; f->op0 = c->optime;
	f->res = r; f->returned = true;
	uint64_t lim = 100 * MSEC;
	if (f->t_ret - f->t_call > lim)
		V("P14", "submit-blocked", "fstrm_iothr_submit took %.3f s of virtual time", (f->t_ret - f->t_call) / 1e9);
	if (r == fstrm_res_success) c->naccepted++;
	else if (r == fstrm_res_again) c->nagain++;
	else V("P14", "submit-result", "submitting a valid frame of %zu bytes returned %d", len, r);
	if (r != fstrm_res_success) {
		if (f->ncb) V("P12", "callback-refused", "release callback invoked for a submission that was not accepted");
		else free(f->data - (k == 3 ? 16 : 0));
	}
	return f;
}
static void bad_submit(ctx *c, int q)
{
	static const size_t bl[] = { UINT32_MAX, (size_t)UINT32_MAX + 1, (size_t)1 << 40, SIZE_MAX, (size_t)UINT32_MAX + 5 };
	static int never;
	uint8_t x = 1;
	fstrm_res r;
	int k = rnd(3);
	uint64_t n = c->cbs;
	if (k == 0) r = fstrm_iothr_submit(c->io, c->q[q], &x, 0, cb_free, &never);
	else if (k == 1) r = fstrm_iothr_submit(c->io, c->q[q], NULL, 1 + rnd(20), cb_free, &never);
	else r = fstrm_iothr_submit(c->io, c->q[q], &x, bl[rnd(5)], cb_free, &never);
	if (r != fstrm_res_invalid) {
		V("P14", "invalid-accepted", "submitting %s data returned %d", k == 0 ? "empty" : k == 1 ? "missing" : "oversized", r);
		if (r == fstrm_res_success) sim_fatal("invalid-accepted", "an invalid submission was accepted");
	}
	(void)n;
	c->ninvalid++;
}
static void *producer(void *arg)
{
	int i = (int)(uintptr_t)arg & 15;
	ctx *c = W[(uintptr_t)arg >> 4];
	int q = c->p[i].q;
	if (q >= c->nqh) q = c->nqh - 1;
	sim_sleep_ns(gap(c->p[i].gap));
	for (int n = 0; n < c->p[i].frames; n++) {
		uint64_t g = gap(c->p[i].gap);
		if (g) sim_sleep_ns(g);
		if (rnd(12) == 0 && !c->tiny) bad_submit(c, q);
		frec *f = submit(c, q, i);
		if (!f) break;
		if (f->res == fstrm_res_again && c->p[i].retry) { n--; sim_sleep_ns(rrange(1, 20) * MSEC); if (--c->p[i].retry == 0) break; }
	}
	return NULL;
}

/* ------------------------------------------------------------------ set-up */
static const cfg doc_default = { 8192, 1, 512, 1, 64, 32, 5, FSTRM_IOTHR_QUEUE_MODEL_SPSC };
static bool lim_ok(int o, unsigned v)
{
	switch (o) {
	case 0: return v >= 1024 && v <= 65536;
	case 1: return v >= 1 && v <= 600;
	case 2: return v >= 2 && v <= 16384 && (v & (v - 1)) == 0;
	case 3: return v >= 1;
	case 4: return v >= 2 && v <= 1024;
	case 5: return v >= 1;
	case 6: return v >= 1 && v <= 600;
	default: return v == FSTRM_IOTHR_QUEUE_MODEL_SPSC || v == FSTRM_IOTHR_QUEUE_MODEL_MPSC;
	}
}
static const char *const oname[] = { "buffer_hint", "flush_timeout", "input_queue_size", "num_input_queues", "output_queue_size", "queue_notify_threshold", "reopen_interval", "queue_model" };
static fstrm_res set_opt(struct fstrm_iothr_options *o, int k, unsigned v)
{
	switch (k) {
	case 0: return fstrm_iothr_options_set_buffer_hint(o, v);
	case 1: return fstrm_iothr_options_set_flush_timeout(o, v);
	case 2: return fstrm_iothr_options_set_input_queue_size(o, v);
	case 3: return fstrm_iothr_options_set_num_input_queues(o, v);
	case 4: return fstrm_iothr_options_set_output_queue_size(o, v);
	case 5: return fstrm_iothr_options_set_queue_notify_threshold(o, v);
	case 6: return fstrm_iothr_options_set_reopen_interval(o, v);
	default: return fstrm_iothr_options_set_queue_model(o, (fstrm_iothr_queue_model)v);
	}
}
static unsigned *cfg_at(cfg *g, int k)
{
	unsigned *p[] = { &g->hint, &g->flush, &g->isize, &g->nq, &g->osize, &g->thresh, &g->reopen, (unsigned *)&g->model };
	return p[k];
}
static unsigned edge_val(int k)
{
	static const unsigned e[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 31, 32, 48, 64, 100, 510, 511, 512, 513, 599, 600, 601, 768, 1022, 1023, 1024, 1025, 1026, 2048, 4096, 6144, 8192, 12288, 16383, 16384, 16385, 16386, 24576, 32768, 65535, 65536, 65537, 131072, 0x7fffffff, 0x80000000u, 0x80000002u, 0xfffffffeu, 0xffffffffu };
	unsigned v = rnd(3) ? e[rnd(sizeof e / sizeof *e)] : rnd(2) ? (unsigned)rnd64() : (unsigned)rnd(70000);
	if (rnd(12) == 0) v = 1u << rnd(32);
	if (k == 7) v = rnd(3) ? rnd(4) : v;
	return v;
}
static struct fstrm_iothr_options *mk_opts(ctx *c)
{
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	size_t sz = malloc_usable_size(o);
	bool dflt = rnd(6) == 0 && !mode_is("P13");
	cfg want = c->g;
	if (dflt) { c->g = doc_default; c->g.nq = want.nq; set_opt(o, 3, want.nq); c->g.model = want.model; set_opt(o, 7, want.model); }
	bool noise = mode_is("P17");
	int ord[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
	for (int i = 7; i > 0; i--) { int j = rnd(i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
	for (int i = 0; i < 8; i++) {
		int k = ord[i];
		if (noise) for (int n = rnd(4); n > 0; n--) {
			int kk = rnd(8);
			unsigned v = edge_val(kk);
			uint8_t before[256], after[256];
			size_t m = sz < 256 ? sz : 256;
			memcpy(before, o, m);
			fstrm_res r = set_opt(o, kk, v);
			memcpy(after, o, m);
			bool ok = lim_ok(kk, v);
			COUNT(ok ? "option-values-accepted" : "option-values-rejected");
			if ((r == fstrm_res_success) != ok) V("P17", "option-limit", "%s=%u: result %d", oname[kk], v, r);
			if (r != fstrm_res_success && memcmp(before, after, m)) V("P17", "option-changed", "rejected %s=%u changed the configuration", oname[kk], v);
			if (r == fstrm_res_success) { if (kk == 3 && v > 300) set_opt(o, 3, c->g.nq); else if (kk == 2 && v > 4096 && c->g.nq > 8) set_opt(o, 2, c->g.isize); else *cfg_at(&c->g, kk) = v; }
		}
		if (dflt) continue;
		unsigned v = *cfg_at(&want, k);
		fstrm_res r = set_opt(o, k, v);
		*cfg_at(&c->g, k) = v;
		if (r != fstrm_res_success) V("P17", "option-limit", "valid value %s=%u was rejected", oname[k], v);
	}
	return o;
}
static void gen_cfg(ctx *c)
{
	cfg *g = &c->g;
	static const unsigned hints[] = { 1024, 1025, 2048, 4096, 8192, 65536 };
	static const unsigned isz[] = { 2, 2, 4, 4, 8, 16, 32, 64, 256, 512 };
	static const unsigned osz[] = { 2, 3, 4, 8, 63, 64, 65, 128, 1024 };
	g->hint = hints[rnd(6)];
	g->flush = rnd(3) ? rrange(1, 3) : rnd(2) ? rrange(1, 30) : 600;
	g->isize = isz[rnd(10)];
	g->nq = rnd(12) ? rrange(1, 4) : rrange(5, 20);
	g->osize = osz[rnd(9)];
	g->thresh = rnd(3) ? rrange(1, g->isize) : rnd(2) ? 1 : 32;
	g->reopen = rnd(3) ? rrange(1, 5) : rnd(2) ? rrange(1, 60) : 600;
	g->model = rnd(2) ? FSTRM_IOTHR_QUEUE_MODEL_SPSC : FSTRM_IOTHR_QUEUE_MODEL_MPSC;
	c->bi = rnd(2);
	c->has_destroy = rnd(8) != 0;
	c->nct = rnd(4) ? rrange(1, 40) : 0;
	for (size_t i = 0; i < c->nct; i++) c->ct[i] = rnd64();
	c->delay = rnd(5);
}
static void *getq(void *arg)
{
	ctx *c = W[(uintptr_t)arg & 1];
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(c->io);
	return q;
}
static bool start_io(ctx *c, int wi)
{
	gen_cfg(c);
	if (mode_is("P17")) {
		if (rnd(12) == 0) c->g.nq = rrange(5, 300);
		if (rnd(20) == 0) c->g.isize = 1024u << rnd(5);
		if (rnd(6) == 0) c->g.thresh = 0xffffffffu - rnd(2);
	}
	return true;
	(void)wi;
}
static bool init_io(ctx *c, int wi)
{
	struct fstrm_iothr_options *o = mk_opts(c);
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	if (c->nct) fstrm_writer_options_add_content_type(wo, c->ct, c->nct);
	struct fstrm_rdwr *rd = fstrm_rdwr_init(c);
	fstrm_rdwr_set_open(rd, t_open);
	fstrm_rdwr_set_close(rd, t_close);
	if (c->has_destroy) fstrm_rdwr_set_destroy(rd, t_destroy);
	fstrm_rdwr_set_write(rd, t_write);
	if (c->bi) fstrm_rdwr_set_read(rd, t_read);
	c->w = fstrm_writer_init(wo, &rd);
	fstrm_writer_options_destroy(&wo);
	struct fstrm_writer *w0 = c->w;
	bool nullopt = rnd(12) == 0 && c->nprod == 0;
	if (nullopt) c->g = doc_default;
	c->t_start = S.now;
	c->io = fstrm_iothr_init(nullopt ? NULL : o, &c->w);
	fstrm_iothr_options_destroy(&o);
	fstrm_iothr_options_destroy(&o);
	if (!c->io) {
		if (!S.clock_fail) V("P17", "init-failed", "fstrm_iothr_init failed with an accepted configuration (queue size %u, queues %u)", c->g.isize, c->g.nq);
		if (c->w != w0) V("P17", "init-failed", "a failing fstrm_iothr_init took the writer");
		else fstrm_writer_destroy(&c->w);
		COUNT("init-failed");
		return false;
	}
	if (c->w) V("P17", "writer-not-taken", "fstrm_iothr_init left the caller its writer");
	/* hand-out of queues */
	unsigned want = c->g.nq, got = 0, conc = mode_is("P17") || rnd(4) == 0 ? rrange(2, 5) : 0;
	struct fstrm_iothr_queue *seen[420];
	unsigned ns = 0, nulls = 0;
	if (conc) {
		pthread_t t[8];
		unsigned rounds = 0, miss = 0;
		while (miss < 2 && rounds++ < 400) {
			for (unsigned i = 0; i < conc; i++) if (sim_pthread_create(&t[i], NULL, getq, (void *)(uintptr_t)wi)) { fprintf(stderr, "harness: no fiber\n"); _exit(99); }
			for (unsigned i = 0; i < conc; i++) {
				void *q;
				sim_pthread_join(t[i], &q);
				if (q) { if (ns < 420) seen[ns++] = q; } else nulls++;
			}
			if (nulls) miss++;
			if (want > 40 && rounds > 10) break;	/* the rest sequentially */
		}
		COUNT("concurrent-hand-outs");
	}
	for (unsigned i = 0; i < want + 3; i++) {
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(c->io);
		if (q && ns < 420) seen[ns++] = q;
		if (!q) nulls++;
	}
	(void)got;
	if (ns != want) V("P17", "hand-out-count", "%u queues handed out, %u configured", ns, want);
	if (!nulls) V("P17", "hand-out-count", "requests beyond the configured number did not fail");
	for (unsigned i = 0; i < ns && ns < 64; i++) for (unsigned j = i + 1; j < ns; j++)
		if (seen[i] == seen[j]) { V("P17", "hand-out-twice", "one queue was handed out twice"); i = ns; break; }
	for (unsigned i = 0; i < want; i++) {
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue_idx(c->io, i);
		bool found = false;
		for (unsigned j = 0; j < ns; j++) found |= seen[j] == q;
		if (!q || !found) V("P17", "index", "queue %u by index is not one of those handed out", i);
		for (unsigned j = 0; j < i && i < 64; j++) if (c->q[j] == q) V("P17", "index", "indices %u and %u name the same queue", j, i);
		if (i < 400) c->q[i] = q;
	}
	static const size_t far_[] = { 0, 1, 1000, 0xffffffff, 0x100000000ull, SIZE_MAX };
	for (int i = 0; i < 6; i++) {
		size_t x = far_[i] < 0xffffffff ? want + far_[i] : far_[i];
		if (fstrm_iothr_get_input_queue_idx(c->io, x)) V("P17", "index", "index %zu of %u yields a queue", x, want);
	}
	/* use the handed-out objects or those by index */
	if (rnd(2)) for (unsigned i = 0; i < ns && i < want; i++) c->q[i] = seen[i];
	c->nqh = want < 400 ? want : 400;
	for (int i = 0; i < c->nqh; i++) if (!c->q[i]) return false;
	return true;
}
static void clock_jump(void)
{
	/* the administrator sets the wall clock */
	if (rnd(3) == 0) {
		int64_t j = (int64_t)rnd(4000) - 2000;
		S.real_off += j * (int64_t)SEC;
	}
}

/* ------------------------------------------------------------------ oracles */
static int cmp_w(const void *a, const void *b) { const frec *x = *(frec *const *)a, *y = *(frec *const *)b; return x->wlog < y->wlog ? -1 : x->wlog > y->wlog; }
static void map_wire(ctx *c)
{
	int nexti = 0;
	for (int i = 0; i < c->nw; i++) {
		wrec *r = &c->w_[i];
		uint8_t *p = c->k[r->conn].raw.p + r->off;
		int id = -1;
		if (c->tiny) {
			while (nexti < c->nf && c->f[nexti].res != fstrm_res_success) nexti++;
			id = nexti < c->nf ? nexti++ : -1;
		} else if (r->len >= 6 && p[0] == 0xf5 && p[1] == 0x7a) {
			id = (int)get32(p + 2);
			if (id >= c->nf) id = -1;
		}
		if (id < 0) { V("P11", "invented", "a frame of %zu bytes was written that nobody submitted", r->len); continue; }
		frec *f = &c->f[id];
		bool same = r->len == f->len;
		if (same) {
			uint8_t *e = malloc(f->len);
			fill(e, f->len, id, c->tiny);
			same = !memcmp(e, p, f->len);
			free(e);
		}
		if (!same) V("P11", "modified", "frame %d was written with other contents (%zu bytes submitted, %zu written)", id, f->len, r->len);
		r->frame = id;
		if (f->nw++ == 0) { f->conn = r->conn; f->wlog = i; }
		else {
			V("P11", "duplicate", "frame %d was written %d times", id, f->nw);
			V("P13", "written-again", "frame %d was written on connection %d and again on connection %d%s", id, f->conn, r->conn, c->w_[f->wlog].failed ? " after its write had failed" : "");
		}
		if (f->res != fstrm_res_success) V("P11", "refused-written", "frame %d was written although its submission returned %d", id, f->res);
	}
}
static void verify(ctx *c)
{
	map_wire(c);
	bool up_all = c->nk == 1 && c->k[0].up && !c->k[0].failed;
	/* streams */
	for (int i = 0; i < c->nk; i++) {
		conn *k = &c->k[i];
		if (k->bad) { V("P13", "stream", "connection %d: %s", i, k->bad); V("P11", "stream", "connection %d: %s", i, k->bad); }
		if (k->up && !k->failed && !k->stop_seen && (c->destroyed || k->closed)) {
			V("P15", "no-stop", "connection %d was up and ended without STOP", i);
			V("P13", "stream", "connection %d was closed without STOP and without a failure", i);
		}
		if (k->open_ok && !k->closed) V("P15", "left-open", "connection %d was never closed", i);
		if (k->up && !k->failed && k->stop_seen && i + 1 < c->nk) V("P13", "abandoned", "connection %d was given up without a failure", i);
	}
	/* accepted frames */
	frec **o = malloc(sizeof *o * (c->nf + 1));
	int no = 0;
	for (int i = 0; i < c->nf; i++) {
		frec *f = &c->f[i];
		if (f->res == fstrm_res_success) {
			if ((f->cbkind == 0 || f->cbkind == 3) && f->ncb == 0) V("P12", "no-callback", "accepted frame %d was never released", i);
			if ((f->cbkind == 0 || f->cbkind == 3) && f->nw && f->ncb && f->s_cb < c->w_[f->wlog].s1) V("P12", "early-callback", "frame %d was released before its write had ended", i);
			if ((f->cbkind == 0 || f->cbkind == 3) && f->ncb && f->s_cb < f->s_call) V("P12", "early-callback", "frame %d released before it was submitted", i);
			if (!f->nw && !c->faults && c->nk && c->k[0].up) V("P11", "lost", "accepted frame %d (queue %d) was never written", i, f->q);
			if (!f->nw && !c->faults && c->nk && c->k[0].up) V("P17", "queue-not-served", "frame %d, accepted by queue %d of %d (configured size %u), was never written", i, f->q, c->nqh, c->g.isize);
			if (!f->nw && !c->faults && c->nk && c->k[0].up) V("P15", "not-drained", "accepted frame %d was not written before the I/O thread ended", i);
		} else if (f->ncb) V("P12", "callback-refused", "release callback invoked for frame %d whose submission returned %d", i, f->res);
		if (f->nw) o[no++] = f;
	}
	/* order per queue: real-time order of submission */
	qsort(o, no, sizeof *o, cmp_w);
	uint64_t maxcall[400] = {0};
	int maxid[400];
	for (int i = 0; i < no; i++) {
		int q = o[i]->q;
		if (maxcall[q] && o[i]->s_ret < maxcall[q]) {
			V("P11", "reordered", "queue %d: frame %d, submitted before frame %d, was written after it", q, (int)(o[i] - c->f), maxid[q]);
			V("P13", "reordered", "queue %d: frame %d, submitted before frame %d, was written after it", q, (int)(o[i] - c->f), maxid[q]);
		}
		if (o[i]->s_call > maxcall[q]) { maxcall[q] = o[i]->s_call; maxid[q] = (int)(o[i] - c->f); }
	}
	/* nothing submitted while a connection is up gets lost while it stays up */
	for (int i = 0; i < c->nf; i++) {
		frec *f = &c->f[i];
		if (f->res != fstrm_res_success || f->nw) continue;
		for (int n = 0; n < c->nk; n++) {
			conn *k = &c->k[n];
			if (!k->up || f->s_call < k->s_up) continue;
			if (n + 1 < c->nk && f->s_call > c->k[n + 1].s_open) continue;
			if (k->failed) {
				if (f->s_call > k->s_fail) continue;
				bool later = false;	/* a later frame of the queue was written on it */
				for (int j = 0; j < no && !later; j++) later = o[j]->conn == n && o[j]->q == f->q && f->s_ret < o[j]->s_call;
				if (later) V("P13", "gap", "frame %d was accepted while connection %d was up and skipped on it", i, n);
			} else V("P13", "not-resumed", "frame %d was accepted while connection %d was up and never written", i, n);
		}
	}
	free(o);
	/* attempts */
	uint64_t I = (uint64_t)c->g.reopen * SEC, F = (uint64_t)c->g.flush * SEC, slack = 400 * MSEC;
	for (int i = 0; i <= c->nk; i++) {
		uint64_t end = i < c->nk ? c->k[i].t_open : c->t_dcall;
		uint64_t ref;
		if (i == 0) ref = c->t_start + (S.mono_off / SEC < 620 ? I : 0);
		else {
			conn *k = &c->k[i - 1];
			if (i < c->nk && end - k->t_open + SEC + 20 * MSEC < I)
				V("P13", "too-soon", "opened again %.3f s after the previous attempt, interval %u s", (end - k->t_open) / 1e9, c->g.reopen);
			if (i < c->nk && !k->failed) V("P13", "reopen-up", "opened again although connection %d had not failed", i - 1);
			if (!k->failed) continue;
			ref = k->t_open + I > k->t_fail ? k->t_open + I : k->t_fail;
		}
		uint64_t bound = ref + F + SEC + slack + (i ? c->k[i - 1].t_close > c->k[i - 1].t_fail ? c->k[i - 1].t_close - c->k[i - 1].t_fail : 0 : 0);
		/* time inside transport operations does not count: it all lies before t_fail / t_close of the connection */
		if (end > bound) {
			if (i < c->nk) V("P13", "too-late", "attempt %d came %.3f s after it was due (interval %u s, flush timeout %u s)", i, (end - ref) / 1e9, c->g.reopen, c->g.flush);
			else V("P13", "no-attempt", "no attempt to open for %.3f s while down (interval %u s, flush timeout %u s)", (end - ref) / 1e9, c->g.reopen, c->g.flush);
		}
		COUNT("open-attempts");
	}
	/* flush bound for every frame, whatever the producers do: a flush timeout in the input queue, another in the output queue */
	if (!c->faults && up_all) for (int i = 0; i < c->nf; i++) {
		frec *f = &c->f[i];
		if (f->res != fstrm_res_success) continue;
		wrec *w = f->nw ? &c->w_[f->wlog] : NULL;
		bool in_time = w && w->t1 <= c->t_dcall;
		uint64_t from = f->t_ret > c->k[0].t_up ? f->t_ret : c->k[0].t_up, tw = in_time ? w->t1 : c->t_dcall;
		uint64_t op = (in_time ? w->op1 : c->optime) - f->op0;
		if (tw > from + 2 * F + 200 * MSEC + op) {
			V("P14", "late-flush", "frame %d was still not written %.3f s after its submission (flush timeout %u s, transport time meanwhile %.3f s)", i, (tw - from) / 1e9, c->g.flush, op / 1e9);
			break;
		}
		COUNT("frames-flushed-in-time");
	}
	/* flush bound once idle */
	if (!c->faults && c->T0 && up_all) for (int i = 0; i < c->nf; i++) {
		frec *f = &c->f[i];
		if (f->res != fstrm_res_success) continue;
		uint64_t tw = f->nw ? c->w_[f->wlog].t1 : c->t_dcall;
		if (!f->nw || tw > c->t_dcall) tw = c->t_dcall;
		uint64_t budget = 2 * F + 200 * MSEC + c->optime;	/* generous: all time spent in the transport */
		if (tw > c->T0 + budget) {
			V("P14", "late-flush", "frame %d was still not written %.3f s after the producers went idle (flush timeout %u s, transport time %.3f s)", i, (tw - c->T0) / 1e9, c->g.flush, c->optime / 1e9);
			break;
		}
		COUNT("flush-bounds-checked");
	}
	/* queue full only when it is */
	for (int i = 0; i < c->nf; i++) {
		frec *f = &c->f[i];
		if (f->res != fstrm_res_again) continue;
		unsigned ub = 0;
		for (int j = 0; j < c->nf; j++) {
			frec *g = &c->f[j];
			if (j == i || g->q != f->q || g->res != fstrm_res_success || g->s_call > f->s_ret) continue;
			bool gone = (g->ncb && g->s_cb < f->s_call) || (g->nw && c->w_[g->wlog].s0 < f->s_call);
			if (!gone) ub++;
		}
		if (ub < c->g.isize - 1) V("P14", "spurious-full", "queue reported full holding at most %u of %u entries", ub, c->g.isize - 1);
	}
	/* destroy */
	uint64_t inop = c->optime - c->optime_at_d;
	if (c->t_dret - c->t_dcall > F + inop + 200 * MSEC)
		V("P15", "slow-destroy", "fstrm_iothr_destroy took %.3f s, flush timeout %u s, transport time %.3f s", (c->t_dret - c->t_dcall) / 1e9, c->g.flush, inop / 1e9);
	if (c->has_destroy && c->ndestroy != 1) V("P15", "transport-destroy", "transport destroyed %d times", c->ndestroy);
	if (c->is_open) V("P15", "left-open", "the transport is still open after fstrm_iothr_destroy");
}
static void cleanup(ctx *c)
{
	for (int i = 0; i < c->nf; i++)
		if (c->f[i].res == fstrm_res_success && c->f[i].cbkind == 1) free(c->f[i].data);
	for (int i = 0; i < c->nk; i++) { bb_free(&c->k[i].raw); bb_free(&c->k[i].rx); }
	free(c->w_);
	free(c->f);
	free(c->k);
}
static void do_destroy(ctx *c)
{
	c->optime_at_d = c->optime;
	/* an operation in progress started earlier; count it from here */
	c->t_dcall = S.now; c->s_dcall = ev++;
	bool in = c->in_op;
	if (in) { /* op_end will add the whole operation: subtract nothing, the bound only gets looser */ }
	fstrm_iothr_destroy(&c->io);
	c->t_dret = S.now; c->s_dret = ev++;
	c->destroyed = true;
	if (c->io) V("P15", "not-cleared", "fstrm_iothr_destroy did not clear the caller's pointer");
	fstrm_iothr_destroy(&c->io);
}
static void gen_outage(ctx *c)
{
	c->faults = true;
	c->popen = rnd(3) ? 0 : rnd(500);
	c->pwrite = rnd(2) ? 0 : rnd(200);
	c->pread = rnd(2) ? 0 : rnd(150);
	c->badacc = rnd(4) ? 0 : rnd(300);
	uint64_t t = rnd(2) ? 0 : rnd(20 * SEC);
	c->nwin = 2 * rnd(8);
	for (int i = 0; i < c->nwin; i += 2) {
		c->win[i] = t;
		t += rnd(3) ? rnd(3 * SEC) : rnd(40 * SEC);
		c->win[i + 1] = t;
		t += rnd(3) ? rnd(5 * SEC) : rnd(60 * SEC);
	}
}

/* ------------------------------------------------------------------ scenarios */
static void gen_load(ctx *c, int maxframes)
{
	c->nprod = rrange(1, 4);
	int bud = rnd(5) ? maxframes : maxframes * 3;
	for (int i = 0; i < c->nprod; i++) {
		c->p[i].q = i;
		c->p[i].frames = rrange(0, bud / c->nprod);
		c->p[i].gap = rnd(5);
		c->p[i].retry = rnd(3) ? 0 : 40;
		c->p[i].c = c;
	}
}
static void assign_queues(ctx *c)
{
	if (c->g.model == FSTRM_IOTHR_QUEUE_MODEL_SPSC) {
		if (c->nprod > c->nqh) c->nprod = c->nqh;	/* one producer per queue */
		for (int i = 0; i < c->nprod; i++) c->p[i].q = (i + c->nqh - c->nprod) % c->nqh;
	} else for (int i = 0; i < c->nprod; i++) c->p[i].q = rnd(c->nqh);
}
static void run_producers(ctx *c, int wi)
{
	for (int i = 0; i < c->nprod; i++)
		if (sim_pthread_create(&c->p[i].t, NULL, producer, (void *)(uintptr_t)(wi << 4 | i))) { fprintf(stderr, "harness: no fiber\n"); _exit(99); }
	for (int i = 0; i < c->nprod; i++) { if (rnd(3) == 0) clock_jump(); sim_pthread_join(c->p[i].t, NULL); }
	c->T0 = S.now;
	c->optime_at_T0 = c->optime;
}
static void general(ctx *c, int wi)
{
	start_io(c, wi);
	gen_load(c, mode_is("P13") ? 60 : 80);
	if (mode_is("P13")) {
		c->g.reopen = rnd(4) ? rrange(1, 10) : rnd(2) ? 60 : rrange(1, 600);
		c->g.flush = rnd(4) ? rrange(1, 10) : rrange(1, 40);
		if (rnd(6)) gen_outage(c);
		c->delay = rnd(3) ? rnd(3) : rnd(5);
		for (int i = 0; i < c->nprod; i++) c->p[i].gap = rrange(2, 4);
	} else if ((mode_is("P12") || mode_is("P15") || mode_is("P17")) && rnd(2)) gen_outage(c);
	if (!c->faults && rnd(6) == 0) { c->stall_at = rnd(8); c->stall_for = rrange(1, 300) * SEC; }
	if (!c->faults && !mode_is("P13") && rnd(8) == 0) { c->tiny = true; c->nprod = 1; }
	if ((mode_is("P11") || mode_is("P14")) && rnd(150) == 0) c->huge = true;
	if (!init_io(c, wi)) { if (c->io) fstrm_iothr_destroy(&c->io); return; }
	assign_queues(c);
	if (rnd(3) == 0) sim_sleep_ns(rnd(5 * SEC));
	run_producers(c, wi);
	if (c->nqh > 4 && !c->tiny && rnd(3)) {	/* every queue serves its producer, however many there are */
		int n = 0;
		for (int q = 0; q < c->nqh && c->nf < c->maxf - 20; q++) if (c->nqh < 40 || rnd(4) || q + 1 == c->nqh) { submit(c, q, 0); n++; }
		c->T0 = S.now;
		c->optime_at_T0 = c->optime;
		if (n > 4) COUNT("every-queue-used");
	}
	/* idle phase */
	uint64_t F = (uint64_t)c->g.flush * SEC;
	switch (mode_is("P14") ? rnd(8) ? 3 : rnd(4) : rnd(4)) {
	case 0: break;
	case 1: sim_sleep_ns(rnd(50 * MSEC)); break;
	case 2: sim_sleep_ns(rnd(F + SEC)); break;
	default: sim_sleep_ns(3 * F + rnd(5 * SEC)); break;
	}
	if (mode_is("P13") && rnd(2)) { clock_jump(); sim_sleep_ns(rnd(3 * ((uint64_t)c->g.reopen + c->g.flush) * SEC)); }
	clock_jump();
	do_destroy(c);
	sim_sleep_ns(rnd(2) ? 0 : 5 * SEC);
	verify(c);
	count_add("frames-accepted", c->naccepted);
	count_add("frames-refused-full", c->nagain);
	count_add("invalid-submissions", c->ninvalid);
	count_add("frames-written", c->nw);
	count_add("connections", c->nk);
	count_add("callbacks", c->cbs);
	if (c->faults) COUNT("cases-with-outages");
	int q = 0;
	for (int i = 0; i < c->nk; i++) q += c->k[i].failed && c->k[i].up;
	count_add("connections-lost", q);
}
/* the output is stalled: capacity of every queue is exact, submit returns at once */
static void stalled(ctx *c, int wi)
{
	start_io(c, wi);
	c->g.isize = 2u << rnd(mode_is("P17") ? 9 : 6);
	c->g.nq = rrange(1, 3);
	c->delay = 0;
	c->nprod = 1;
	c->stall_at = 0;		/* the first operation, open */
	c->stall_for = rrange(500, 3000) * SEC;
	if (!init_io(c, wi)) { if (c->io) fstrm_iothr_destroy(&c->io); return; }
	sim_sleep_ns(MSEC);
	if (!c->in_op) { do_destroy(c); return; }
	for (int q = 0; q < c->nqh; q++) {
		if (c->nf + (int)c->g.isize + 10 >= c->maxf) break;
		unsigned acc = 0, ag = 0;
		for (unsigned i = 0; i < c->g.isize + 5; i++) {
			frec *f = submit(c, q, 0);
			if (f->res == fstrm_res_success) { acc++; if (ag) V("P14", "capacity", "a full queue accepted an entry without one having been removed"); }
			else ag++;
		}
		if (acc != c->g.isize - 1) {
			V("P14", "capacity", "a queue of size %u held %u entries before it was reported full", c->g.isize, acc);
			V("P17", "capacity", "a queue configured with size %u held %u entries before it was reported full", c->g.isize, acc);
		}
		COUNT("capacity-checks");
	}
	c->T0 = S.now;
	if (rnd(2)) sim_sleep_ns(c->stall_for + 3 * (uint64_t)c->g.flush * SEC + 5 * SEC);
	do_destroy(c);
	verify(c);
}
/* reaching the notification threshold wakes the sleeping I/O thread */
static void notify(ctx *c, int wi)
{
	start_io(c, wi);
	c->g.isize = 4u << rnd(6);
	c->g.thresh = rrange(1, c->g.isize - 2);
	c->g.flush = rrange(20, 600);
	c->g.nq = rnd(2) ? 1 : rrange(2, 5);
	c->delay = rnd(2);
	c->nprod = 1;
	if (!init_io(c, wi)) { if (c->io) fstrm_iothr_destroy(&c->io); return; }
	for (int round = 0; round < 3; round++) {
		int q = rnd(c->nqh);
		sim_sleep_ns((uint64_t)c->g.flush * SEC / 8 + SEC);
		int n = 0;
		for (int i = 1; i < S.nf; i++) n += S.f[i].state == F_BLOCK && S.f[i].why == B_COND;
		if (n != (W[1] ? 2 : 1)) break;
		if (c->nf + (int)c->g.isize + 10 >= c->maxf) break;
		S.noswitch = true;	/* the thread sleeps throughout: crossing the threshold has to wake it */
		for (unsigned i = 0; i < c->g.isize - 1; i++) submit(c, q, 0);
		S.noswitch = false;
		sim_sleep_ns(SEC);
		/* the thread has been woken and has emptied the queue */
		frec *f = submit(c, q, 0);
		if (f->res != fstrm_res_success)
			V("P14", "not-woken", "the sleeping I/O thread did not drain a queue of size %u filled beyond its notification threshold %u", c->g.isize, c->g.thresh);
		COUNT("threshold-checks");
	}
	c->T0 = S.now;
	if (rnd(2)) sim_sleep_ns(3 * (uint64_t)c->g.flush * SEC);
	do_destroy(c);
	verify(c);
}
#ifdef H_MEM
/* A long life: many frames, many connections lost. What the library holds is
 * given by its configuration, at any time. */
static void longrun(ctx *c, int wi)
{
	start_io(c, wi);
	c->g.reopen = 1;
	c->g.flush = 1;
	c->g.isize = 2u << rnd(4);
	c->g.nq = rrange(1, 3);
	c->g.osize = rrange(2, 32);
	c->g.hint = rnd(2) ? 1024 : 8192;
	c->delay = rnd(3) ? 0 : 1;
	int kind = rnd(4);
	c->faults = kind != 0;
	c->pwrite = kind == 1 ? rrange(300, 900) : kind == 2 ? rrange(10, 100) : 0;
	c->popen = kind == 1 ? rnd(600) : 0;
	c->pread = kind == 3 ? rrange(200, 900) : 0;
	if (kind == 3) { c->bi = true; c->badacc = rnd(500); }
	c->nprod = rrange(1, 3);
	size_t start = mw_live;
	mw_peak = mw_live;
	if (!init_io(c, wi)) { if (c->io) fstrm_iothr_destroy(&c->io); return; }
	size_t base = mw_live - start, q = c->nqh * (size_t)c->g.isize, room = 8192 + 64 * q + 64 * (size_t)c->g.osize + 2 * c->g.hint + 8 * c->nct;
	if (base > 65536 + 1024 * (size_t)c->nqh + 128 * q + 256 * (size_t)c->g.osize + c->g.hint)
		V("P32", "memory-bound", "%zu bytes held after fstrm_iothr_init with %d queues of %u, an output queue of %u and a buffer hint of %u", base, c->nqh, c->g.isize, c->g.osize, c->g.hint);
	assign_queues(c);
	int rounds = 0;
	for (; rounds < 330 && c->nk < c->maxk - 4 && c->nf < c->maxf - 20; rounds++) {
		for (int i = rrange(1, 8); i > 0; i--) submit(c, c->p[rnd(c->nprod)].q, 0);
		sim_sleep_ns(1100 * MSEC);
		size_t live = mw_live - start;
		if (live > base + room) { V("P32", "memory-grows", "the I/O thread holds %zu bytes after %d frames and %d connections, %zu at first", live, c->nf, c->nk, base); break; }
		if (mw_peak - start > base + room) { V("P32", "memory-peak", "the I/O thread held up to %zu bytes within %d frames and %d connections, %zu at first", mw_peak - start, c->nf, c->nk, base); break; }
	}
	c->T0 = S.now;
	size_t end = mw_live - start;
	do_destroy(c);
	if (mw_live != start) V("P32", "memory-left", "destroying the I/O thread leaves %zu bytes after %d frames and %d connections", mw_live - start, c->nf, c->nk);
	verify(c);
	COUNT("iothr-lives");
	count_add("frames-accepted", c->naccepted);
	count_add("frames-written", c->nw);
	count_add("connections", c->nk);
	count_add("allocations", mw_calls);
	if (!mw_calls) { fprintf(stderr, "harness: the library's allocations are not seen\n"); _exit(99); }
	mw_calls = 0;
	sample("I/O thread, %d queues of %u, output queue %u: %d frames and %d connections, %zu bytes at first, %zu in the end, peak %zu", c->nqh, c->g.isize, c->g.osize, c->nf, c->nk, base, end, mw_peak - start);
}
#endif
/* A long life: more frames, lost connections or seconds than 8, 16 or 32 bits count. */
static void marathon(ctx *c, int wi)
{
	int kind = mode_is("P11") ? rnd(3) ? 0 : 2 : mode_is("P13") ? rrange(1, 3) : mode_is("P14") ? rnd(2) ? 0 : 2 : rnd(4);
	start_io(c, wi);
	c->delay = rnd(2);
	c->nprod = 1;
	c->g.nq = rrange(1, 3);
	S.maxsteps = 400000000;
	int batch, rounds;
	uint64_t pause;
	switch (kind) {
	case 0:		/* many frames */
		c->g.flush = rrange(1, 3);
		c->g.isize = 8u << rnd(9);
		c->g.hint = rnd(2) ? 1024 : 65536;
		c->small = true;
		batch = c->g.isize - 1;
		rounds = rrange(65540, 68000) / batch + 1;
		pause = 3 * (uint64_t)c->g.flush * SEC;
		break;
	case 1:		/* many lost connections */
		c->faults = true;
		c->g.flush = c->g.reopen = 1;
		c->pwrite = rrange(400, 1000);
		c->popen = rnd(2) ? 0 : rnd(500);
		batch = rrange(1, 3);
		rounds = rrange(600, 900);
		pause = 1100 * MSEC;
		break;
	case 2:		/* weeks of silence */
		c->g.flush = rnd(2) ? 600 : rrange(100, 600);
		c->g.isize = 16;
		batch = rrange(1, 10);
		rounds = rrange(3, 6);
		pause = (uint64_t)rrange(10, 26) * 86400 * SEC;
		break;
	default:	/* weeks of outage */
		c->faults = true;
		c->g.flush = rrange(300, 600);
		c->g.reopen = rrange(300, 600);
		c->g.isize = 16;
		c->win[0] = rnd(2) ? 0 : rnd(3600 * SEC);
		c->win[1] = (uint64_t)rrange(20, 60) * 86400 * SEC;
		c->nwin = 2;
		batch = rrange(1, 10);
		rounds = rrange(3, 6);
		pause = (uint64_t)rrange(8, 26) * 86400 * SEC;
		break;
	}
	c->maxf = batch * rounds + 100;
	c->maxk = kind == 3 ? 40000 : 2000;
	c->f = realloc(c->f, sizeof *c->f * c->maxf);
	c->k = realloc(c->k, sizeof *c->k * c->maxk);
	cfg g = c->g;
	if (!init_io(c, wi)) { if (c->io) fstrm_iothr_destroy(&c->io); return; }
	assign_queues(c);
	if (memcmp(&g, &c->g, sizeof g)) { c->g = g; do_destroy(c); return; }	/* other options were chosen in between */
	for (int r = 0; r < rounds; r++) {
		if (rnd(50) == 0) clock_jump();
		int q = rnd(c->nqh);
		for (int i = 0; i < batch; i++) submit(c, q, 0);
		c->T0 = S.now;
		c->optime_at_T0 = c->optime;
		sim_sleep_ns(pause);
		if (!c->faults && c->nk && c->k[0].up && c->nw != c->naccepted) {
			V("P14", "late-flush", "%d frames accepted, %d written %.0f s after the last of them (flush timeout %u s)", c->naccepted, c->nw, pause / 1e9, c->g.flush);
			break;
		}
	}
	do_destroy(c);
	verify(c);
	count_add("frames-accepted", c->naccepted);
	count_add("frames-written", c->nw);
	count_add("connections", c->nk);
	COUNT(kind == 0 ? "long-many-frames" : kind == 1 ? "long-many-connections" : kind == 2 ? "weeks-of-silence" : "weeks-of-outage");
}
static void *world(void *arg)
{
	int wi = (int)(uintptr_t)arg;
	ctx *c = W[wi];
#ifdef H_MEM
	if (mode_is("P32")) { longrun(c, wi); return NULL; }
#endif
	if (!W[1] && rnd(LONG_ONE_IN) == 0) { marathon(c, wi); return NULL; }
	int k = rnd(10);
	if (mode_is("P14") && k < 3) stalled(c, wi);
	else if (mode_is("P14") && k < 5 && !W[1]) notify(c, wi);
	else if (mode_is("P17") && k < 3) stalled(c, wi);
	else general(c, wi);
	return NULL;
}
static void case_iothr(void)
{
	sim_begin();
	int n = rnd(16) == 0 && !mode_is("P13") && !mode_is("P32") ? 2 : 1;
	for (int i = 0; i < 2; i++) { W[i] = NULL; if (i < n) W[i] = calloc(1, sizeof(ctx)); }
	for (int i = 0; i < n; i++) {
		W[i]->maxf = 3000; W[i]->maxk = 400;
		W[i]->f = malloc(sizeof(frec) * 3000);
		W[i]->k = malloc(sizeof(conn) * 400);
	}
	S.spurious = rnd(4) ? 0 : rrange(2, 20);
	if (mode_is("P13") && rnd(4) == 0) S.mono_off = rnd(30 * SEC);
	if (mode_is("P17") && rnd(30) == 0) S.clock_fail = true;
	ev = 1;
	if (n == 1) world((void *)0);
	else {
		pthread_t t[2];
		for (int i = 0; i < 2; i++) if (sim_pthread_create(&t[i], NULL, world, (void *)(uintptr_t)i)) _exit(99);
		for (int i = 0; i < 2; i++) sim_pthread_join(t[i], NULL);
		COUNT("two-instances");
	}
	if (sim_alive()) V("P15", "thread-left", "%d threads of the library are still alive after destroy", sim_alive());
	if (S.misuse) V("P15", "lock-misuse", "%s", S.misuse);
	S.active = false;
	count_add("thread-switches", S.switches);
	count_add("steps", S.steps);
	count_add("wake-ups", S.woken);
	count_add("signals-without-waiter", S.nocond_sig);
	if (S.switches > 4) distinct(S.hash);
	for (int i = 0; i < n; i++) {
		ctx *c = W[i];
		if (c->naccepted && c->nk) sample("%u queues of %u, %d producers, model %d, %d frames accepted, %d refused, %d writes on %d connections, %.1f s virtual, %" PRIu64 " switches",
			c->g.nq, c->g.isize, c->nprod, c->g.model, c->naccepted, c->nagain, c->nw, c->nk, S.now / 1e9, S.switches);
		cleanup(c);
		free(c);
		W[i] = NULL;
	}
	sim_end();
}

/* ------------------------------------------------------------------ P16: the queues themselves */
typedef struct { uint64_t call, ret; unsigned who, seq; } qins;
static struct {
	const struct my_queue_ops *ops;
	struct my_queue *q;
	unsigned size, esz, cap;
	int nprod, total;
	unsigned ins_done, ins_begun_ok;	/* successful inserts completed; an upper bound of those begun */
	unsigned ins_active;			/* inserts in progress */
	unsigned rem_done, rem_active;
	qins *log; int nlog, maxlog;
	int removed[8];				/* next expected sequence number per producer */
	int quota[8], maxtries;
	bool done; int running;
	unsigned hold;				/* removals begin when this many have been inserted */
} Q;
static void elem_fill(uint8_t *e, unsigned who, unsigned seq)
{
	for (unsigned i = 0; i < Q.esz; i++) e[i] = who * 53 + seq * 29 + (seq >> 8) * 7 + i * (2 * seq + 1);
	if (Q.esz >= 4) { e[0] = who; e[1] = seq; e[2] = seq >> 8; e[3] = seq >> 16 ^ 0x5a; }
	else e[0] = seq;
}
static void q_insert(int who, unsigned seq, bool *ok)
{
	uint8_t e[64];
	elem_fill(e, who, seq);
	unsigned space = 0xabcdef;
	bool want = rnd(8) != 0;
	unsigned ins_lo = Q.ins_done, rem_lo = Q.rem_done;
	Q.ins_active++;
	int li = Q.nlog;
	(void)li;
	uint64_t call = ev++;
	bool r = Q.ops->insert(Q.q, e, want ? &space : NULL);
	uint64_t ret = ev++;
	Q.ins_active--;
	/* successful inserts by others that can have happened by now */
	unsigned ins_hi = Q.ins_done + Q.ins_active, rem_hi = Q.rem_done + Q.rem_active;
	if (r) {
		Q.log[Q.nlog++] = (qins){ call, ret, who, seq };
		Q.ins_done++;
		if (ins_lo >= Q.cap + rem_hi) violation("overfull", "insert succeeded with at least %u of %u entries present", ins_lo - rem_hi, Q.cap);
		int lo = (int)Q.cap - (int)(ins_hi + 1 - rem_lo), hi = (int)Q.cap - (int)(ins_lo + 1) + (int)rem_hi;
		if (want && ((int)space < lo || (int)space > hi || space >= Q.cap + (Q.cap == 0))) violation("space", "insert reported space %u, possible %d..%d", space, lo, hi);
	} else {
		if ((int)ins_hi - (int)rem_lo < (int)Q.cap) violation("spurious-full", "insert refused with at most %d of %u entries present", (int)ins_hi - (int)rem_lo, Q.cap);
		if (want && space != 0) violation("space", "refused insert reported space %u", space);
		COUNT("refused-inserts");
	}
	*ok = r;
	COUNT("inserts");
}
static bool q_remove(void)
{
	uint8_t e[64], x[64];
	memset(e, 0xee, sizeof e);
	unsigned cnt = 0xabcdef;
	bool want = rnd(8) != 0;
	unsigned ins_lo = Q.ins_done, rem = Q.rem_done;
	Q.rem_active = 1;
	uint64_t call = ev++;
	bool r = Q.ops->remove(Q.q, e, want ? &cnt : NULL);
	uint64_t ret = ev++;
	(void)call;
	Q.rem_active = 0;
	unsigned ins_hi = Q.ins_done + Q.ins_active;
	COUNT("removes");
	if (!r) {
		if (ins_lo > rem) violation("spurious-empty", "remove found nothing with at least %u entries present", ins_lo - rem);
		if (want && cnt != 0) violation("count", "failed remove reported count %u", cnt);
		return false;
	}
	Q.rem_done++;
	if (ins_hi <= rem) { violation("underflow", "remove succeeded on an empty queue"); return true; }
	int lo = (int)ins_lo - (int)(rem + 1), hi = (int)ins_hi - (int)(rem + 1);
	if (hi > (int)Q.cap - 1 + (int)Q.nprod) hi = Q.cap;
	if (want && ((int)cnt < lo || (int)cnt > hi)) violation("count", "remove reported count %u, possible %d..%d", cnt, lo, hi);
	/* which element is it? */
	unsigned who, seq;
	if (Q.esz >= 4) { who = e[0]; seq = e[1] | e[2] << 8 | (e[3] ^ 0x5a) << 16; }
	else { who = 0; seq = Q.removed[0]; }
	if (who >= (unsigned)Q.nprod) { violation("torn", "removed element was never inserted"); return true; }
	elem_fill(x, who, seq);
	if (memcmp(e, x, Q.esz)) { violation("torn", "removed element is incomplete or corrupt (producer %u, number %u)", who, seq); return true; }
	for (unsigned i = Q.esz; i < sizeof e; i++) if (e[i] != 0xee) { violation("overrun", "remove wrote beyond the element"); break; }
	if ((int)seq != Q.removed[who]) violation(Q.removed[who] > (int)seq ? "duplicate" : "order", "producer %u: got element %u, expected %d", who, seq, Q.removed[who]);
	Q.removed[who] = seq + 1;
	/* real-time order between producers: nothing removed later may have been inserted entirely before this one's call */
	return true;
	(void)ret;
}
static void *q_prod(void *arg)
{
	int who = (int)(uintptr_t)arg;
	unsigned seq = 0;
	int tries = 0;
	while ((int)seq < Q.quota[who] && tries++ < Q.maxtries) {
		bool ok;
		q_insert(who, seq, &ok);
		if (ok) { seq++; if (Q.nlog >= Q.maxlog - 10) break; }
		else if (rnd(3) == 0) sim_sleep_ns(rnd(20000));
		else sim_step();
		if (rnd(10) == 0) sim_sleep_ns(rnd(5000));
	}
	Q.running--;
	return NULL;
}
static void *q_cons(void *arg)
{
	(void)arg;
	for (;;) {
		bool last = Q.running == 0;
		if (Q.hold && Q.ins_done < Q.hold && !last) { sim_sleep_ns(1 + rnd(50000)); continue; }
		if (q_remove()) {
			if (rnd(6) == 0) sim_sleep_ns(rnd(5000));
		} else { if (last) break; sim_sleep_ns(1 + rnd(5000)); }
		if (rnd(40) == 0) sim_sleep_ns(rnd(100000));
	}
	return NULL;
}
static void case_p16(void)
{
	memset(&Q, 0, sizeof Q);
	bool mb = rnd(2);
	Q.ops = mb ? &my_queue_mb_ops : &my_queue_mutex_ops;
	/* sizes */
	for (int i = 0; i < 4; i++) {
		unsigned n = rnd(3) ? (unsigned)rnd(70) : rnd(2) ? 1u << rnd(16) : (1u << rnd(16)) + (unsigned)rnd(3) - 1;
		if (rnd(20) == 0) n = 0xffffffffu - rnd(3);
		if (rnd(20) == 0) n = 0x80000001u + rnd(100);
		unsigned e = 1 + rnd(40);
		bool good = n >= 2 && n <= 1u << 20 && (n & (n - 1)) == 0;
		if (!good && n >= 2 && (n & (n - 1)) == 0) continue;
		struct my_queue *q = Q.ops->init(n, e);
		if ((q != NULL) != good) violation("size", "a queue of size %u was %s", n, q ? "accepted" : "rejected");
		if (q) { Q.ops->destroy(&q); if (q) violation("destroy", "destroy did not clear the pointer"); }
		COUNT(good ? "sizes-accepted" : "sizes-rejected");
	}
	sim_begin();
	ev = 1;
	Q.size = 2u << rnd(rnd(4) ? 3 : 7);
	bool lng = rnd(20000) == 0;	/* more elements than 16 bits count */
	bool deep = lng && rnd(2);	/* ... also at one time, and around the end of the array */
	if (deep) Q.size = 131072;
	Q.cap = Q.size - 1;
	Q.nprod = mb ? 1 : rrange(1, 4);
	Q.esz = Q.nprod == 1 && rnd(4) == 0 ? rrange(1, 3) : rnd(2) ? 32 : rrange(4, 64);
	Q.q = Q.ops->init(Q.size, Q.esz);
	if (!Q.q) { violation("size", "a queue of size %u was rejected", Q.size); sim_end(); return; }
	int total = rnd(4) ? rrange(1, 60) : rrange(60, 600);
	if (lng) { total = deep ? rrange(135000, 150000) : rrange(65600, 70000); S.maxsteps = 400000000; COUNT("long-lived-queues"); }
	if (deep) { Q.hold = rnd(3) ? rrange(65540, 131071) : 131071; COUNT("queues-filled-beyond-16-bits"); }
	Q.maxtries = lng ? 10 * total : 400;
	Q.maxlog = lng ? total + 100 : 4000;
	Q.log = malloc(sizeof *Q.log * Q.maxlog);
	for (int i = 0; i < Q.nprod; i++) Q.quota[i] = total / Q.nprod + rnd(2);
	Q.running = Q.nprod;
	pthread_t t[8], ct;
	bool late = rnd(3) == 0;
	if (!late) sim_pthread_create(&ct, NULL, q_cons, NULL);
	for (int i = 0; i < Q.nprod; i++) sim_pthread_create(&t[i], NULL, q_prod, (void *)(uintptr_t)i);
	if (late) { sim_sleep_ns(rnd(200000)); sim_pthread_create(&ct, NULL, q_cons, NULL); }
	for (int i = 0; i < Q.nprod; i++) sim_pthread_join(t[i], NULL);
	sim_pthread_join(ct, NULL);
	for (int i = 0; i < Q.nprod; i++) {
		int n = 0;
		for (int j = 0; j < Q.nlog; j++) n += (int)Q.log[j].who == i;
		if (n != Q.removed[i]) violation("lost", "producer %d: %d elements inserted, %d removed", i, n, Q.removed[i]);
	}
	if (Q.ins_done != Q.rem_done) violation("lost", "%u elements inserted, %u removed", Q.ins_done, Q.rem_done);
	/* leave some elements in, then destroy */
	for (int i = rnd(3); i > 0; i--) { uint8_t e[64] = {0}; Q.ops->insert(Q.q, e, NULL); }
	Q.ops->destroy(&Q.q);
	free(Q.log);
	if (S.misuse) violation("lock-misuse", "%s", S.misuse);
	S.active = false;
	count_add("thread-switches", S.switches);
	COUNT(mb ? "barrier-queue" : "lock-queue");
	if (S.switches > 4) distinct(S.hash);
	sample("%s queue of %u x %u bytes, %d producers, %u elements through it, %" PRIu64 " switches", mb ? "barrier" : "lock", Q.size, Q.esz, Q.nprod, Q.rem_done, S.switches);
	sim_end();
}

static void run_case(const char *mode)
{
	if (!strcmp(mode, "P16")) case_p16(); else case_iothr();
}
int main(int argc, char **argv) { sim_stack_bounds(); return h_main(argc, argv); }
