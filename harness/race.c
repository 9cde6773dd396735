/* P19: free-running threads under ThreadSanitizer.  Time seen by the library
 * runs 1000 times faster, so that its timeouts are reached. */
#define _GNU_SOURCE
#include "common.h"
#include "ref.h"
#include <fstrm.h>
#include <pthread.h>
#include <sched.h>
#include <sys/uio.h>
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops;
static bool h_leak_mode(const char *m) { (void)m; return false; }

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#endif
#ifdef TSAN
void __tsan_acquire(void *);
void __tsan_release(void *);
void AnnotateIgnoreReadsBegin(const char *, int);
void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int);
void AnnotateIgnoreWritesEnd(const char *, int);
/* volatile accesses are deliberate (-tsan-distinguish-volatile) */
#define CB(k) void __tsan_volatile_read##k(void *); void __tsan_volatile_read##k(void *a) { (void)a; } \
	void __tsan_volatile_write##k(void *); void __tsan_volatile_write##k(void *a) { (void)a; } \
	void __tsan_unaligned_volatile_read##k(void *); void __tsan_unaligned_volatile_read##k(void *a) { (void)a; } \
	void __tsan_unaligned_volatile_write##k(void *); void __tsan_unaligned_volatile_write##k(void *a) { (void)a; }
CB(1) CB(2) CB(4) CB(8) CB(16)
/* The barrier-based queue synchronises by means ThreadSanitizer cannot see
 * (P16 judges it).  Its operations are compiled under another name and wrapped:
 * what they do inside is ignored, an insertion publishes to the removal. */
extern const struct my_queue_ops __real_my_queue_mb_ops;
#define IGN(x) do { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); x; AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } while (0)
static struct my_queue *mb_init(unsigned n, unsigned e) { return __real_my_queue_mb_ops.init(n, e); }
static void mb_destroy(struct my_queue **q) { __tsan_acquire(*q); __real_my_queue_mb_ops.destroy(q); }
static const char *mb_type(void) { return __real_my_queue_mb_ops.impl_type(); }
static bool mb_insert(struct my_queue *q, void *i, unsigned *s)
{
	bool r; unsigned sp = 0;
	__tsan_release(q);
	IGN(r = __real_my_queue_mb_ops.insert(q, i, s ? &sp : NULL));
	if (s) *s = sp;
	return r;
}
static bool mb_remove(struct my_queue *q, void *i, unsigned *c)
{
	bool r; unsigned cn = 0;
	IGN(r = __real_my_queue_mb_ops.remove(q, i, c ? &cn : NULL));
	if (c) *c = cn;
	__tsan_acquire(q);
	return r;
}
const struct my_queue_ops __wrap_my_queue_mb_ops = { .init = mb_init, .destroy = mb_destroy, .impl_type = mb_type, .insert = mb_insert, .remove = mb_remove };
#endif

/* ---- time, 1000 times faster ---- */
#define SCALE 1000
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
static uint64_t t0;
static uint64_t rnow(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static uint64_t vnow(void) { return (uint64_t)1000000 * 1000000000 + (rnow() - t0) * SCALE; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	(void)c;
	uint64_t v = vnow();
	t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
	return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	uint64_t d = t->tv_sec * 1000000000ull + t->tv_nsec, v = vnow();
	uint64_t r = rnow() + (d > v ? (d - v) / SCALE : 0);
	struct timespec a = { r / 1000000000, r % 1000000000 };
	return pthread_cond_clockwait(c, m, CLOCK_MONOTONIC, &a);
}

/* ---- per-thread RNG ---- */
typedef struct { uint64_t a, b; } prng;
static uint64_t pr(prng *p, uint64_t n)
{
	uint64_t a = p->a, b = p->b;
	p->a = b; a ^= a << 23;
	p->b = a ^ b ^ (a >> 17) ^ (b >> 26);
	return n ? (p->b + b) % n : 0;
}
static void nap(prng *p)
{
	switch (pr(p, 12)) {
	case 0: sched_yield(); break;
	case 1: { struct timespec t = { 0, (long)pr(p, 30000) }; nanosleep(&t, NULL); break; }
	case 2: for (volatile int i = (int)pr(p, 300); i > 0; i--) { } break;
	default: break;
	}
}

/* ---- one instance ---- */
typedef struct frame { struct inst *in; unsigned prod, seq; size_t len; uint8_t *data; bool acc; int ncb; unsigned long sum; } frame;
typedef struct inst {
	struct fstrm_iothr *io;
	struct fstrm_writer *w;
	struct fstrm_iothr_queue *q[64];
	int nq, nprod, frames;
	bool mpsc, bi;
	/* the I/O thread's own data: deliberately plain */
	prng tr;
	unsigned nopen, nclose, nwrite, ndestroy, bytes, nread, cbs, cbsum;
	bool open;
	unsigned pfail;
	bb wire;
	frame *f;			/* nprod * frames */
	pthread_t pt[8], gt[8];
	int ngt;
	struct fstrm_iothr_queue *got[8][16]; int ngot[8];
} inst;
typedef struct { inst *in; int i; prng r; bool ask; } targ;
static fstrm_res op_open(void *o)
{
	inst *in = o;
	nap(&in->tr);
	if (pr(&in->tr, 1000) < in->pfail) return fstrm_res_failure;
	in->nopen++;
	in->nread = 0;
	in->open = true;
	return fstrm_res_success;
}
static fstrm_res op_close(void *o) { inst *in = o; nap(&in->tr); in->nclose++; in->open = false; return fstrm_res_success; }
static fstrm_res op_destroy(void *o) { inst *in = o; in->ndestroy++; return fstrm_res_success; }
static fstrm_res op_write(void *o, const struct iovec *v, int n)
{
	inst *in = o;
	nap(&in->tr);
	if (pr(&in->tr, 1000) < in->pfail) return fstrm_res_failure;
	for (int i = 0; i < n; i++) { bb_add(&in->wire, v[i].iov_base, v[i].iov_len); in->bytes += v[i].iov_len; }
	in->nwrite++;
	return fstrm_res_success;
}
static fstrm_res op_read(void *o, void *b, size_t n)
{
	inst *in = o;
	if (pr(&in->tr, 1000) < in->pfail) return fstrm_res_failure;
	uint8_t x[24] = { 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, in->nread < 3 ? 1 : 5 };
	static const int off[] = { 0, 4, 8 };
	memset(b, 0, n);
	memcpy(b, x + off[in->nread % 3], n < 12 ? n : 12);
	in->nread++;
	return fstrm_res_success;
}
static void on_free(void *d, void *a)
{
	frame *f = a;
	uint8_t *p = d;
	unsigned long s = 0;
	for (size_t i = 0; i < f->len; i++) s += p[i];
	f->sum = s;
	f->ncb++;
	f->in->cbs++;
	free(d);
}
static void *th_get(void *arg)
{
	targ *t = arg;
	inst *in = t->in;
	for (int n = 0; n < 16; n++) {
		nap(&t->r);
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(in->io);
		if (!q) break;
		in->got[t->i][in->ngot[t->i]++] = q;
	}
	return NULL;
}
static void *th_prod(void *arg)
{
	targ *t = arg;
	inst *in = t->in;
	struct fstrm_iothr_queue *q = in->q[in->mpsc ? pr(&t->r, in->nq) : (uint64_t)t->i];
	if (t->ask) {
		struct fstrm_iothr_queue *g = fstrm_iothr_get_input_queue_idx(in->io, in->mpsc ? pr(&t->r, in->nq) : (uint64_t)t->i);
		if (g) q = g;
	}
	for (int n = 0; n < in->frames; n++) {
		frame *f = &in->f[t->i * in->frames + n];
		f->in = in; f->prod = t->i; f->seq = n;
		f->len = 8 + pr(&t->r, 60);
		f->data = malloc(f->len);
		memset(f->data, n, f->len);
		f->data[0] = 0xf5; f->data[1] = t->i; f->data[2] = n >> 8; f->data[3] = n;
		uint8_t *d = f->data;
		size_t len = f->len;
		fstrm_res r = fstrm_iothr_submit(in->io, q, d, len, on_free, f);
		if (r == fstrm_res_success) f->acc = true;	/* the callback does not touch acc */
		else { free(d); if (pr(&t->r, 3)) { struct timespec ts = { 0, 20000 }; nanosleep(&ts, NULL); } }
		nap(&t->r);
	}
	return NULL;
}
static void start(inst *in)
{
	memset(in, 0, sizeof *in);
	in->mpsc = rnd(3) != 0;
	in->bi = rnd(2);
	in->nprod = rrange(1, 4);
	in->nq = in->mpsc ? rrange(1, 3) : in->nprod + (int)rnd(2);
	in->frames = rnd(4) ? rrange(1, 60) : rrange(60, 300);
	in->pfail = rnd(2) ? 0 : rnd(200);
	in->tr = (prng){ rnd64(), rnd64() | 1 };
	in->ngt = rnd(2) ? rrange(1, 4) : 0;
	in->f = calloc(in->nprod * in->frames, sizeof(frame));
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	unsigned isz = 2u << rnd(8);
	fstrm_iothr_options_set_num_input_queues(o, in->nq);
	fstrm_iothr_options_set_input_queue_size(o, isz);
	fstrm_iothr_options_set_queue_notify_threshold(o, rrange(1, isz));
	fstrm_iothr_options_set_queue_model(o, in->mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC);
	fstrm_iothr_options_set_output_queue_size(o, rrange(2, 64));
	fstrm_iothr_options_set_flush_timeout(o, rrange(1, 5));
	fstrm_iothr_options_set_reopen_interval(o, rrange(1, 3));
	struct fstrm_rdwr *rd = fstrm_rdwr_init(in);
	fstrm_rdwr_set_open(rd, op_open);
	fstrm_rdwr_set_close(rd, op_close);
	fstrm_rdwr_set_destroy(rd, op_destroy);
	fstrm_rdwr_set_write(rd, op_write);
	if (in->bi) fstrm_rdwr_set_read(rd, op_read);
	in->w = fstrm_writer_init(NULL, &rd);
	in->io = fstrm_iothr_init(o, &in->w);
	fstrm_iothr_options_destroy(&o);
	if (!in->io) { violation("init", "fstrm_iothr_init failed"); return; }
	for (int i = 0; i < in->nq; i++) in->q[i] = fstrm_iothr_get_input_queue_idx(in->io, i);
}
static targ *TA; static int nta;
static void launch(inst *in)
{
	/* threads asking for queues run along with the producers */
	for (int i = 0; i < in->ngt; i++) {
		targ *t = &TA[nta++];
		*t = (targ){ in, i, { rnd64(), rnd64() | 1 }, false };
		if (pthread_create(&in->gt[i], NULL, th_get, t)) { fprintf(stderr, "harness: pthread_create\n"); _exit(99); }
	}
	for (int i = 0; i < in->nprod; i++) {
		targ *t = &TA[nta++];
		*t = (targ){ in, i, { rnd64(), rnd64() | 1 }, rnd(2) };
		if (pthread_create(&in->pt[i], NULL, th_prod, t)) { fprintf(stderr, "harness: pthread_create\n"); _exit(99); }
	}
}
static void finish(inst *in)
{
	for (int i = 0; i < in->nprod; i++) pthread_join(in->pt[i], NULL);
	for (int i = 0; i < in->ngt; i++) pthread_join(in->gt[i], NULL);
	if (rnd(2)) { struct timespec ts = { 0, (long)rnd(4000000) }; nanosleep(&ts, NULL); }
	fstrm_iothr_destroy(&in->io);
	/* everything the I/O thread did is ordered before this point: plain reads */
	unsigned acc = 0;
	for (int i = 0; i < in->nprod * in->frames; i++) {
		frame *f = &in->f[i];
		if (!f->acc) { if (f->ncb) violation("callback", "a refused frame was released"); continue; }
		acc++;
		unsigned long s = 0xf5 + f->prod + (uint8_t)(f->seq >> 8) + (unsigned long)(uint8_t)f->seq * (f->len - 3);
		if (f->ncb != 1) violation("callback", "frame %u of producer %u was released %d times", f->seq, f->prod, f->ncb);
		else if (f->sum != s) violation("visibility", "the release callback did not see the data submitted");
	}
	if (in->cbs != acc) violation("callback", "%u callbacks for %u accepted frames", in->cbs, acc);
	if (in->ndestroy != 1) violation("destroy", "transport destroyed %u times", in->ndestroy);
	if (in->open || in->nopen != in->nclose) violation("destroy", "%u opens, %u closes", in->nopen, in->nclose);
	/* the wire: per producer in order */
	size_t pos = 0;
	int last[8]; unsigned onwire = 0;
	for (int i = 0; i < 8; i++) last[i] = -1;
	while (in->wire.n - pos >= 4) {
		uint32_t l = get32(in->wire.p + pos);
		if (!l) { if (in->wire.n - pos < 8) break; pos += 8 + get32(in->wire.p + pos + 4); continue; }
		if (in->wire.n - pos < 4 + l) { violation("wire", "truncated frame"); break; }
		uint8_t *p = in->wire.p + pos + 4;
		int pd = p[1], sq = p[2] << 8 | p[3];
		if (l < 4 || p[0] != 0xf5 || pd >= in->nprod || sq >= in->frames) { violation("wire", "a frame nobody submitted"); break; }
		frame *f = &in->f[pd * in->frames + sq];
		if (!f->acc || f->len != l) { violation("wire", "frame %d of producer %d written but not accepted, or resized", sq, pd); break; }
		for (size_t i = 4; i < l; i++) if (p[i] != (uint8_t)sq) { violation("visibility", "frame %d of producer %d was written with other contents", sq, pd); break; }
		if (sq <= last[pd]) violation("wire", "producer %d: frame %d after %d", pd, sq, last[pd]);
		last[pd] = sq;
		onwire++;
		pos += 4 + l;
	}
	if (!in->pfail && onwire != acc) violation("wire", "%u frames written, %u accepted", onwire, acc);
	int got = 0;
	struct fstrm_iothr_queue *all[128];
	for (int i = 0; i < in->ngt; i++) for (int j = 0; j < in->ngot[i]; j++) all[got++] = in->got[i][j];
	for (int i = 0; i < got; i++) for (int j = 0; j < i; j++) if (all[i] == all[j]) violation("hand-out", "one queue was handed out twice");
	if (in->ngt && got != in->nq) violation("hand-out", "%d queues handed out, %d configured", got, in->nq);
	count_add("frames-accepted", acc);
	count_add("callbacks", in->cbs);
	count_add("writes", in->nwrite);
	count_add("opens", in->nopen);
	count_add("hand-outs", got);
	COUNT(in->mpsc ? "mpsc-instances" : "spsc-instances");
	uint64_t h = h_fnv(FNV0, in->wire.p, in->wire.n);
	if (onwire) distinct(h_fnv(h, &in->nwrite, sizeof in->nwrite));
	sample("%s, %d queues, %d producers, %d hand-out threads, %u accepted, %u writes, %u opens", in->mpsc ? "MPSC" : "SPSC", in->nq, in->nprod, in->ngt, acc, in->nwrite, in->nopen);
	bb_free(&in->wire);
	free(in->f);
}

/* ---- the queues alone ---- */
static struct { const struct my_queue_ops *ops; struct my_queue *q; int per; int nprod; } Q;
static void *q_prod(void *a)
{
	targ *t = a;
	unsigned e[8];
	for (int n = 0; n < Q.per;) {
		unsigned sp;
		for (int i = 0; i < 8; i++) e[i] = (unsigned)(t->i << 24 | n);
		if (Q.ops->insert(Q.q, e, &sp)) n++;
		else sched_yield();
		nap(&t->r);
	}
	return NULL;
}
static void *q_cons(void *a)
{
	targ *t = a;
	int next[8] = {0}, tot = Q.per * Q.nprod;
	while (tot > 0) {
		unsigned e[8], c;
		if (!Q.ops->remove(Q.q, e, &c)) { sched_yield(); continue; }
		tot--;
		int p = e[0] >> 24;
		for (int i = 1; i < 8; i++) if (e[i] != e[0]) violation("torn", "a removed element is torn");
		if (p >= Q.nprod || (int)(e[0] & 0xffffff) != next[p]) { violation("order", "producer %d: got element %u, expected %d", p, e[0] & 0xffffff, p < 8 ? next[p] : 0); break; }
		next[p]++;
		nap(&t->r);
	}
	return NULL;
}
static void queues(void)
{
	bool mb = rnd(2);
	Q.ops = mb ? &my_queue_mb_ops : &my_queue_mutex_ops;
	Q.nprod = mb ? 1 : rrange(1, 4);
	Q.per = rrange(20, 400);
	Q.q = Q.ops->init(2u << rnd(6), 32);
	if (!Q.q) { violation("init", "queue creation failed"); return; }
	pthread_t t[8];
	for (int i = 0; i <= Q.nprod; i++) {
		targ *a = &TA[nta++];
		*a = (targ){ NULL, i, { rnd64(), rnd64() | 1 }, false };
		if (pthread_create(&t[i], NULL, i < Q.nprod ? q_prod : q_cons, a)) _exit(99);
	}
	for (int i = 0; i <= Q.nprod; i++) pthread_join(t[i], NULL);
	Q.ops->destroy(&Q.q);
	count_add(mb ? "barrier-queue-elements" : "lock-queue-elements", Q.per * Q.nprod);
}
static void on_alrm(int s)
{
	(void)s;
	char m[256];
	int n = snprintf(m, sizeof m, "{\"t\":\"v\",\"kind\":\"hang\",\"case\":%" PRIu64 ",\"msg\":\"the threads did not finish within 100 s\"}\n", h_case);
	if (write(h_out, m, n) < 0) {}
	_exit(97);
}
static void run_case(const char *mode)
{
	static targ ta[64];
	(void)mode;
	signal(SIGALRM, on_alrm);
	alarm(100);
	TA = ta; nta = 0;
	t0 = rnow();
	if (rnd(4) == 0) { queues(); alarm(0); return; }
	static inst in[2];
	int n = rnd(8) ? 1 : 2;
	for (int i = 0; i < n; i++) start(&in[i]);
	for (int i = 0; i < n; i++) if (in[i].io) launch(&in[i]);
	for (int i = 0; i < n; i++) if (in[i].io) finish(&in[i]);
	alarm(0);
}
int main(int argc, char **argv) { return h_main(argc, argv); }
