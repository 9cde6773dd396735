/* Mock transport: an in-memory fstrm_rdwr with a scripted peer, fault
 * injection at any operation, and a life cycle monitor. */
#ifndef H_MT_H
#define H_MT_H
#include "common.h"
#include "ref.h"
#include <fstrm.h>

typedef struct mt {
	bool is_open, destroyed;
	unsigned nopen, nclose, ndestroy, nread, nwrite;
	bb rx; size_t rxpos;		/* peer -> library, current connection */
	bb tx;				/* library -> peer, current connection */
	bb script[4]; int nscript, iscript; /* appended to rx one by one when a read finds rx empty */
	bool eof_stop;			/* end of data is reported as "stop" */
	unsigned opno;			/* operations so far */
	int fault_at;			/* -1: none */
	bool fault_persist, fault_partial, fault_stop;
	bool fired;
	int fired_op;			/* 'o','r','w','c','d' */
	const char *viol;		/* first life cycle violation */
	bool oversize;			/* an iovec > 64 MB was passed to write */
	bool zerolen;
	unsigned badsel;
	void (*on_write)(struct mt *);
	size_t txat[4];			/* tx bytes seen when script item i was first needed */
} mt;

static bool mt_fault(mt *m, int op)
{
	unsigned n = m->opno++;
	if (m->fault_at >= 0 && (n == (unsigned)m->fault_at || (m->fault_persist && n > (unsigned)m->fault_at))) {
		if (!m->fired) m->fired_op = op;
		m->fired = true;
		return true;
	}
	return false;
}
/* A failing operation mostly reports "failure"; any result but success is a
 * failure to the caller. */
static fstrm_res mt_bad(mt *m)
{
	static const fstrm_res bad[] = { fstrm_res_failure, fstrm_res_failure, fstrm_res_stop, fstrm_res_again, fstrm_res_invalid, fstrm_res_failure };
	return bad[(m->opno + m->nopen + m->badsel) % 6];
}
static void mt_v(mt *m, const char *s) { if (!m->viol) m->viol = s; }

static fstrm_res mt_open(void *o)
{
	mt *m = o;
	if (m->destroyed) mt_v(m, "open after destroy");
	if (m->is_open) mt_v(m, "open while already open");
	m->nopen++;
	bb_rst(&m->tx); m->rxpos = 0;
	if (mt_fault(m, 'o')) return mt_bad(m);
	m->is_open = true;
	if (m->nscript) { bb_rst(&m->rx); m->iscript = 0; }
	return fstrm_res_success;
}
static fstrm_res mt_close(void *o)
{
	mt *m = o;
	if (m->destroyed) mt_v(m, "close after destroy");
	if (!m->is_open) mt_v(m, "close while not open");
	m->is_open = false;
	m->nclose++;
	return mt_fault(m, 'c') ? mt_bad(m) : fstrm_res_success;
}
static fstrm_res mt_destroy(void *o)
{
	mt *m = o;
	if (m->destroyed) mt_v(m, "destroyed twice");
	if (m->is_open) mt_v(m, "destroyed while open");
	m->destroyed = true;
	m->ndestroy++;
	return fstrm_res_success;
}
static fstrm_res mt_read(void *o, void *buf, size_t n)
{
	mt *m = o;
	if (m->destroyed) mt_v(m, "read after destroy");
	if (!m->is_open) { mt_v(m, "read while not open"); return fstrm_res_failure; }
	m->nread++;
	if (mt_fault(m, 'r')) return m->fault_stop ? fstrm_res_stop : fstrm_res_failure;
	while (m->rx.n - m->rxpos < n && m->iscript < m->nscript) {
		m->txat[m->iscript] = m->tx.n;
		bb *s = &m->script[m->iscript++];
		bb_add(&m->rx, s->p, s->n);
	}
	if (m->rx.n - m->rxpos < n) {
		m->rxpos = m->rx.n;
		return m->eof_stop ? fstrm_res_stop : fstrm_res_failure;
	}
	if (n) memcpy(buf, m->rx.p + m->rxpos, n);
	m->rxpos += n;
	return fstrm_res_success;
}
static fstrm_res mt_write(void *o, const struct iovec *iov, int cnt)
{
	mt *m = o;
	if (m->destroyed) mt_v(m, "write after destroy");
	if (!m->is_open) { mt_v(m, "write while not open"); return fstrm_res_failure; }
	m->nwrite++;
	for (int i = 0; i < cnt; i++)
		if (iov[i].iov_len > (64u << 20)) { m->oversize = true; return fstrm_res_success; }
	if (mt_fault(m, 'w')) {
		if (m->fault_partial && cnt) bb_add(&m->tx, iov[0].iov_base, iov[0].iov_len / 2);
		return mt_bad(m);
	}
	for (int i = 0; i < cnt; i++)
		bb_add(&m->tx, iov[i].iov_base, iov[i].iov_len);
	if (m->on_write) m->on_write(m);
	return fstrm_res_success;
}
static void mt_init(mt *m) { memset(m, 0, sizeof *m); m->fault_at = -1; m->eof_stop = chance(1, 2); m->badsel = rnd(6); }
static void mt_free(mt *m) { bb_free(&m->rx); bb_free(&m->tx); for (int i = 0; i < 4; i++) bb_free(&m->script[i]); }
static struct fstrm_rdwr *mt_rdwr(mt *m, bool rd, bool wr, bool destroy)
{
	struct fstrm_rdwr *r = fstrm_rdwr_init(m);
	fstrm_rdwr_set_open(r, mt_open);
	fstrm_rdwr_set_close(r, mt_close);
	if (destroy) fstrm_rdwr_set_destroy(r, mt_destroy);
	if (rd) fstrm_rdwr_set_read(r, mt_read);
	if (wr) fstrm_rdwr_set_write(r, mt_write);
	return r;
}

/* ---- generators ---- */
#define MAXCT 64
typedef struct { uint8_t *buf[MAXCT]; size_t len[MAXCT]; int n; } ctset;
static rbuf ct_at(const ctset *s, int i) { return (rbuf){ s->buf[i], s->len[i] }; }
static void ct_free(ctset *s) { for (int i = 0; i < s->n; i++) free(s->buf[i]); s->n = 0; }
static void ct_add(ctset *s, const void *p, size_t n)
{
	if (s->n >= MAXCT) return;
	s->buf[s->n] = malloc(n ? n : 1);
	if (n) memcpy(s->buf[s->n], p, n);
	s->len[s->n++] = n;
}
/* small alphabet so that sets overlap, share prefixes, and differ in one byte */
static void ct_gen_one(ctset *s)
{
	static const char *base[] = { "protobuf:dnstap.Dnstap", "protobuf:dnstap.Dnsta", "a", "b", "ab", "A" };
	uint8_t t[260];
	size_t n;
	switch (rnd(8)) {
	case 0: case 1: case 2: {
		const char *b = base[rnd(6)];
		n = strlen(b); memcpy(t, b, n);
		break; }
	case 3: n = rnd(4); for (size_t i = 0; i < n; i++) t[i] = rnd(2); break;
	case 4: n = 3; memcpy(t, "x\0y", 3); t[2] += rnd(2); break;
	case 5: n = 0; break;
	case 6: n = rrange(1, 40); for (size_t i = 0; i < n; i++) t[i] = rnd64(); break;
	default: n = chance(1, 6) ? 250 + rnd(7) : rrange(30, 60); memset(t, 'q', n); t[n - 1] = 'q' + rnd(2); break;
	}
	ct_add(s, t, n);
}
static size_t ct_total(const ctset *s) { size_t t = 4; for (int i = 0; i < s->n; i++) t += 8 + s->len[i]; return t; }
/* many short types, room left for some more */
static void ct_many(ctset *s)
{
	int n = rrange(17, 50);
	size_t lim = rrange(200, 490);
	memset(s, 0, sizeof *s);
	while (s->n < n && ct_total(s) + 12 <= lim) {
		uint8_t t[4];
		size_t l = chance(1, 12) ? rnd(2) : rrange(2, 4);
		for (size_t i = 0; i < l; i++) t[i] = chance(1, 2) ? 'a' + rnd(26) : rnd64();
		ct_add(s, t, l);
	}
}
/* at most max types (a little more than that now and then: many), total control frame payload kept within 512 bytes */
static void ct_gen(ctset *s, int max)
{
	memset(s, 0, sizeof *s);
	if (max >= 3 && chance(1, 30)) { ct_many(s); return; }
	int n = rnd(max + 1);
	while (s->n < n) ct_gen_one(s);
	while (ct_total(s) > 512) free(s->buf[--s->n]);
	if (max >= 3 && chance(1, 25)) {	/* a frame of exactly, or almost, the maximum size */
		size_t want = chance(1, 2) ? 512 : rrange(500, 512);
		while (s->n && (s->n >= max || s->n >= MAXCT || ct_total(s) > 400)) free(s->buf[--s->n]);
		while (s->n < max && s->n < MAXCT && ct_total(s) + 8 <= want) {
			size_t l = want - ct_total(s) - 8;
			uint8_t t[256];
			if (l > 256) l = s->n + 2 >= max ? 256 : 250;
			memset(t, 'm', l);
			if (l) t[0] = 'a' + s->n;
			ct_add(s, t, l);
		}
	}
}
static size_t gen_len(size_t max)
{
	static const size_t edge[] = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537 };
	size_t n;
	if (chance(1, 3)) n = edge[rnd(sizeof edge / sizeof *edge)];
	else if (chance(1, 8)) n = rrange(1, 70000);
	else if (chance(1, 3)) n = rrange(1, 2000);
	else n = rrange(1, 40);
	if (n > max) n = rrange(1, max);
	return n;
}
static void gen_payload(uint8_t *p, size_t n)
{
	switch (rnd(6)) {
	case 0: memset(p, 0, n); break;
	case 1: memset(p, 0xff, n); break;
	case 2: { static const uint8_t stop[12] = { 0,0,0,0, 0,0,0,4, 0,0,0,3 };
		for (size_t i = 0; i < n; i++) p[i] = stop[i % 12];
		break; }
	case 3: for (size_t i = 0; i < n; i++) p[i] = 'a' + (i % 26); break;
	default: for (size_t i = 0; i < n; i++) p[i] = (i & 7) ? p[i - 1] * 5 + 1 : rnd64(); break;
	}
	if (n >= 8 && chance(1, 2)) { uint32_t x = rnd64(); memcpy(p + rnd(n - 3), &x, 4); }
}
static struct fstrm_writer_options *mk_wopt(const ctset *s)
{
	struct fstrm_writer_options *o = fstrm_writer_options_init();
	for (int i = 0; i < s->n; i++)
		if (fstrm_writer_options_add_content_type(o, s->buf[i], s->len[i]) != fstrm_res_success)
			violation("content-type-refused", "a content type of %zu bytes was refused by the writer options", s->len[i]);
	return o;
}
static struct fstrm_reader_options *mk_ropt(const ctset *s)
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	for (int i = 0; i < s->n; i++)
		if (fstrm_reader_options_add_content_type(o, s->buf[i], s->len[i]) != fstrm_res_success)
			violation("content-type-refused", "a content type of %zu bytes was refused by the reader options", s->len[i]);
	return o;
}
static void frame_of(rframe *f, uint32_t type, const ctset *s)
{
	memset(f, 0, sizeof *f);
	f->type = type;
	for (int i = 0; s && i < s->n; i++) f->ct[f->nct++] = ct_at(s, i);
}
#endif
