/* P01-P09, P18: reader, writer and control frames over mock transports and
 * files, against the reference encoding in ref.h. */
#include "mt.h"
#include <dirent.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/uio.h>

static char *scratch_file(const char *n)
{
	static char p[4][400];
	static int i;
	char *r = p[i++ & 3];
	snprintf(r, 400, "%s/%s", h_scratch[0] ? h_scratch : "/tmp", n);
	return r;
}
static bool read_file(const char *path, bb *b)
{
	FILE *f = fopen(path, "rb");
	if (!f) return false;
	uint8_t t[65536];
	size_t n;
	while ((n = fread(t, 1, sizeof t, f)) > 0) bb_add(b, t, n);
	fclose(f);
	return true;
}
static void write_file(const char *path, const bb *b)
{
	FILE *f = fopen(path, "wb");
	if (!f || (b->n && fwrite(b->p, 1, b->n, f) != b->n) || fclose(f)) { perror("harness: write_file"); _exit(99); }
}
static int count_fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static struct fstrm_writer *file_writer(const char *path, const ctset *s)
{
	struct fstrm_file_options *fo = fstrm_file_options_init();
	struct fstrm_writer_options *wo = mk_wopt(s);
	fstrm_file_options_set_file_path(fo, path);
	struct fstrm_writer *w = fstrm_file_writer_init(fo, wo);
	fstrm_file_options_destroy(&fo);
	fstrm_writer_options_destroy(&wo);
	return w;
}
static struct fstrm_reader *file_reader(const char *path, const ctset *s, size_t max)
{
	struct fstrm_file_options *fo = fstrm_file_options_init();
	struct fstrm_reader_options *ro = mk_ropt(s);
	fstrm_file_options_set_file_path(fo, path);
	if (max) fstrm_reader_options_set_max_frame_size(ro, max);
	struct fstrm_reader *r = fstrm_file_reader_init(fo, ro);
	fstrm_file_options_destroy(&fo);
	fstrm_reader_options_destroy(&ro);
	return r;
}
static struct fstrm_writer *mt_writer(mt *m, const ctset *s, bool bi)
{
	struct fstrm_writer_options *wo = mk_wopt(s);
	struct fstrm_rdwr *rd = mt_rdwr(m, bi, true, true);
	struct fstrm_writer *w = fstrm_writer_init(s->n || chance(1, 2) ? wo : NULL, &rd);
	fstrm_writer_options_destroy(&wo);
	return w;
}
static struct fstrm_reader *mt_reader(mt *m, const ctset *s, bool bi, size_t max)
{
	struct fstrm_reader_options *ro = mk_ropt(s);
	if (max) fstrm_reader_options_set_max_frame_size(ro, max);
	struct fstrm_rdwr *rd = mt_rdwr(m, true, bi, true);
	struct fstrm_reader *r = fstrm_reader_init(ro, &rd);
	fstrm_reader_options_destroy(&ro);
	return r;
}

/* ------------------------------------------------------------------ *
 * Writer workload: frames grouped into calls.  Used by P01, P02, P09. */
#define MAXFR 1200
#define LONG_ONE_IN (!strcmp(h_mode, "P03") ? 20000 : 2500)
static struct wls { bb data; size_t off[MAXFR], len[MAXFR]; int n; int call[MAXFR]; int ncalls; bool single[MAXFR]; } wl0, *WL = &wl0;
#define wl (*WL)
static void wl_gen(size_t maxlen, size_t budget)
{
	bb_rst(&wl.data);
	wl.n = wl.ncalls = 0;
	int calls = rnd(10) ? rrange(0, 8) : rrange(20, 60);
	for (int c = 0; c < calls && wl.n < MAXFR - 400; c++) {
		static const int edge[] = { 2, 3, 63, 64, 127, 128, 129, 130, 255, 256, 257, 300 };
		bool single = chance(1, 2);
		int k = single ? 1 : chance(1, 3) ? edge[rnd(12)] : (int)rrange(1, 6);
		size_t cap = k > 20 ? 64 : maxlen;
		for (int i = 0; i < k; i++) {
			size_t n = gen_len(cap);
			if (wl.data.n + n > budget) n = gen_len(16);
			wl.off[wl.n] = wl.data.n;
			wl.len[wl.n] = n;
			wl.call[wl.n] = wl.ncalls;
			bb_need(&wl.data, n);
			gen_payload(wl.data.p + wl.data.n, n);
			wl.data.n += n;
			wl.n++;
		}
		wl.single[wl.ncalls++] = single;
	}
}
static uint64_t wl_hash(void)
{
	uint64_t h = h_fnv(FNV0, wl.len, wl.n * sizeof *wl.len);
	h = h_fnv(h, wl.call, wl.n * sizeof *wl.call);
	return h_fnv(h, wl.data.p, wl.data.n > 256 ? 256 : wl.data.n);
}
/* perform call c; source buffers are private copies, scribbled on and freed afterwards */
static fstrm_res wl_call(struct fstrm_writer *w, int c)
{
	int a = 0, b;
	while (a < wl.n && wl.call[a] != c) a++;
	for (b = a; b < wl.n && wl.call[b] == c; b++) ;
	int k = b - a;
	struct iovec *iov = malloc(sizeof *iov * (k ? k : 1));
	for (int i = 0; i < k; i++) {
		iov[i].iov_len = wl.len[a + i];
		iov[i].iov_base = malloc(iov[i].iov_len);
		memcpy(iov[i].iov_base, wl.data.p + wl.off[a + i], iov[i].iov_len);
	}
	fstrm_res res = wl.single[c] && k == 1 ? fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len)
					       : fstrm_writer_writev(w, iov, k);
	for (int i = 0; i < k; i++) { memset(iov[i].iov_base, 0xdb, 1); free(iov[i].iov_base); }
	free(iov);
	return res;
}
/* the complete stream a writer must emit for the workload */
static void wl_expect(bb *e, const ctset *s, bool bi, const ctset *accept)
{
	rframe f;
	if (bi) { frame_of(&f, T_READY, s); ref_enc(e, &f); }
	int use = -1;
	if (s->n && !bi) use = 0;
	if (s->n && bi) {
		rframe a;
		frame_of(&a, T_ACCEPT, accept);
		for (int i = 0; i < s->n && use < 0; i++) if (ref_match(&a, ct_at(s, i))) use = i;
	}
	if (use >= 0) ref_ctl1(e, T_START, ct_at(s, use)); else ref_ctl(e, T_START);
	for (int i = 0; i < wl.n; i++) ref_data(e, wl.data.p + wl.off[i], wl.len[i]);
	ref_ctl(e, T_STOP);
}

/* ------------------------------- P01 ------------------------------- *
 * One to three independent streams, each written, closed and read back, their
 * steps interleaved at random; writers and readers are used again for further
 * streams. A frame handed out stays valid until its reader's next use. */
struct p01 {
	struct wls w;
	ctset s, acc, rs;
	mt m, m2;
	int kind, st, c, i, rounds, id;	/* kind 0,1: uni memory; 2: bi memory; 3: file */
	bool bi, file;
	char path[64];
	size_t maxf;
	struct fstrm_writer *wr;
	struct fstrm_reader *rd;
	const uint8_t *held;
};
static struct p01 P1[3];
static void case_long(void);

static void p01_gen(struct p01 *p, bool small)
{
	bool big = !small && chance(1, 150);
	WL = &p->w;
	wl_gen(big ? 1048576 : small ? 5000 : 70000, big ? 3000000 : small ? 20000 : 200000);
	if (big) {	/* one frame of exactly the default maximum */
		wl.n = 1; wl.ncalls = 1; wl.single[0] = true; bb_rst(&wl.data); wl.off[0] = 0;
		wl.len[0] = chance(1, 2) ? 1048576 - rnd(2) : rrange(1048577, 2500000); wl.call[0] = 0;
		COUNT("frames-of-a-mebibyte");
		bb_need(&wl.data, wl.len[0]); gen_payload(wl.data.p, wl.len[0]); wl.data.n = wl.len[0];
	}
	p->st = p->c = p->i = 0;
	p->held = NULL;
}
static void p01_init(struct p01 *p, int id, bool small)
{
	p->kind = rnd(4);
	p->bi = p->kind == 2; p->file = p->kind == 3;
	p->id = id;
	snprintf(p->path, sizeof p->path, "p01.%d.fstrm", id);
	p->wr = NULL; p->rd = NULL;
	memset(&p->acc, 0, sizeof p->acc); memset(&p->rs, 0, sizeof p->rs);
	ct_gen(&p->s, 3);
	mt_init(&p->m); mt_init(&p->m2);
	p->rounds = chance(1, 3) ? rrange(2, 3) : 1;
	p01_gen(p, small || p->rounds > 1);
	if (p->bi) {
		rframe f;
		if (p->s.n && chance(1, 2)) ct_add(&p->acc, p->s.buf[p->s.n - 1], p->s.len[p->s.n - 1]);
		frame_of(&f, T_ACCEPT, &p->acc);
		ref_enc(&p->m.script[0], &f);
		ref_ctl(&p->m.script[1], T_FINISH);
		p->m.nscript = 2;
	}
	if (p->s.n && chance(1, 2)) for (int i = 0; i < p->s.n; i++) ct_add(&p->rs, p->s.buf[i], p->s.len[i]);
}
static void p01_held(struct p01 *p)
{
	if (!p->held) return;
	if (memcmp(p->held, wl.data.p + wl.off[p->i - 1], wl.len[p->i - 1]))
		violation("frame-changed", "frame %d of %d changed after it had been delivered, before its reader was used again", p->i - 1, wl.n);
	p->held = NULL;
	COUNT("frames-held");
}
/* false: this stream is finished */
static bool p01_step(struct p01 *p)
{
	fstrm_res r;
	WL = &p->w;
	switch (p->st) {
	case 0:
		if (!p->wr) {
			p->wr = p->file ? file_writer(scratch_file(p->path), &p->s) : mt_writer(&p->m, &p->s, p->bi);
			if (!p->wr) { violation("init", "writer init failed"); return false; }
			if (chance(1, 2)) fstrm_writer_open(p->wr);
		} else if ((r = fstrm_writer_open(p->wr)) != fstrm_res_success) { violation("reopen", "a closed writer cannot be opened again (%d)", r); return false; }
		p->st = 1;
		return true;
	case 1:
		if (p->c < wl.ncalls) {
			r = wl_call(p->wr, p->c);
			if (r != fstrm_res_success) { violation("write-failed", "write call %d of %d failed (%d) on a healthy transport", p->c, wl.ncalls, r); return false; }
			if (chance(1, 10)) { struct fstrm_control *ctl; (void)fstrm_writer_get_control(p->wr, FSTRM_CONTROL_START, &ctl); }
			p->c++;
			return true;
		}
		r = wl.ncalls == 0 ? fstrm_writer_open(p->wr) : fstrm_res_success;
		if (r != fstrm_res_success) violation("open-failed", "open failed on a healthy transport");
		bool expl = p->rounds > 1 || chance(1, 2);
		r = expl ? fstrm_writer_close(p->wr) : fstrm_writer_destroy(&p->wr);
		if (r != fstrm_res_success) { violation("close-failed", "%s failed (%d) on a healthy transport", expl ? "close" : "destroy", r); return false; }
		if (expl && (p->rounds == 1 || chance(1, 3))) fstrm_writer_destroy(&p->wr);
		p->st = 2;
		return true;
	case 2: {
		size_t longest = 512;
		for (int i = 0; i < wl.n; i++) if (wl.len[i] > longest) longest = wl.len[i];
		if (p->rd && longest > (p->maxf ? p->maxf : 1048576)) fstrm_reader_destroy(&p->rd);
		if (!p->file) { bb_rst(&p->m2.rx); bb_add(&p->m2.rx, p->m.tx.p, p->m.tx.n); }
		bool again = p->rd;
		if (!again) {
			p->maxf = longest > 1048576 || chance(1, 2) ? longest + (chance(1, 2) ? 0 : rnd(100000)) : 0;
			p->rd = p->file ? file_reader(scratch_file(p->path), &p->rs, p->maxf) : mt_reader(&p->m2, &p->rs, p->bi, p->maxf);
		} else COUNT("readers-reused");
		if ((again || chance(1, 2)) && (r = fstrm_reader_open(p->rd)) != fstrm_res_success) {
			violation("reader-open", "%s refuses the writer's stream (%d)", again ? "a reader opened again" : "reader", r);
			return false;
		}
		p->st = 3;
		return true;
	}
	default: {
		const uint8_t *d = NULL; size_t n = 0;
		p01_held(p);
		r = fstrm_reader_read(p->rd, &d, &n);
		if (p->i < wl.n) {
			if (r != fstrm_res_success) { violation("frame-lost", "frame %d of %d (%zu bytes): read returned %d", p->i, wl.n, wl.len[p->i], r); return false; }
			if (chance(1, 8)) { const struct fstrm_control *ctl; (void)fstrm_reader_get_control(p->rd, FSTRM_CONTROL_START, &ctl); (void)fstrm_reader_get_control(p->rd, FSTRM_CONTROL_STOP, &ctl); }
			if (n != wl.len[p->i] || memcmp(d, wl.data.p + wl.off[p->i], n)) {
				violation("frame-differs", "frame %d of %d: wrote %zu bytes, read %zu different bytes", p->i, wl.n, wl.len[p->i], n);
				return false;
			}
			p->held = d;
			p->i++;
			return true;
		}
		if (r != fstrm_res_stop) violation("no-stop", "after all %d frames read returned %d, not end of stream", wl.n, r);
		if ((p->rounds > 1 || chance(1, 2)) && (r = fstrm_reader_close(p->rd)) != fstrm_res_success)
			violation("reader-close", "reader close failed (%d)", r);
		if (p->rounds == 1 || chance(1, 3)) fstrm_reader_destroy(&p->rd);
		count_add("frames", wl.n);
		if (wl.n) distinct(wl_hash() ^ p->kind);
		if (wl.n > 3) sample("transport=%s frames=%d calls=%d bytes=%zu first lens=%zu,%zu,%zu ctypes=%d", p->file ? "file" : p->bi ? "bi" : "uni", wl.n, wl.ncalls, wl.data.n, wl.len[0], wl.len[1], wl.len[2], p->s.n);
		COUNT(p->file ? "file" : p->bi ? "bidirectional" : "unidirectional");
		if (--p->rounds == 0) return false;
		p01_gen(p, true);
		return true;
	}
	}
}
static void case_p01(void)
{
	if (chance(1, LONG_ONE_IN)) { case_long(); return; }
	int n = chance(1, 2) ? 1 : rrange(2, 3);
	bool live[3] = { false, false, false };
	for (int k = 0; k < n; k++) { p01_init(&P1[k], k, n > 1); live[k] = true; }
	if (n > 1) COUNT("interleaved-streams");
	for (int left = n; left; ) {
		int k = rnd(n);
		if (!live[k]) continue;
		for (int burst = chance(1, 2) ? 1 : rrange(1, 20); burst && live[k]; burst--)
			if (!p01_step(&P1[k])) { live[k] = false; left--; }
	}
	for (int k = 0; k < n; k++) {
		struct p01 *p = &P1[k];
		if (p->wr) fstrm_writer_destroy(&p->wr);
		if (p->rd) fstrm_reader_destroy(&p->rd);
		mt_free(&p->m); mt_free(&p->m2); ct_free(&p->s); ct_free(&p->acc); ct_free(&p->rs);
	}
	WL = &wl0;
}

/* ------------------------------- long histories ------------------------------- *
 * More frames, calls, connections and bytes than 8-, 16- and 24-bit counters
 * hold, on one writer and one reader object. P01 reads everything back, P02
 * compares the bytes, P03 reads control frames in between, P09 fails at a late
 * operation. */
static void long_frame(uint8_t *t, size_t *n, uint64_t id)
{
	*n = 1 + h_mix(id) % 7;
	uint64_t v = h_mix(id ^ 0x5bd1e995);
	memcpy(t, &v, 8);
	if (v % 5 == 0) memset(t, 0, 8);
}
static void case_long(void)
{
	bool p01 = !strcmp(h_mode, "P01"), p02 = !strcmp(h_mode, "P02"), p03 = !strcmp(h_mode, "P03"), p09 = !strcmp(h_mode, "P09");
	int shape = rnd(3);		/* 0: many frames, 1: many connections, 2: one very long frame */
	if (p09 && shape == 2) shape = 0;
	int kind = rnd(3);
	bool bi = kind == 1, file = kind == 2 && !p03 && !p09;
	int rounds = shape == 1 ? (int)rrange(257, 330) : 1;
	ctset s, none = {0};
	mt m, m2;
	char *path = scratch_file("long.fstrm");
	ct_gen(&s, 2);
	mt_init(&m); mt_init(&m2);
	m.badsel = 0;
	if (bi) { ref_ctl(&m.script[0], T_ACCEPT); ref_ctl(&m.script[1], T_FINISH); m.nscript = 2; }
	size_t biglen = shape == 2 ? rrange(0xfffff0, 0x1000020) + (chance(1, 4) ? 0x1000000 : 0) : 0;
	struct fstrm_writer *w = p03 ? NULL : file ? file_writer(path, &s) : mt_writer(&m, &s, bi);
	struct fstrm_reader *r = !p01 && !p03 ? NULL : file ? file_reader(path, &none, biglen) : mt_reader(&m2, &none, bi, biglen);
	uint8_t *big = biglen ? malloc(biglen) : NULL;
	for (size_t i = 0; i < biglen; i++) big[i] = i * 7 + (i >> 8) + (i >> 16);
	uint64_t id0 = rnd64();
	bb e = {0}, got = {0};
	size_t frames = 0;
	for (int k = 0; k < rounds; k++) {
		size_t n = shape == 0 ? chance(1, 3) ? rrange(131073, 140000) : rrange(65537, 70000) : rnd(4), at = 0;
		uint64_t id = id0 + (uint64_t)k * 1000003;
		const size_t vmax = chance(2, 3) ? 70001 : 301;	/* frames in one call */
		static uint8_t t[70001][8];
		static struct iovec v[70001];
		bb_rst(&e);
		rframe f;
		if (bi) { frame_of(&f, T_READY, &s); ref_enc(&e, &f); }
		if (s.n) ref_ctl1(&e, T_START, ct_at(&s, 0)); else ref_ctl(&e, T_START);
		size_t data0 = e.n;
		bool failed = false;
		if (w && fstrm_writer_open(w) != fstrm_res_success) { violation("open-failed", "open number %d of one writer failed on a healthy transport", k + 1); goto out; }
		if (p09) { m.fault_at = m.opno + rrange(1, n + 3); m.fault_persist = chance(1, 2); m.fired = false; }
		/* the writes */
		size_t calls = 0, okbytes = 0;
		if (shape == 2) {
			ref_data(&e, big, biglen);
			if (w && fstrm_writer_write(w, big, biglen) != fstrm_res_success) { violation("write-failed", "a frame of %zu bytes was refused", biglen); goto out; }
			n = 0; frames++;
		}
		bool batched = chance(1, 2);
		while (at < n) {
			size_t left = n - at < vmax - 1 ? n - at : vmax - 1;
			int c = batched ? rrange(chance(1, 2) ? left : 1, left) : 1;
			if (c > 4096) COUNT("thousands-of-frames-in-one-call");
			for (int i = 0; i < c; i++) {
				long_frame(t[i], &v[i].iov_len, id + at + i);
				v[i].iov_base = t[i];
				ref_data(&e, t[i], v[i].iov_len);
				if (p03 && (at + i) % 301 == 7) { uint8_t u[8] = { 0, 0, 0, 9, 1, 2, 3, 4 }; int run = chance(1, 60) ? rrange(2, 900) : 1; while (run--) { bb_be32(&e, 0); bb_be32(&e, 4 + (at % 5 ? 4 : 0)); bb_add(&e, u, 4 + (at % 5 ? 4 : 0)); } }
			}
			calls++;
			if (w) {
				fstrm_res x = c == 1 && chance(1, 2) ? fstrm_writer_write(w, t[0], v[0].iov_len) : fstrm_writer_writev(w, v, c);
				if (x != fstrm_res_success) {
					failed = true;
					if (!p09 || !m.fired) { violation(p09 ? "spurious-failure" : "write-failed", "write call %zu (frame %zu of connection %d) failed on a healthy transport", calls, at, k + 1); goto out; }
					break;
				} else if (m.fired && p09) { violation("loss-unreported", "write call %zu (frame %zu) reports success although its transport operation failed", calls, at); goto out; }
				okbytes = e.n;
			}
			at += c;
		}
		frames += at;
		ref_ctl(&e, T_STOP);
		if (w) {
			fstrm_res x = fstrm_writer_close(w);
			if (p09) {
				if (x == fstrm_res_success && (failed || m.fired)) violation("loss-unreported", "close reports success after operation %u failed (%zu frames)", (unsigned)m.fault_at, at);
				if (m.tx.n < okbytes || memcmp(m.tx.p, e.p, okbytes)) violation("loss-unreported", "%zu bytes were reported as written, %zu have arrived or differ", okbytes, m.tx.n);
				if (x != fstrm_res_success && !m.fired) violation("spurious-failure", "close failed although nothing went wrong");
				COUNT("late-faults");
				m.fault_at = -1; m.fault_persist = false;
				continue;
			}
			if (x != fstrm_res_success) { violation("close-failed", "close number %d failed on a healthy transport", k + 1); goto out; }
			bb_rst(&got);
			if (file) read_file(path, &got); else bb_add(&got, m.tx.p, m.tx.n);
			size_t i = 0;
			while (i < e.n && i < got.n && e.p[i] == got.p[i]) i++;
			if (p02 && (i < e.n || i < got.n)) { violation("wire-differs", "long history: connection %d with %zu frames differs from the specified encoding at byte %zu of %zu (emitted %zu)", k + 1, at, i, e.n, got.n); goto out; }
		}
		if (!r) continue;
		/* read it back */
		if (!file) {
			bb_rst(&m2.rx);
			bb *x = p03 ? &e : &got;
			bb_add(&m2.rx, x->p, x->n);
		}
		if (fstrm_reader_open(r) != fstrm_res_success) { violation(p03 ? "refused-good-stream" : "reader-open", "open number %d of one reader fails on a well-formed stream", k + 1); goto out; }
		const uint8_t *d = NULL; size_t dn = 0;
		(void)data0;
		for (size_t i = 0; i < n + (biglen != 0); i++) {
			fstrm_res x = fstrm_reader_read(r, &d, &dn);
			if (x != fstrm_res_success) { violation(p03 ? "frame-withheld" : "frame-lost", "frame %zu of %zu, stream %d of one reader: read returned %d", i, n, k + 1, x); goto out; }
			if (biglen) { if (dn != biglen || memcmp(d, big, dn)) { violation(p03 ? "wrong-frame" : "frame-differs", "a frame of %zu bytes is delivered changed (%zu bytes)", biglen, dn); goto out; } continue; }
			uint8_t tt[8]; size_t tn;
			long_frame(tt, &tn, id + i);
			if (dn != tn || memcmp(d, tt, tn)) { violation(p03 ? "wrong-frame" : "frame-differs", "frame %zu of %zu, stream %d of one reader: %zu different bytes instead of %zu", i, n, k + 1, dn, tn); goto out; }
		}
		fstrm_res x = fstrm_reader_read(r, &d, &dn);
		if (x != fstrm_res_stop) { violation(p03 ? "stop-missed" : "no-stop", "after %zu frames of stream %d read returned %d, not end of stream", n, k + 1, x); goto out; }
		if (fstrm_reader_close(r) != fstrm_res_success) { violation("reader-close", "reader close number %d failed", k + 1); goto out; }
	}
	count_add("long-frames", frames);
	if (rounds > 1) count_add("long-connections", rounds);
	COUNT(shape == 0 ? "long-many-frames" : shape == 1 ? "long-many-connections" : "long-16-mib-frames");
	distinct(id0);
out:
	free(big);
	if (w) fstrm_writer_destroy(&w);
	if (r) fstrm_reader_destroy(&r);
	bb_free(&e); bb_free(&got); mt_free(&m); mt_free(&m2); ct_free(&s);
}

/* One vectored write of 2^30 frames and more: the count still is an int, twice
 * the count is none. The vector is one piece of memory mapped many times. */
static void case_giant(void)
{
#if !__has_feature(memory_sanitizer)
	const size_t piece = 16 << 20, per = piece / sizeof(struct iovec);
	size_t n = (1u << 30) + (chance(1, 2) ? 0 : rrange(1, 5000)), pieces = (n + per - 1) / per;
	int fd = memfd_create("iov", MFD_CLOEXEC);
	char *base = mmap(NULL, pieces * piece, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (fd < 0 || ftruncate(fd, piece) || base == MAP_FAILED) { fprintf(stderr, "harness: no room for a large vector\n"); _exit(99); }
	for (size_t i = 0; i < pieces; i++)
		if (mmap(base + i * piece, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(99); }
	struct iovec *v = (struct iovec *)base;
	static char pay[] = "payload";
	for (size_t i = 0; i < per; i++) v[i] = (struct iovec){ pay, 1 + i % 7 };
	mt m;
	ctset none = {0};
	mt_init(&m);
	struct fstrm_writer *w = mt_writer(&m, &none, false);
	bb e = {0};
	if (fstrm_writer_open(w) != fstrm_res_success) violation("open-failed", "open failed on a healthy transport");
	bb_add(&e, m.tx.p, m.tx.n);
	int more = rrange(0, 3);
	m.fault_at = m.opno + more; m.fault_persist = true;
	fstrm_res r = fstrm_writer_writev(w, v, (int)n);
	if (r == fstrm_res_success) violation("loss-unreported", "a write of %zu frames succeeds, the transport failed long before the end", n);
	/* what has been written is a beginning of what was asked for */
	for (size_t i = 0; e.n < m.tx.n; i++) ref_data(&e, v[i].iov_base, v[i].iov_len);
	if (memcmp(e.p, m.tx.p, m.tx.n)) violation("wire-differs", "a write of %zu frames emits other bytes", n);
	if (more && m.tx.n < 20) violation("wire-differs", "nothing is written of %zu frames", n);
	fstrm_writer_destroy(&w);
	bb_free(&e);
	mt_free(&m);
	munmap(base, pieces * piece);
	close(fd);
	COUNT("2^30-frames-in-one-call");
#endif
}

/* ------------------------------- P02 ------------------------------- */
static void case_p02(void)
{
	if (chance(1, LONG_ONE_IN)) { case_long(); return; }
	ctset s, acc = {0};
	mt m;
	int kind = rnd(4);
	bool bi = kind == 2 || kind == 1, file = kind == 3;
	char *path = scratch_file("p02.fstrm");
	ct_gen(&s, 4);
	wl_gen(70000, 150000);
	mt_init(&m);
	if (bi) {
		rframe f;
		if (s.n && chance(2, 3)) { int j = rnd(s.n); ct_add(&acc, s.buf[j], s.len[j]); if (chance(1, 2)) { j = rnd(s.n); if (ct_total(&acc) + 8 + s.len[j] <= 512) ct_add(&acc, s.buf[j], s.len[j]); } }
		frame_of(&f, T_ACCEPT, &acc);
		ref_enc(&m.script[0], &f);
		ref_ctl(&m.script[1], T_FINISH);
		m.nscript = 2;
	}
	struct fstrm_writer *w = file ? file_writer(path, &s) : mt_writer(&m, &s, bi);
	int conns = chance(1, 3) ? rrange(2, 4) : 1, conn = 0;
next:
	/* the set is given to the options in order; also check idempotent open */
	if (fstrm_writer_open(w) != fstrm_res_success) { violation("open-failed", "open failed on a healthy transport, connection %d", conn + 1); fstrm_writer_destroy(&w); goto out; }
	if (chance(1, 4)) fstrm_writer_open(w);
	int refused = 0;
	bool ok = true;
	for (int c = 0; c <= wl.ncalls && ok; c++) {
		if (chance(1, 3)) {
			/* a call containing an unrepresentable frame somewhere */
			struct iovec iov[300];
			static uint8_t b[64] = "good frame";
			int k = chance(1, 3) ? 1 : chance(1, 8) ? (int)rrange(120, 300) : (int)rrange(2, 6);
			for (int i = 0; i < k; i++) { iov[i].iov_base = b; iov[i].iov_len = rrange(1, 20); }
			int bad = chance(1, 2) ? k - 1 : (int)rnd(k);
			bool empty = chance(2, 3);
			iov[bad].iov_len = empty ? 0 : ((size_t)1 << 32) + rnd(12) * (chance(1, 2) ? 1 : 4096);
			size_t before = m.tx.n;
			fstrm_res r = k == 1 && chance(1, 2) ? fstrm_writer_write(w, b, iov[0].iov_len) : fstrm_writer_writev(w, iov, k);
			refused++;
			if (r == fstrm_res_success)
				violation("unrepresentable-accepted", "%s frame at %d of %d reported as written", empty ? "an empty" : "a 4 GiB", bad, k);
			if (m.tx.n != before || m.oversize) {
				violation("refused-emitted", "a refused write (%s frame at %d of %d) put %zu bytes on the stream", empty ? "empty" : "4 GiB", bad, k, m.tx.n - before);
				ok = false;
			}
		}
		if (chance(1, 10)) {
			size_t before = m.tx.n;
			(void)fstrm_writer_writev(w, NULL, 0);
			if (m.tx.n != before) violation("empty-writev-emitted", "writev of no frames emitted bytes");
		}
		if (c < wl.ncalls && ok) {
			fstrm_res r = wl_call(w, c);
			if (r != fstrm_res_success) { violation("write-failed", "write call %d failed (%d) on a healthy transport after %d refused calls", c, r, refused); ok = false; }
		}
	}
	fstrm_res r = conn + 1 < conns || chance(1, 2) ? fstrm_writer_close(w) : fstrm_writer_destroy(&w);
	if (ok && r != fstrm_res_success) { violation("close-failed", "close failed (%d) on a healthy transport", r); ok = false; }
	if (w && conn + 1 >= conns) fstrm_writer_destroy(&w);
	if (ok) {
		bb e = {0}, got = {0};
		wl_expect(&e, &s, bi, &acc);
		if (file) read_file(path, &got); else bb_add(&got, m.tx.p, m.tx.n);
		size_t i = 0;
		while (i < e.n && i < got.n && e.p[i] == got.p[i]) i++;
		if (i < e.n || i < got.n)
			violation("wire-differs", "%s stream of %d frames differs from the specified encoding at byte %zu (specified %zu bytes, emitted %zu), connection %d", file ? "file" : bi ? "bi" : "uni", wl.n, i, e.n, got.n, conn + 1), ok = false;
		count_add("bytes-compared", e.n);
		bb_free(&e); bb_free(&got);
	}
	count_add("frames", wl.n);
	count_add("refused-calls", refused);
	if (wl.n || refused) distinct(wl_hash() ^ kind ^ refused * 77);
	if (wl.n > 3) sample("transport=%s ctypes=%d accepted=%d frames=%d calls=%d unrepresentable calls=%d", file ? "file" : bi ? "bi" : "uni", s.n, acc.n, wl.n, wl.ncalls, refused);
	if (ok && ++conn < conns) {
		COUNT("reconnections");
		wl_gen(3000, 20000);
		if (bi && chance(1, 2)) {	/* the peer has changed its mind */
			rframe f;
			ct_free(&acc);
			if (s.n && chance(2, 3)) { int j = rnd(s.n); ct_add(&acc, s.buf[j], s.len[j]); }
			frame_of(&f, T_ACCEPT, &acc);
			bb_rst(&m.script[0]);
			ref_enc(&m.script[0], &f);
		}
		goto next;
	}
	if (w) fstrm_writer_destroy(&w);
out:
	mt_free(&m); ct_free(&s); ct_free(&acc);
}

/* ------------------------------- P03 ------------------------------- */
static void gen_unknown_ctl(bb *b)
{
	static const uint32_t ty[] = { 0, 6, 7, 100, 0x01000000, 0xffffffff, 0x00000100 };
	bb t = {0};
	bb_be32(&t, ty[rnd(7)]);
	int k = rnd(4);
	if (k == 1) { bb_be32(&t, 1); bb_be32(&t, 3); bb_add(&t, "abc", 3); }
	if (k == 2) { size_t n = rrange(1, 508); bb_need(&t, n); gen_payload(t.p + t.n, n); t.n += n; }
	if (k == 3) { bb_be32(&t, 0x77); bb_be32(&t, 4); bb_be32(&t, 1); }
	bb_be32(b, 0); bb_be32(b, t.n); bb_add(b, t.p, t.n);
	bb_free(&t);
}
static void gen_bad_ctl(bb *b)
{
	bb_be32(b, 0);
	switch (rnd(8)) {
	case 0: bb_be32(b, rnd(4)); bb_add(b, "\0\0\0", 3); break;
	case 1: bb_be32(b, 513 + rnd(3)); bb_need(b, 520); memset(b->p + b->n, 0, 520); b->n += 520; break;
	case 2: bb_be32(b, 0xffffffff - rnd(3)); bb_be32(b, 3); break;
	case 3: bb_be32(b, 7); bb_be32(b, 3); bb_add(b, "abc", 3); break;	/* trailing garbage */
	case 4: bb_be32(b, 15); bb_be32(b, 3); bb_be32(b, 1); bb_be32(b, 3); bb_add(b, "abc", 3); break; /* STOP with ctype */
	case 5: bb_be32(b, 12); bb_be32(b, 3); bb_be32(b, 9); bb_be32(b, 0); break;
	case 6: bb_be32(b, 12); bb_be32(b, 2); bb_be32(b, 1); bb_be32(b, 1 + rnd(300)); break;
	default: { size_t l = 257 + rnd(100); bb_be32(b, 12 + l); bb_be32(b, 2); bb_be32(b, 1); bb_be32(b, l);
		bb_need(b, l); memset(b->p + b->n, 'x', l); b->n += l; break; }
	}
}
enum { EV_DATA, EV_STOP, EV_FAIL, EV_EOF, EV_MAYFAIL_SKIP };
struct rmodel { const uint8_t *p; size_t n, pos, max; bool mayfail; const uint8_t *d; size_t dlen; int unknown; };
/* next event at or after pos; sets mayfail if an unspecified frame was passed over */
static int rm_next(struct rmodel *m)
{
	for (;;) {
		if (m->n - m->pos < 4) return EV_EOF;
		uint32_t len = get32(m->p + m->pos);
		if (len) {
			if (len > m->max) return EV_FAIL;
			if (m->n - m->pos - 4 < len) return EV_EOF;
			m->d = m->p + m->pos + 4;
			m->dlen = len;
			m->pos += 4 + (size_t)len;
			return EV_DATA;
		}
		if (m->n - m->pos < 8) return EV_EOF;
		uint32_t cl = get32(m->p + m->pos + 4);
		if (cl > REF_CTL_MAX || cl < 4) return EV_FAIL;
		if (m->n - m->pos - 8 < cl) return EV_EOF;
		rframe f;
		int r = ref_dec(m->p + m->pos + 8, cl, &f);
		if (r == RD_BAD) return EV_FAIL;
		m->pos += 8 + (size_t)cl;
		if (r == RD_UNKNOWN) { m->unknown++; continue; }
		if (f.type == T_STOP) return EV_STOP;
		m->mayfail = true;	/* READY/ACCEPT/START/FINISH here: "may not occur", unspecified */
	}
}
static void check_fields(struct fstrm_control *c, const rframe *f, const char *what);
/* the control frames an open reader hands out are those of its stream */
static const struct fstrm_control *reader_control(struct fstrm_reader *r, fstrm_control_type t, const rframe *want, const char *what)
{
	const struct fstrm_control *c = NULL;
	fstrm_res x = fstrm_reader_get_control(r, t, &c);
	if (!want) {
		if (x == fstrm_res_success) violation("control-invented", "get_control hands out %s, which the stream does not have", what);
		return NULL;
	}
	if (x != fstrm_res_success || !c) { violation("control-withheld", "get_control does not hand out %s (%d)", what, x); return NULL; }
	check_fields((struct fstrm_control *)c, want, what);
	return c;
}
static void case_p03(void)
{
	if (chance(1, LONG_ONE_IN)) { case_long(); return; }
	bb b = {0};
	ctset rs, ws;
	mt m;
	static const size_t maxes[] = { 512, 513, 600, 1024, 4096, 65536, 0, 0 };
	size_t max = maxes[rnd(8)];
	int kind = rnd(4);
	bool bi = kind == 1, file = kind == 2;
	mt_init(&m);
	ct_gen(&ws, chance(1, 4) ? 5 : 2);
	rs.n = 0;
	if (chance(1, 3)) ct_gen(&rs, 3);
	if (rs.n && ws.n && chance(2, 3)) { ct_free(&rs); for (int i = 0; i < ws.n; i++) ct_add(&rs, ws.buf[i], ws.len[i]); }
	if (chance(1, 20)) {	/* plain noise */
		size_t n = rnd(200);
		bb_need(&b, n); for (size_t i = 0; i < n; i++) b.p[i] = chance(1, 2) ? 0 : rnd(256); b.n = n;
	} else {
		rframe f;
		if (bi) { frame_of(&f, T_READY, &ws); ref_enc(&b, &f); }
		if (chance(1, 40)) gen_bad_ctl(&b);
		if (chance(1, 40)) gen_unknown_ctl(&b);
		if (ws.n && chance(3, 4)) ref_ctl1(&b, T_START, ct_at(&ws, rnd(ws.n))); else ref_ctl(&b, T_START);
		int items = rrange(0, 12);
		size_t cap = max ? max : 1048576;
		for (int i = 0; i < items; i++) {
			switch (rnd(16)) {
			case 0: {
				int run = chance(1, 6) ? (int)rrange(2, 40) : chance(1, 25) ? (int)rrange(200, 300) : 1;
				while (run--) gen_unknown_ctl(&b);
				COUNT("unknown-control");
				break;
			}
			case 1: if (chance(1, 3)) gen_bad_ctl(&b); break;
			case 2: if (chance(1, 2)) { static const uint32_t t[] = { 1, 2, 4, 5 }; ref_ctl(&b, t[rnd(4)]); } break;
			case 3: if (chance(1, 3)) { bb_be32(&b, chance(1, 2) ? cap + 1 + rnd(3) : (uint32_t)(0xffffffff - rnd(100))); bb_add(&b, "oversize frame data", 19); } break;
			case 4: if (chance(1, 3)) ref_ctl(&b, T_STOP); break;
			case 5: if (chance(1, 2)) { uint8_t t[65536 + 8]; size_t n = cap > 65536 ? 65536 : cap - rnd(2); gen_payload(t, n); ref_data(&b, t, n); break; }
				/* FALLTHROUGH */
			default: { uint8_t t[70000]; size_t n = gen_len(cap < 3000 ? cap : 3000); gen_payload(t, n); ref_data(&b, t, n); break; }
			}
		}
		if (chance(3, 4)) ref_ctl(&b, T_STOP);
		if (chance(1, 4)) { ref_data(&b, "after stop", 10); ref_ctl(&b, T_STOP); }
	}
	int mut = rnd(4);
	if (mut == 0 && b.n) b.n = rnd(b.n);				/* truncate */
	if (mut == 1 && b.n) { int k = rrange(1, 3); while (k--) { size_t o = rnd(b.n < 200 || chance(1, 2) ? b.n : 200); b.p[o] ^= chance(1, 2) ? 1u << rnd(8) : rnd(256); } }
	char *path = scratch_file("p03.fstrm");
	if (file) write_file(path, &b);
	bb_add(&m.rx, b.p, b.n);
	bool fault = !file && chance(1, 8);
	if (fault) { m.fault_at = rrange(1, 20); m.fault_persist = true; m.fault_stop = chance(1, 3); }
	struct fstrm_reader *r = file ? file_reader(path, &rs, max) : mt_reader(&m, &rs, bi, max);
	struct rmodel md = { .p = b.p, .n = b.n, .max = max ? max : 1048576 };
	/* expected result of the open */
	bool open_ok = true;
	size_t pos = 0;
	rframe hs[2];	/* READY, START */
	memset(hs, 0, sizeof hs);
	for (int step = bi ? 0 : 1; step < 2 && open_ok; step++) {
		rframe f;
		if (b.n - pos < 8 || get32(b.p + pos) != 0 || get32(b.p + pos + 4) > REF_CTL_MAX || b.n - pos - 8 < get32(b.p + pos + 4)) { open_ok = false; break; }
		uint32_t cl = get32(b.p + pos + 4);
		if (ref_dec(b.p + pos + 8, cl, &f) != RD_OK || f.type != (step ? T_START : T_READY)) { open_ok = false; break; }
		pos += 8 + cl;
		if (step == 1 && rs.n) {
			bool mt_ = false;
			for (int i = 0; i < rs.n; i++) if (ref_match(&f, ct_at(&rs, i))) mt_ = true;
			if (!mt_) open_ok = false;
		}
		hs[step] = f;
	}
	md.pos = pos;
	fstrm_res res;
	const uint8_t *d; size_t n;
	static const uint8_t sentinel;
	int delivered = 0, how = rnd(3);
	const struct fstrm_control *ctl;
	bool opened = true;
	if (how == 0) {
		res = fstrm_reader_open(r);
		opened = res == fstrm_res_success;
	} else if (how == 1) {
		res = fstrm_reader_get_control(r, FSTRM_CONTROL_START, &ctl);
		opened = res == fstrm_res_success;
		if (opened && !ctl) violation("null-control", "get_control(START) reports success without a frame");
	} else opened = open_ok;	/* implicit open by the first read */
	if (!m.fired) {
		if (how < 2 && opened != open_ok)
			violation(opened ? "opened-bad-stream" : "refused-good-stream", "reader open %s a stream whose start is %s (%zu bytes)", opened ? "accepts" : "refuses", open_ok ? "well-formed" : "malformed or foreign", b.n);
	} else if (opened && how < 2) violation("fault-ignored", "open succeeded although a transport operation failed");
	bool stop_seen = false, ended = false;
	fstrm_res first_end = fstrm_res_success;
	const struct fstrm_control *held[3] = { NULL, NULL, NULL };	/* frames handed out, which stay valid until the reader is destroyed */
	rframe sent;
	bb txc = {0};
	if (how < 2 && opened && open_ok && !m.fired) {
		held[0] = reader_control(r, FSTRM_CONTROL_START, &hs[1], "the START frame");
		held[1] = reader_control(r, FSTRM_CONTROL_READY, bi ? &hs[0] : NULL, "the READY frame");
		reader_control(r, FSTRM_CONTROL_FINISH, NULL, "a FINISH frame");
		reader_control(r, (fstrm_control_type)(chance(1, 2) ? 0 : rrange(6, 9)), NULL, "a frame of no type");
		reader_control(r, FSTRM_CONTROL_STOP, NULL, "the STOP frame not read yet");
		if (!bi) reader_control(r, FSTRM_CONTROL_ACCEPT, NULL, "an ACCEPT frame");
		else if (m.tx.n >= 8 && m.tx.n == 8 + (size_t)get32(m.tx.p + 4) && (bb_add(&txc, m.tx.p, m.tx.n), ref_dec(txc.p + 8, txc.n - 8, &sent)) == RD_OK && sent.type == T_ACCEPT) {
			held[2] = reader_control(r, FSTRM_CONTROL_ACCEPT, &sent, "the ACCEPT frame it sent");
			COUNT("accepts-compared");
		} else violation("accept-missing", "a bidirectional reader opened after sending %zu bytes that are no ACCEPT frame", m.tx.n);
		COUNT("controls-compared");
	}
	for (int i = 0; i < 64; i++) {
		int ev = open_ok && !ended ? rm_next(&md) : EV_FAIL;
		d = &sentinel; n = 424242;
		res = fstrm_reader_read(r, &d, &n);
		bool fired = m.fired;
		if (res == fstrm_res_success) {
			if (d == &sentinel || n == 424242) { violation("success-without-frame", "read reports success without delivering a frame (after %d frames)", delivered); break; }
			if (n > md.max) { violation("oversize-delivered", "a frame of %zu bytes was delivered with a maximum of %zu", n, md.max); break; }
			if (stop_seen) { violation("frame-after-stop", "a frame was delivered after STOP"); break; }
			if (ended || ev != EV_DATA) { violation("bogus-frame", "a frame of %zu bytes was delivered after %d frames where the stream has %s", n, delivered, ended ? "already ended" : ev == EV_STOP ? "STOP" : ev == EV_EOF ? "no complete frame" : "an error"); break; }
			if (n != md.dlen || memcmp(d, md.d, n)) { violation("wrong-frame", "frame %d: delivered %zu bytes, stream has %zu bytes", delivered, n, md.dlen); break; }
			if (fired) { violation("fault-ignored", "read succeeded although its transport operation failed"); break; }
			delivered++;
			continue;
		}
		if (!ended && !fired && opened) {
			if (ev == EV_DATA && !md.mayfail) { violation("frame-withheld", "complete frame %d (%zu bytes) not delivered: read returned %d", delivered, md.dlen, res); break; }
			if (ev == EV_STOP && !md.mayfail && res != fstrm_res_stop) { violation("stop-missed", "STOP after %d frames: read returned %d", delivered, res); break; }
			if (ev == EV_FAIL && res == fstrm_res_stop && !md.mayfail) { violation("error-as-end", "malformed data after %d frames is reported as a regular end of stream", delivered); break; }
			if (ev == EV_STOP && res == fstrm_res_stop) stop_seen = true;
		}
		if (!ended && !fired && res == fstrm_res_stop && ev == EV_STOP) stop_seen = true;
		if (ended && first_end != fstrm_res_stop && res == fstrm_res_stop && (delivered || (how < 2 && opened))) { violation("error-as-end", "a read after a failed one (%d, after %d frames) reports a regular end of stream", first_end, delivered); break; }
		if (!ended) first_end = res;
		ended = true;
		fstrm_res r2 = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &ctl);
		if (r2 == fstrm_res_success && (!stop_seen || !ctl)) { violation("stop-invented", "get_control(STOP) succeeds although %s (read returned %d)", stop_seen ? "no object is returned" : "no STOP was received", res); break; }
		if (r2 != fstrm_res_success && stop_seen) { violation("stop-withheld", "get_control(STOP) fails after STOP was received"); break; }
		if (i > 3 && chance(1, 3)) break;
	}
	if (stop_seen) COUNT("ended-by-stop"); else COUNT("ended-otherwise");
	count_add("frames-delivered", delivered);
	count_add("unknown-control-skipped", md.unknown);
	if (m.fired) COUNT("transport-faults");
	if (b.n) distinct(h_fnv(FNV0, b.p, b.n) ^ kind);
	if (delivered) sample("kind=%s stream %zu bytes, max frame %zu, mutation %d, delivered %d frames, ended by %s", file ? "file" : bi ? "bi" : "uni", b.n, md.max, mut, delivered, stop_seen ? "STOP" : "error/EOF");
	for (int twice = 0; twice < 2; twice++) {
		if (held[0]) check_fields((struct fstrm_control *)held[0], &hs[1], "the START frame after reading");
		if (held[1]) check_fields((struct fstrm_control *)held[1], &hs[0], "the READY frame after reading");
		if (held[2]) check_fields((struct fstrm_control *)held[2], &sent, "the ACCEPT frame after reading");
		if (chance(1, 2)) break;
		fstrm_reader_close(r);
	}
	fstrm_reader_destroy(&r);
	bb_free(&b); bb_free(&txc); mt_free(&m); ct_free(&ws); ct_free(&rs);
}

/* ----------------------------- P04, P05 ---------------------------- */
static void gen_rframe(rframe *f, ctset *s, bool legal)
{
	memset(f, 0, sizeof *f);
	f->type = rrange(1, 5);
	memset(s, 0, sizeof *s);
	int n = rnd(5);
	for (int i = 0; i < n; i++) ct_gen_one(s);
	if (!legal && chance(1, 4) && s->n) {
		int i = rnd(s->n);
		size_t l = 250 + rnd(12);
		s->buf[i] = realloc(s->buf[i], l); memset(s->buf[i], 'L', l); s->len[i] = l;
	}
	for (int i = 0; i < s->n; i++) f->ct[f->nct++] = ct_at(s, i);
	if (chance(1, 10)) while (f->nct < 70) { f->ct[f->nct].p = (const uint8_t *)""; f->ct[f->nct++].n = 0; }
	if (legal) {
		if (f->type == T_STOP || f->type == T_FINISH) f->nct = 0;
		if (f->type == T_START && f->nct > 1) f->nct = 1;
	}
}
static void check_fields(struct fstrm_control *c, const rframe *f, const char *what)
{
	fstrm_control_type t = 0;
	size_t n = 12345;
	if (fstrm_control_get_type(c, &t) != fstrm_res_success || (uint32_t)t != f->type)
		violation("type-differs", "%s: type %u, expected %u", what, (unsigned)t, f->type);
	if (fstrm_control_get_num_field_content_type(c, &n) != fstrm_res_success || n != (size_t)f->nct) {
		violation("count-differs", "%s: %zu content types, expected %d (type %u)", what, n, f->nct, f->type);
		return;
	}
	for (int i = 0; i < f->nct; i++) {
		const uint8_t *p = NULL; size_t l = 0;
		if (fstrm_control_get_field_content_type(c, i, &p, &l) != fstrm_res_success || l != f->ct[i].n || (l && memcmp(p, f->ct[i].p, l)))
			violation("field-differs", "%s: content type %d differs (%zu bytes, expected %zu)", what, i, l, f->ct[i].n);
	}
	const uint8_t *p; size_t l;
	if (fstrm_control_get_field_content_type(c, f->nct, &p, &l) == fstrm_res_success)
		violation("field-extra", "%s: content type %d exists beyond the reported number", what, f->nct);
}
static void case_p04(void)
{
	struct fstrm_control *c = fstrm_control_init();
	int rounds = rrange(1, 5), good = 0;
	for (int k = 0; k < rounds; k++) {
		bb b = {0};
		rframe f, g;
		ctset s;
		gen_rframe(&f, &s, chance(3, 4));
		bool hdr = chance(1, 2);
		ref_enc_payload(&b, &f);
		/* pad a READY/ACCEPT frame to the exact maximum now and then */
		if (chance(1, 6) && (f.type == T_READY || f.type == T_ACCEPT) && b.n < 490) {
			size_t want = 512 + rnd(3) - 1, l;
			while (b.n < want) {
				if (want - b.n < 8) { bb_need(&b, want - b.n); memset(b.p + b.n, 0, want - b.n); b.n = want; break; }
				l = want - b.n - 8 > 200 ? 200 : want - b.n - 8;
				bb_be32(&b, 1); bb_be32(&b, l); bb_need(&b, l); memset(b.p + b.n, 'p', l); b.n += l;
			}
			COUNT("near-maximum");
		}
		switch (rnd(7)) {
		case 0: if (b.n) b.n = rnd(b.n); break;
		case 1: { size_t x = rrange(1, 9); bb_need(&b, x); gen_payload(b.p + b.n, x); b.n += x; break; }
		case 2: if (b.n) { int t = rrange(1, 3); while (t--) b.p[rnd(b.n)] ^= chance(1, 2) ? 1u << rnd(8) : rnd(256); } break;
		case 3: if (b.n >= 8 && chance(1, 2)) { size_t o = rnd(b.n / 4) * 4; static const uint32_t v[] = { 0, 1, 2, 255, 256, 257, 511, 512, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8 }; uint32_t x = v[rnd(12)]; if (o + 4 <= b.n) { b.p[o] = x >> 24; b.p[o + 1] = x >> 16; b.p[o + 2] = x >> 8; b.p[o + 3] = x; } } break;
		}
		bool hdr_ok = true;
		bb w = {0};
		if (hdr) {
			uint32_t esc = 0, len = b.n;
			if (chance(1, 10)) { esc = 1 + rnd(5); hdr_ok = false; }
			if (chance(1, 8)) { uint32_t o = len; len += (int)rnd(9) - 4; if (len != o) hdr_ok = false; }
			if (chance(1, 30)) { len = 0xffffffff; hdr_ok = false; }
			bb_be32(&w, esc); bb_be32(&w, len);
			if (chance(1, 20)) { w.n = rnd(8); hdr_ok = false; b.n = 0; }
		}
		bb_add(&w, b.p, b.n);
		uint8_t *x = malloc(w.n ? w.n : 1);	/* exact size: over-reads are caught */
		memcpy(x, w.p ? w.p : x, w.n);
		bool want = hdr_ok && ref_dec(b.p ? b.p : x, b.n, &g) == RD_OK;
		if (!hdr_ok) g.type = 0;
		fstrm_res r = fstrm_control_decode(c, x, w.n, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
		if ((r == fstrm_res_success) != want) {
			violation(want ? "good-rejected" : "bad-accepted", "decode of %zu bytes (%s header) %s; type %u, %d content types", w.n, hdr ? "with" : "no", want ? "rejected a well-formed frame" : "accepted a malformed frame", g.type, f.nct);
		} else if (want) {
			good++;
			/* x is overwritten: the object must own its data */
			memset(x, 0xdb, w.n);
			check_fields(c, &g, "decoded frame");
			size_t sz = 0;
			if (fstrm_control_encoded_size(c, &sz, 0) != fstrm_res_success || sz != b.n)
				violation("size-differs", "decoded frame of %zu bytes re-encodes to %zu bytes", b.n, sz);
			else {
				uint8_t *y = malloc(sz);
				size_t l = sz;
				if (fstrm_control_encode(c, y, &l, 0) != fstrm_res_success || l != b.n || memcmp(y, b.p, l))
					violation("roundtrip", "decoded frame does not re-encode to the same %zu bytes", b.n);
				else {
					struct fstrm_control *c2 = fstrm_control_init();
					if (fstrm_control_decode(c2, y, l, 0) != fstrm_res_success) violation("roundtrip", "encoded frame does not decode");
					else check_fields(c2, &g, "re-decoded frame");
					fstrm_control_destroy(&c2);
				}
				free(y);
			}
			COUNT("accepted");
		} else COUNT("rejected");
		if (w.n > 4) distinct(h_fnv(FNV0, w.p, w.n) ^ hdr);
		if (want && g.nct) sample("%zu bytes %s header, type %u with %d content types", w.n, hdr ? "with" : "without", g.type, g.nct);
		free(x); bb_free(&w); bb_free(&b); ct_free(&s);
		COUNT("decodes");
		/* also: whatever the encoder produces decodes to an equal frame */
		if (chance(1, 4)) {
			struct fstrm_control *e = fstrm_control_init();
			gen_rframe(&f, &s, false);
			fstrm_control_set_type(e, (fstrm_control_type)f.type);
			int kept = 0;
			for (int i = 0; i < f.nct; i++) if (fstrm_control_add_field_content_type(e, f.ct[i].p, f.ct[i].n) == fstrm_res_success) f.ct[kept++] = f.ct[i];
			f.nct = kept;
			bool h2 = chance(1, 2);
			uint8_t y[600];
			size_t l = sizeof y;
			if (fstrm_control_encode(e, y, &l, h2 ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0) == fstrm_res_success) {
				if (f.type == T_STOP || f.type == T_FINISH) f.nct = 0;
				if (f.type == T_START && f.nct > 1) f.nct = 1;
				if (fstrm_control_decode(c, y, l, h2 ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0) != fstrm_res_success)
					violation("roundtrip", "an encoded frame (type %u, %d content types) does not decode", f.type, f.nct);
				else check_fields(c, &f, "encoded then decoded frame");
				COUNT("encode-decode");
			}
			fstrm_control_destroy(&e);
			ct_free(&s);
		}
	}
	if (chance(1, 4)) fstrm_control_reset(c);
	fstrm_control_destroy(&c);
}
static void case_p05(void)
{
	struct fstrm_control *c = fstrm_control_init();
	int rounds = rrange(1, 3);
	while (rounds--) {
		rframe f;
		ctset s;
		gen_rframe(&f, &s, false);
		if (chance(1, 8) && (f.type == T_READY || f.type == T_ACCEPT)) {	/* near the frame limit */
			ct_free(&s); f.nct = 0;
			static uint8_t big[512];
			size_t want = chance(1, 2) ? 512 : 504, have = 4;
			want += (int)rnd(5) - 2;
			while (have + 8 <= want && f.nct < 60) { size_t l = want - have - 8; if (l > 200) l = 200; f.ct[f.nct].p = big; f.ct[f.nct++].n = l; have += 8 + l; }
			COUNT("near-maximum");
		}
		if (chance(1, 2)) { fstrm_control_destroy(&c); c = fstrm_control_init(); } else fstrm_control_reset(c);
		if (fstrm_control_set_type(c, (fstrm_control_type)f.type) != fstrm_res_success) violation("set-type", "legal type %u rejected", f.type);
		if (chance(1, 5)) {
			static const uint32_t bad[] = { 0, 6, 7, 255, 0x7fffffff };
			uint32_t t = bad[rnd(5)];
			if (fstrm_control_set_type(c, (fstrm_control_type)t) == fstrm_res_success) violation("set-type", "illegal type %u accepted", t);
		}
		for (int i = 0; i < f.nct; i++) {
			uint8_t *t = malloc(f.ct[i].n ? f.ct[i].n : 1);
			memcpy(t, f.ct[i].p, f.ct[i].n);
			bool added = fstrm_control_add_field_content_type(c, t, f.ct[i].n) == fstrm_res_success;
			if (!added && f.ct[i].n <= REF_CT_MAX) violation("add-refused", "a content type of %zu bytes cannot be added", f.ct[i].n);
			memset(t, 0xdb, f.ct[i].n); free(t);
			if (!added) { memmove(&f.ct[i], &f.ct[i + 1], (f.nct - i - 1) * sizeof f.ct[0]); f.nct--; i--; COUNT("overlong-refused"); }
		}
		rframe g = f;
		if (f.type == T_STOP || f.type == T_FINISH) g.nct = 0;
		if (f.type == T_START && f.nct > 1) g.nct = 1;
		bool toolong = false;
		for (int i = 0; i < g.nct; i++) if (g.ct[i].n > REF_CT_MAX) toolong = true;
		bool hdr = chance(1, 2);
		bb e = {0};
		if (hdr) ref_enc(&e, &g); else ref_enc_payload(&e, &g);
		size_t payload = hdr ? e.n - 8 : e.n, sz = 999;
		bool must_fail = toolong || payload > REF_CTL_MAX;
		fstrm_res r = fstrm_control_encoded_size(c, &sz, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
		if (r == fstrm_res_success && must_fail) violation("oversize-encoded", "encoded size reported for an illegal frame (type %u, %zu payload bytes%s)", g.type, payload, toolong ? ", content type too long" : "");
		if (r != fstrm_res_success && !must_fail) violation("legal-refused", "encoded size refused for a legal frame (type %u, %zu payload bytes)", g.type, payload);
		if (r == fstrm_res_success && sz != e.n) violation("size-differs", "announced size %zu, specified %zu (type %u, %d content types)", sz, e.n, g.type, f.nct);
		size_t cap;
		switch (rnd(5)) {
		case 0: cap = e.n; break;
		case 1: cap = e.n ? e.n - 1 : 0; break;
		case 2: cap = rnd(e.n + 1); break;
		case 3: cap = e.n + rrange(1, 16); break;
		default: cap = 2000; break;
		}
		uint8_t *y = malloc(cap + 32);
		memset(y, 0xa5, cap + 32);
		uint8_t *z = y + 16;
		size_t l = cap;
		fstrm_res r2 = fstrm_control_encode(c, z, &l, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
		bool e_must_fail = must_fail || cap < e.n;
		if (r2 == fstrm_res_success && e_must_fail) violation(cap < e.n ? "short-buffer-accepted" : "oversize-encoded", "encode succeeded (type %u, specified %zu bytes, buffer %zu)", g.type, e.n, cap);
		if (r2 != fstrm_res_success && !e_must_fail) violation("legal-refused", "encode refused a legal frame (type %u, %zu bytes, buffer %zu)", g.type, e.n, cap);
		size_t lim = r2 == fstrm_res_success ? (e.n < cap ? e.n : cap) : cap;
		for (size_t i = 0; i < cap + 32; i++)
			if ((i < 16 || i >= 16 + lim) && y[i] != 0xa5) { violation("overwrite", "encode (result %d) wrote at offset %ld of a %zu-byte buffer, frame is %zu bytes", r2, (long)i - 16, cap, e.n); break; }
		if (r2 == fstrm_res_success && !e_must_fail) {
			if (l != e.n) violation("length-differs", "encode reports %zu bytes, specified %zu", l, e.n);
			else if (memcmp(z, e.p, l)) violation("encoding-differs", "encoding of type %u with %d content types differs from the specification", g.type, g.nct);
			COUNT("encoded");
			/* exact-size heap buffer: any overflow is an ASan report */
			uint8_t *x = malloc(e.n);
			l = e.n;
			if (fstrm_control_encode(c, x, &l, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0) != fstrm_res_success || memcmp(x, e.p, e.n)) violation("encoding-differs", "second encode differs");
			free(x);
		} else COUNT("refused");
		COUNT("encodes");
		distinct(h_fnv(FNV0, e.p, e.n) ^ cap);
		if (g.nct > 1) sample("type %u, %d content types, %zu bytes, buffer %zu, header %d -> %d", g.type, g.nct, e.n, cap, hdr, r2);
		free(y); bb_free(&e); ct_free(&s);
	}
	fstrm_control_destroy(&c);
}

/* ------------------------------- P06 ------------------------------- */
static bool parse_ctl(const bb *b, size_t *pos, rframe *f)
{
	if (b->n - *pos < 8 || get32(b->p + *pos)) return false;
	uint32_t l = get32(b->p + *pos + 4);
	if (l > 512 || b->n - *pos - 8 < l) return false;
	if (ref_dec(b->p + *pos + 8, l, f) != RD_OK) return false;
	*pos += 8 + l;
	return true;
}
/* correlate the sets: share some entries, permuted */
static void p06_correlate(const ctset *a, ctset *b)
{
	for (int i = 0; i < a->n && b->n < MAXCT; i++) if (chance(1, 3) && ct_total(b) + 8 + a->len[i] <= 512) ct_add(b, a->buf[i], a->len[i]);
	if (a->n > 16 || b->n > 16) COUNT("many-types");
	if (b->n > 1 && chance(1, 2)) { int i = rnd(b->n); uint8_t *t = b->buf[0]; size_t l = b->len[0]; b->buf[0] = b->buf[i]; b->len[0] = b->len[i]; b->buf[i] = t; b->len[i] = l; }
}
static void case_p06(void)
{
	ctset a, b;
	rframe f;
	mt m;
	mt_init(&m);
	ct_gen(&a, 4);
	ct_gen(&b, 4);
	p06_correlate(&a, &b);
	uint64_t hh = 0;
	for (int i = 0; i < a.n; i++) hh = h_fnv(hh * 31 + 7, a.buf[i], a.len[i]);
	for (int i = 0; i < b.n; i++) hh = h_fnv(hh * 37 + 3, b.buf[i], b.len[i]);
	int what = rnd(4);
	if (what == 0) {			/* matching function */
		uint32_t type = rrange(1, 5);
		struct fstrm_control *c = fstrm_control_init();
		fstrm_control_set_type(c, (fstrm_control_type)type);
		frame_of(&f, type, &a);
		for (int i = 0; i < a.n; i++) fstrm_control_add_field_content_type(c, a.buf[i], a.len[i]);
		if (type == T_START && f.nct > 1) f.nct = 1;
		for (int i = -1; i < b.n; i++) {
			rbuf x = i < 0 ? (rbuf){ NULL, 0 } : ct_at(&b, i);
			uint8_t *p = i < 0 ? NULL : malloc(x.n ? x.n : 1);
			if (p) memcpy(p, x.p, x.n);
			bool got = fstrm_control_match_field_content_type(c, p, x.n) == fstrm_res_success, want = ref_match(&f, x);
			if (got != want) violation("match", "type %u frame with %d content types %s a %zu-byte content type it %s", type, f.nct, got ? "matches" : "does not match", x.n, want ? "contains or leaves open" : "does not contain");
			free(p);
			COUNT("match-calls");
		}
		fstrm_control_destroy(&c);
	} else if (what == 1) {			/* bi-directional writer a against ACCEPT b */
		struct fstrm_writer *w = mt_writer(&m, &a, true);
		bool is_open = false;
		/* every connection is negotiated on its own */
		for (int round = 0, rounds = chance(1, 3) ? rrange(2, 3) : 1; round < rounds; round++) {
		if (round) {
			if (is_open) fstrm_writer_close(w);
			ct_free(&b); ct_gen(&b, 4); p06_correlate(&a, &b);
			COUNT("writer-negotiates-again");
		}
		frame_of(&f, T_ACCEPT, &b);
		bb_rst(&m.script[0]); bb_rst(&m.script[1]);
		ref_enc(&m.script[0], &f);
		ref_ctl(&m.script[1], T_FINISH);
		m.nscript = 2;
		int use = -1;
		for (int i = 0; i < a.n && use < 0; i++) if (ref_match(&f, ct_at(&a, i))) use = i;
		bool want = a.n == 0 || use >= 0;
		struct fstrm_control *c0 = NULL;
		bool got;
		switch (round ? 3 : rnd(4)) {	/* every operation opens the writer implicitly */
		case 0: got = fstrm_writer_write(w, "payload", 7) == fstrm_res_success; COUNT("opened-by-write"); break;
		case 1: {
			fstrm_control_type t0 = chance(1, 2) ? FSTRM_CONTROL_READY : FSTRM_CONTROL_START;
			got = fstrm_writer_get_control(w, t0, &c0) == fstrm_res_success; COUNT("opened-by-get-control"); break; }
		default: got = fstrm_writer_open(w) == fstrm_res_success;
		}
		if (got != want) violation(got ? "writer-proceeds" : "writer-refuses", "writer offering %d content types %s although the peer's ACCEPT (%d content types) %s", a.n, got ? "opens" : "fails to open", b.n, want ? "includes or leaves open one of them" : "includes none of them");
		size_t pos = 0;
		rframe r1, r2;
		bool ok1 = parse_ctl(&m.tx, &pos, &r1);
		if (!ok1 || r1.type != T_READY || r1.nct != a.n) violation("ready", "the writer's first frame is not READY with its %d content types", a.n);
		else for (int i = 0; i < a.n; i++) if (!ref_has(&r1, ct_at(&a, i))) violation("ready", "READY lacks content type %d", i);
		bool ok2 = ok1 && parse_ctl(&m.tx, &pos, &r2);
		is_open = got;
		if (got && want) {
			if (!ok2 || r2.type != T_START || r2.nct != (use >= 0) || (use >= 0 && !rb_eq(r2.ct[0], ct_at(&a, use)))) violation("start", "START does not carry the first acceptable content type (%d of %d)", use, a.n);
			struct fstrm_control *c;
			if (fstrm_writer_get_control(w, FSTRM_CONTROL_ACCEPT, &c) != fstrm_res_success || !c) violation("get-control", "no ACCEPT frame available after open");
			else check_fields(c, &f, "ACCEPT obtained from the writer");
			if (fstrm_writer_get_control(w, FSTRM_CONTROL_READY, &c) != fstrm_res_success || !c) violation("get-control", "no READY frame available after open");
			else check_fields(c, &r1, "READY obtained from the writer");
			if (fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c) != fstrm_res_success || !c) violation("get-control", "no START frame available after open");
			else check_fields(c, &r2, "START obtained from the writer");
			if (fstrm_writer_get_control(w, FSTRM_CONTROL_STOP, &c) == fstrm_res_success) violation("get-control", "a STOP frame is available before close");
			if (!round && fstrm_writer_get_control(w, FSTRM_CONTROL_FINISH, &c) == fstrm_res_success) violation("get-control", "a FINISH frame is available before close");
			if (fstrm_writer_get_control(w, (fstrm_control_type)(chance(1, 2) ? 0 : rrange(6, 9)), &c) == fstrm_res_success) violation("get-control", "a frame of no type is available");
			if (chance(1, 2) && (is_open = false, fstrm_writer_close(w) == fstrm_res_success)) {
				rframe fin = { .type = T_FINISH };
				if (fstrm_writer_get_control(w, FSTRM_CONTROL_FINISH, &c) != fstrm_res_success || !c) violation("get-control", "no FINISH frame available after a successful close");
				else check_fields(c, &fin, "FINISH obtained from the writer");
			}
			COUNT("writer-agreed");
		} else {
			if (pos != m.tx.n || ok2) violation("start-after-mismatch", "bytes follow READY although negotiation failed");
			COUNT("writer-mismatch");
		}
		}
		fstrm_writer_destroy(&w);
	} else {				/* reader a against READY b (what==2) and START */
		bool bi = what == 2;
		struct fstrm_reader *r = mt_reader(&m, &a, bi, 0);
		bool is_open = false;
		for (int round = 0, rounds = chance(1, 3) ? rrange(2, 3) : 1; round < rounds; round++) {
		if (round) {
			if (is_open) fstrm_reader_close(r);
			ct_free(&b); ct_gen(&b, 4); p06_correlate(&a, &b);
			bb_rst(&m.rx);
			COUNT("reader-negotiates-again");
		}
		rframe st = { .type = T_START };
		if (bi) { frame_of(&f, T_READY, &b); ref_enc(&m.rx, &f); }
		rbuf pick = { NULL, 0 };
		if (chance(3, 4)) {
			if (a.n && chance(1, 2)) pick = ct_at(&a, rnd(a.n));
			else if (b.n) pick = ct_at(&b, rnd(b.n));
		}
		if (pick.p) { st.nct = 1; st.ct[0] = pick; }
		ref_enc(&m.rx, &st);
		ref_data(&m.rx, "payload", 7);
		ref_ctl(&m.rx, T_STOP);
		bool want = a.n == 0;
		for (int i = 0; i < a.n; i++) if (ref_match(&st, ct_at(&a, i))) want = true;
		bool got;
		const uint8_t *d; size_t n;
		bool implicit = !round && chance(1, 3);
		got = is_open = implicit ? fstrm_reader_read(r, &d, &n) == fstrm_res_success : fstrm_reader_open(r) == fstrm_res_success;
		size_t pos = 0;
		rframe ac;
		bool may = false;
		if (bi) {
			int k = 0;
			for (int i = 0; i < a.n; i++) if (ref_match(&f, ct_at(&a, i))) k++;
			if (a.n && !k) may = true;	/* nothing in common: refusing at once would be fine too */
			if (m.tx.n || !may) {
				if (!parse_ctl(&m.tx, &pos, &ac) || ac.type != T_ACCEPT) violation("accept", "the reader's reply is not an ACCEPT frame");
				else {
					for (int i = 0; i < a.n; i++) if (ref_match(&f, ct_at(&a, i)) != ref_has(&ac, ct_at(&a, i))) violation("accept", "ACCEPT %s content type %d of the reader, READY (%d content types) %s", ref_has(&ac, ct_at(&a, i)) ? "contains" : "lacks", i, f.nct, ref_match(&f, ct_at(&a, i)) ? "offers it" : "does not offer it");
					for (int i = 0; i < ac.nct; i++) { bool mine = false; for (int j = 0; j < a.n; j++) if (rb_eq(ac.ct[i], ct_at(&a, j))) mine = true; if (!mine) violation("accept", "ACCEPT contains a content type the reader does not have"); }
				}
			}
		}
		if (got && !want) violation("reader-accepts", "a reader of %d content types accepts a stream of another content type", a.n);
		if (!got && want && !may) violation("reader-refuses", "a reader of %d content types refuses an acceptable stream (%s)", a.n, st.nct ? "declared content type is one of them" : "no declared content type");
		if (!got && !want && fstrm_reader_read(r, &d, &n) == fstrm_res_success) violation("reader-delivers", "data delivered from a refused stream");
		COUNT(want ? "reader-agreed" : "reader-mismatch");
		}
		fstrm_reader_destroy(&r);
	}
	if (a.n + b.n) distinct(hh ^ what);
	if (a.n && b.n) sample("side A %d content types, side B %d, scenario %d", a.n, b.n, what);
	mt_free(&m); ct_free(&a); ct_free(&b);
}

/* ------------------------------- P07 ------------------------------- */
/* a peer reply of a given quality; returns true if it is a well-formed frame of the wanted type */
static bool gen_reply(bb *b, uint32_t want, const ctset *s, int *kind)
{
	rframe f;
	int k = *kind = rnd(12);
	switch (k) {
	case 0: case 1: case 2: case 3:
		frame_of(&f, want, (want == T_ACCEPT || want == T_READY) ? s : NULL);
		if (want == T_START && s->n) { f.nct = 1; f.ct[0] = ct_at(s, 0); }
		ref_enc(b, &f);
		return true;
	case 4: case 5: { uint32_t t = rrange(1, 5); if (t == want) t = t % 5 + 1; ref_ctl(b, t); return false; }
	case 6: gen_bad_ctl(b); return false;
	case 7: { bb t = {0}; ref_ctl(&t, want); bb_add(b, t.p, rnd(t.n)); bb_free(&t); return false; }
	case 8: return false;			/* nothing */
	case 9: ref_data(b, "unexpected data", 15); ref_ctl(b, want); return false;
	case 10: { uint8_t t[40]; gen_payload(t, 40); t[0] |= 1; bb_add(b, t, 40); return false; }
	default: gen_unknown_ctl(b); ref_ctl(b, want); return false;
	}
}
static void case_p07(void)
{
	ctset s;
	mt m;
	mt_init(&m);
	ct_gen(&s, chance(1, 4) ? 5 : 2);
	if (ct_total(&s) >= 512) COUNT("largest-negotiation-frames");
	int kinds[3] = { -1, -1, -1 };
	if (chance(1, 2)) {				/* writer against a hostile reader */
		struct fstrm_writer *w = mt_writer(&m, &s, true);
		bb ready = {0}, st = {0};
		rframe f;
		frame_of(&f, T_READY, &s); ref_enc(&ready, &f);
		if (s.n) ref_ctl1(&st, T_START, ct_at(&s, 0)); else ref_ctl(&st, T_START);
		int attempts = chance(1, 500) ? rrange(257, 300) : rrange(1, 3);
		if (attempts > 3) COUNT("hundreds-of-attempts");
		for (int a = 0; a < attempts; a++) {
			bb_rst(&m.script[0]); bb_rst(&m.script[1]);
			bool ok0 = gen_reply(&m.script[0], T_ACCEPT, &s, &kinds[0]);
			bool ok1 = gen_reply(&m.script[1], T_FINISH, &s, &kinds[1]);
			m.nscript = kinds[0] == 7 || kinds[0] == 8 ? 1 : 2;	/* nothing follows a truncated reply */
			m.fired = false; m.fault_at = -1;
			int fop = -1;
			if (chance(1, 4)) m.fault_at = fop = m.opno + rnd(8);
			m.fault_stop = chance(1, 2);
			unsigned gen = m.nopen;
			fstrm_res r;
			bool implicit = chance(1, 3) && a == 0;
			r = implicit ? fstrm_writer_write(w, "data", 4) : fstrm_writer_open(w);
			bool fopen_ = m.fired;
			if (r == fstrm_res_success && !ok0) violation("open-on-bad-accept", "writer %s succeeded although the peer's reply to READY was wrong (reply kind %d)", implicit ? "write" : "open", kinds[0]);
			if (r == fstrm_res_success && fopen_) violation("open-on-fault", "writer open succeeded although transport operation '%c' failed", m.fired_op);
			if (r != fstrm_res_success && ok0 && !fopen_) violation("open-refused", "writer open failed on a correct handshake (attempt %d)", a);
			if (m.nopen == gen) violation("no-fresh-connection", "attempt %d did not open the transport", a);
			if (r != fstrm_res_success) {
				size_t k = m.tx.n;
				if (!(k == 0 || (k == ready.n && !memcmp(m.tx.p, ready.p, k)) || (ok0 && fopen_))) violation("sent-without-accept", "%zu bytes sent, more than READY (%zu), without a correct ACCEPT", k, ready.n);
				/* writing must keep failing while the handshake keeps failing */
				bool was_fired = m.fired;
				if (!ok0 && !was_fired && chance(1, 2)) {
					r = fstrm_writer_write(w, "more", 4);
					if (r == fstrm_res_success) violation("write-on-bad-accept", "write succeeded without a correct ACCEPT");
					if (m.tx.n > ready.n) violation("sent-without-accept", "data sent without a correct ACCEPT");
				}
				COUNT("writer-handshake-failed");
				if (implicit && ok0 && fopen_) break;	/* possibly the data write that failed: the writer is open */
				continue;
			}
			/* opened: order of bytes on this connection */
			if (m.txat[0] != ready.n) violation("accept-before-ready", "ACCEPT was read after %zu bytes instead of the %zu bytes of READY", m.txat[0], ready.n);
			bb e = {0};
			bb_add(&e, ready.p, ready.n); bb_add(&e, st.p, st.n);
			if (implicit) ref_data(&e, "data", 4);
			if (m.tx.n != e.n || memcmp(m.tx.p, e.p, e.n)) violation("handshake-bytes", "bytes after open are not READY, START%s", implicit ? " and the frame" : "");
			int nw = rnd(4);
			bool wf = false;
			for (int i = 0; i < nw && !wf; i++) { if (fstrm_writer_write(w, "hello world", 11) != fstrm_res_success) wf = true; else ref_data(&e, "hello world", 11); }
			bool before = m.fired;
			r = fstrm_writer_close(w);
			ref_ctl(&e, T_STOP);
			bool clean = !m.fired && !wf;
			if (r == fstrm_res_success && (!ok1 || before || wf || m.fired)) violation("close-without-finish", "close reports success although %s (reply kind %d)", ok1 ? "a transport operation failed" : "no correct FINISH was received", kinds[1]);
			if (r != fstrm_res_success && ok1 && clean) violation("close-refused", "close failed although FINISH was received");
			if (clean && (m.tx.n != e.n || memcmp(m.tx.p, e.p, e.n))) violation("close-bytes", "stream is not READY, START, data, STOP");
			if (clean && m.iscript == 2 && m.txat[1] != e.n) violation("finish-before-stop", "FINISH was awaited before STOP was sent");
			if (fstrm_writer_write(w, "x", 1) == fstrm_res_success) violation("write-after-close", "write succeeded after close");
			if (fstrm_writer_close(w) == fstrm_res_success) violation("close-twice", "second close succeeded");
			COUNT(ok1 ? "writer-complete" : "writer-finish-failed");
			bb_free(&e);
		}
		fstrm_writer_destroy(&w);
		bb_free(&ready); bb_free(&st);
	} else {					/* reader against a hostile writer */
		struct fstrm_reader *r = mt_reader(&m, &s, true, 0);
		int attempts = chance(1, 500) ? rrange(257, 300) : rrange(1, 3);
		if (attempts > 3) COUNT("hundreds-of-attempts");
		bb acc = {0}, fin = {0};
		rframe f;
		frame_of(&f, T_ACCEPT, &s); ref_enc(&acc, &f); ref_ctl(&fin, T_FINISH);
		for (int a = 0; a < attempts; a++) {
			for (int i = 0; i < 3; i++) bb_rst(&m.script[i]);
			bool ok0 = gen_reply(&m.script[0], T_READY, &s, &kinds[0]);
			bool ok1 = gen_reply(&m.script[1], T_START, &s, &kinds[1]);
			/* kinds 4/5 might produce START without content type = acceptable; keep only the type in mind */
			int nd = rnd(3);
			for (int i = 0; i < nd; i++) ref_data(&m.script[2], "datum", 5);
			bool stop = chance(2, 3);
			if (stop) ref_ctl(&m.script[2], T_STOP);
			m.nscript = kinds[0] == 7 || kinds[0] == 8 ? 1 : kinds[1] == 7 || kinds[1] == 8 ? 2 : 3;
			m.fired = false; m.fault_at = -1;
			if (chance(1, 4)) m.fault_at = m.opno + (chance(1, 2) ? rnd(9) : rnd(60));
			unsigned gen = m.nopen;
			const uint8_t *d; size_t n;
			fstrm_res x = fstrm_reader_open(r);
			bool want = ok0 && ok1;
			if (m.nopen == gen) violation("no-fresh-connection", "attempt %d did not open the transport", a);
			if (x == fstrm_res_success && !want) violation("reader-open-on-bad", "reader open succeeded on a wrong handshake (READY kind %d, START kind %d)", kinds[0], kinds[1]);
			if (x == fstrm_res_success && m.fired) violation("open-on-fault", "reader open succeeded although transport operation '%c' failed", m.fired_op);
			if (x != fstrm_res_success && want && !m.fired) violation("reader-open-refused", "reader open failed on a correct handshake (attempt %d)", a);
			if (m.tx.n && !ok0) violation("accept-without-ready", "the reader answered a wrong READY");
			if (x != fstrm_res_success) {
				if (m.tx.n > acc.n) violation("reader-bytes", "the reader sent more than ACCEPT although the handshake failed");
				m.fault_at = -1; /* next attempt starts a fresh handshake */
				COUNT("reader-handshake-failed");
				continue;
			}
			if (m.tx.n != acc.n || memcmp(m.tx.p, acc.p, acc.n)) violation("reader-accept-bytes", "the reader's handshake is not exactly ACCEPT");
			int got = 0;
			while ((x = fstrm_reader_read(r, &d, &n)) == fstrm_res_success && got < 10) got++;
			if (!m.fired && got != nd) violation("reader-data", "%d of %d frames delivered", got, nd);
			if (!m.fired && stop && x != fstrm_res_stop) violation("reader-stop", "STOP reported as %d", x);
			if (m.tx.n != acc.n) violation("finish-early", "the reader sent bytes before it was closed");
			bool f0 = m.fired;
			x = fstrm_reader_close(r);
			if (stop && !m.fired) {
				if (x != fstrm_res_success) violation("reader-close", "close failed after STOP");
				if (m.tx.n != acc.n + fin.n || memcmp(m.tx.p + acc.n, fin.p, fin.n)) violation("no-finish", "closing the reader did not send exactly FINISH");
			}
			if (!f0 && m.fired && x == fstrm_res_success) violation("reader-close-fault", "reader close succeeded although operation '%c' failed", m.fired_op);
			if (fstrm_reader_read(r, &d, &n) == fstrm_res_success) violation("read-after-close", "data delivered after close");
			COUNT("reader-complete");
			if (attempts <= 3) break;
		}
		fstrm_reader_destroy(&r);
		bb_free(&acc); bb_free(&fin);
	}
	distinct(h_mix(kinds[0] * 100 + kinds[1]) ^ m.opno ^ ((uint64_t)m.nopen << 32) ^ ((uint64_t)m.tx.n << 40) ^ (uint64_t)(m.fired ? m.fired_op : 0) << 20);
	if (kinds[0] < 4 && kinds[1] >= 0) sample("replies of kind %d then %d, %u transport operations, %u connections, fault '%c'", kinds[0], kinds[1], m.opno, m.nopen, m.fired ? m.fired_op : '-');
	mt_free(&m); ct_free(&s);
}

/* ------------------------------- P08 ------------------------------- */
/* One history (a list of API operations) is run once without fault and then
 * once per transport operation with that operation failing (once, and from
 * then on). */
static void p08_run(const uint8_t *ops, int nops, bool writer, bool bi, const ctset *s, const bb *rx, int fault, bool persist, bool partial, unsigned *nops_out, bool wellbehaved)
{
	mt m;
	mt_init(&m);
	m.fault_at = fault; m.fault_persist = persist; m.fault_partial = partial;
	bool destroy = ops[0] & 1;
	struct fstrm_rdwr *rd;
	if (writer) {
		if (bi) {
			rframe f;
			frame_of(&f, T_ACCEPT, s);
			ref_enc(&m.script[0], &f);
			ref_ctl(&m.script[1], wellbehaved ? T_FINISH : T_STOP);
			m.nscript = 2;
			if (!wellbehaved && (ops[0] & 2)) { bb_rst(&m.script[0]); gen_bad_ctl(&m.script[0]); }
		}
		rd = mt_rdwr(&m, bi, true, destroy);
		struct fstrm_writer_options *wo = mk_wopt(s);
		struct fstrm_writer *w = fstrm_writer_init(wo, &rd);
		fstrm_writer_options_destroy(&wo);
		struct fstrm_control *c;
		for (int i = 1; i < nops; i++) {
			switch (ops[i] % 7) {
			case 0: case 1: {
				bool f0 = m.fired, up = m.is_open;
				fstrm_res r = fstrm_writer_open(w);
				bool mid = m.fired && !f0;
				if (mid && r == fstrm_res_success) violation("open-fault-ignored", "writer open succeeded although operation '%c' failed", m.fired_op);
				/* a failed open can be repeated */
				if (mid && !persist && wellbehaved && !up) {
					r = fstrm_writer_open(w);
					if (r != fstrm_res_success) violation("reopen-refused", "writer cannot be opened again after its open failed at operation '%c'", m.fired_op);
					else if (!m.is_open) violation("reopen-hollow", "repeated open reports success but the transport is not open");
				}
				break; }
			case 2: case 3: fstrm_writer_write(w, "payload bytes", 13); break;
			case 4: { struct iovec v[3] = { { (void *)"a", 1 }, { (void *)"bc", 2 }, { (void *)"def", 3 } }; fstrm_writer_writev(w, v, 3); break; }
			case 5: fstrm_writer_close(w); break;
			case 6: (void)fstrm_writer_get_control(w, (fstrm_control_type)rrange(1, 5), &c); break;
			}
		}
		fstrm_writer_destroy(&w);
		if (w) violation("destroy-pointer", "destroy leaves the pointer set");
	} else {
		m.nscript = 1;
		bb_add(&m.script[0], rx->p, rx->n);
		rd = mt_rdwr(&m, true, bi, destroy);
		struct fstrm_reader_options *ro = mk_ropt(s);
		struct fstrm_reader *r = fstrm_reader_init(ro, &rd);
		fstrm_reader_options_destroy(&ro);
		const struct fstrm_control *c;
		const uint8_t *d; size_t n;
		for (int i = 1; i < nops; i++) {
			switch (ops[i] % 7) {
			case 0: {
				bool f0 = m.fired, up = m.is_open;
				fstrm_res x = fstrm_reader_open(r);
				bool mid = m.fired && !f0;
				if (mid && x == fstrm_res_success) violation("open-fault-ignored", "reader open succeeded although operation '%c' failed", m.fired_op);
				if (mid && !persist && wellbehaved && !up) {
					x = fstrm_reader_open(r);
					if (x != fstrm_res_success) violation("reopen-refused", "reader cannot be opened again after its open failed at operation '%c'", m.fired_op);
				}
				break; }
			case 1: case 2: case 3: case 4: fstrm_reader_read(r, &d, &n); break;
			case 5: fstrm_reader_close(r); break;
			case 6: (void)fstrm_reader_get_control(r, (fstrm_control_type)rrange(1, 5), &c); break;
			}
		}
		fstrm_reader_destroy(&r);
		if (r) violation("destroy-pointer", "destroy leaves the pointer set");
	}
	char f[64] = "";
	if (m.fired) snprintf(f, sizeof f, " (operation %d '%c' failed%s)", fault, m.fired_op, persist ? ", and all later ones" : "");
	if (m.viol) violation("lifecycle", "%s %s: transport %s%s", bi ? "bi-directional" : "uni-directional", writer ? "writer" : "reader", m.viol, f);
	if (m.is_open) violation("left-open", "%s %s: transport still open after destroy%s", bi ? "bi-directional" : "uni-directional", writer ? "writer" : "reader", f);
	if (destroy && m.ndestroy != 1) violation("destroy-count", "transport destroyed %u times", m.ndestroy);
	if (nops_out) *nops_out = m.opno;
	mt_free(&m);
}
static void case_p08(void)
{
	if (chance(1, 3)) {		/* built-in file transport: descriptors */
		int before = count_fds();
		char *path = scratch_file("p08.fstrm");
		ctset s;
		bb b = {0};
		ct_gen(&s, 2);
		char what[64];
		int k = rnd(9);
		snprintf(what, sizeof what, "scenario %d", k);
		if (k < 6) {
			if (s.n && chance(1, 2)) ref_ctl1(&b, T_START, (rbuf){ (const uint8_t *)"other type", 10 }); else if (s.n) ref_ctl1(&b, T_START, ct_at(&s, 0)); else ref_ctl(&b, T_START);
			int n = rnd(5);
			for (int i = 0; i < n; i++) {
				if (k == 1 && chance(1, 3)) gen_bad_ctl(&b);
				if (k == 2 && chance(1, 3)) { bb_be32(&b, 0x00ffffff); bb_add(&b, "x", 1); }
				ref_data(&b, "frame", 5);
			}
			if (chance(1, 2)) ref_ctl(&b, T_STOP);
			if (k == 3 && b.n) b.n = rnd(b.n);
			if (k == 4 && b.n) b.p[rnd(b.n)] ^= 1u << rnd(8);
			write_file(path, &b);
			const char *p = k == 5 ? (chance(1, 2) ? "/nonexistent/dir/file" : h_scratch) : path;
			struct fstrm_reader *r = file_reader(p, &s, 0);
			int ops = rnd(10);
			const struct fstrm_control *c;
			const uint8_t *d; size_t n2;
			for (int i = 0; i < ops; i++) switch (rnd(6)) {
				case 0: fstrm_reader_open(r); break;
				case 1: fstrm_reader_close(r); break;
				case 2: (void)fstrm_reader_get_control(r, (fstrm_control_type)rrange(1, 5), &c); break;
				default: fstrm_reader_read(r, &d, &n2); break;
			}
			fstrm_reader_destroy(&r);
		} else {
			const char *p = k == 6 ? path : k == 7 ? "/dev/full" : "/nonexistent/dir/file";
			struct fstrm_writer *w = file_writer(p, &s);
			int ops = rnd(10);
			struct fstrm_control *c;
			uint8_t *big = calloc(1, 70000);
			for (int i = 0; i < ops; i++) switch (rnd(6)) {
				case 0: fstrm_writer_open(w); break;
				case 1: fstrm_writer_close(w); break;
				case 2: (void)fstrm_writer_get_control(w, (fstrm_control_type)rrange(1, 5), &c); break;
				default: fstrm_writer_write(w, big, chance(1, 2) ? 70000 : 10); break;
			}
			free(big);
			fstrm_writer_destroy(&w);
		}
		int after = count_fds();
		if (after != before) violation("fd-leak", "file %s, %s: %d descriptors before, %d after destroy", k < 6 ? "reader" : "writer", what, before, after);
		COUNT("file-histories");
		distinct(h_mix(rnd64()));
		bb_free(&b); ct_free(&s);
		return;
	}
	static uint8_t ops[2000];
	bool lng = chance(1, 600);	/* more connections than 8 bits count */
	int nops = lng ? rrange(1400, 2000) : rrange(2, 14);
	for (int i = 0; i < nops; i++) ops[i] = rnd(256);
	bool writer = chance(1, 2), bi = chance(1, 2), well = chance(3, 4);
	ctset s;
	bb rx = {0};
	ct_gen(&s, 2);
	if (!writer) {
		rframe f;
		if (bi) { frame_of(&f, T_READY, &s); ref_enc(&rx, &f); }
		if (s.n) ref_ctl1(&rx, T_START, ct_at(&s, 0)); else ref_ctl(&rx, T_START);
		int n = rnd(4);
		for (int i = 0; i < n; i++) {
			if (!well && chance(1, 3)) gen_bad_ctl(&rx);
			if (!well && chance(1, 3)) { bb_be32(&rx, 0x7fffffff); }
			ref_data(&rx, "some frame", 10);
		}
		if (chance(2, 3)) ref_ctl(&rx, T_STOP);
		if (!well && chance(1, 2)) rx.n = rnd(rx.n);
	}
	unsigned n = 0;
	uint64_t rs0 = h_rs[0], rs1 = h_rs[1];
	p08_run(ops, nops, writer, bi, &s, &rx, -1, false, false, &n, well);
	if (lng) {
		COUNT("long-histories");
		/* destroyed while open on connection N, for the N at which a small counter comes round */
		static uint8_t cyc[2 * 516];
		cyc[0] = ops[0] & ~2;
		for (int i = 1; i < (int)sizeof cyc; i++) cyc[i] = i & 1 ? (i > 1 && ops[i] % 5 == 0 && writer ? 1 : 0) : 5;
		for (int k = 1; k <= 2; k++)
			for (int N = 256 * k - 2; N <= 256 * k + 2; N++) {
				h_rs[0] = rs0; h_rs[1] = rs1;
				p08_run(cyc, 2 * N, writer, bi, &s, &rx, -1, false, false, NULL, true);
				COUNT("destroyed-on-exact-connection");
			}
	}
	for (unsigned f = lng ? rnd(n / 3 + 1) : 0; f < n && (lng || f < 80); f += lng ? rrange(1, n / 3 + 1) : 1)
		for (int persist = 0; persist < 2; persist++) {
			h_rs[0] = rs0; h_rs[1] = rs1;
			p08_run(ops, nops, writer, bi, &s, &rx, f, persist, f & 1, NULL, well);
			COUNT("fault-points");
		}
	COUNT("histories");
	if (n) distinct(h_fnv(h_fnv(FNV0, ops, nops), rx.p, rx.n) ^ writer * 3 ^ bi * 5);
	if (n > 6) sample("%s %s, %d API operations, %u transport operations, each failed once and persistently", bi ? "bi" : "uni", writer ? "writer" : "reader", nops - 1, n);
	bb_free(&rx); ct_free(&s);
}

/* ------------------------------- P09 ------------------------------- */
static void case_p09(void)
{
	if (chance(1, LONG_ONE_IN)) { case_long(); return; }
	ctset s;
	ct_gen(&s, 2);
	wl_gen(chance(1, 4) ? 70000 : 500, 150000);
	int kind = rnd(4);
	bb e = {0}, got = {0};
	char *path = scratch_file("p09.fstrm");
	bool bi = kind == 1, all_ok = true;
	const char *how = "";
	bool faulted = false, failed_write = false, was_open = false;
	mt m;
	mt_init(&m);
	struct fstrm_writer *w;
	wl_expect(&e, &s, bi, &(ctset){0});
	struct rlimit old = {0}, lim = {0};
	if (kind <= 1) {
		if (bi) { ref_ctl(&m.script[0], T_ACCEPT); ref_ctl(&m.script[1], T_FINISH); m.nscript = 2; }
		m.fault_at = rnd(wl.ncalls + 6);
		m.fault_persist = chance(1, 3);
		m.fault_partial = chance(1, 2);
		w = mt_writer(&m, &s, bi);
		how = "a failing transport operation";
	} else if (kind == 2) {
		w = file_writer("/dev/full", &s);
		how = "a full device";
	} else {
		w = file_writer(path, &s);
		getrlimit(RLIMIT_FSIZE, &old);
		lim = old;
		lim.rlim_cur = chance(1, 3) ? e.n + rnd(3) - 1 : rnd(e.n + 20);
		signal(SIGXFSZ, SIG_IGN);
		setrlimit(RLIMIT_FSIZE, &lim);
		how = "a file size limit";
	}
	if (chance(1, 2) || wl.ncalls == 0) { if (fstrm_writer_open(w) != fstrm_res_success) all_ok = false; else was_open = true; }
	int later = 0;
	for (int c = 0; c < wl.ncalls; c++) {
		fstrm_res r = wl_call(w, c);
		if (r != fstrm_res_success) { all_ok = false; if (!failed_write) { failed_write = true; faulted = true; } }
		else was_open = true;
		if (r != fstrm_res_success || !failed_write) ;
		else if (kind != 1 && kind != 0) later++;
		else if (m.nopen == 1) later++;
	}
	fstrm_res r = chance(1, 2) ? fstrm_writer_close(w) : fstrm_writer_destroy(&w);
	if (r != fstrm_res_success) all_ok = false;
	if (w && was_open && fstrm_writer_write(w, "late", 4) == fstrm_res_success) violation("write-after-close", "write after close claims success");
	if (w) fstrm_writer_destroy(&w);
	if (kind == 3) setrlimit(RLIMIT_FSIZE, &old);
	if (later) violation("write-after-failure", "%d write calls claim success after an earlier write failed (%s)", later, how);
	if (kind <= 1) { bb_add(&got, m.tx.p, m.tx.n); if (m.fired) faulted = true; }
	if (kind == 2) { faulted = true; if (all_ok) violation("loss-unreported", "all calls succeeded writing to a full device (%zu bytes)", e.n); }
	else {
		if (kind == 3) read_file(path, &got);
		bool complete = got.n == e.n && !memcmp(got.p, e.p, e.n);
		if (all_ok && !complete) violation("loss-unreported", "all calls succeeded but %zu of %zu bytes reached the destination (%s)", got.n, e.n, how);
		if (kind <= 1 && all_ok && m.fired && m.fired_op != 'd') violation("fault-unreported", "all calls succeeded although transport operation '%c' failed", m.fired_op);
		if (!all_ok && complete && kind == 3 && lim.rlim_cur > e.n) violation("spurious-failure", "a call failed although nothing went wrong");
		if (!all_ok && kind <= 1 && !m.fired) violation("spurious-failure", "a call failed although no transport operation failed");
	}
	COUNT(all_ok ? "runs-all-success" : "runs-with-reported-failure");
	if (faulted || !all_ok) distinct(wl_hash() ^ kind ^ (uint64_t)(kind <= 1 ? m.fault_at : (int)lim.rlim_cur) << 32);
	if (!all_ok) sample("%s: %d frames in %d calls, stream %zu bytes, %zu arrived, failure reported", how, wl.n, wl.ncalls, e.n, got.n);
	bb_free(&e); bb_free(&got); mt_free(&m); ct_free(&s);
}

/* ------------------------------- P18 ------------------------------- */
/* API abuse within the documented contract: option objects, empty strings,
 * reset/destroy of fresh and used objects, operations in any order. */
static void case_misc(void)
{
	struct fstrm_control *c = fstrm_control_init();
	fstrm_control_type t;
	size_t n;
	const uint8_t *p;
	for (int i = rnd(12); i > 0; i--) switch (rnd(8)) {
	case 0: fstrm_control_set_type(c, (fstrm_control_type)rnd(8)); break;
	case 1: (void)fstrm_control_get_type(c, &t); break;
	case 2: { ctset s = {0}; ct_gen_one(&s); fstrm_control_add_field_content_type(c, s.buf[0], s.len[0]); ct_free(&s); break; }
	case 3: (void)fstrm_control_get_num_field_content_type(c, &n); break;
	case 4: if (fstrm_control_get_field_content_type(c, rnd(4), &p, &n) == fstrm_res_success && n) { volatile uint8_t x = p[n - 1]; (void)x; } break;
	case 5: fstrm_control_reset(c); break;
	case 6: { uint8_t *b = malloc(64); for (int j = 0; j < 64; j++) b[j] = chance(2, 3) ? 0 : rnd(6); (void)fstrm_control_decode(c, b, rnd(65), rnd(2)); free(b); break; }
	case 7: { size_t l = rnd(600); uint8_t *b = malloc(l ? l : 1); (void)fstrm_control_encode(c, b, &l, rnd(2)); free(b); break; }
	}
	(void)fstrm_control_type_to_str((fstrm_control_type)rnd(9));
	(void)fstrm_control_field_type_to_str((fstrm_control_field)rnd(4));
	fstrm_control_destroy(&c);
	fstrm_control_destroy(&c);
	/* options */
	struct fstrm_file_options *fo = fstrm_file_options_init();
	for (int i = rnd(3); i > 0; i--) fstrm_file_options_set_file_path(fo, chance(1, 4) ? NULL : "/nonexistent/x");
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	struct fstrm_reader_options *ro = fstrm_reader_options_init();
	for (int i = rnd(4); i > 0; i--) {
		uint8_t *b = calloc(1, 300);
		size_t l = chance(1, 3) ? 254 + rnd(6) : rnd(20);
		fstrm_res a = fstrm_writer_options_add_content_type(wo, b, l), r = fstrm_reader_options_add_content_type(ro, b, l);
		if ((a == fstrm_res_success) != (l <= 256) || (r == fstrm_res_success) != (l <= 256)) violation("ctype-limit", "content type of %zu bytes: writer %d reader %d", l, a, r);
		free(b);
	}
	size_t ms[] = { 0, 1, 511, 512, 513, 1 << 20, 0xfffffffe, 0xffffffff, (size_t)-1 };
	(void)fstrm_reader_options_set_max_frame_size(ro, ms[rnd(9)]);
	if (chance(1, 2)) {
		struct fstrm_writer *w = fstrm_file_writer_init(fo, chance(1, 2) ? wo : NULL);
		struct fstrm_reader *r = fstrm_file_reader_init(fo, chance(1, 2) ? ro : NULL);
		const uint8_t *d;
		if (w) { if (chance(1, 2)) fstrm_writer_write(w, "x", 1); fstrm_writer_close(w); }
		if (r) { if (chance(1, 2)) fstrm_reader_read(r, &d, &n); fstrm_reader_close(r); }
		fstrm_writer_destroy(&w); fstrm_reader_destroy(&r);
		fstrm_writer_destroy(&w); fstrm_reader_destroy(&r);
	} else {
		mt m;
		mt_init(&m);
		struct fstrm_rdwr *rd = mt_rdwr(&m, chance(1, 2), chance(1, 2), true);
		uint8_t b[8];
		struct iovec v = { b, 8 };
		memset(b, 1, 8);
		if (chance(1, 2)) { (void)fstrm_rdwr_open(rd); (void)fstrm_rdwr_read(rd, b, 8); (void)fstrm_rdwr_write(rd, &v, 1); if (chance(1, 2)) (void)fstrm_rdwr_close(rd); }
		struct fstrm_rdwr *r2 = NULL;
		(void)fstrm_rdwr_destroy(&r2);
		(void)fstrm_rdwr_destroy(&rd);
		if (m.ndestroy != 1) violation("destroy-count", "transport destroyed %u times", m.ndestroy);
		mt_free(&m);
	}
	fstrm_file_options_destroy(&fo); fstrm_writer_options_destroy(&wo); fstrm_reader_options_destroy(&ro);
	fstrm_file_options_destroy(&fo); fstrm_writer_options_destroy(&wo); fstrm_reader_options_destroy(&ro);
	struct fstrm_unix_writer_options *uo = fstrm_unix_writer_options_init();
	for (int i = rnd(3); i > 0; i--) {
		char path[200];
		size_t l = chance(1, 2) ? 100 + rnd(20) : rnd(20);
		memset(path, 'z', l); path[l] = 0; if (l) path[0] = '/';
		fstrm_unix_writer_options_set_socket_path(uo, chance(1, 5) ? NULL : path);
	}
	struct fstrm_writer *w = fstrm_unix_writer_init(uo, NULL);
	if (w && chance(1, 2)) (void)fstrm_writer_open(w);
	fstrm_writer_destroy(&w);
	fstrm_unix_writer_options_destroy(&uo);
	struct fstrm_tcp_writer_options *to = fstrm_tcp_writer_options_init();
	static const char *ad[] = { "127.0.0.1", "::1", "bogus", "", "1.2.3.4.5", "127.0.0.1 " }, *po[] = { "1", "0", "65535", "65536", "x", "", "99999999999999999999", "-1", "0x10" };
	for (int i = rnd(4); i > 0; i--) { fstrm_tcp_writer_options_set_socket_address(to, ad[rnd(6)]); fstrm_tcp_writer_options_set_socket_port(to, po[rnd(9)]); }
	w = fstrm_tcp_writer_init(to, NULL);
	fstrm_writer_destroy(&w);
	fstrm_tcp_writer_options_destroy(&to);
	distinct(rnd64());
	COUNT("misc");
}

static bool h_leak_mode(const char *mode) { return !strcmp(mode, "P18"); }
/* ------------------------------- P30 ------------------------------- */
static const char *type_name(uint32_t t)
{
	static const char *n[] = { "UNKNOWN", "ACCEPT", "START", "STOP", "READY", "FINISH" };
	return n[t >= 1 && t <= 5 ? t : 0];
}
static struct p30m { uint32_t type; int n; uint8_t *p[160]; size_t l[160]; } CM;
static void cm_clear(void) { for (int i = 0; i < CM.n; i++) free(CM.p[i]); CM.n = 0; CM.type = 0; }
static void cm_add(const void *p, size_t n) { CM.p[CM.n] = malloc(n ? n : 1); if (n) memcpy(CM.p[CM.n], p, n); CM.l[CM.n++] = n; }
static int cm_num(void) { return CM.type == T_STOP || CM.type == T_FINISH ? 0 : CM.type == T_START && CM.n > 1 ? 1 : CM.n; }
static void cm_check(struct fstrm_control *c, const char *after)
{
	fstrm_control_type t = 99;
	fstrm_res r = fstrm_control_get_type(c, &t);
	if (r == fstrm_res_success ? t != CM.type : CM.type != 0) violation("type", "after %s: get_type gives %d (%d), the type is %u", after, r, t, CM.type);
	if (!CM.type && r == fstrm_res_success) violation("type", "after %s: a frame without a type has type %d", after, t);
	size_t n = 999;
	if (fstrm_control_get_num_field_content_type(c, &n) != fstrm_res_success || n != (size_t)cm_num()) violation("count", "after %s: %zu content types reported, there are %d", after, n, cm_num());
	for (int i = 0; i < CM.n + 2; i++) {
		const uint8_t *p = NULL;
		size_t l = 0;
		int idx = i < CM.n ? i : i == CM.n ? CM.n : CM.n + (int)rnd(1000);
		if (idx >= cm_num() && idx < CM.n) continue;	/* hidden by the type: not specified */
		r = fstrm_control_get_field_content_type(c, idx, &p, &l);
		if ((r == fstrm_res_success) != (idx < cm_num())) violation("field", "after %s: content type %d of %d: result %d", after, idx, CM.n, r);
		else if (r == fstrm_res_success && (l != CM.l[idx] || (l && memcmp(p, CM.p[idx], l)))) violation("field", "after %s: content type %d differs (%zu bytes, %zu added)", after, idx, l, CM.l[idx]);
	}
	COUNT("states-checked");
}
static void p30_control(uint64_t *hh)
{
	struct fstrm_control *c = fstrm_control_init();
	int ops = rrange(3, 25);
	cm_clear();
	cm_check(c, "init");
	for (int k = 0; k < ops; k++) {
		const char *what = "?";
		int op = rnd(12);
		*hh = h_fnv(*hh, &op, 1);
		switch (op) {
		case 0: case 1: {
			uint32_t t = chance(3, 4) ? rrange(1, 5) : chance(1, 2) ? 0 : (uint32_t)rrange(6, 300);
			bool ok = fstrm_control_set_type(c, (fstrm_control_type)t) == fstrm_res_success;
			if (ok != (t >= 1 && t <= 5)) violation("set-type", "setting type %u: %s", t, ok ? "succeeds" : "fails");
			if (t >= 1 && t <= 5) CM.type = t;
			what = "set_type";
			break; }
		case 2: case 3: case 4: case 5: {
			if (CM.n > 150) break;
			size_t l = chance(1, 4) ? rrange(250, 262) : chance(1, 12) ? rrange(257, 3000) : chance(1, 6) ? 0 : rrange(1, 40);
			uint8_t *t = malloc(l ? l : 1);
			for (size_t i = 0; i < l; i++) t[i] = chance(1, 3) ? 0 : rnd(256);
			bool ok = fstrm_control_add_field_content_type(c, t, l) == fstrm_res_success;
			if (ok != (l <= REF_CT_MAX)) violation("add", "adding a content type of %zu bytes: %s", l, ok ? "succeeds" : "fails");
			if (l <= REF_CT_MAX) cm_add(t, l); else COUNT("overlong-refused");
			memset(t, 0xdb, l);
			free(t);
			what = "add_field_content_type";
			break; }
		case 6: fstrm_control_reset(c); cm_clear(); what = "reset"; break;
		case 7: case 8: {	/* decode replaces everything */
			rframe f;
			ctset s;
			bb b = { 0 };
			gen_rframe(&f, &s, true);
			if (f.type == T_START && f.nct > 1) f.nct = 1;
			if (f.type == T_STOP || f.type == T_FINISH) f.nct = 0;
			bool hdr = chance(1, 2);
			if (hdr) ref_enc(&b, &f); else ref_enc_payload(&b, &f);
			rframe g;
			if (ref_dec(b.p + (hdr ? 8 : 0), b.n - (hdr ? 8 : 0), &g) == RD_OK) {
				uint8_t *t = malloc(b.n);
				memcpy(t, b.p, b.n);
				bool ok = fstrm_control_decode(c, t, b.n, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0) == fstrm_res_success;
				memset(t, 0xdb, b.n);
				free(t);
				if (!ok) { violation("decode", "a valid %s frame cannot be decoded", type_name(f.type)); fstrm_control_reset(c); cm_clear(); }
				else { cm_clear(); CM.type = f.type; for (int i = 0; i < f.nct; i++) cm_add(f.ct[i].p, f.ct[i].n); COUNT("decodes"); }
			}
			bb_free(&b);
			ct_free(&s);
			what = "decode";
			break; }
		case 9: {	/* a failing decode leaves no particular state */
			uint8_t *t = calloc(1, 40);
			size_t l = rnd(4);
			if (fstrm_control_decode(c, t, l, 0) == fstrm_res_success) violation("decode", "%zu bytes decoded", l);
			free(t);
			fstrm_control_reset(c); cm_clear();
			what = "reset after a failed decode";
			break; }
		case 10: {
			int i = CM.n ? (int)rnd(CM.n) : -1;
			uint8_t *t = malloc(300);
			size_t l = i >= 0 ? CM.l[i] : 3;
			if (i >= 0) memcpy(t, CM.p[i], l); else memset(t, 'x', 3);
			if (l && chance(1, 3)) t[rnd(l)] ^= 1;
			else if (l && chance(1, 4)) l--;
			bool want = CM.type != T_STOP && CM.type != T_FINISH && !cm_num();
			for (int j = 0; j < cm_num(); j++) if (CM.l[j] == l && (!l || !memcmp(CM.p[j], t, l))) want = true;
			bool got = fstrm_control_match_field_content_type(c, t, l) == fstrm_res_success;
			if (got != want) violation("match", "matching %zu bytes against a %s frame with %d content types: %d", l, type_name(CM.type), cm_num(), got);
			free(t);
			what = "match";
			break; }
		default: {
			uint32_t t = chance(3, 4) ? rrange(1, 5) : chance(1, 2) ? 0 : (uint32_t)rrange(6, 300);
			char w[64];
			sprintf(w, "FSTRM_CONTROL_%s", type_name(t));
			const char *got = fstrm_control_type_to_str((fstrm_control_type)t);
			if (!got || strcmp(got, w)) violation("name", "type %u is named '%s'", t, got ? got : "(null)");
			t = rnd(4);
			got = fstrm_control_field_type_to_str((fstrm_control_field)t);
			if (!got || strcmp(got, t == 1 ? "FSTRM_CONTROL_FIELD_CONTENT_TYPE" : "FSTRM_CONTROL_FIELD_UNKNOWN")) violation("name", "field type %u is named '%s'", t, got ? got : "(null)");
			what = "names";
			}
		}
		cm_check(c, what);
	}
	fstrm_control_destroy(&c);
	if (c) violation("not-cleared", "destroying a control object leaves the pointer");
	fstrm_control_destroy(&c);
	cm_clear();
	COUNT("control-histories");
}
static struct { void *obj; int n[5]; void *data; size_t cnt; const struct iovec *iov; int iovcnt; fstrm_res res; } RW;
static fstrm_res rw_call(void *o, int k) { if (o != RW.obj) violation("rdwr-object", "a method is called with another object"); RW.n[k]++; return RW.res; }
static fstrm_res rw_open(void *o) { return rw_call(o, 0); }
static fstrm_res rw_close(void *o) { return rw_call(o, 1); }
static fstrm_res rw_read(void *o, void *d, size_t n) { if (d != RW.data || n != RW.cnt) violation("rdwr-args", "read is passed other arguments"); return rw_call(o, 2); }
static fstrm_res rw_write(void *o, const struct iovec *v, int n) { if (v != RW.iov || n != RW.iovcnt) violation("rdwr-args", "write is passed other arguments"); return rw_call(o, 3); }
static fstrm_res rw_destroy(void *o) { return rw_call(o, 4); }
static void p30_rdwr(uint64_t *hh)
{
	static int objs[4];
	int have = rnd(32), state = 0;	/* methods present; state 1: open */
	memset(&RW, 0, sizeof RW);
	RW.obj = chance(1, 8) ? NULL : &objs[rnd(4)];
	struct fstrm_rdwr *r = fstrm_rdwr_init(RW.obj);
	if (have & 1) fstrm_rdwr_set_open(r, rw_open);
	if (have & 2) fstrm_rdwr_set_close(r, rw_close);
	if (have & 4) fstrm_rdwr_set_read(r, rw_read);
	if (have & 8) fstrm_rdwr_set_write(r, rw_write);
	if (have & 16) fstrm_rdwr_set_destroy(r, rw_destroy);
	*hh = h_fnv(*hh, &have, 1);
	/* without the method they need, no reader and no writer, and the object stays the caller's */
	if (!(have & 4)) {
		struct fstrm_reader *x = fstrm_reader_init(NULL, &r);
		if (x) { violation("no-method", "a reader is made without a read method"); return; }
		if (!r) { violation("taken", "a failed fstrm_reader_init takes the object"); return; }
		COUNT("init-refused");
	}
	if (!(have & 8)) {
		struct fstrm_writer *x = fstrm_writer_init(NULL, &r);
		if (x) { violation("no-method", "a writer is made without a write method"); return; }
		if (!r) { violation("taken", "a failed fstrm_writer_init takes the object"); return; }
		COUNT("init-refused");
	}
	for (int k = rrange(1, 10); k; k--) {
		static const fstrm_res some[] = { fstrm_res_success, fstrm_res_success, fstrm_res_success, fstrm_res_failure, fstrm_res_stop };
		uint8_t buf[64];
		struct iovec v[3] = { { buf, 1 }, { buf + 1, 2 }, { buf + 3, 3 } };
		int before[5];
		memcpy(before, RW.n, sizeof before);
		int op = rnd(4);
		fstrm_res got;
		RW.res = some[rnd(op == 2 ? 5 : 4)];
		RW.data = buf; RW.cnt = rrange(1, 64); RW.iov = v; RW.iovcnt = rrange(1, 3);
		bool has = have >> op & 1;
		*hh = h_fnv(*hh, &op, 1) * 3 + RW.res;
		switch (op) {
		case 0: if (state) continue; got = fstrm_rdwr_open(r); break;
		case 1: got = fstrm_rdwr_close(r); break;
		case 2: got = fstrm_rdwr_read(r, buf, RW.cnt); break;
		default: got = fstrm_rdwr_write(r, v, RW.iovcnt);
		}
		bool called = has && (op == 0 || state);
		if ((RW.n[op] != before[op]) != called || RW.n[op] > before[op] + 1) violation("rdwr-call", "method %d called %d times (present: %d, stream open: %d)", op, RW.n[op] - before[op], has, state);
		if (called && got != RW.res) violation("rdwr-result", "method %d returned %d, the caller got %d", op, RW.res, got);
		if (!called && op != 1 && got == fstrm_res_success) violation("rdwr-result", "operation %d succeeds although the stream is %s%s", op, state ? "open" : "not open", has ? "" : " and there is no such method");
		if (!has && got == fstrm_res_success) violation("rdwr-result", "operation %d succeeds without a method", op);
		if (called && op >= 2 && RW.res != fstrm_res_success && (have & 2) && RW.n[1] != before[1] + 1) violation("rdwr-close", "a failing %s does not close the stream", op == 2 ? "read" : "write");
		for (int i = 0; i < 5; i++) if (i != op && !(i == 1 && op >= 2) && RW.n[i] != before[i]) violation("rdwr-call", "operation %d calls method %d", op, i);
		if (called && op == 0 && got == fstrm_res_success) state = 1;
		if (called && (op == 1 || (op >= 2 && RW.res != fstrm_res_success && (have & 2)))) state = 0;
		COUNT("rdwr-calls");
		if (!(have & 2) && called && op >= 2 && RW.res != fstrm_res_success) break;	/* cannot be closed: no particular state */
	}
	/* hand it over, or destroy it */
	RW.res = fstrm_res_success;
	int hand = rnd(3);
	if (hand == 1 && (have & 4) && !state) {
		struct fstrm_reader *x = fstrm_reader_init(NULL, &r);
		if (!x) violation("refused", "no reader although there is a read method");
		else { if (r) violation("not-cleared", "fstrm_reader_init leaves the pointer to the object it took"); fstrm_reader_destroy(&x); if (x) violation("not-cleared", "destroying a reader leaves the pointer"); fstrm_reader_destroy(&x); r = NULL; }
	} else if (hand == 2 && (have & 8) && !state) {
		struct fstrm_writer *x = fstrm_writer_init(NULL, &r);
		if (!x) violation("refused", "no writer although there is a write method");
		else { if (r) violation("not-cleared", "fstrm_writer_init leaves the pointer to the object it took"); fstrm_writer_destroy(&x); if (x) violation("not-cleared", "destroying a writer leaves the pointer"); fstrm_writer_destroy(&x); r = NULL; }
	}
	if (r) {
		RW.res = chance(1, 2) ? fstrm_res_success : fstrm_res_failure;
		fstrm_res got = fstrm_rdwr_destroy(&r);
		if (got != ((have & 16) ? RW.res : fstrm_res_success)) violation("rdwr-result", "destroy: method gave %d, the caller got %d", RW.res, got);
		if (r) violation("not-cleared", "destroying an rdwr object leaves the pointer");
		fstrm_rdwr_destroy(&r);
	}
	if (RW.n[4] != !!(have & 16)) violation("rdwr-destroy", "the destroy method was called %d times", RW.n[4]);
	COUNT("rdwr-histories");
}
static void p30_options(uint64_t *hh)
{
	ctset s = { 0 };
	struct fstrm_reader_options *ro = fstrm_reader_options_init();
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	size_t max = 1048576;
	int n = rnd(4);
	for (int i = 0; i < n; i++) {
		if (chance(1, 3)) {	/* refused, and without effect */
			size_t l = chance(1, 2) ? 257 : rrange(257, 2000);
			uint8_t *t = malloc(l);
			memset(t, 'z', l);
			if (fstrm_writer_options_add_content_type(wo, t, l) == fstrm_res_success || fstrm_reader_options_add_content_type(ro, t, l) == fstrm_res_success) violation("long-type", "a content type of %zu bytes is accepted as an option", l);
			free(t);
			COUNT("overlong-refused");
		}
		uint8_t t[256];
		size_t l = i ? rrange(1, 30) : chance(1, 3) ? 256 : rrange(1, 200);
		for (size_t j = 0; j < l; j++) t[j] = rnd(256);
		ct_add(&s, t, l);
		uint8_t *h = malloc(l);
		memcpy(h, t, l);
		bool a = fstrm_writer_options_add_content_type(wo, h, l) == fstrm_res_success;
		bool b = fstrm_reader_options_add_content_type(ro, h, l) == fstrm_res_success;
		if (!a || !b) violation("type-refused", "a content type of %zu bytes is refused as an option", l);
		memset(h, 0xdb, l);	/* copies were made */
		free(h);
		*hh = h_fnv(*hh, t, l);
	}
	for (int k = rnd(4); k; k--) {
		static const uint64_t v[] = { 0, 1, 3, 511, 512, 513, 1000, 4096, 65535, 1048575, 1048576, 1048577, 1u << 24, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffffu, 0x100000000ull, 0x100000200ull, 0x1000000000ull, UINT64_MAX };
		uint64_t x = v[rnd(sizeof v / sizeof *v)];
		bool ok = fstrm_reader_options_set_max_frame_size(ro, x) == fstrm_res_success;
		if (ok && x > 0xffffffffu) violation("max-accepted", "a maximum frame size of %" PRIu64 " is accepted", x);
		if (!ok && x >= 512 && x <= 0xfffffffe) violation("max-refused", "a maximum frame size of %" PRIu64 " is refused", x);
		if (ok) max = x;
		COUNT(ok ? "max-sizes-accepted" : "max-sizes-refused");
	}
	/* two readers and a writer of the same options, which then change and go away */
	mt m[3];
	struct fstrm_reader *rd[2];
	struct fstrm_writer *w;
	struct fstrm_rdwr *x;
	bool dflt = chance(1, 6);	/* default options */
	for (int i = 0; i < 3; i++) mt_init(&m[i]);
	for (int i = 0; i < 2; i++) { x = mt_rdwr(&m[i], true, false, true); rd[i] = fstrm_reader_init(dflt ? NULL : ro, &x); }
	x = mt_rdwr(&m[2], false, true, true);
	w = fstrm_writer_init(dflt ? NULL : wo, &x);
	if (dflt) { max = 1048576; ct_free(&s); COUNT("default-options"); }
	if (chance(1, 2)) {
		fstrm_reader_options_add_content_type(ro, "later", 5);
		fstrm_writer_options_add_content_type(wo, "later", 5);
		fstrm_reader_options_set_max_frame_size(ro, max > 512 ? 512 : 4096);
		COUNT("options-changed");
	}
	fstrm_reader_options_destroy(&ro);
	fstrm_writer_options_destroy(&wo);
	if (ro || wo) violation("not-cleared", "destroying options leaves the pointer");
	fstrm_reader_options_destroy(&ro);
	fstrm_writer_options_destroy(&wo);
	/* the writer declares the first content type */
	if (fstrm_writer_open(w) != fstrm_res_success) violation("writer", "a writer on a willing transport cannot be opened");
	bb e = { 0 };
	if (s.n) ref_ctl1(&e, T_START, ct_at(&s, 0)); else ref_ctl(&e, T_START);
	if (m[2].tx.n != e.n || memcmp(m[2].tx.p, e.p, e.n)) violation("writer", "the stream does not start with the first content type of the options");
	bb_free(&e);
	fstrm_writer_destroy(&w);
	/* the readers accept what the options say, up to the maximum frame size */
	for (int i = 0; i < 2; i++) {
		int pick = rnd(3);	/* 0: one of ours, 1: "later", 2: none */
		rbuf ct = { (const uint8_t *)"later", 5 };
		if (pick == 0 && s.n) ct = ct_at(&s, rnd(s.n));
		if (pick == 2) ref_ctl(&m[i].rx, T_START); else ref_ctl1(&m[i].rx, T_START, ct);
		bool want = s.n == 0 || pick != 1;	/* no declared content type fits any reader */
		size_t n1 = max <= 70000 || (max == 1048576 && chance(1, 8)) ? max : max < 70000 ? rrange(1, max) : rrange(1, 70000);
		uint8_t *d = calloc(1, n1 + 1);
		memset(d, 'd', n1 + 1);
		if (n1) ref_data(&m[i].rx, d, n1);
		bool over = n1 == max;
		if (over) ref_data(&m[i].rx, d, n1 + 1);
		free(d);
		const uint8_t *g;
		size_t gl;
		bool ok = fstrm_reader_open(rd[i]) == fstrm_res_success;
		if (ok && !want) violation("reader", "a reader accepts a content type that is not among those of its options");
		if (!ok && want) violation("reader", "a reader refuses a content type of its options (%d)", pick);
		if (ok && want && n1) {
			if (fstrm_reader_read(rd[i], &g, &gl) != fstrm_res_success || gl != n1) violation("max-frame", "a frame of %zu bytes is refused, the maximum is %zu", n1, max);
			else if (over && fstrm_reader_read(rd[i], &g, &gl) == fstrm_res_success) violation("max-frame", "a frame of %zu bytes is delivered, the maximum is %zu", n1 + 1, max);
			COUNT("frames-at-limit");
		}
		fstrm_reader_destroy(&rd[i]);
	}
	for (int i = 0; i < 3; i++) mt_free(&m[i]);
	*hh = h_fnv(*hh, &max, sizeof max);
	ct_free(&s);
	COUNT("option-histories");
}
/* more content types than 8 or 16 bits count */
static void p30_many(uint64_t *hh)
{
	struct fstrm_control *c = fstrm_control_init();
	unsigned n = chance(1, 6) ? rrange(65540, 66000) : rrange(250, 3000), round = 0;
	uint32_t salt = rnd64();
	do {
		fstrm_control_set_type(c, FSTRM_CONTROL_READY);
		for (unsigned i = 0; i < n; i++) {
			uint32_t t[2] = { i, salt };
			if (fstrm_control_add_field_content_type(c, (uint8_t *)t, 5 + i % 4) != fstrm_res_success) { violation("add", "content type number %u is refused", i + 1); goto out; }
		}
		size_t k = 0;
		if (fstrm_control_get_num_field_content_type(c, &k) != fstrm_res_success || k != n) { violation("count", "%zu content types are reported, %u were added", k, n); goto out; }
		for (unsigned i = 0; i < n; i++) {
			uint32_t t[2] = { i, salt };
			const uint8_t *d; size_t l;
			if (fstrm_control_get_field_content_type(c, i, &d, &l) != fstrm_res_success || l != 5 + i % 4 || memcmp(d, t, l)) { violation("get", "content type number %u of %u is not the one added", i, n); goto out; }
		}
		const uint8_t *d; size_t l;
		if (fstrm_control_get_field_content_type(c, n, &d, &l) == fstrm_res_success) violation("get", "content type number %u of %u exists", n, n);
		for (int j = 0; j < 5; j++) {
			uint32_t t[2] = { j < 3 ? (uint32_t)rnd(n) : n + (uint32_t)rnd(100), salt };
			if ((fstrm_control_match_field_content_type(c, (uint8_t *)t, 5 + t[0] % 4) == fstrm_res_success) != (j < 3)) violation("match", "a type %s %u content types: wrong answer", j < 3 ? "among" : "not among", n);
		}
		fstrm_control_reset(c);
		/* a STOP frame carries none */
		fstrm_control_set_type(c, FSTRM_CONTROL_STOP);
		if (fstrm_control_match_field_content_type(c, (const uint8_t *)"x", 1) == fstrm_res_success) violation("match", "a STOP frame matches a content type after a reset");
		fstrm_control_reset(c);
		n = rrange(1, 300);
	} while (round++ < 1);
	*hh = h_fnv(*hh, (uint8_t *)&salt, 4);
	COUNT("hundreds-of-types");
out:
	fstrm_control_destroy(&c);
}
static void case_p30(void)
{
	uint64_t hh = FNV0;
	if (chance(1, 2000)) { p30_many(&hh); distinct(hh); return; }
	switch (rnd(4)) {
	case 0: case 1: p30_control(&hh); break;
	case 2: p30_rdwr(&hh); break;
	default: p30_options(&hh);
	}
	distinct(hh);
}
/* ------------------------------- P32 ------------------------------- */
#ifdef H_MEM
#include "memacct.h"
/* A history that repeats itself: what the library holds after a round must
 * not depend on how many rounds there were, and is bounded at any time. */
#define MEM_BASE 65536
static size_t mem_round[64], mem_rpeak[64], mem_wl, mem_wp;
static void mem_sample(unsigned i, unsigned period, size_t start, size_t bound, const char *what)
{
	size_t live = mw_live - start, peak = mw_peak - start;

	mw_peak = mw_live;
	if (peak > bound) violation("memory-bound", "%s holds up to %zu bytes, %zu allow for its configuration and largest frame", what, peak, bound);
	if (i == 0) mem_wl = mem_wp = 0;
	mem_round[i % period] = live; mem_rpeak[i % period] = peak;
	if (i < 3 * period) { if (live > mem_wl) mem_wl = live; if (peak > mem_wp) mem_wp = peak; return; }
	if (live > mem_wl + 256 || peak > mem_wp + 256)
		violation("memory-grows", "%s holds %zu bytes (up to %zu) after %u rounds of the same %u sessions, but no more than %zu (up to %zu) in the first %u", what, live, peak, i + 1, period, mem_wl, mem_wp, 3 * period);
}
static void mem_writer(void)
{
	typedef struct { int n, vec; size_t len; int fault, reply; bool partial, close2; } kind;
	kind k[6];
	unsigned period = rrange(1, 6), rounds = rrange(60, 400);
	mt m; ctset s, o;
	mt_init(&m);
	bool bi = chance(1, 2), file = !bi && chance(1, 8);
	ct_gen(&s, 4);
	ct_gen(&o, 6);
	size_t ctb = 0;
	for (int i = 0; i < s.n; i++) ctb += s.len[i] + 64;
	static uint8_t big[1 << 20];
	size_t total = 0;
	bb rep[6] = {{0}};
	for (unsigned i = 0; i < period; i++) {
		k[i] = (kind){ rrange(0, 6), chance(1, 3) ? rrange(1, 300) : 0, chance(1, 30) ? sizeof big : rrange(1, 400), chance(1, 3) ? rnd(16) : -1, rnd(8), chance(1, 2), chance(1, 4) };
		if (k[i].vec && k[i].len > 4000) k[i].vec = 0;
		total += (k[i].n + 1) * (k[i].vec + 1);
		rframe f;
		bb *rb = &rep[i];
		switch (k[i].reply) {
		case 0: frame_of(&f, T_ACCEPT, &o); ref_enc(rb, &f); break;
		case 1: gen_bad_ctl(rb); break;
		case 2: memset(&f, 0, sizeof f); f.type = T_ACCEPT; while (f.nct < 60) f.ct[f.nct++] = (rbuf){ (const uint8_t *)"", 0 }; ref_enc(rb, &f); break;
		case 3: ref_ctl(rb, T_READY); break;
		default: if (s.n) { frame_of(&f, T_ACCEPT, &s); ref_enc(rb, &f); } else ref_ctl(rb, T_ACCEPT);
		}
	}
	if (total > 200) rounds = rrange(40, 60);
	if (rounds < 4 * period) rounds = 4 * period;
	char *path = scratch_file("p32.fstrm");
	size_t start = mw_live;
	mw_peak = mw_live;
	struct fstrm_writer *w = file ? file_writer(path, &s) : mt_writer(&m, &s, bi);
	struct iovec iov[300];
	unsigned reached = 0;
	for (unsigned r = 0; r < rounds; r++) {
		kind *q = &k[r % period];
		if (bi) {
			bb_rst(&m.script[0]); bb_rst(&m.script[1]);
			bb_add(&m.script[0], rep[r % period].p, rep[r % period].n);
			ref_ctl(&m.script[1], q->reply == 4 ? T_STOP : T_FINISH);
			m.nscript = 2;
		}
		m.fired = false;
		m.fault_partial = q->partial;
		m.fault_at = q->fault < 0 ? -1 : (int)m.opno + q->fault;
		fstrm_res x = fstrm_writer_open(w);
		for (int i = 0; i < q->n && x == fstrm_res_success; i++) {
			if (q->vec) {
				for (int j = 0; j < q->vec; j++) iov[j] = (struct iovec){ big + j, 1 + (q->len + j) % 400 };
				x = fstrm_writer_writev(w, iov, q->vec);
			} else x = fstrm_writer_write(w, big, q->len);
		}
		if (x == fstrm_res_success) reached++;
		if (chance(15, 16)) fstrm_writer_close(w); else { fstrm_writer_close(w); fstrm_writer_close(w); }
		bb_rst(&m.tx);
		mem_sample(r, period, start, MEM_BASE + 8 * ctb, "a writer");
	}
	if (reached > 3) COUNT("writer-sessions");
	count_add("sessions", rounds);
	fstrm_writer_destroy(&w);
	if (mw_live != start) violation("memory-left", "destroying a writer leaves %zu bytes after %u sessions", mw_live - start, rounds);
	for (int i = 0; i < 6; i++) bb_free(&rep[i]);
	distinct(h_mix(total * 1000 + rounds) ^ h_mix(m.opno) ^ ctb << 20 ^ m.nopen);
	sample("%s writer, %u rounds of %u kinds of session (%zu writes each), %u opens, %u transport operations, peak %zu bytes", file ? "file" : bi ? "bidirectional" : "unidirectional", rounds, period, total, m.nopen, m.opno, mem_rpeak[0]);
	mt_free(&m); ct_free(&s); ct_free(&o);
}
static void mem_reader(void)
{
	static const size_t maxes[] = { 512, 600, 4096, 65536, 0, 16777216, UINT32_MAX - 1 };
	size_t max = maxes[rnd(7)], cap = max ? max : 1048576;
	unsigned period = rrange(1, 6), rounds = rrange(60, 400);
	mt m; ctset s;
	mt_init(&m);
	bool bi = chance(1, 2), file = !bi && chance(1, 8);
	ct_gen(&s, 4);
	size_t ctb = 0, largest = 0;
	for (int i = 0; i < s.n; i++) ctb += s.len[i] + 64;
	bb st[6] = {{0}};
	int fault[6];
	for (unsigned i = 0; i < period; i++) {
		bb *b = &st[i];
		rframe f;
		if (bi) { frame_of(&f, T_READY, &s); ref_enc(b, &f); }
		if (chance(1, 16)) gen_bad_ctl(b);
		if (s.n && chance(7, 8)) ref_ctl1(b, T_START, ct_at(&s, rnd(s.n))); else ref_ctl(b, T_START);
		for (unsigned n = rnd(chance(1, 8) ? 60 : 8); n > 0; n--) {
			static uint8_t t[300];
			switch (rnd(12)) {
			case 0: gen_unknown_ctl(b); break;
			case 1: if (chance(1, 3)) { bb_be32(b, cap + 1 + rnd(1000)); n = 1; COUNT("overlong-announced"); } break;
			case 2: if (chance(1, 3)) { size_t l = 1 + rnd(cap < (1u << 26) ? cap : (1u << 26)); bb_be32(b, l); bb_add(b, t, sizeof t); n = 1; COUNT("announced-only"); } break;
			case 3: if (chance(1, 3)) { bb_be32(b, 0); bb_be32(b, chance(1, 2) ? 513 + rnd(9) : (uint32_t)rnd64() | 1024); } break;
			default: { size_t l = 1 + rnd(300); ref_data(b, t, l); }
			}
		}
		if (chance(1, 2)) ref_ctl(b, T_STOP);
		fault[i] = chance(1, 4) ? rnd(20) : -1;
		/* the admissible lengths it announces, as any reader of this framing sees them */
		for (size_t q = 0; b->n - q >= 4;) {
			size_t l = get32(b->p + q);
			q += 4;
			if (l == 0) {
				if (b->n - q < 4 || (l = get32(b->p + q)) > REF_CTL_MAX) break;
				q += 4;
			} else if (l > cap) break;
			else if (l > largest) largest = l;
			if (l > b->n - q) break;
			q += l;
		}
	}
	if (rounds < 4 * period) rounds = 4 * period;
	char *path = scratch_file("p32r.fstrm");
	size_t start = mw_live;
	mw_peak = mw_live;
	struct fstrm_reader *r = file ? file_reader(path, &s, max) : mt_reader(&m, &s, bi, max);
	unsigned got = 0;
	for (unsigned i = 0; i < rounds; i++) {
		bb *b = &st[i % period];
		if (file) write_file(path, b);
		bb_rst(&m.rx); bb_add(&m.rx, b->p, b->n);
		m.fired = false;
		m.fault_at = fault[i % period] < 0 ? -1 : (int)m.opno + fault[i % period];
		const uint8_t *d; size_t n;
		const struct fstrm_control *c;
		if (fstrm_reader_open(r) == fstrm_res_success) {
			while (fstrm_reader_read(r, &d, &n) == fstrm_res_success) got++;
			fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c);
		}
		fstrm_reader_close(r);
		bb_rst(&m.tx);
		mem_sample(i, period, start, MEM_BASE + 8 * ctb + 4 * largest, "a reader");
	}
	if (got > 3) COUNT("reader-sessions");
	count_add("sessions", rounds);
	fstrm_reader_destroy(&r);
	if (mw_live != start) violation("memory-left", "destroying a reader leaves %zu bytes after %u sessions", mw_live - start, rounds);
	distinct(h_mix(got * 1000 + rounds) ^ h_mix(m.opno) ^ ctb << 20 ^ largest);
	sample("%s reader, maximum %zu, %u rounds of %u streams, largest admissible length %zu, %u frames delivered, peak %zu bytes", file ? "file" : bi ? "bidirectional" : "unidirectional", cap, rounds, period, largest, got, mem_rpeak[0]);
	for (int i = 0; i < 6; i++) bb_free(&st[i]);
	mt_free(&m); ct_free(&s);
}
static void mem_control(void)
{
	/* one object used again and again */
	unsigned period = rrange(1, 8), rounds = rrange(100, 600);
	bb fr[8] = {{0}};
	int op[8];
	for (unsigned i = 0; i < period; i++) {
		rframe f;
		ctset s = { .n = 0 };
		op[i] = rnd(5);
		if (chance(1, 3)) { bb t = {0}; gen_bad_ctl(&t); if (t.n > 8) bb_add(&fr[i], t.p + 8, t.n - 8); bb_free(&t); }
		else { bb t = {0}; gen_rframe(&f, &s, true); ref_enc(&t, &f); bb_add(&fr[i], t.p + 8, t.n - 8); bb_free(&t); }
		ct_free(&s);
	}
	size_t start = mw_live;
	mw_peak = mw_live;
	struct fstrm_control *c = fstrm_control_init();
	static uint8_t buf[1024];
	for (unsigned r = 0; r < rounds; r++) {
		bb *b = &fr[r % period];
		const uint8_t *p; size_t n, l;
		switch (op[r % period]) {
		case 0: fstrm_control_reset(c);
			fstrm_control_set_type(c, FSTRM_CONTROL_READY);
			for (int i = 0; i < 5; i++) fstrm_control_add_field_content_type(c, buf, 100 * i);
			l = sizeof buf; fstrm_control_encode(c, buf, &l, FSTRM_CONTROL_FLAG_WITH_HEADER);
			memset(buf, 0, sizeof buf);
			break;
		case 1: fstrm_control_reset(c);
			for (int i = 0; i < 40; i++) fstrm_control_add_field_content_type(c, (const uint8_t *)"abc", 3);
			fstrm_control_encoded_size(c, &l, 0);
			break;
		default:
			if (fstrm_control_decode(c, b->p, b->n, 0) == fstrm_res_success && fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success) {
				for (size_t i = 0; i < n; i++) { fstrm_control_get_field_content_type(c, i, &p, &l); fstrm_control_match_field_content_type(c, p, l); }
				fstrm_control_encoded_size(c, &l, 0);
			}
		}
		mem_sample(r, period, start, 16384, "a control frame object");
	}
	fstrm_control_destroy(&c);
	if (mw_live != start) violation("memory-left", "destroying a control frame object leaves %zu bytes after %u uses", mw_live - start, rounds);
	COUNT("control-objects");
	count_add("sessions", rounds);
	uint64_t h = FNV0;
	for (unsigned i = 0; i < period; i++) h = h_fnv(h_fnv(h, fr[i].p, fr[i].n), &op[i], sizeof op[i]);
	distinct(h);
	for (int i = 0; i < 8; i++) bb_free(&fr[i]);
}
static void case_p32(void)
{
	switch (rnd(5)) {
	case 0: mem_control(); break;
	case 1: case 2: mem_writer(); break;
	default: mem_reader(); break;
	}
	if (!mw_calls) { fprintf(stderr, "harness: the library's allocations are not seen\n"); _exit(99); }
	count_add("allocations", mw_calls);
	mw_calls = 0;
}
#endif

static void run_case(const char *mode)
{
	if (h_case == 11 && (!strcmp(mode, "P02") || !strcmp(mode, "P18"))) { case_giant(); return; }
	static void (*const fn[])(void) = { case_p01, case_p02, case_p03, case_p04, case_p05, case_p06, case_p07, case_p08, case_p09 };
	int n = atoi(mode + 1);
	if (n >= 1 && n <= 9) { fn[n - 1](); return; }
	if (n == 30) { case_p30(); return; }
#ifdef H_MEM
	if (n == 32) { case_p32(); return; }
#endif
	if (n == 18) {	/* all of the above; only sanitizer reports count (Python drops the rest) */
		int k = rnd(12);
		if (k < 9) fn[k](); else if (k == 11) case_p30(); else case_misc();
		static const char *nm[] = { "P01-workload", "P02-workload", "P03-workload", "P04-workload", "P05-workload", "P06-workload", "P07-workload", "P08-workload", "P09-workload" };
		if (k < 9) COUNT(nm[k]);
		return;
	}
	fprintf(stderr, "harness: unknown mode %s\n", mode);
	_exit(99);
}
int main(int argc, char **argv) { return h_main(argc, argv); }
