/* In-memory transport and helpers for the demonstrations. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <pthread.h>
#include <arpa/inet.h>
#include <sys/uio.h>
#include <fstrm.h>

#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d: %s: ", __FILE__, __LINE__, #c); fprintf(stderr, "" __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)

typedef struct mem {
	uint8_t *tx; size_t ntx;		/* what the library wrote on the current connection */
	const uint8_t *rx; size_t nrx, pos;	/* what the peer sends */
	bool is_open;
	unsigned nopen, nclose, ndestroy, nwrites, misuse;
	unsigned fail_write_at;			/* the write that fails (1: the first) */
	fstrm_res fail_as;
	bool fail_close, fail_open;
	pthread_mutex_t lock;
} mem;

static fstrm_res mem_open(void *o) { mem *m = o; m->nopen++; if (m->is_open) m->misuse++; if (m->fail_open) return fstrm_res_failure; m->is_open = true; m->ntx = 0; m->pos = 0; return fstrm_res_success; }
static fstrm_res mem_close(void *o) { mem *m = o; m->nclose++; if (!m->is_open) m->misuse++; m->is_open = false; return m->fail_close ? fstrm_res_failure : fstrm_res_success; }
static fstrm_res mem_destroy(void *o) { mem *m = o; m->ndestroy++; if (m->is_open) m->misuse++; return fstrm_res_success; }
static fstrm_res mem_read(void *o, void *p, size_t n)
{
	mem *m = o;
	if (!m->is_open) m->misuse++;
	if (m->nrx - m->pos < n) { m->pos = m->nrx; return fstrm_res_stop; }
	memcpy(p, m->rx + m->pos, n);
	m->pos += n;
	return fstrm_res_success;
}
static fstrm_res mem_write(void *o, const struct iovec *iov, int n)
{
	mem *m = o;
	if (!m->is_open) m->misuse++;
	if (++m->nwrites == m->fail_write_at) return m->fail_as;
	pthread_mutex_lock(&m->lock);
	for (int i = 0; i < n; i++) {
		m->tx = realloc(m->tx, m->ntx + iov[i].iov_len + 1);
		memcpy(m->tx + m->ntx, iov[i].iov_base, iov[i].iov_len);
		m->ntx += iov[i].iov_len;
	}
	pthread_mutex_unlock(&m->lock);
	return fstrm_res_success;
}
__attribute__((unused)) static struct fstrm_rdwr *mem_rdwr(mem *m, bool rd, bool wr)
{
	struct fstrm_rdwr *r = fstrm_rdwr_init(m);
	pthread_mutex_init(&m->lock, NULL);
	fstrm_rdwr_set_open(r, mem_open);
	fstrm_rdwr_set_close(r, mem_close);
	fstrm_rdwr_set_destroy(r, mem_destroy);
	if (rd) fstrm_rdwr_set_read(r, mem_read);
	if (wr) fstrm_rdwr_set_write(r, mem_write);
	return r;
}
/* a writer (bidi: the peer's bytes are m->rx) with the given NULL-terminated content types */
__attribute__((unused)) static struct fstrm_writer *mem_writer(mem *m, bool bidi, const char *const *types)
{
	struct fstrm_writer_options *o = fstrm_writer_options_init();
	for (; types && *types; types++) CHECK(fstrm_writer_options_add_content_type(o, *types, strlen(*types)) == fstrm_res_success);
	struct fstrm_rdwr *r = mem_rdwr(m, bidi, true);
	struct fstrm_writer *w = fstrm_writer_init(o, &r);
	fstrm_writer_options_destroy(&o);
	CHECK(w != NULL);
	return w;
}
__attribute__((unused)) static struct fstrm_reader *mem_reader(mem *m, bool bidi, const char *const *types)
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	for (; types && *types; types++) CHECK(fstrm_reader_options_add_content_type(o, *types, strlen(*types)) == fstrm_res_success);
	struct fstrm_rdwr *r = mem_rdwr(m, true, bidi);
	struct fstrm_reader *rd = fstrm_reader_init(o, &r);
	fstrm_reader_options_destroy(&o);
	CHECK(rd != NULL);
	return rd;
}
/* byte stream builder */
typedef struct bb { uint8_t p[1 << 16]; size_t n; } bb;
__attribute__((unused)) static void u32(bb *b, uint32_t v) { v = htonl(v); memcpy(b->p + b->n, &v, 4); b->n += 4; }
__attribute__((unused)) static void raw(bb *b, const void *p, size_t n) { memcpy(b->p + b->n, p, n); b->n += n; }
__attribute__((unused)) static void frame(bb *b, const void *p, size_t n) { u32(b, n); raw(b, p, n); }
/* control frame of the type with the NULL-terminated content types */
__attribute__((unused)) static void ctl(bb *b, uint32_t type, const char *const *types)
{
	uint32_t len = 4;
	for (const char *const *t = types; t && *t; t++) len += 8 + strlen(*t);
	u32(b, 0); u32(b, len); u32(b, type);
	for (; types && *types; types++) { u32(b, 1); frame(b, *types, strlen(*types)); }
}
__attribute__((unused)) static const char *const *T(const char *a, const char *b2, const char *c)
{
	static const char *v[8][4]; static int i;
	const char **r = v[i++ % 8];
	r[0] = a; r[1] = b2; r[2] = c; r[3] = NULL;
	return r;
}
__attribute__((unused)) static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
enum { C_ACCEPT = 1, C_START, C_STOP, C_READY, C_FINISH };
